"""C-series: matching of the SMEFT onto the WET."""
import cmath
import itertools
import json
import math
import random
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, tn, libmodel, smeft_rge, ref
from ..num import Poly
from ..tn import TN

F = Fraction
TREE = 'wilson/match/smeft_tree.py'
LOOP = 'wilson/match/smeft_loop.py'
PARS = ('alpha_s alpha_e m_b m_c m_s m_u m_d m_e m_mu m_tau m_t GF Vus Vub Vcb gamma m_W m_Z m_h').split()


class Matching:
    """the matching functions over the domain of flavour tensors"""

    def __init__(self, ctx):
        self.ctx = ctx
        it = self.it = base.make(REPO, mode='tn')
        self.roots = {}
        it.sign_of = self.sign_of
        it.models['math.sqrt'] = self.sqrt
        it.models['numpy.sqrt'] = self.sqrt
        it.models['ckmutil.ckm.ckm_tree'] = self.ckm
        self.ckm_args = []
        for m in ('smeft_tree', 'smeft_loop', 'smeft'):
            it.load_modes['wilson.match.' + m] = 'tn'
        it.load('wilson')

    def sqrt(self, it, a, k):
        v = norm(a[0])
        if isinstance(v, Poly) and (len(v.t) > 1 or any(x[0] == 's' for m in v.t for x, e in m)):
            for n, d in self.roots.items():
                if d == v:
                    return Poly.atom(('r', n))
            n = '√%d' % len(self.roots)
            self.roots[n] = v
            return Poly.atom(('r', n))
        return libmodel.s_sqrt(it, v)

    def sign_of(self, v):
        """GF with corrections of dimension six is a positive number"""
        return 1 if isinstance(v, Poly) and v.t.get(((('r', 'GF'), F(1)),), (0, 1)) == (1, 0) else None

    def ckm(self, it, a, k):
        d = dict(zip(('Vus', 'Vub', 'Vcb', 'gamma'), a))
        d.update({'gamma' if x == 'delta' else x: v for x, v in k.items()})
        key = tuple(str(Poly.lift(norm(d.get(n, 0)))) for n in ('Vus', 'Vub', 'Vcb', 'gamma'))
        self.ckm_args.append(key)
        return TN.sym('V', 2) if key == ('Vus', 'Vub', 'Vcb', 'gamma') else TN.sym('V?', 2)

    def inputs(self):
        d = {}
        for k, (f, c) in spec.SMEFT.items():
            d[k] = Poly.real(k) if not f else TN.sym(k, len(f))
        D = ADict(d)
        D.enum = True
        return D

    def params(self):
        return ADict({k: Poly.real(k) for k in PARS})

    def call(self, mod, *args, **kw):
        r = self.it.call(self.it.get('wilson.match.%s.match_all_array' % mod), list(args), kw)
        out = {}
        for k, v in r.d.items():
            t = v if isinstance(v, TN) else self.it.to_tn(v)
            if t is None:
                raise NoAnswer('%s: %s is %r' % (mod, k, v))
            out[k] = t
        return out


# ---------------------------------------------------------------- dual numbers
class D:
    """value and derivatives with respect to the strength of every operator"""
    __slots__ = ('v', 'd')

    def __init__(self, v, d=None):
        self.v = v
        self.d = d or {}

    @staticmethod
    def of(x):
        return x if isinstance(x, D) else D(x)

    def __add__(self, o):
        o = D.of(o)
        if not o.d:
            return D(self.v + o.v, self.d)
        d = dict(self.d)
        for k, x in o.d.items():
            d[k] = d.get(k, 0) + x
        return D(self.v + o.v, d)
    __radd__ = __add__

    def __neg__(self):
        return D(-self.v, {k: -x for k, x in self.d.items()})

    def __sub__(self, o):
        return self + (-D.of(o))

    def __rsub__(self, o):
        return D.of(o) - self

    def __mul__(self, o):
        o = D.of(o)
        d = {k: x * o.v for k, x in self.d.items()} if o.v else {}
        if self.v:
            for k, x in o.d.items():
                d[k] = d.get(k, 0) + x * self.v
        return D(self.v * o.v, d)
    __rmul__ = __mul__

    def pow(self, e):
        e = F(e)
        n = int(e) if e.denominator == 1 else float(e)
        v = self.v if e.denominator == 1 or (self.v.imag == 0 and self.v.real > 0) else complex(self.v)
        if n == 1:
            return self
        f = n * v ** (n - 1) if self.d else 0
        return D(v ** n, {k: x * f for k, x in self.d.items()})

    def __truediv__(self, o):
        return self * D.of(o).pow(-1)

    def __rtruediv__(self, o):
        return D.of(o) * self.pow(-1)

    def log(self):
        return D(cmath.log(self.v), {k: x / self.v for k, x in self.d.items()})


IDX = {n: list(itertools.product(range(3), repeat=n)) for n in range(5)}


class Point:
    """a generic point: parameters, the CKM matrix, and a generic tensor for
    every operator with the symmetries of its class"""

    def __init__(self, seed, roots, consts, light=True):
        R = self.R = random.Random('matching %s' % seed)
        u = R.uniform
        self.par = {'alpha_s': u(.1, .2), 'alpha_e': u(.006, .012), 'm_b': u(2, 9), 'm_c': u(2, 9), 'm_s': u(2, 9),
                    'm_u': u(2, 9), 'm_d': u(2, 9), 'm_e': u(2, 9), 'm_mu': u(2, 9), 'm_tau': u(2, 9),
                    'm_t': u(160, 180), 'GF': u(1.0e-5, 1.3e-5), 'm_W': u(75, 90), 'm_Z': u(85, 99),
                    'm_h': u(100, 140), 'scale': u(60, 120), 'pi': math.pi, 'euler': math.e,
                    'Vus': u(.1, .3), 'Vub': u(.1, .3), 'Vcb': u(.1, .3), 'gamma': u(.5, 1.5)}
        if not light:
            for k in 'm_b m_c m_s m_u m_d m_e m_mu m_tau'.split():
                self.par[k] = 0.0
        self.V = self.unitary()
        self.C = {}
        for k, (f, c) in spec.SMEFT.items():
            self.C[k] = self.tensor(c, len(f))
        self.roots = roots
        self.consts = {v[0]: v[1] for v in consts.values()}
        self.memo = {}

    def unitary(self):
        g = self.R.gauss
        rows = []
        for _ in range(3):
            v = [complex(g(0, 1), g(0, 1)) for _ in range(3)]
            for r in rows:
                s = sum(a.conjugate() * b for a, b in zip(r, v))
                v = [b - s * a for a, b in zip(r, v)]
            n = math.sqrt(sum(abs(x) ** 2 for x in v))
            rows.append([x / n for x in v])
        return {(i, j): rows[i][j] for i in range(3) for j in range(3)}

    def tensor(self, cls, rank):
        g = self.R.gauss
        if rank == 0:
            return {(): g(0, 1)}
        X = {i: complex(g(0, 1), g(0, 1)) for i in IDX[rank]}
        if cls == 8:
            P = smeft_rge.QQQL_P
            return {i: sum(float(c) * X[tuple(i[:3][x] for x in p) + i[3:]] for p, c in P.items()) for i in IDX[4]}
        G = spec.group(cls, rank)
        out = {}
        for i in IDX[rank]:
            s = 0
            for p, fl, sg in G:
                x = X[tuple(i[k] for k in p)]
                s += sg * (x.conjugate() if fl else x)
            out[i] = s / len(G)
        return out

    # ------------------------------------------------------------ evaluation
    def atom(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._atom(x)
        return r

    def _atom(self, x):
        if x[0] == 'p':
            return D(float(x[1]))
        if x[0] == 'r':
            n = x[1]
            if n in self.roots:
                return self.ev(self.roots[n]).pow(F(1, 2))
            if n in self.C:
                return D(0.0, {n: self.C[n][()]})
            if n in self.par:
                return D(self.par[n])
        if x[0] == 'c':
            n, _, ind = x[1].partition('[')
            if ind and (n in self.C or n == 'V'):
                i = tuple(int(j) for j in ind.rstrip(']').split(','))
                v = self.V[i] if n == 'V' else self.C[n][i]
                v = v.conjugate() if x[2] else v
                return D(v) if n == 'V' else D(0.0, {n: v})
        if x[0] == 's':
            return self.ev(Poly(dict(x[1])))
        if x[0] == 'f' and x[1] == 'log':
            return self.ev(Poly(dict(x[2]))).log()
        if x[0] == 'f' and x[1] in ('real', 'imag', 'abs'):
            a = self.ev(Poly(dict(x[2])))
            if x[1] == 'abs':
                if not a.v:
                    raise NoAnswer('modulus of %s' % (x,))
                u = a.v.conjugate() / abs(a.v)
                return D(abs(a.v), {k: (u * y).real for k, y in a.d.items()})
            f = (lambda z: complex(z).real) if x[1] == 'real' else (lambda z: complex(z).imag)
            return D(f(a.v), {k: f(y) for k, y in a.d.items()})
        raise NoAnswer('matching: unknown quantity %s' % (str(x)[:120],))

    def ev(self, p):
        tot = D(0.0)
        for m, (a, b) in p.t.items():
            t = D(complex(float(a), float(b)) if b else float(a))
            for x, e in m:
                t = t * self.atom(x).pow(e)
            tot = tot + t
        return tot

    def factor(self, s, j):
        """(kind, components) of a tensor factor"""
        if s == 'V':
            t = self.V
        elif s in self.C:
            t = self.C[s]
        elif s in self.consts:
            A = self.consts[s]
            n = len(A.shape)
            t = {}
            for i, v in zip(itertools.product(*map(range, A.shape)), A.vals()):
                t[i] = self.ev(Poly.lift(norm(v))).v
        else:
            raise NoAnswer('matching: unknown tensor %s' % s)
        if j:
            t = {i: complex(v).conjugate() for i, v in t.items()}
        return {i: v for i, v in t.items() if v}

    def tensors(self, T):
        """{operator: components} of the part of T linear in the operators (None:
        the part without operators), and the magnitude of the terms it sums"""
        groups = {}
        for c, f, o in tn.simplify_deltas(T.terms):
            if sum(s in self.C for s, _, _ in f) > 1:
                continue
            m = {}
            f = tuple((s, j, tuple(m.setdefault(x, len(m)) for x in l)) for s, j, l in sorted(f, key=lambda t: t[:2]))
            o = tuple(m.setdefault(x, len(m)) for x in o)
            v = self.ev(c)
            g = groups.setdefault((f, o), [D(0.0), {}])
            g[0] = g[0] + v
            for k, x in [(None, v.v)] + list(v.d.items()):
                g[1][k] = g[1].get(k, 0) + abs(x)
        out, mag = {}, {}
        for (f, o), (c, mg) in groups.items():
            ops = [s for s, _, _ in f if s in self.C]
            arr = self.contract(f, o)
            big = max([abs(x) for x in arr.values()] or [0])
            for k, x in ([(ops[0], c.v)] if ops else [(None, c.v)] + list(c.d.items())):
                mag[k] = mag.get(k, 0) + mg[None if ops else k] * big
                t = out.setdefault(k, {})
                for i, y in arr.items():
                    t[i] = t.get(i, 0) + x * y
        return out, mag

    def contract(self, f, o):
        k = (f, o)
        r = self.memo.get(k)
        if r is not None:
            return r
        cur = [({}, 1.0)]
        for s, j, l in f:
            if s == 'δ':
                t = {(i, i): 1.0 for i in range(3)}
            else:
                t = self.memo.get((s, j))
                if t is None:
                    t = self.memo[s, j] = self.factor(s, j)
            new = []
            for b, v in cur:
                for i, x in t.items():
                    b2 = b
                    ok = True
                    for a, q in zip(l, i):
                        if b2.get(a, q) != q:
                            ok = False
                            break
                        if a not in b2:
                            if b2 is b:
                                b2 = dict(b)
                            b2[a] = q
                    if ok:
                        new.append((b2, v * x))
            cur = new
        labels = {x for _, _, l in f for x in l}
        free = [x for x in dict.fromkeys(o) if x not in labels]
        res = {}
        for b, v in cur:
            for fr in itertools.product(range(3), repeat=len(free)):
                bb = dict(b, **{}) if not free else {**b, **dict(zip(free, fr))}
                i = tuple(bb[x] for x in o)
                res[i] = res.get(i, 0) + v
        self.memo[k] = res
        return res




# ---------------------------------------------------------------- tree level
ZERO = ('SuudLR SdduRL SuudRL V8udduLR S1ddRR S1uuRR S8ddRR S8uuRR SedRR SeeRR TedRR SeuRL').split()


class Tree:
    """independent derivation: integrating out W and Z (and nothing else) of
    the Lagrangian of the SMEFT in the broken phase, input scheme G_F, m_W,
    alpha_e; index order of the JMS operators"""

    def __init__(self, pt):
        p = self.p = pt
        C = self.C
        s2 = math.sqrt(2)
        # muon decay: 4 G_F/sqrt2 = 2/v^2 (1 + v^2 phil3_11)(1 + v^2 phil3_22) - ll_1221 - ll_2112
        w = D(2 * s2 * p.par['GF']) + C('ll', 0, 1, 1, 0) + C('ll', 1, 0, 0, 1) - 2 * (C('phil3', 0, 0) + C('phil3', 1, 1))
        v2 = self.v2 = 2 / w
        v = self.v = v2.pow(F(1, 2))
        e = math.sqrt(4 * math.pi * p.par['alpha_e'])
        eps = v2 * C('phiWB')
        g2 = 2 * p.par['m_W'] / v
        # W3 = cZ + sA - eps/2 (-sZ + cA), B = -sZ + cA - eps/2 (cZ + sA); massless photon of charge e
        s0 = e / g2
        c0 = (1 - s0 * s0).pow(F(1, 2))
        s = s0 + eps * c0 * 0.5
        c = (1 - s * s).pow(F(1, 2))
        g1 = e / (c - eps * s * 0.5)
        gZ = c * g2 + s * g1 + eps * 0.5 * (g2 * s + g1 * c)
        st2 = g1 * (s + eps * c * 0.5) / gZ
        MZ2 = v2 * gZ * gZ * 0.25 * (1 + v2 * C('phiD') * 0.5)
        self.kz = gZ * gZ / MZ2
        self.kw = w
        self.s, self.c = s0.v, c0.v
        h = v2 * 0.5
        Q = {'n': 0, 'e': -1, 'u': F(2, 3), 'd': F(-1, 3)}
        T3 = {'n': .5, 'e': -.5, 'u': .5, 'd': -.5}
        self.ZL, self.ZR = {}, {}
        for f in 'neud':
            t = 'l' if f in 'ne' else 'q'
            for i in IDX[2]:
                d = 1.0 if i[0] == i[1] else 0.0
                self.ZL[f, i] = d * (T3[f] - float(Q[f]) * st2) - h * (C('phi%s1' % t, *i) - (2 * T3[f]) * C('phi%s3' % t, *i))
                if f != 'n':
                    self.ZR[f, i] = -d * float(Q[f]) * st2 - h * C('phi' + f, *i)
        self.Wl = {i: D(1.0 if i[0] == i[1] else 0.0) + v2 * C('phil3', *i) for i in IDX[2]}
        self.Wq = {i: D(1.0 if i[0] == i[1] else 0.0) + v2 * C('phiq3', *i) for i in IDX[2]}
        self.WR = {i: h * C('phiud', *i) for i in IDX[2]}

    def C(self, op, *i):
        return D(0.0, {op: self.p.C[op][i]})

    @staticmethod
    def dag(X, i):
        x = X[i[1], i[0]]
        return D(complex(x.v).conjugate(), {k: complex(y).conjugate() for k, y in x.d.items()})

    def Z(self, x, i):
        return (self.ZL if x[1] == 'L' else self.ZR)[x[0], i]

    def get(self, name):
        """function of the indices, or None"""
        C, dag = self.C, self.dag
        kz, kw = self.kz, self.kw
        if name in ZERO:
            return lambda *i: D(0.0)
        if name in ('G', 'Gtilde'):
            return lambda: C(name)
        if name in ('uG', 'dG'):
            return lambda p, r: self.v * (1 / math.sqrt(2)) * C(name, p, r)
        if name in ('egamma', 'ugamma', 'dgamma'):
            f = name[0]
            return lambda p, r: self.v * (1 / math.sqrt(2)) * (self.c * C(f + 'B', p, r)
                                                               + (1 if f == 'u' else -1) * self.s * C(f + 'W', p, r))
        X = {
            # (q q)(q l): eps_jn eps_km (q^j q^k)(q^m l^n) in components, with the Schouten identity
            'SduuLL': lambda p, r, s, t: C('qqql', r, p, s, t) - C('qqql', r, s, p, t) + C('qqql', s, r, p, t),
            'SuddLL': lambda p, r, s, t: C('qqql', r, p, s, t) - C('qqql', r, s, p, t) + C('qqql', s, r, p, t),
            'SduuLR': lambda p, r, s, t: -(C('qque', p, r, s, t) + C('qque', r, p, s, t)),
            'SdudRL': lambda *i: -C('duql', *i),
            'SduuRL': lambda *i: C('duql', *i),
            'SduuRR': lambda *i: C('duue', *i),
            'S1udRR': lambda *i: C('quqd1', *i), 'S8udRR': lambda *i: C('quqd8', *i),
            'S1udduRR': lambda p, r, s, t: -C('quqd1', s, t, p, r), 'S8udduRR': lambda p, r, s, t: -C('quqd8', s, t, p, r),
            'SeuRR': lambda *i: -C('lequ1', *i), 'SnueduRR': lambda *i: C('lequ1', *i),
            'TeuRR': lambda *i: -C('lequ3', *i), 'TnueduRR': lambda *i: C('lequ3', *i),
            'SedRL': lambda *i: C('ledq', *i), 'SnueduRL': lambda *i: C('ledq', *i),
            'VnueduLL': lambda p, r, s, t: 2 * C('lq3', p, r, s, t) - kw * self.Wl[p, r] * dag(self.Wq, (s, t)),
            'VnueduLR': lambda p, r, s, t: -kw * self.Wl[p, r] * dag(self.WR, (s, t)),
            'V1udduLR': lambda p, r, s, t: -kw * self.Wq[p, r] * dag(self.WR, (s, t)),
            'V8udLL': lambda p, r, s, t: 4 * (C('qq3', p, t, s, r) + C('qq3', s, r, p, t))
            - 2 * kw * self.Wq[p, t] * dag(self.Wq, (s, r)),
            'V1udLL': lambda p, r, s, t: C('qq1', p, r, s, t) + C('qq1', s, t, p, r) - C('qq3', p, r, s, t)
            - C('qq3', s, t, p, r) + (2 / 3) * (C('qq3', p, t, s, r) + C('qq3', s, r, p, t))
            - kw * (1 / 3) * self.Wq[p, t] * dag(self.Wq, (s, r)) - kz * self.Z('uL', (p, r)) * self.Z('dL', (s, t)),
            'VnueLL': lambda p, r, s, t: C('ll', p, r, s, t) + C('ll', s, t, p, r)
            - kw * self.Wl[p, t] * dag(self.Wl, (s, r)) - kz * self.Z('nL', (p, r)) * self.Z('eL', (s, t)),
        }
        if name in X:
            return X[name]
        for n, a, sg in (('uu', 'u', 1), ('dd', 'd', 1)):
            if name == 'V%sLL' % n:
                return lambda p, r, s, t: C('qq1', p, r, s, t) + C('qq3', p, r, s, t) \
                    - kz * 0.5 * self.Z(a + 'L', (p, r)) * self.Z(a + 'L', (s, t))
            if name == 'V%sRR' % n:
                return lambda p, r, s, t: C(n, p, r, s, t) - kz * 0.5 * self.Z(a + 'R', (p, r)) * self.Z(a + 'R', (s, t))
        for n, a, op in (('VeeLL', 'eL', 'll'), ('VnunuLL', 'nL', 'll'), ('VeeRR', 'eR', 'ee')):
            if name == n:
                return lambda p, r, s, t: 0.5 * (C(op, p, r, s, t) + C(op, p, t, s, r)) - kz * 0.25 * (
                    self.Z(a, (p, r)) * self.Z(a, (s, t)) + self.Z(a, (p, t)) * self.Z(a, (s, r)))
        for n, a, b, sg in (('VnuuLL', 'nL', 'uL', 1), ('VnudLL', 'nL', 'dL', -1), ('VeuLL', 'eL', 'uL', -1),
                            ('VedLL', 'eL', 'dL', 1)):
            if name == n:
                return lambda *i: C('lq1', *i) + sg * C('lq3', *i) - kz * self.Z(a, i[:2]) * self.Z(b, i[2:])
        for n, a, b, op in (('VeuRR', 'eR', 'uR', 'eu'), ('VedRR', 'eR', 'dR', 'ed'), ('V1udRR', 'uR', 'dR', 'ud1'),
                            ('VnueLR', 'nL', 'eR', 'le'), ('VeeLR', 'eL', 'eR', 'le'), ('VnuuLR', 'nL', 'uR', 'lu'),
                            ('VnudLR', 'nL', 'dR', 'ld'), ('VeuLR', 'eL', 'uR', 'lu'), ('VedLR', 'eL', 'dR', 'ld'),
                            ('VueLR', 'uL', 'eR', 'qe'), ('VdeLR', 'dL', 'eR', 'qe'), ('V1uuLR', 'uL', 'uR', 'qu1'),
                            ('V1udLR', 'uL', 'dR', 'qd1'), ('V1duLR', 'dL', 'uR', 'qu1'), ('V1ddLR', 'dL', 'dR', 'qd1')):
            if name == n:
                return lambda *i: C(op, *i) - kz * self.Z(a, i[:2]) * self.Z(b, i[2:])
        for n, op in (('V8udRR', 'ud8'), ('V8uuLR', 'qu8'), ('V8udLR', 'qd8'), ('V8duLR', 'qu8'), ('V8ddLR', 'qd8')):
            if name == n:
                return lambda *i: C(op, *i)
        return None


# ---------------------------------------------------------------- flavour symmetry
def out_fields(name):
    """flavour fields of the indices of an output before the down-type quarks
    are rotated: q (= u_L, and d_L in the up basis), u, d, l, e; '~' barred"""
    if name in ('G', 'Gtilde'):
        return ()
    if len(spec.jms_fields(name)) == 2:
        f = name[0]
        return ('l~' if f == 'e' else 'q~', f)
    f = [x for x in spec.jms_fields(name)]
    ch = name[-2:]
    if name in spec.BNV_LEPTON:
        f = f + [spec.BNV_LEPTON[name]]
        c = ch[0] * 2 + ch[1] * 2
    elif name[0] == 'V':
        c = ch[0] * 2 + ch[1] * 2
    else:
        c = 'LRLR' if ch == 'RR' else 'LRRL'
    out = []
    for x, k in zip(f, c):
        b = x.rstrip('~')
        g = {'u': 'q', 'd': 'q', 'e': 'l', 'n': 'l'}[b] if k == 'L' else b
        out.append(g + x[len(b):])
    return tuple(out)


GEN = {'q': 'u', 'u': 'u', 'd': 'd', 'l': 'e', 'e': 'e'}
MASSES = {'u': ('m_u', 'm_c', 'm_t'), 'd': ('m_d', 'm_s', 'm_b'), 'e': ('m_e', 'm_mu', 'm_tau')}


def transform(t, fields, phases, perms):
    """components after the fields of generation i are relabelled to perms[i]
    and rephased"""
    out = {}
    for i, v in t.items():
        j, ph = [], 0.0
        for x, a in zip(i, fields):
            b = a.rstrip('~')
            j.append(perms[GEN[b]][x])
            ph += phases[b][x] * (1 if a.endswith('~') else -1)
        out[tuple(j)] = v * cmath.exp(1j * ph)
    return out


def moved(pt, phases, perms):
    q = object.__new__(Point)
    q.__dict__.update(pt.__dict__)
    q.memo = {}
    q.par = dict(pt.par)
    for g, ns in MASSES.items():
        for i, n in enumerate(ns):
            q.par[ns[perms[g][i]]] = pt.par[n]
    q.C = {k: transform(t, spec.SMEFT[k][0], phases, perms) for k, t in pt.C.items()}
    q.V = {(perms['u'][i], perms['d'][j]): v * cmath.exp(1j * (phases['q'][i] - phases['dL'][j]))
           for (i, j), v in pt.V.items()}
    return q


def differ(a, b, scale):
    """first component in which a and b differ"""
    for i in sorted(set(a) | set(b)):
        if not abs(a.get(i, 0) - b.get(i, 0)) <= scale:
            return i
    return None


def run(ctx, mod, **kw):
    """matching tensors of all outputs, with the obligations on its arguments"""
    file = TREE if mod == 'smeft_tree' else LOOP
    ctx.use(file)
    m = Matching(ctx)
    C, p = m.inputs(), m.params()
    C.own, p.own = 'the coefficients given by the caller', 'the parameters given by the caller'
    keys = list(C.d), list(p.d)
    m.it.effects.clear()
    out = m.call(mod, C, p, **kw)
    ctx.obl('input-unchanged', mod, not m.it.effects and (list(C.d), list(p.d)) == keys,
            '%s modified' % [e[0] for e in m.it.effects][:3], file + ':match_all_array')
    names = {n for l in spec.jms_sectors(REPO).values() for n in l}
    want = {n.split('_')[0] for n in names}
    want &= {k for k in out} | {n for n in want if n not in out}
    for n in sorted(want):
        r = 0 if n in ('G', 'Gtilde') else len(out_fields(n))
        ok = n in out and out[n].rank == r
        ctx.obl('output', '%s %s' % (mod, n), ok or n not in FULL, 'the matching gives no tensor of rank %d for %s' % (r, n), file)
    for k in [k for k in out if k not in want and k not in FULL]:
        ctx.obl('output', '%s %s' % (mod, k), False, 'the matching gives %s, which is no operator of the WET' % k, file)
    return m, out, file


FULL = ('dgamma dG egamma ugamma uG Gtilde G SduuLL SuddLL SduuLR SuudLR SdduRL SdudRL SduuRL SuudRL SduuRR V1udLL V8udLL VddLL '
        'VedLL VeeLL VeuLL VnudLL VnueduLL VnueLL VnunuLL VnuuLL VuuLL V1ddLR V1duLR V1udduLR V1udLR V1uuLR V8ddLR V8duLR '
        'V8udduLR V8udLR V8uuLR VdeLR VedLR VeeLR VeuLR VnudLR VnueduLR VnueLR VnuuLR VueLR S1ddRR S1udduRR S1udRR S1uuRR '
        'S8ddRR S8udduRR S8udRR S8uuRR SedRR SeeRR SeuRR SnueduRR TedRR TeuRR TnueduRR SedRL SeuRL SnueduRL V1udRR V8udRR '
        'VddRR VedRR VeeRR VeuRR VuuRR').split()


def sm_part(ctx, out, L, file):
    for k in sorted(out):
        o, mg = L[k]
        t = o.get(None, {})
        i = differ(t, {}, 1e-9 * max(mg.get(None, 0), 1e-12))
        ctx.obl('sm-subtracted', k, i is None, 'without dimension-six coefficients %s%s does not vanish' % (k, list(i or ())), file)


@prop('C01', 'proof', 'abstract interpretation of the tree-level matching over flavour tensors; its linear part compared with an independent '
      'derivation (integrating out W and Z in the broken phase) at generic points for every output, operator and flavour component')
def c01(ctx):
    m, out, file = run(ctx, 'smeft_tree')
    for seed in range(4 if ctx.thorough else 2):
        pt = Point(seed, m.roots, m.it.tn_consts)
        T = Tree(pt)
        L = {k: pt.tensors(t) for k, t in out.items()}
        if seed == 0:
            sm_part(ctx, out, L, file)
        for k in FULL:
            if k not in out:
                continue
            fn = T.get(k)
            o, mg = L[k]
            ex = {i: fn(*i) for i in IDX[out[k].rank]}
            ops = sorted({x for x in o if x} | {q for x in ex.values() for q in x.d})
            for op in ops:
                want = {i: x.d.get(op, 0) for i, x in ex.items()}
                got = o.get(op, {})
                sc = max([abs(x) for x in want.values()] + [mg.get(op, 0)])
                i = differ(got, want, 1e-9 * max(sc, 1e-6))
                ctx.obl('tree', '%s from %s' % (k, op), i is None, i is not None and
                        'the coefficient of %s in %s%s is %.6g instead of %.6g times its tensor at a generic point' % (
                            op, k, list(i), abs(got.get(i, 0)), abs(want[i])), file + ':_match_all_array', sample='%s from %s' % (k, op))
        # the muon lifetime is an input: the coefficient that mediates it is not shifted
        o, mg = L['VnueLL']
        for i in ((1, 0, 0, 1), (0, 1, 1, 0)):
            tot = sum(complex(t.get(i, 0)).real for op, t in o.items() if op in ('ll', 'phil3', 'phiWB', 'phiD', 'phil1'))
            ctx.obl('muon-lifetime', '%s' % (i,), abs(tot) < 1e-9 * max(mg.values()), 'the coefficient of muon decay is shifted although G_F is an input', file)


USES = {'alpha_s': [('V8ddLR', 'qd8'), ('uG', 'uG')], 'alpha_e': [('VedRR', 'ed'), ('egamma', 'eB')], 'GF': [('VueLR', 'phiD'), ('uG', 'uG')],
        'm_W': [('VueLR', 'qe'), ('VnueLL', 'phiD')], 'm_t': [('Gtilde', 'Gtilde'), ('SedRL', 'ledq'), ('uG', 'phiG'), ('ugamma', 'phiB'), ('dgamma', 'phiud')], 'm_h': [('uG', 'phiG'), ('VnueLL', 'phiBox')],
        'scale': [('VedRR', 'ed'), ('Gtilde', 'Gtilde'), ('uG', 'uG')]}


def table_loop_matching(ctx=None):
    from ..core import Ctx
    m, out, file = run(ctx or Ctx('ref', 'quick'), 'smeft_loop', scale=Poly.real('scale'))
    return projections(m, out)[0]


def weights(k, rank):
    R = random.Random('weights ' + k)
    return {i: complex(R.gauss(0, 1), R.gauss(0, 1)) for i in IDX[rank]}


def projections(m, out):
    tab, mags = {}, {}
    for seed in (0, 1):
        pt = Point(seed, m.roots, m.it.tn_consts)
        pt.par.update(m_t=173.0, m_h=125.0)     # the values written into the code (known finding)
        for k, t in out.items():
            w = weights(k, t.rank)
            o, mg = pt.tensors(t)
            for op, c in o.items():
                if op is None:
                    continue
                x = sum(w[i] * y for i, y in c.items())
                n = '%d %s %s' % (seed, k, op)
                mags[n] = mg[op]
                if abs(x) > 1e-10 * mg[op]:
                    tab[n] = [float('%.13g' % complex(x).real), float('%.13g' % complex(x).imag)]
    return tab, mags


@prop('C02', 'proof', 'abstract interpretation of the one-loop matching over flavour tensors: hermiticity and exchange symmetries of the '
      'results, covariance under rephasing and relabelling of the fields of every generation, comparison with reference contractions')
def c02(ctx):
    m, out, file = run(ctx, 'smeft_loop', scale=Poly.real('scale'))
    consts = m.it.tn_consts
    W = file + ':_match_all_array'
    pt = Point(0, m.roots, consts)
    L = {k: pt.tensors(t) for k, t in out.items()}
    sm_part(ctx, out, L, file)
    # symmetries of the operators
    for k in sorted(out):
        rank = out[k].rank
        o, mg = L[k]
        for op, t in sorted((a, b) for a, b in o.items() if a):
            top = max(map(abs, t.values()), default=0)
            if rank == 0:
                ok = all(abs(complex(x).imag) <= 1e-9 * max(mg[op], 1e-12) for x in t.values())
                ctx.obl('symmetry', '%s from %s' % (k, op), ok, 'the coefficient of the hermitian operator %s is not real' % k, W)
                continue
            for perm, fl, sg in spec.group(spec.jms_class(k), rank):
                if perm == tuple(range(rank)) and not fl:
                    continue
                u = {tuple(i[perm.index(q)] for q in range(rank)): sg * (complex(x).conjugate() if fl else x) for i, x in t.items()}
                i = differ(t, u, 1e-9 * max(top, 1e-3 * mg[op], 1e-12))
                ctx.obl('symmetry', '%s from %s %s' % (k, op, perm), i is None, 'the contribution of %s to %s does not have the symmetry %s%s of the operator (component %s)'
                        % (op, k, perm, ' with conjugation' if fl else '', i), W, sample=k)
    # flavour symmetries
    I = {'u': (0, 1, 2), 'd': (0, 1, 2), 'e': (0, 1, 2)}
    R = random.Random('phases')
    ph = lambda: [R.uniform(0, 6) for _ in range(3)]
    z = [0.0] * 3
    Z = dict.fromkeys(('q', 'u', 'd', 'dL', 'l', 'e'), z)
    a, b, c, d, e, f = [ph() for _ in range(6)]
    top = d[:2] + a[2:]
    tests = [(True, 'phases of the up-type quarks', dict(Z, q=a, u=a), I), (True, 'phases of the down-type quarks', dict(Z, d=b, dL=b), I),
             (True, 'phases of the leptons', dict(Z, l=c, e=c), I), (True, 'up-type quarks u and c', Z, dict(I, u=(1, 0, 2))),
             (True, 'down-type quarks', Z, dict(I, d=(1, 2, 0))), (True, 'leptons e and mu', Z, dict(I, e=(1, 0, 2))),
             (False, 'phases of u_R against u_L', dict(Z, q=a, u=top), I), (False, 'phases of d_R', dict(Z, d=b), I),
             (False, 'phases of d_L', dict(Z, dL=c), I), (False, 'phases of the lepton doublets', dict(Z, l=e), I),
             (False, 'phases of e_R', dict(Z, e=f), I)]
    LL = {True: (pt, L)}
    pt0 = Point(0, m.roots, consts, light=False)
    LL[False] = (pt0, {k: pt0.tensors(t) for k, t in out.items()})
    for light, what, phases, perms in tests:
        p0, L0 = LL[light]
        p1 = moved(p0, phases, perms)
        L1 = {k: p1.tensors(t) for k, t in out.items()}
        for k in sorted(out):
            fl = out_fields(k)
            o, mg = L0[k]
            for op in sorted(x for x in set(o) | set(L1[k][0]) if x):
                want = transform(o.get(op, {}), fl, phases, perms)
                got = L1[k][0].get(op, {})
                big = max(map(abs, want.values()), default=0)
                i = differ(got, want, 1e-9 * max(big, 1e-3 * mg.get(op, 0), 1e-12))
                ctx.obl('covariance', '%s: %s from %s' % (what, k, op), i is None, 'the contribution of %s to %s is not covariant under a change of the %s%s (component %s)' %
                        (op, k, what, '' if light else ' without light masses', i), W, sample=what)
    # the parameters of the user enter: (parameter, output, operator it must influence)
    for n, probes in USES.items():
        p1 = Point(0, m.roots, consts)
        p1.par[n] *= 1.01
        for k, op in probes:
            if k not in out:
                continue
            a, b = L[k][0].get(op, {}), p1.tensors(out[k])[0].get(op, {})
            ok = differ(a, b, 1e-9 * max(map(abs, a.values()), default=0)) is not None
            ctx.obl('parameter', '%s in %s from %s' % (n, k, op), ok, 'the contribution of %s to %s does not depend on the value given for %s' % (op, k, n), W)
    # reference
    got, mags = projections(m, out)
    want = ref.load('loop_matching')
    for n in sorted(set(got) | set(want)):
        x, y = complex(*got.get(n, (0, 0))), complex(*want.get(n, (0, 0)))
        s, k, op = n.split()
        ctx.obl('reference', '%s from %s' % (k, op), abs(x - y) <= 1e-7 * abs(y) + 1e-9 * mags.get(n, 0),
                'the contribution of %s to %s differs from the published matching condition (%.8g%+.8gi instead of %.8g%+.8gi at a generic point)' %
                (op, k, x.real, x.imag, y.real, y.imag), W, sample='%s from %s' % (k, op))


# ---------------------------------------------------------------- matchers
MATCHERS = [('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'),
            ('SMEFT', 'Warsaw up', 'WET', 'flavio'), ('SMEFT', 'Warsaw', 'WET', 'EOS'), ('SMEFT', 'Warsaw', 'WET', 'Bern')]
LOWER = [(a, x, b, x) for a, b in (('WET', 'WET-4'), ('WET-4', 'WET-3')) for x in ('flavio', 'Bern', 'JMS')] + \
    [('WET-3', 'JMS', 'WET-2', 'JMS')]
WHERE = 'wilson/match/__init__.py'
SMEFT_FILE = 'wilson/match/smeft.py:match_all'


def orbit(cls, idx):
    """distinct linear images {index: sign} of idx"""
    return {tuple(idx[k] for k in p): s for p, c, s in spec.group(cls, len(idx)) if not c}


def comps(prefix, cls, rank):
    """generic components with the symmetry of the class: {index: Poly}"""
    out = {}
    for idx, real in spec.nonredundant(cls, (3,) * rank):
        n = prefix + ''.join(str(i + 1) for i in idx)
        x = Poly.real(n) if real else Poly.cplx(n)
        for p, c, s in spec.group(cls, rank):
            out[tuple(idx[k] for k in p)] = (x.conj() if c else x) * s
    for i in IDX[rank]:
        out.setdefault(i, Poly())
    return out


class Full:
    """the matchers with the matching conditions themselves replaced by
    generic tensors"""

    def __init__(self, ctx):
        from .wettrans import Trans
        self.ctx = ctx
        T = self.T = Trans(ctx)
        it = self.it = T.it
        self.calls = []
        self.sparse = False
        for m, order in (('smeft_tree', 'tree'), ('smeft_loop', 'loop')):
            fn = it.load('wilson.match.' + m).env.v.get('match_all_array')
            if not isinstance(fn, AFunc):
                raise NoAnswer('wilson.match.%s.match_all_array not found' % m)
            it.call_hooks[fn.qual] = self.hook(order, fn)
        ctx.use(WHERE, 'wilson/match/smeft.py', 'wilson/util/wet_jms.py', 'wilson/util/common.py')
        self.defaults = dict(it.load('wilson.run.smeft.smpar').env.v['p'].d)

    def hook(self, order, fn):
        def h(it, args, kw):
            b = it.bind_args(fn, args, kw)
            v = list(b.values())
            C = {k: ([norm(z) for z in x.vals()] if isinstance(x, Arr) else [norm(x)]) for k, x in v[0].d.items()}
            self.calls.append((order, C, dict(v[1].d), v[2] if len(v) > 2 else None))
            return ADict({k: self.tensor(order, k) for k in FULL})
        return h

    def tensor(self, order, k):
        r = len(out_fields(k)) if k not in ('G', 'Gtilde') else 0
        if r == 0:
            return Poly.real('%s:%s' % (order, k))
        t = comps('%s:%s_' % (order, k), spec.jms_class(k), r)
        if self.sparse:
            keep = {tuple((j + len(k) + sum(map(ord, k))) % 3 for j in i) for i in ((0, 0, 1, 1), (0, 1, 0, 2), (2, 2, 0, 0))} if r == 4 else {(0, 1), (2, 2)}
            keep = {q for i in keep for p, c, s in spec.group(spec.jms_class(k), r) for q in [tuple(i[x] for x in p)]}
            t = {i: x if i in keep else Poly() for i, x in t.items()}
        return Arr.new([t[i] for i in IDX[r]], (3,) * r)

    def matcher(self, key):
        inst = self.it.get('wilson.wcxf.classes.Matcher').find('instances')
        if not isinstance(inst, ADict):
            raise NoAnswer('registry of matchers not determined')
        t = inst.d.get(key)
        return None if t is None else self.it.getattr_(t, 'function')

    def call(self, key, C, params, scale=None):
        """-> (result dict, recorded calls)"""
        fn = self.matcher(key)
        if fn is None:
            self.ctx.obl('registered', '%s %s to %s %s' % key, False, 'there is no such matcher', WHERE)
            return None, []
        c, p = ADict(dict(C)), None if params is None else ADict(dict(params))
        c.own, before = 'the input', list(C.items())
        self.calls.clear()
        r = self.it.call(fn, [c, Poly.real('scale') if scale is None else scale, p], {})
        self.ctx.obl('pure', '%s %s to %s %s' % key, list(c.d.items()) == before and (p is None or list(p.d.items()) == list(params.items())),
                     'the coefficients or the parameters of the caller are changed', WHERE)
        if not isinstance(r, ADict):
            raise NoAnswer('the result of the matcher %s is %r' % (key, r))
        return {k: scalar(v) for k, v in r.d.items()}, list(self.calls)


def warsaw_input(names=None):
    out = {}
    for k, (f, c) in spec.SMEFT.items():
        for idx, real in (spec.nonredundant(c, (3,) * len(f)) if f else [((), True)]):
            n = spec.wcname(k, idx)
            if names is None or n in names:
                out[n] = Poly.real('C_' + n) if real else Poly.cplx('C_' + n)
    return out


def expected_array(k, C):
    f, c = spec.SMEFT[k]
    r = len(f)
    if c == 8:
        return None
    if not f:
        return [C.get(k, Poly())]
    out = {i: Poly() for i in IDX[r]}
    for idx, real in spec.nonredundant(c, (3,) * r):
        x = C.get(spec.wcname(k, idx))
        if x is None:
            continue
        x = x * Poly.const(F(1, 1 if c == 9 else len(orbit(c, idx))))
        for p, cf, s in spec.group(c, r):
            out[tuple(idx[q] for q in p)] = (x.conj() if cf else x) * s
    return [out[i] for i in IDX[r]]


def same(a, b):
    a, b = Poly.lift(a), Poly.lift(b)
    return a == b or base_equal(a, b)


def base_equal(a, b):
    from ..num import equal
    return equal(a, b)


def params_ok(ctx, what, p, user, defaults, allow=()):
    want = dict(defaults)
    want.update(user)
    bad = ['%s=%s' % (k, p.get(k)) for k in want if k not in p or not (p[k] is want[k] or same(norm(p[k]), norm(want[k])))]
    bad += [k for k in p if k not in want and k not in allow]
    ctx.obl('parameters', what, not bad, 'the matching does not use the parameters of the user completed by the defaults: %s' % bad[:4], SMEFT_FILE)


def scalar(v):
    v = norm(v)
    return norm(v.vals()[0]) if isinstance(v, Arr) and v.shape == () else v


@prop('C03', 'proof', 'abstract interpretation of the registered matchers with symbolic coefficients, parameters and CKM matrix; the matching '
      'conditions are replaced by generic tensors with the symmetries of the operators')
def c03(ctx):
    M = Full(ctx)
    T, it = M.T, M.it
    for k in MATCHERS + LOWER:
        ctx.obl('registered', '%s %s to %s %s' % k, M.matcher(k) is not None, 'there is no such matcher', WHERE)
    jobs = [('main', None), ('main', 1), ('orders', None)] + [('compose', k) for k in MATCHERS[1:]] + [('lower', None)]
    ctx.fork(jobs, lambda c, j: job(c, M, *j))


def user_params():
    from .wettrans import user
    return user()


def job(ctx, M, kind, arg):
    M.ctx = ctx
    {'main': main, 'orders': orders, 'compose': compose, 'lower': lower}[kind](ctx, M, arg)


def want_output(M, names, terms):
    """expected WCxf coefficients: down-type quarks rotated to the mass basis,
    one coefficient for every set of components related by symmetry"""
    V = {(i, j): Poly.cplx('V%d%d' % (i, j)) for i in range(3) for j in range(3)}
    out = {}
    for op in FULL:
        f = out_fields(op)
        r = len(f)
        if r == 0:
            out[op] = sum((Poly.real('%s:%s' % (t, op)) for t in terms), Poly())
            continue
        g = spec.jms_fields(op) + ((spec.BNV_LEPTON[op],) if op in spec.BNV_LEPTON else ())
        cls = spec.jms_class(op)
        X = [comps('%s:%s_' % (t, op), cls, r) for t in terms]
        rot = [n for n in range(r) if f[n].rstrip('~') == 'q' and g[n].rstrip('~') == 'd']
        for idx, real in spec.nonredundant(cls, (3,) * r):
            name = op + '_' + ''.join(str(i + 1) for i in idx)
            if name not in names:
                continue
            tot = Poly()
            for j in itertools.product(range(3), repeat=len(rot)):
                i = list(idx)
                w = Poly.const(1)
                for n, q in zip(rot, j):
                    i[n] = q
                    v = V[q, idx[n]]
                    w = w * (v.conj() if f[n].endswith('~') else v)
                for x in X:
                    tot = tot + w * x[tuple(i)]
            out[name] = tot * len(orbit(cls, idx))
    return out


def main(ctx, M, loop):
    T = M.T
    key = MATCHERS[0]
    C = warsaw_input()
    user = user_params()
    p = dict(user)
    if loop is not None:
        p['loop_order'] = loop
    r, calls = M.call(key, C, p)
    what = 'loop order %s' % loop
    orders_ = sorted(c[0] for c in calls)
    ctx.obl('orders', what, orders_ == (['loop', 'tree'] if loop else ['tree']), 'matching conditions used: %s' % orders_, SMEFT_FILE)
    for order, Ca, pp, scale in calls:
        params_ok(ctx, '%s, %s' % (what, order), pp, p, M.defaults)
        if order == 'loop':
            ctx.obl('scale', what, isinstance(scale, Poly) and scale == Poly.real('scale'), 'the one-loop matching is done at the scale %s' % scale, SMEFT_FILE)
        for k in spec.SMEFT:
            w = expected_array(k, C)
            if w is None:
                continue
            g = Ca.get(k)
            bad = [i for i, (x, y) in enumerate(zip(g or [], w)) if not same(x, y)] if g and len(g) == len(w) else ['missing']
            ctx.obl('input', '%s, %s: %s' % (what, order, k), not bad, 'the matching conditions are evaluated with other values of %s: %s' %
                    (k, [(IDX[len(spec.SMEFT[k][0])][i], str(g[i])[:80], str(w[i])[:80]) for i in bad[:2] if i != 'missing'] or bad), SMEFT_FILE)
    names = {n for l in T.jms['WET'].values() for n in l}
    want = want_output(M, names, orders_)
    for n in sorted(names):
        w = want.get(n, Poly())
        g = r.get(n, Poly())
        ctx.obl('result', '%s: %s' % (what, n), same(g, w), '%s is %s instead of %s' % (n, str(g)[:160], str(w)[:160]), SMEFT_FILE)
    bad = [n for n in r if n not in names]
    ctx.obl('names', what, not bad, 'the result has entries that are no coefficients of the basis: %s' % bad[:4], SMEFT_FILE)


def orders(ctx, M, _):
    """parameters given by the user override the defaults, one by one"""
    M.sparse = True
    user = user_params()
    C = {k: v for k, v in warsaw_input().items() if k in ('phiD', 'lq1_1123', 'dG_23', 'ledq_1213')}
    for what, p in [('no parameters', None), ('empty parameters', {})] + [('only %s' % k, {k: user[k]}) for k in sorted(user)] + [
            ('loop order 0', {'loop_order': 0}), ('loop order 1', {'loop_order': 1})]:
        r, calls = M.call(MATCHERS[0], C, p)
        for order, Ca, pp, scale in calls:
            params_ok(ctx, '%s, %s' % (what, order), pp, p or {}, M.defaults)
        o = sorted(c[0] for c in calls)
        ctx.obl('orders', what, o == (['loop', 'tree'] if (p or {}).get('loop_order') else ['tree']), 'matching conditions used: %s' % o, SMEFT_FILE)
        bad = [k for k in M.defaults if M.it.load('wilson.run.smeft.smpar').env.v['p'].d.get(k) is not M.defaults[k]]
        ctx.obl('defaults kept', what, not bad, 'the default parameters are changed: %s' % bad[:3], SMEFT_FILE)


SAMPLE = ('phiD', 'phiG', 'lq1_1123', 'dG_23', 'ledq_1213', 'qq1_1223', 'phiq3_12', 'qd1_1223', 'duql_1213', 'quqd1_1323', 'll_1122',
          'phiud_12', 'uG_22', 'lequ3_1121', 'qque_1112')


def compose(ctx, M, key):
    """matchers between other bases are the translation to the basis of the
    matching conditions, the matching, and the translation of the result"""
    M.sparse = True
    T = M.T
    C = {k: v for k, v in warsaw_input().items() if k in SAMPLE}
    user = user_params()
    for what, p, scale in (('all parameters', dict(user, loop_order=1), Poly.real('scale')), ('no parameters', None, Poly.real('scale2')),
                           ('some parameters', {k: user[k] for k in ('Vus', 'Vcb', 'm_b', 'm_mu', 'alpha_s')}, Poly.real('scale'))):
        what = '%s %s to %s %s, ' % key + what
        r, calls = M.call(key, C, p, scale)
        if r is None:
            return
        up = C
        if key[1] == 'Warsaw':
            up = T.translate('SMEFT', 'Warsaw', 'Warsaw up', C, p, scale=scale)
            if up is None:
                raise NoAnswer('no translator from Warsaw to Warsaw up')
        j, calls2 = M.call(MATCHERS[0], up, p, scale)
        ctx.obl('calls', what, [(a[0], sorted(a[2])) for a in calls] == [(a[0], sorted(a[2])) for a in calls2] and bool(calls),
                'the matching conditions are not evaluated in the same way as from the Warsaw up basis', WHERE)
        for a, b in zip(calls, calls2):
            bad = [k for k in set(a[1]) | set(b[1]) if len(a[1].get(k, [])) != len(b[1].get(k, [])) or
                   not all(same(x, y) for x, y in zip(a[1][k], b[1][k]))]
            ctx.obl('input', '%s, %s' % (what, a[0]), not bad, 'the matching conditions are evaluated with other coefficients: %s' % bad[:4], WHERE)
            bad = [k for k in a[2] if k not in b[2] or not (a[2][k] is b[2][k] or same(norm(a[2][k]), norm(b[2][k])))]
            ctx.obl('parameters', '%s, %s' % (what, a[0]), not bad, 'the matching conditions are evaluated with other parameters: %s' % bad[:4], WHERE)
            ctx.obl('scale', '%s, %s' % (what, a[0]), a[3] is b[3] or same(a[3], b[3]), 'the matching conditions are evaluated at another scale', WHERE)
        if key[3] != 'JMS':
            j = T.translate('WET', 'JMS', key[3], j, p, scale=scale)
            if j is None:
                raise NoAnswer('no translator from JMS to %s' % key[3])
        for n in sorted(set(r) | set(j)):
            x, y = r.get(n), j.get(n)
            ctx.obl('result', '%s: %s' % (what, n), x is not None and y is not None and same(x, y),
                    '%s is %s instead of %s' % (n, str(x)[:160], str(y)[:160]), WHERE)


def lower(ctx, M, _):
    """the matchers to theories with fewer flavours keep exactly the coefficients
    that the theory has"""
    T = M.T
    B = M.it.get('wilson.wcxf.classes.Basis').find('instances')
    for key in LOWER:
        what = '%s %s to %s %s' % key
        names = []
        for e, b in (key[:2], key[2:]):
            inst = B.d.get((e, b))
            if inst is None:
                raise NoAnswer('basis %s %s not available' % (e, b))
            l = M.it.iterate(M.it.getattr_(inst, 'all_wcs'))
            names.append(list(l))
        C = {n: Poly.cplx('C_' + n) for n in names[0]}
        for p in (None, {}, user_params()):
            r, _ = M.call(key, C, p)
            if r is None:
                break
            keep = [n for n in names[0] if n in set(names[1])]
            bad = [n for n in keep if n not in r or not same(r[n], C[n])] + [n for n in r if n not in set(keep)]
            ctx.obl('kept', what, not bad and bool(keep) and len(keep) < len(C), 'of %d coefficients, %d are not passed on unchanged or not dropped: %s' % (len(C), len(bad), bad[:4]), WHERE)
            # a coefficient that is absent stays absent
            C2 = dict(list(C.items())[::7])
            r, _ = M.call(key, C2, p)
            bad = [n for n in r if n not in C2]
            ctx.obl('kept', what + ', some coefficients', not bad, 'coefficients appear: %s' % bad[:4], WHERE)
