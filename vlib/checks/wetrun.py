"""H05: running in the WET - evolution matrices, running parameters, sectors."""
import ast
import json
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, libmodel, ref, spec
from ..num import Poly, equal
from .adm import flavour, opposite
from .drivers import number

F = Fraction
RGE = 'wilson/run/wet/rge.py'
CLS = 'wilson/run/wet/classes.py'
DEFS = 'wilson/run/wet/definitions.py'
PI = libmodel.PI
NF = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
MASSES = ['m_u', 'm_d', 'm_s', 'm_c', 'm_b', 'm_e', 'm_mu', 'm_tau']
# operators of these classes are partly absent below the b / c thresholds
SPLIT = {'cu', 'db', 'sb', 'sd', 'mue', 'mutau', 'taue', 'dF0'}


def b0(f):
    return 11 - F(2 * f, 3)


# ------------------------------------------------------------ opaque anomalous dimensions
def adm_s(n, f, diag):
    """an upper triangular matrix: every principal block is diagonalisable with
    known eigenvalues; contains a resonance a_i - a_j = 1 and a degeneracy"""
    w = [F(60 * i + 7, 1009) for i in range(n)]
    if n > 1:
        w[1] = w[0] + 2 * b0(f)
    if n > 5:
        w[5] = w[2]
    A = {(i, i): w[i] for i in range(n)}
    if not diag:
        for i in range(n):
            for j, c in ((i + 1, F(2)), (i + 3, F(-1, 2)), (i + 7, F(3))):
                if j < n and (i + j) % 4 != 2 and not {i, j} & {2, 5} and not (i, j) == (0, 1):
                    A[i, j] = c
    return A


def adm_e(n, f):
    A = {}
    for i in range(n):
        A[i, i] = F(i % 5 - 2) or F(7)
        for d, c in ((1, F(3, 2)), (4, F(-5)), (n - 1, F(2, 3)), (n // 2 + 1, F(11, 4))):
            j = (i + d) % n
            if j != i:
                A[i, j] = c + i
    return A


def arr(A, n):
    return Arr.new([A.get((i, j), 0) for i in range(n) for j in range(n)], (n, n))


def m_eig(it, a, k):
    """exact eigen-decomposition of triangular rational matrices with the
    arbitrary order and normalisation of eigenvectors a library may choose"""
    x = a[0]
    if not isinstance(x, Arr) or x.ndim != 2 or x.shape[0] != x.shape[1]:
        return it.top('eig')
    n = x.shape[0]
    v = [norm(y) for y in x.vals()]
    if any(not isinstance(y, (int, F)) for y in v):
        return it.top('eig')
    M = {(i, j): v[i * n + j] for i in range(n) for j in range(n) if v[i * n + j] != 0}
    up, lo = all(i <= j for i, j in M), all(i >= j for i, j in M)
    if not (up or lo):
        w = [Poly.real('eigenvalue%d' % i) for i in range(n)]
        return (Arr.new(w, (n,)), Arr.new([Poly.real('eigenvector%d_%d' % (i, j)) for i in range(n) for j in range(n)], (n, n)))
    vecs = eigenvectors(M, n, up)
    order = list(range(n))[::-1]
    V = {}
    for pos, i in enumerate(order):
        sc = F(pos % 3 + 2, 3) * (-1) ** pos
        for r, c in vecs[i].items():
            V[r, pos] = c * sc
    W = Arr.new([M.get((i, i), 0) for i in order], (n,))
    return (W, arr(V, n))


def eigenvectors(M, n, up):
    """right eigenvectors of a triangular matrix, by substitution"""
    rows = {}
    for (i, j), c in M.items():
        rows.setdefault(i, {})[j] = c
    d = [M.get((i, i), F(0)) for i in range(n)]
    out = []
    for k in range(n):
        x = {k: F(1)}
        for i in (range(k - 1, -1, -1) if up else range(k + 1, n)):
            s = sum((c * x[j] for j, c in rows.get(i, {}).items() if j != i and j in x), F(0))
            if s == 0:
                continue
            if d[i] == d[k]:
                raise NoAnswer('defective model matrix')
            x[i] = s / (d[k] - d[i])
        out.append(x)
    return out


def evolution(S, E, n, up, f, eta, pref, qcd, qed):
    """U (dict) for the two anomalous dimension matrices, from the solution of
    the RGE   dC/dlnmu = (alpha_s/4pi A_s^T + alpha_e/4pi A_e^T) C  to first
    order in alpha_e"""
    T = {(j, i): c for (i, j), c in S.items()}
    vec = eigenvectors(T, n, not up)
    # inverse of V (triangular, unit diagonal): rows of the left eigenvectors
    left = eigenvectors(S, n, up)
    d = [S.get((i, i), F(0)) for i in range(n)]
    for i in range(n):
        nrm = sum(c * left[i].get(r, 0) for r, c in vec[i].items())
        left[i] = {r: c / nrm for r, c in left[i].items()}
    a = [x / (2 * b0(f)) for x in d]
    # degenerate eigenvalues: the left vectors must be dual within the eigenspace
    for i in range(n):
        for j in range(n):
            if i != j and d[i] == d[j] and sum(c * left[i].get(r, 0) for r, c in vec[j].items()):
                raise NoAnswer('degenerate eigenspace not dual')
    U = {}
    if qcd:
        for k in range(n):
            e = eta ** a[k] if a[k] else Poly.const(1)
            for r, c in vec[k].items():
                for s, l in left[k].items():
                    U[r, s] = U.get((r, s), Poly()) + e * (c * l)
    else:
        for k in range(n):
            U[k, k] = Poly.const(1)
    if qed and qcd:
        # K = V^-1 A_e^T V
        cols = {}
        for (i, j), c in E.items():        # A_e^T[j, i] = c
            cols.setdefault(i, {})[j] = c  # column i of A_e^T
        for q in range(n):
            y = {}
            for s, c in vec[q].items():
                for r, x in cols.get(s, {}).items():
                    y[r] = y.get(r, 0) + x * c
            for p in range(n):
                K = sum((l * y[s] for s, l in left[p].items() if s in y), F(0))
                if K == 0:
                    continue
                if a[p] - a[q] == 1:
                    g = -libmodel.s_log(IT[0], eta) * epow(eta, a[p])
                else:
                    g = (epow(eta, a[q] + 1) - epow(eta, a[p])) * (1 / (a[p] - a[q] - 1))
                g = g * K * pref
                for r, c in vec[p].items():
                    for s, l in left[q].items():
                        U[r, s] = U.get((r, s), Poly()) + g * (c * l)
    return U


IT = [None]


def epow(eta, a):
    return eta ** a if a else Poly.const(1)


# ------------------------------------------------------------ specification of the scaling
def scaling(name, p):
    """JMS operators are related to those of the anomalous dimensions by powers
    of couplings and masses: coefficient of the latter / coefficient of the former"""
    op, _, ind = name.partition('_')
    g, e = (4 * PI * p['alpha_s']) ** F(1, 2), (4 * PI * p['alpha_e']) ** F(1, 2)
    if op in ('G', 'Gtilde'):
        return g
    if op in ('uG', 'dG', 'ugamma', 'dgamma', 'egamma'):
        gen = max(int(x) for x in ind) - 1
        m = p[{'u': ['m_u', 'm_c', 'm_t'], 'd': ['m_d', 'm_s', 'm_b'], 'e': ['m_e', 'm_mu', 'm_tau']}[op[0]][gen]]
        return g / m if op.endswith('G') else g ** 2 / e / m
    return Poly.const(1)


class World:
    def __init__(self, ctx, thorough):
        self.ctx = ctx
        it = self.it = base.make(REPO)
        IT[0] = it
        base.generic_position(it)
        ctx.use(RGE, CLS, DEFS)
        self.full = json.load(open('%s/wilson/data/run_wet_definitions_coeffs.json' % REPO))
        self.coeffs = {s: self.subset(s, l, thorough) for s, l in self.full.items()}
        old = it.models['pkgutil.get_data']

        def get_data(it, a, k):
            r = old(it, a, k)
            if a and 'run_wet_definitions_coeffs.json' in repr(a[1:]):
                txt = json.dumps(self.coeffs)
                return AObj('@bytes', {'text': txt, '@getattr': lambda n: Builtin(n, lambda it, a, k: txt)})
            return r
        it.models['pkgutil.get_data'] = get_data
        it.load('wilson')
        it.models['numpy.linalg.eig'] = m_eig

        def nz(a):
            r = libmodel.to_arr(it, a) if not isinstance(a, (Top, Alt)) else None
            if r is None:
                raise NoAnswer('counting the elements of %r' % (a,))
            t = [it.truth(norm(v)) for v in r.vals()]
            if any(x is None for x in t):
                raise NoAnswer('element of unknown value')
            return t
        it.models['numpy.count_nonzero'] = lambda it, a, k: sum(map(bool, nz(a[0])))
        it.models['numpy.any'] = lambda it, a, k: any(nz(a[0]))
        it.models['numpy.all'] = lambda it, a, k: all(nz(a[0]))
        self.sectors = it.get('wilson.run.wet.definitions.sectors')
        self.defaults = it.get('wilson.parameters.p')
        self.adm_calls = []
        self.bad = []
        self.diag = {'ffnunu'}
        adm = it.load('wilson.run.wet.adm').env.v
        self.n = {}
        for s, c in self.sectors.d.items():
            if s in self.coeffs:
                self.n.setdefault(c, set()).add(len(self.coeffs[s]))
        for name, fn in list(adm.items()):
            if isinstance(fn, AFunc) and name.startswith(('adm_s_', 'adm_e_')):
                self.hook_adm(name, fn)
        q = it.load('wilson.util.qcd').env.v
        self.pnames = {}
        for name in ('alpha_s', 'm_b', 'm_c', 'm_s'):
            if not isinstance(q.get(name), AFunc):
                raise NoAnswer('wilson.util.qcd.%s not found' % name)
            self.hook_qcd(name, q[name])

    def subset(self, s, l, thorough):
        if len(l) <= 21 or thorough:
            return l
        keep = [i for i, n in enumerate(l) if 'gamma' in n or 'G' in n]
        ab = [i for i, n in enumerate(l) if not spec.quark_ok(n, 4)]
        keep += [i for i, n in enumerate(l) if n in self.conjugated()]
        keep += ab[::max(1, len(ab) // 4)] + list(range(0, len(l), max(1, len(l) // 9)))
        return [l[i] for i in sorted(set(keep))]

    def hook_adm(self, name, fn):
        it = self.it
        kind, cls = name[4], name[6:]

        def h(it, args, kw):
            b = it.bind_args(fn, args, kw)
            vals = list(b.values())
            f = norm(vals[0])
            ms = vals[1:]
            if cls not in self.n or len(self.n[cls]) != 1:
                raise NoAnswer('dimension of the class %s' % cls)
            n, = self.n[cls]
            if f != self.f:
                self.bad.append('%s is evaluated for %r flavours' % (name, f))
            for m, x in zip(MASSES, ms):
                if not is_num(norm(x)) or not equal(x, self.p_in[m]):
                    self.bad.append('%s is evaluated with %s = %r' % (name, m, x))
            return arr(adm_s(n, self.f, cls in self.diag) if kind == 's' else adm_e(n, self.f), n)
        it.call_hooks[fn.qual] = h

    def hook_qcd(self, name, fn):
        def h(it, args, kw):
            b = it.bind_args(fn, args, kw)
            return self.qcd(name, **{k: v for k, v in b.items()})
        self.it.call_hooks[fn.qual] = h

    def qcd(self, name, **b):
        # arguments that do not matter are dropped by value, not by name
        key = (name,) + tuple((k, repr(Poly.lift(norm(v)).key()) if is_num(norm(v)) else repr(v)) for k, v in sorted(b.items()))
        i = self.pnames.setdefault(key, '%s@%d' % (name, len(self.pnames)))
        return Poly.real(i)

    def params(self, scale, user):
        p = {k: v for k, v in self.defaults.d.items()}
        p.update(user)
        a = p['alpha_s']
        r = {'alpha_s': self.qcd('alpha_s', **self.args('alpha_s', scale=scale, f=self.f, alphasMZ=a, loop=3))}
        for m, fn in (('m_b', 'm_b'), ('m_c', 'm_c'), ('m_s', 'm_s'), ('m_u', 'm_s'), ('m_d', 'm_s')):
            r[m] = self.qcd(fn, **self.args(fn, m=p[m], scale=scale, f=self.f, alphasMZ=a, loop=3))
        for m in ('alpha_e', 'm_e', 'm_mu', 'm_tau'):
            r[m] = p[m]
        return {k: Poly.lift(norm(v)) for k, v in r.items()}

    def args(self, fname, m=None, **kw):
        """bind our arguments to the parameters of the function"""
        fn = self.it.load('wilson.util.qcd').env.v[fname]
        names = list(self.it.bind_args(fn, [], dict({'m': m} if 0 else {}))) if 0 else None
        a = fn.node.args
        pos = [x.arg for x in a.args]
        order = ([m] if m is not None else []) + [kw['scale'], kw['f'], kw['alphasMZ']]
        args = list(order)
        return {k: v for k, v in self.it.bind_args(fn, args, {'loop': kw['loop']}).items()} if 'loop' in pos else \
            {k: v for k, v in self.it.bind_args(fn, args, {}).items()}

    def defaults_e(self):
        return Poly.lift(norm(self.defaults.d['alpha_e']))

    # ------------------------------------------------ one run
    mode = 'generic'

    def inputs(self, eft, zero=()):
        vals = {}
        self.C = {}
        for s, l in spec.jms_sectors(REPO, NF[eft]).items():
            for k in l:
                if k not in self.coeffs.get(s, ()) or s in zero:
                    continue
                if self.mode == 'last' and k != [x for x in self.coeffs[s] if x in l][-1]:
                    continue
                if l[k].get('real'):
                    if self.mode == 'imaginary':
                        continue
                    vals[k] = Poly.real('C_' + k)
                    self.C[k] = vals[k]
                else:
                    re, im = Poly.real('C_' + k), Poly.real('Ci_' + k)
                    if self.mode == 'imaginary':
                        re = Poly()
                    if self.mode == 'real':
                        im = Poly()
                    vals[k] = ADict({'Re': re, 'Im': im})
                    self.C[k] = re + im * Poly.const(0, 1)
        return vals

    def expected(self, eft, user, sc_in, sc_out, qcd, qed, sectors=None):
        f = self.f = NF[eft]
        self.p_in = pi = self.params(sc_in, user)
        po = self.params(sc_out, user)
        eta = pi['alpha_s'] / po['alpha_s']
        if not qcd:
            po = pi
        out = {}
        for s, l in spec.jms_sectors(REPO, f).items():
            if sectors is not None and s not in sectors:
                continue
            cls = self.sectors.d.get(s)
            allk = self.coeffs.get(s)
            if cls is None or allk is None:
                out.update({k: None for k in l})
                continue
            names = [k for k in allk if k in l] if cls in SPLIT else allk
            C = [self.C.get(k, Poly()) for k in names]
            if cls == 'inv' or all(c.is_zero() for c in C):
                out.update({k: c for k, c in zip(names, C) if k in l})
                continue
            n = len(allk)
            S, E = adm_s(n, f, cls in self.diag), adm_e(n, f)
            ix = [allk.index(k) for k in names]
            if len(ix) < n:
                pos = {i: p for p, i in enumerate(ix)}
                S = {(pos[i], pos[j]): c for (i, j), c in S.items() if i in pos and j in pos}
                E = {(pos[i], pos[j]): c for (i, j), c in E.items() if i in pos and j in pos}
            pref = -pi['alpha_e'] / (2 * b0(f) * pi['alpha_s'])
            U = evolution(S, E, len(ix), True, f, eta, pref, qcd, qed)
            cc = self.conjugated()
            X = [scaling(k, pi) * (c.conj() if k in cc else c) for k, c in zip(names, C)]
            r = [Poly()] * len(ix)
            for (i, j), u in U.items():
                r[i] = r[i] + u * X[j]
            for k, v in zip(names, r):
                if k in l:
                    v = v / scaling(k, po)
                    out[k] = v.conj() if k in cc else v
        return out

    _cc = None

    def conjugated(self):
        """coefficients with flavour quantum numbers opposite to those they mix
        with: their complex conjugates take part in the evolution"""
        if self._cc is None:
            n = {}
            for key in ref.load('wet_adm'):
                k, f, a, b = key.split('|')
                if flavour(a) and flavour(a) == opposite(flavour(b)):
                    for x, y in ((a, b), (b, a)):
                        n.setdefault(x, set()).add(y)
            self._cc = {a for a in n if all(len(n[b]) < len(n[a]) for b in n[a])}
        return self._cc

    def runner(self, eft, user, sc_in, zero=(), **kw):
        it = self.it
        WC = it.get('wilson.wcxf.classes.WC')
        wc = it.call(WC, [eft, 'JMS', sc_in, ADict(self.inputs(eft, zero))], {})
        R = it.get('wilson.run.wet.classes.WETrunner')
        u = ADict(dict(user), own='the parameters given by the user')
        args = dict(kw)
        if user:
            args['parameters'] = u
        return it.call(R, [wc], args), wc

    def compare(self, what, got, want, where):
        ctx = self.ctx
        for k, v in want.items():
            if v is None:
                ctx.obl('sector-known', '%s %s' % (what, k), False, 'the sector of %s is not evolved' % k, DEFS)
                continue
            g = norm(got.get(k, 0))
            if isinstance(g, ADict):
                re, im = g.d.get('Re', 0), g.d.get('Im', 0)
                g = number(re) + number(im) * Poly.const(0, 1)
            g = number(g)
            ok = g is not None and equal(g, v)
            ctx.obl('evolution', '%s %s' % (what, k), ok, '%s is %s instead of %s' % (k, str(g)[:300], str(v)[:300]), where)
        extra = sorted(set(got) - set(want))
        ctx.obl('output-coefficients', what, not extra, 'coefficients %s in the output' % extra[:5], where)
        for b in dict.fromkeys(self.bad):
            ctx.obl('anomalous-dimension-arguments', '%s %s' % (what, b), False, b, RGE)
        ctx.obl('anomalous-dimension-arguments', what, not self.bad, '', RGE)
        del self.bad[:]

    def one(self, what, eft, user, sc_in, sc_out, qcd, qed, sectors=None, zero=(), kw=None):
        it, ctx = self.it, self.ctx
        W = CLS + ':WETrunner'
        self.f = NF[eft]
        self.p_in = self.params(sc_in, user)
        kw = {'qcd_order': qcd, 'qed_order': qed} if kw is None else kw
        before = len(it.effects)
        try:
            r, wc = self.runner(eft, user, sc_in, zero, **kw)
            want = self.expected(eft, user, sc_in, sc_out, qcd, qed, sectors)
            res = it.call(it.getattr_(r, 'run'), [sc_out], {} if sectors is None else {'sectors': tuple(sectors)})
        except RaiseSig as e:
            ctx.obl('evaluates', what, False, 'raises %s' % e, W)
            return None
        got = it.getattr_(res, 'values')
        if not isinstance(got, ADict):
            raise NoAnswer('values of the result are %r' % (got,))
        self.compare(what, got.d, want, W)
        for a, w in (('eft', eft), ('basis', 'JMS')):
            ctx.obl('label', '%s %s' % (what, a), norm(it.getattr_(res, a)) == w, '%s is %r' % (a, it.getattr_(res, a)), W)
        s = number(it.getattr_(res, 'scale'))
        ctx.obl('label', '%s scale' % what, s is not None and equal(s, sc_out), 'scale is %r' % (s,), W)
        eff = [e for e in it.effects[before:]]
        ctx.obl('inputs-unchanged', what, not eff, 'modified: %s' % (eff[:3],), W)
        return r, wc, want


SI, SO = Poly.real('scale_in'), Poly.real('scale_out')


def user_params():
    return {k: Poly.real('user_' + k) for k in ('alpha_s', 'alpha_e', 'm_b', 'm_c', 'm_s', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')}


@prop('H05', 'proof', 'abstract interpretation of the WET running code over opaque anomalous dimension matrices with exact '
      'spectral decompositions, compared with the closed solution of the renormalization group equation')
def h05(ctx):
    w = World(ctx, ctx.thorough)
    it = w.it
    full = user_params()
    part = {'m_c': Poly.real('user_m_c'), 'alpha_e': Poly.real('user_alpha_e')}
    before = dict(w.defaults.d)
    combos = [('WET', 1, 1, full), ('WET-4', 1, 1, full), ('WET-3', 1, 1, full), ('WET', 1, 0, part), ('WET-4', 0, 0, full)]
    if ctx.thorough:
        combos += [(e, q, d, full) for e in NF for q, d in ((1, 0), (0, 0))] + [(e, 1, 1, part) for e in NF]
    for eft, qcd, qed, user in combos:
        w.one('%s qcd %d qed %d %d parameters' % (eft, qcd, qed, len(user)), eft, user, SI, SO, qcd, qed)
    ctx.assumptions.append('eigenvalues of the opaque anomalous dimension matrices are rational and their eigenvectors '
                           'complete; the resonant and degenerate cases are included')
    # default orders, default parameters, a selection of sectors, vanishing sectors
    for eft, sel in (('WET', ('sb', 'sbsb', 'ubenu')), ('WET-4', ('cu', 'dF=0')), ('WET-3', ('mue', 'muemue', 'ffnunu')), ('WET', ('dbemu',))):
        w.one('%s default orders and parameters, sectors %s' % (eft, ','.join(sel)), eft, {}, SI, SO, 1, 1, sectors=sel, kw={})
    rest = [s for s in spec.jms_sectors(REPO, 5) if s not in ('sb', 'taue', 'sbuc')]
    for eft, mode, sel in (('WET', 'imaginary', ('sbsb', 'db', 'sbsd', 'ubenu', 'dbemu')), ('WET-4', 'real', ('cucu', 'sd')), ('WET', 'last', ('cu', 'sbuc', 'mue')),
                           ('WET-3', 'last', ('sd', 'udenu'))):
        w.mode = mode
        w.one('%s with coefficients: %s, sectors %s' % (eft, mode, ','.join(sel)), eft, full, SI, SO, 1, 1, sectors=sel, kw={})
    w.mode = 'generic'
    w.one('WET with vanishing sectors', 'WET', full, SI, SO, 1, 1, zero=rest, kw={})
    d1 = [k for k in before if w.defaults.d.get(k) is not before[k]] + [k for k in w.defaults.d if k not in before]
    ctx.obl('defaults-unchanged', 'wilson.parameters.p', not d1, 'modified entries: %s' % d1[:5], CLS)
    qed_only(ctx, w)
    continuous(ctx, w)
    refusals(ctx, w)


def qed_only(ctx, w):
    """QED evolution with the QCD coupling switched off"""
    it = w.it
    only = ('muemue', 'sbemu', 'dbdb', 'ubenu')
    rest = [s for s in spec.jms_sectors(REPO, 5) if s not in only]
    try:
        w.f = 5
        w.p_in = w.params(SI, {})
        r, wc = w.runner('WET', {}, SI, rest, qcd_order=0, qed_order=1)
        got = it.getattr_(it.call(it.getattr_(r, 'run'), [SO], {}), 'values').d
    except RaiseSig as e:
        ctx.obl('evaluates', 'qcd 0 qed 1', False, 'raises %s' % e, CLS)
        return
    L = Poly.lift(libmodel.s_log(it, SO)) - Poly.lift(libmodel.s_log(it, SI))
    del w.bad[:]
    for s in only:
        names = w.coeffs[s]
        n = len(names)
        E = adm_e(n, 5)
        bad = []
        for j, k in enumerate(names):
            want = w.C.get(k, Poly()) + w.defaults_e() / (4 * PI) * L * sum(
                (w.C.get(names[i], Poly()) * c for (i, jj), c in E.items() if jj == j), Poly())
            g = norm(got.get(k, 0))
            if isinstance(g, ADict):
                g = number(g.d.get('Re', 0)) + number(g.d.get('Im', 0)) * Poly.const(0, 1)
            if not equal(number(g), want):
                bad.append(k)
        ctx.obl('qed-without-qcd', s, not bad, 'QED evolution is not the leading logarithm for %s' % bad[:5], RGE + ':run_sector')


def continuous(ctx, w):
    it = w.it
    WC = CLS + ':WETrunner.run_continuous'
    rest = [s for s in spec.jms_sectors(REPO, 5) if s not in ('muemue', 'sbuc')]
    sel = ('sbuc', 'cbenu')
    user = user_params()
    for lo_first in (True, False):
        a, b = (F(5), F(91)) if lo_first else (F(91), F(5))
        what = 'from %s to %s' % (a, b)
        w.f = 5
        w.p_in = w.params(a, user)
        for sectors in (None, sel):
            try:
                r, wc = w.runner('WET', user, a, rest)
                o = it.call(it.getattr_(r, 'run_continuous'), [b], {} if sectors is None else {'sectors': sectors})
                for at, v in (('scale_min', F(5)), ('scale_max', F(91))):
                    x = number(it.getattr_(o, at))
                    ctx.obl('continuous-range', '%s %s' % (what, at), x is not None and equal(x, v), '%s is %r' % (at, x), WC)
                mid = F(31)
                w.p_in = w.params(a, user)
                want = w.expected('WET', user, a, mid, 1, 1, sectors)
                d = it.call(it.getattr_(o, 'fun'), [mid], {})
                many = it.call(it.getattr_(o, 'fun'), [Arr.new([mid, b], (2,))], {})
            except RaiseSig as e:
                ctx.obl('evaluates', 'continuous solution ' + what, False, 'raises %s' % e, WC)
                continue
            for name, x in (('at a scale', d), ('at an array of scales', many.vals()[0] if isinstance(many, Arr) and len(many.vals()) == 2 else many)):
                if isinstance(x, Arr) and x.shape == ():
                    x = x.vals()[0]
                if not ctx.obl('continuous-values', '%s %s: dictionary' % (what, name), isinstance(x, ADict), 'it is %r' % (x,), WC):
                    continue
                for k, v in want.items():
                    g = number(x.d.get(k, 0))
                    ctx.obl('continuous-values', '%s %s %s' % (what, name, k), g is not None and equal(g, v), 'is %r' % (g,), WC)
                extra = [k for k in x.d if k not in want]
                ctx.obl('continuous-values', '%s %s extra' % (what, name), not extra, 'extra entries %s' % extra[:5], WC)
            del w.bad[:]
    try:
        r, wc = w.runner('WET', {}, F(5), rest)
        it.call(it.getattr_(r, 'run_continuous'), [F(5)], {})
        ctx.obl('equal-scales-refused', 'run_continuous', False, 'a run to the input scale is accepted', WC)
    except RaiseSig as e:
        ctx.obl('equal-scales-refused', 'run_continuous', 'ValueError' in str(e), 'raises %s' % e, WC)


def refusals(ctx, w):
    it = w.it
    WC = it.get('wilson.wcxf.classes.WC')
    R = it.get('wilson.run.wet.classes.WETrunner')
    for what, wc in (('another basis', it.call(WC, ['WET', 'flavio', SI, ADict({})], {})), ('not coefficients', ADict({}))):
        try:
            it.call(R, [wc], {})
            ctx.obl('refused', what, False, 'accepted', CLS + ':WETrunner.__init__')
        except RaiseSig:
            ctx.obl('refused', what, True)
