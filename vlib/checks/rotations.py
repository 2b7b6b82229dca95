"""B-series: flavour rotations of the SMEFT coefficients and the choice of weak
basis."""
import itertools
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, tn, libmodel
from ..num import Poly
from ..tn import TN

WFILE = 'wilson/util/smeft_warsaw.py'
CFILE = 'wilson/run/smeft/classes.py'
TFILE = 'wilson/translate/smeft.py'
MAT = {'q': 'Uq', 'u': 'Uu', 'd': 'Ud', 'l': 'Ul', 'e': 'Ue'}
L = 'abcdefghij'


def fields(k):
    return spec.SMEFT_YUK[k] if k in spec.SMEFT_YUK else spec.SMEFT[k][0] if k in spec.SMEFT else ()


def rotated(k, C, U):
    """the coefficient tensor of operator k after psi = U psi' for every field"""
    f = fields(k)
    if not f:
        return C
    ops, subs = [C], [L[:len(f)]]
    for i, x in enumerate(f):
        m = U[x[0]]
        ops.append(m.conj() if x.endswith('~') else m)
        subs.append(L[i] + L[i + 5])
    return tn.einsum(','.join(subs) + '->' + L[5:5 + len(f)], ops)


def inputs(keys):
    d = {}
    for k in keys:
        v = TN.sym(k, len(fields(k))) if fields(k) else Poly.cplx(k)
        if isinstance(v, TN):
            v.own = 'the input array %s' % k
        d[k] = v
    return ADict(d, own='the input dictionary')


def lift(v):
    if isinstance(v, TN):
        return v
    if is_num(v):
        return TN.scalar(norm(v) if not isinstance(v, Poly) else v)
    return None


def cmp_rot(ctx, what, out, keys, want, where):
    ok = isinstance(out, ADict) and set(out.d) == set(keys)
    ctx.obl('keys', what, ok, 'the result has keys %s' % (sorted(set(out.d) ^ set(keys))[:6] if isinstance(out, ADict) else out), where)
    if not isinstance(out, ADict):
        return
    for k in keys:
        if k not in out.d:
            continue
        a, b = lift(out.get(k)), lift(want[k])
        if a is None:
            raise NoAnswer('%s: %s evaluates to %r' % (what, k, out.get(k)))
        same_ = a.rank == b.rank and tn.canon(a.add(-b).terms) == {}
        msg = ''
        if not same_:
            msg = '%s becomes %s instead of %s' % (
                k, [tn.term_str(x) for x in tn.canon(a.terms)][:3], [tn.term_str(x) for x in tn.canon(b.terms)][:3])
        ctx.obl('field-rotation', '%s %s' % (what, k), same_, msg, where, sample='%s %s' % (what, k))


@prop('B01', 'proof', 'tensor-network abstract interpretation of both flavour rotations against the field content of every operator')
def b01(ctx):
    ctx.use(WFILE, CFILE)
    it = base.make(REPO, mode='tn')
    it.load('wilson')
    U = {f: TN.sym(n, 2) for f, n in MAT.items()}
    kw = {n: U[f] for f, n in MAT.items()}
    wc = list(spec.SMEFT)
    dim4 = list(spec.SMEFT_DIM4)
    f = it.get('wilson.util.smeft_warsaw.flavor_rotation')

    def call(f, C, extra, where, what):
        it.effects.clear()
        try:
            r = it.call(f, [], dict(kw, C_in=C, **extra))
        except RaiseSig as e:
            ctx.obl('total', what, False, 'raises %s' % e, where)
            return None
        ctx.obl('input-unchanged', what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], where)
        return r
    C = inputs(wc)
    r = call(f, C, {}, WFILE, 'flavor_rotation')
    if r is not None:
        cmp_rot(ctx, 'flavor_rotation', r, wc, {k: rotated(k, C.d[k], U) for k in wc}, WFILE + ':flavor_rotation')
    # any subset of operators may be present; the operators do not interact
    for k in wc:
        C = inputs([k])
        r = call(f, C, {}, WFILE, 'flavor_rotation of %s alone' % k)
        if r is not None:
            cmp_rot(ctx, 'flavor_rotation of %s alone' % k, r, [k], {k: rotated(k, C.d[k], U)}, WFILE + ':flavor_rotation')
    S = it.get('wilson.run.smeft.classes.SMEFT')
    g = it.getattr_(S, '_flavor_rotation')
    if isinstance(g, ABound):
        pass
    for flag, keys in ((None, dim4 + wc), (True, dim4 + wc), (False, wc)):
        C = inputs(dim4 + wc)
        r = call(g, C, {} if flag is None else {'sm_parameters': flag}, CFILE + ':_flavor_rotation',
                 'SMEFT._flavor_rotation sm_parameters=%s' % flag)
        if r is not None:
            cmp_rot(ctx, 'SMEFT._flavor_rotation sm_parameters=%s' % flag, r, keys,
                    {k: rotated(k, C.d[k], U) for k in keys}, CFILE + ':SMEFT._flavor_rotation')


def mat(name):
    return TN.sym(name, 2)


class Svd:
    """ckmutil stand-ins: remember which matrix was decomposed and which fields
    the unitary factors belong to"""

    def __init__(self, it):
        self.svd, self.tak, self.reph, self.pmns = [], [], [], []
        it.models['ckmutil.diag.msvd'] = self.msvd
        it.models['ckmutil.diag.mtakfac'] = self.mtakfac
        it.models['ckmutil.phases.rephase_standard'] = self.rephase
        it.models['ckmutil.phases.rephase_pmns_standard'] = self.rephase_pmns

    def name(self, x):
        if isinstance(x, TN) and len(x.terms) == 1 and len(x.terms[0][1]) == 1 and not x.terms[0][1][0][1]:
            return x.terms[0][1][0][0]
        return None

    def msvd(self, it, a, k):
        n = len(self.svd)
        self.svd.append(a[0])
        return (mat('L%d' % n), TN.sym('S%d' % n, 1), mat('R%d' % n))

    def mtakfac(self, it, a, k):
        n = len(self.tak)
        self.tak.append(a[0])
        return (mat('N%d' % n), TN.sym('T%d' % n, 1))

    def rephase(self, it, a, k):
        names = ['UuL', 'UdL', 'UuR', 'UdR']
        a = list(a) + [k.get(n) for n in names[len(a):]]
        self.reph.append([self.name(x) for x in a])
        return tuple(mat('%s\'' % self.name(x)) for x in a)

    def rephase_pmns(self, it, a, k):
        names = ['Unu', 'UeL', 'UeR']
        a = list(a) + [k.get(n) for n in names[len(a):]]
        self.pmns.append([self.name(x) for x in a])
        return tuple(mat('%s\'' % self.name(x)) for x in a)


def ratio_num(p):
    """rational/float value of a constant Poly in pi and roots, else None"""
    from ..num import evalf
    return evalf(p)


@prop('B02', 'proof', 'tensor-network abstract interpretation of the change to the default weak basis with opaque singular value decompositions')
def b02(ctx):
    ctx.use(CFILE)
    it = base.make(REPO, mode='tn')
    it.load('wilson')
    S = it.get('wilson.run.smeft.classes.SMEFT')
    W = CFILE + ':SMEFT._rotate_defaultbasis'
    keys = list(spec.SMEFT_DIM4) + list(spec.SMEFT)
    C = inputs(keys)
    s = Svd(it)
    it.effects.clear()
    try:
        r = it.call(it.getattr_(S, '_rotate_defaultbasis'), [C], {})
    except RaiseSig as e:
        ctx.obl('total', 'all coefficients', False, 'raises %s' % e, W)
        return
    ctx.obl('input-unchanged', 'C', not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W)
    # identify the decomposed mass matrices
    which = {}
    for n, m in enumerate(s.svd):
        c = tn.canon(m.terms) if isinstance(m, TN) and m.rank == 2 else None
        ident = None
        if c:
            syms = {k[1][0][1] for k in c if len(k[1]) == 1}
            for x, (g, o) in {'u': ('Gu', 'uphi'), 'd': ('Gd', 'dphi'), 'e': ('Ge', 'ephi')}.items():
                if len(c) == 2 and syms == {g, o}:
                    cg = tn.canon(TN.sym(g, 2).terms)
                    co = tn.canon(TN.sym(o, 2).terms)
                    (kg,), (ko,) = cg, co
                    if kg in c and ko in c:
                        ratio = c[ko] / c[kg]
                        v = ratio_num(ratio)
                        ov = ratio_num(c[kg])
                        if v is not None and abs(v.imag) < 1e-12:
                            v2 = -2 * v.real
                            ctx.obl('mass-matrix', 'M_%s relative weight of C_%s' % (x, o), abs(v2 / 246.22 ** 2 - 1) < 1e-3,
                                    'the matrix diagonalised for %s is proportional to %s - %s * %.6g (expected v^2/2 = %.6g)'
                                    % (x, g, o, v2 / 2, 246.22 ** 2 / 2), W, sample='M_%s ~ %s - v^2/2 %s' % (x, g, o))
                            ident = x
                        ctx.obl('mass-matrix', 'M_%s overall factor' % x, ov is not None and abs(ov.imag) < 1e-12 and ov.real > 0,
                                'M_%s is not a positive multiple of %s' % (x, g), W)
        which[n] = ident
    for x in 'ude':
        ctx.obl('mass-matrix', 'M_%s' % x, list(which.values()).count(x) >= 1,
                'no decomposition of the effective %s mass matrix (found %s)' % (
                    x, [[tn.term_str(k) for k in tn.canon(m.terms)][:3] for n, m in enumerate(s.svd) if which[n] is None][:2]), W)
    idx = {x: n for n, x in which.items() if x}
    if len(idx) < 3:
        return
    nu = [n for n, m in enumerate(s.tak) if isinstance(m, TN) and
          [k[1] for k in tn.canon(m.terms)] == [k[1] for k in tn.canon(TN.sym('llphiphi', 2).terms)]]
    ctx.obl('mass-matrix', 'M_nu', bool(nu), 'the neutrino mass matrix is not proportional to C_llphiphi', W)
    if nu:
        (c,) = tn.canon(s.tak[nu[0]].terms).values()
        v = ratio_num(c)
        ctx.obl('mass-matrix', 'M_nu sign', v is not None and abs(v.imag) < 1e-12 and v.real < 0,
                'the neutrino mass matrix must be a negative multiple of C_llphiphi (M = -v^2 C)', W)
    n = lambda t, x: '%s%d' % (t, idx[x])
    want = [n('L', 'u'), n('L', 'd'), n('R', 'u'), n('R', 'd')]
    ctx.obl('phase-convention', 'CKM', want in s.reph, 'the quark rotations are rephased as %s' % s.reph, W)
    if nu:
        want = ['N%d' % nu[0], n('L', 'e'), n('R', 'e')]
        ctx.obl('phase-convention', 'PMNS', want in s.pmns, 'the lepton rotations are rephased as %s' % s.pmns, W)
    U = {'q': n('L', 'd'), 'u': n('R', 'u'), 'd': n('R', 'd'), 'l': n('L', 'e'), 'e': n('R', 'e')}
    U = {f: mat(m + "'") for f, m in U.items()}
    cmp_rot(ctx, '_rotate_defaultbasis', r, keys, {k: rotated(k, C.d[k], U) for k in keys}, W)


# ------------------------------------------------------------- translators
def wcdict(keys=None, own='the input coefficients'):
    sm = spec.smeft_basis()
    return ADict({k: (Poly.real(k) if v.get('real') else Poly.cplx(k)) for k, v in sm.items() if keys is None or k in keys},
                 own=own)


def ckm_model(it, log):
    V = Arr.new([Poly.cplx('V%d%d' % (i + 1, j + 1)) for i in range(3) for j in range(3)], (3, 3))

    def ckm(it, a, k):
        names = ['Vus', 'Vub', 'Vcb', 'gamma']
        alt = {'Vus': 'Vus', 'Vub': 'Vub', 'Vcb': 'Vcb', 'delta': 'gamma', 'gamma': 'gamma'}
        d = dict(zip(names, a))
        for q, v in k.items():
            d[alt.get(q, q)] = v
        log.append(d)
        return V.copy() if hasattr(V, 'copy') else V
    it.models['ckmutil.ckm.ckm_tree'] = ckm
    return V


def cvals(V):
    v = V.vals()
    return [[v[3 * i + j] for j in range(3)] for i in range(3)]


def dagger(m):
    return [[Poly.lift(m[j][i]).conj() for j in range(3)] for i in range(3)]


def same_num(a, b):
    a, b = norm(a), norm(b)
    return is_num(a) and is_num(b) and Poly.lift(a) == Poly.lift(b)


@prop('B03', 'proof', 'abstract interpretation of the Warsaw / Warsaw-up / Warsaw-mass translators with a symbolic CKM matrix')
def b03(ctx):
    ctx.use(TFILE, WFILE, 'wilson/run/smeft/smpar.py')
    it = base.make(REPO, mode='arr')
    base.generic_position(it)
    it.load('wilson')
    it.universal_bases = False
    log = []
    V = ckm_model(it, log)
    Vm = cvals(V)
    Vd = dagger(Vm)
    util = it.get('wilson.util.smeftutil')
    default = it.get('wilson.parameters.p')
    cur = {n: Poly.real('par_' + n) for n in ('Vus', 'Vub', 'Vcb', 'gamma')}

    def pars(kind):
        if kind == 'default':
            return None, {n: default.get(n) for n in cur}
        if kind == 'full':
            return ADict(dict(cur), own='the parameters dictionary'), dict(cur)
        d = {n: default.get(n) for n in cur}
        d['Vcb'] = cur['Vcb']
        return ADict({'Vcb': cur['Vcb'], 'm_b': Poly.real('mb')}, own='the parameters dictionary'), d

    def run(fn, C, par, what):
        del log[:]
        it.effects.clear()
        f = it.get('wilson.translate.smeft.' + fn)
        try:
            # 'default': as WC.translate calls it
            r = it.call(f, [C], {'parameters': None, 'sectors': None} if 'default' in what else {} if par is None else {'parameters': par})
        except RaiseSig as e:
            ctx.obl('total', what, False, 'raises %s' % e, TFILE + ':' + fn)
            return None
        ctx.obl('input-unchanged', what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], TFILE + ':' + fn)
        if not isinstance(r, ADict):
            raise NoAnswer('%s returns %r' % (fn, r))
        return r

    def ckm_args(fn, what, want):
        for d in log:
            ctx.obl('ckm-input', what, all(same_num(d.get(n), want[n]) for n in want),
                    '%s builds the CKM matrix from %s' % (fn, d), TFILE + ':' + fn, sample='%s %s' % (fn, what))
        ctx.obl('ckm-input', what + ' used', bool(log), '%s does not compute the CKM matrix' % fn, TFILE + ':' + fn)

    def arrays(C):
        r = it.call(it.getattr_(util, 'wcxf2arrays_symmetrized'), [ADict(dict(C.d))], {})
        return {k: v for k, v in r.d.items()}

    def rot_up(k, a, m):
        """rotate the q indices of array a of operator k with q = m q'"""
        f = fields(k)
        if not f:
            return a
        dims = (3,) * len(f)
        cur_ = dict(zip(itertools.product(range(3), repeat=len(f)), [Poly.lift(norm(x)) for x in a.vals()]))
        for pos, x in enumerate(f):
            if x[0] != 'q':
                continue
            new = {}
            for idx in cur_:
                t = Poly()
                for j in range(3):
                    c = Poly.lift(m[j][idx[pos]])
                    if x.endswith('~'):
                        c = c.conj()
                    t = t + c * cur_[idx[:pos] + (j,) + idx[pos + 1:]]
                new[idx] = t
            cur_ = new
        return Arr.new([cur_[i] for i in itertools.product(range(3), repeat=len(f))], dims)
    for fn, m in (('warsaw_to_warsaw_up', Vd), ('warsaw_up_to_warsaw', Vm)):
        for kind in ('default', 'partial', 'full'):
            par, want = pars(kind)
            C = wcdict([k for k in spec.smeft_basis() if k.split('_')[0] in ('uphi', 'phiq1', 'G')])
            r = run(fn, C, par, kind + ' parameters')
            if r is not None:
                ckm_args(fn, kind + ' parameters', want)
        C = wcdict()
        r = run(fn, C, None, '%s of all coefficients' % fn)
        if r is None:
            continue
        a = arrays(C)
        want = it.call(it.getattr_(util, 'arrays2wcxf_nonred'), [ADict({op: rot_up(op, x, m) for op, x in a.items()})], {}).d
        got = r.d
        ctx.obl('keys', '%s' % fn, set(got) == set(want), 'coefficients %s' % (sorted(set(got) ^ set(want))[:5],),
                TFILE + ':' + fn)
        for n in want:
            if n not in got:
                continue
            if not is_num(norm(got[n])):
                raise NoAnswer('%s of %s not evaluated' % (n, fn))
            ctx.obl('basis-change', '%s %s' % (fn, n), same_num(got[n], want[n]),
                    '%s: %s is not the coefficient in the target basis (q fields related by the CKM matrix)' % (fn, n),
                    TFILE + ':' + fn, sample='%s %s' % (fn, n))
    # the rotation relates the two weak bases as defined by the SM mass matrices
    # Warsaw mass
    s = []

    def msvd(it, a, k):
        s.append(a[0])
        return (Arr.full((3, 3), Poly.cplx('ul')), Arr.new([Poly.real('nu%d' % i) for i in range(3)], (3,)), Arr.full((3, 3), Poly.cplx('ur')))
    it.models['ckmutil.diag.msvd'] = msvd
    fn = 'warsaw_to_warsawmass'
    for kind in ('default', 'partial', 'full'):
        par, want = pars(kind)
        C = wcdict()
        r = run(fn, C, par, fn + ' ' + kind)
        if r is None:
            continue
        ckm_args(fn, fn + ' ' + kind, want)
        a = arrays(C)
        ctx.obl('neutrino-mass', kind, any(isinstance(x, Arr) and all(same_num(p, q) for p, q in zip(x.vals(), a['llphiphi'].vals())) for x in s),
                'the singular values are not those of C_llphiphi', TFILE + ':' + fn)
        for n in spec.smeft_basis():
            op, _, ind = n.partition('_')
            if op in ('uphi', 'uG', 'uW', 'uB'):
                i, j = int(ind[0]) - 1, int(ind[1]) - 1
                w = sum((Poly.lift(Vm[i][q]) * Poly.cplx('%s_%d%d' % (op, q + 1, j + 1)) for q in range(3)), Poly())
            elif op == 'llphiphi':
                w = Poly.real('nu%d' % (int(ind[0]) - 1)) if ind[0] == ind[1] else Poly()
            else:
                w = C.d[n]
            g = r.d.get(n)
            ctx.obl('mass-basis', '%s %s' % (kind, n), g is not None and same_num(g, w), '%s becomes %r instead of %r' % (n, g, w), TFILE + ':' + fn)
        extra = [n for n in r.d if n not in spec.smeft_basis() and not n.startswith('llphiphi')]
        ctx.obl('keys', fn, not extra, 'unknown coefficients %s' % extra[:4], TFILE + ':' + fn)
        C = wcdict(['phiq1_12', 'uphi_11'])
        r = run(fn, C, par, fn + ' partial input')
        if r is not None:
            ok = same_num(r.d.get('phiq1_12'), Poly.cplx('phiq1_12')) and not any(
                not same_num(r.d[n], 0) for n in r.d if n.split('_')[0] in ('uG', 'uW', 'uB', 'dphi', 'qq1'))
            ctx.obl('mass-basis', fn + ' partial input', ok, 'absent coefficients do not stay zero', TFILE + ':' + fn)
