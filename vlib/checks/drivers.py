"""H-series: the RG evolution drivers and the top-level Wilson class."""
import itertools
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
import ast
from ..interp import *
from .. import base, spec, libmodel
from ..num import Poly, evalf, equal

RGE = 'wilson/run/smeft/rge.py'
CLS = 'wilson/run/smeft/classes.py'
PAR = 'wilson/run/smeft/smpar.py'
SI, SO = Poly.real('scale_in'), Poly.real('scale_out')
PI = libmodel.PI


def log(it, x):
    return Poly.lift(libmodel.s_log(it, x))


def shape(k):
    n = len(spec.SMEFT_YUK[k]) if k in spec.SMEFT_YUK else len(spec.SMEFT[k][0]) if k in spec.SMEFT else 0
    return (3,) * n


KEYS = list(spec.SMEFT_DIM4) + list(spec.SMEFT)


def number(v):
    v = norm(v)
    if isinstance(v, (Top, Alt)):
        raise NoAnswer('a result is not determined: %r' % (v,))
    return Poly.lift(v) if is_num(v) else None


def coefs(prefix, keys=KEYS, own=None):
    """dictionary of fully symbolic coefficient arrays"""
    d = {}
    for k in keys:
        s = shape(k)
        if s:
            d[k] = Arr.new([Poly.cplx('%s_%s%s' % (prefix, k, ''.join(map(str, i)))) for i in itertools.product(range(3), repeat=len(s))], s)
            d[k].own = own and '%s[%r]' % (own, k)
        else:
            d[k] = Poly.cplx('%s_%s' % (prefix, k))
    return ADict(d, own=own)


def elems(v, s):
    if s:
        return [number(x) for x in v.vals()] if isinstance(v, Arr) and tuple(v.shape) == s else None
    if isinstance(v, Arr) and len(v.vals()) == 1:
        v = v.vals()[0]
    return [number(v)] if is_num(norm(v)) else None


def same_coefs(got, want, keys=KEYS):
    """first differing key or None"""
    for k in keys:
        a, b = got.get(k) if got.has(k) else None, want.get(k)
        x, y = elems(a, shape(k)), elems(b, shape(k))
        if x is None or any(q is None for q in x):
            return '%s is %r' % (k, a)
        for p, q in zip(x, y):
            if not equal(p, q):
                return '%s: %r instead of %r' % (k, p, q)
    return None


class BetaStub:
    """the beta function replaced by an opaque vector; remembers its arguments"""

    def __init__(self, it):
        self.calls = []
        f = it.get('wilson.run.smeft.beta.beta')
        if not isinstance(f, AFunc):
            raise NoAnswer('wilson.run.smeft.beta.beta not found')

        def hook(it, args, kw):
            b = it.bind_args(f, args, kw)
            if isinstance(b.get('C'), ADict):
                b['C'] = ADict({k: Arr.new(v.vals(), v.shape) if isinstance(v, Arr) else v for k, v in b['C'].d.items()})
            self.calls.append(b)
            return coefs('B')
        it.call_hooks[f.qual] = hook


class Ivp:
    """scipy.integrate.solve_ivp as an opaque exact solver: column t of the
    solution is the symbol vector y@t"""

    def __init__(self, it):
        self.it = it
        self.calls = []
        self.times = []
        it.models['scipy.integrate.solve_ivp'] = self.model

    def tid(self, t):
        t = number(t)
        if t is None:
            raise NoAnswer('solution evaluated at an unknown point')
        for i, x in enumerate(self.times):
            if equal(x, t):
                return i
        self.times.append(t)
        return len(self.times) - 1

    def column(self, t, n):
        i = self.tid(t)
        r = Arr.new([Poly.real('y@%d#%d' % (i, j)) for j in range(n)], (n,))
        r.buf.dt = 'f'
        return r

    def model(self, it, a, k):
        names = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']
        b = dict(zip(names, a))
        b.update(k)
        self.calls.append(b)
        ts = it.iterate(b.get('t_span')) if b.get('t_span') is not None else None
        if ts is None or len(ts) != 2:
            raise NoAnswer('t_span not understood')
        b['ts'] = [number(x) for x in ts]
        y0 = b.get('y0')
        if not isinstance(y0, Arr) or y0.ndim != 1:
            raise NoAnswer('y0 not understood: %r' % (y0,))
        n = len(y0.vals())
        b['n'] = n
        te = b.get('t_eval')
        if te is not None:
            cols = it.iterate(te)
        else:
            cols = [b['ts'][0], (b['ts'][0] + b['ts'][1]) * Fraction(1, 3), b['ts'][1]]
        cs = [self.column(t, n).vals() for t in cols]
        y = Arr.new([c[i] for i in range(n) for c in cs], (n, len(cs)))
        y.buf.dt = 'f'
        sol = AObj('@sol', {'@call': lambda it, a, k: self.column(a[0], n)}) if b.get('dense_output') is True else None
        return AObj('@ivp', {'y': y, 't': Arr.new(list(cols), (len(cols),)), 'sol': sol, 'success': True, 'status': 0,
                             'message': 'ok'})


def cdict(it, vec, n):
    """dictionary of coefficients from the 2N vector of real numbers"""
    v = vec.vals()
    c = [v[2 * i] + Poly.const(0, 1) * v[2 * i + 1] for i in range(n // 2)]
    u = it.get('wilson.util.smeftutil')
    return it.call(it.getattr_(u, 'C_array2dict'), [Arr.new(c, (len(c),))], {})


def solution_dict(it, vec, n):
    """the non-redundant coefficients and SM parameters in WCxf convention
    represented by the solution vector"""
    u = it.get('wilson.util.smeftutil')
    d = it.call(it.getattr_(u, 'unscale_dict'), [cdict(it, vec, n)], {})
    d = it.call(it.getattr_(u, 'arrays2wcxf'), [d], {})
    keys = set(it.iterate(it.getattr_(u, 'all_wcs')))
    r = {k: number(v) for k, v in d.d.items() if k in keys or k.split('_')[0] in spec.SMEFT_DIM4}
    miss = [k for k in keys if k not in r]
    if miss or not all(k in r for k in ('g', 'gp', 'gs', 'm2', 'Lambda', 'Gu_11')):
        raise NoAnswer('arrays2wcxf does not list %s' % miss[:3])
    return r


def fresh(ctx):
    it = base.make(REPO, mode='arr')
    it.load('wilson')
    it.universal_bases = False
    base.generic_position(it)
    return it


def newphys_of(b):
    if isinstance(b.get('newphys'), (Top, Alt)):
        raise NoAnswer('the flag newphys is not determined')
    return b.get('newphys')


# paths are selected at points of four orderings of the scales
POINTS = [({'scale_in': 1000.0, 'scale_out': 91.1876, 'scale': 200.0}, 'down'), ({'scale_in': 91.1876, 'scale_out': 1000.0, 'scale': 200.0}, 'up'),
          ({'scale_in': 1e15, 'scale_out': 91.1876, 'scale': 1e4}, 'far down'), ({'scale_in': 91.1876, 'scale_out': 1e15, 'scale': 1e4}, 'far up')]


@prop('H01', 'proof', 'abstract interpretation of the RGE drivers with an opaque beta function and an opaque ODE solver')
def h01(ctx):
    ctx.use(RGE, 'wilson/run/smeft/beta.py', 'wilson/util/common.py')
    it = fresh(ctx)
    B = BetaStub(it)
    V = Ivp(it)
    bvals = coefs('B')
    unit = Poly.const(1) / (PI * PI * 16)
    L = log(it, SO) - log(it, SI)
    old = it.compare

    def at(env):
        it.compare = old
        at_point(it, env)
    # ---- leading logarithm
    f = it.get('wilson.run.smeft.rge.smeft_evolve_leadinglog')
    W = RGE + ':smeft_evolve_leadinglog'
    for flag, (env, order) in itertools.product((None, True, False), POINTS):
        at(env)
        del B.calls[:]
        it.effects.clear()
        C = coefs('C', own='the input dictionary')
        what = 'leading log newphys=%s %s' % (flag, order)
        try:
            r = it.call(f, [C, SI, SO], {} if flag is None else {'newphys': flag})
        except RaiseSig as e:
            ctx.obl('total', what, False, 'raises %s' % e, W)
            continue
        ctx.obl('input-unchanged', what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W)
        if not isinstance(r, ADict):
            raise NoAnswer('%s returns %r' % (what, r))
        ctx.obl('keys', what, set(r.d) == set(KEYS), 'keys %s' % sorted(set(r.d) ^ set(KEYS))[:4], W)
        alias = [k for k in KEYS if isinstance(r.d.get(k), Arr) and r.d[k].buf is C.d[k].buf] + ([1] if r is C else [])
        ctx.obl('no-alias', what, not alias, 'the result shares memory with the input (%s)' % alias[:3], W)
        ok = len(B.calls) >= 1 and all(newphys_of(b) is (flag is not False) for b in B.calls)
        ctx.obl('new-physics-flag', what, ok, 'the beta function is called with newphys=%s' % [newphys_of(b) for b in B.calls], W)
        bad = [same_coefs(b['C'], C) for b in B.calls]
        ctx.obl('beta-argument', what, not any(bad), 'beta is evaluated at other coefficients: %s' % bad[:1], W)
        n = 0
        for k in KEYS:
            g = elems(r.d.get(k), shape(k))
            c, b = elems(C.get(k), shape(k)), elems(bvals.get(k), shape(k))
            ok = g is not None and all(x is not None and equal(x, p + q * unit * L) for x, p, q in zip(g, c, b))
            ctx.obl('leading-log', '%s %s' % (what, k), ok, '%s is not C + beta/(16 pi^2) ln(mu_out/mu_in): %r' % (k, g and g[0]), W,
                    sample='%s %s' % (what, k))
    # ---- integration
    W = RGE + ':_smeft_evolve'
    calls = [('smeft_evolve', {}, None), ('smeft_evolve', {}, True), ('smeft_evolve', {}, False),
             ('smeft_evolve', {'rtol': Poly.real('rtol'), 'atol': Poly.real('atol')}, None),
             ('smeft_evolve', {'method': 'BDF', 'max_step': Poly.real('ms')}, False),
             ('smeft_evolve_continuous', {}, None), ('smeft_evolve_continuous', {}, False),
             ('smeft_evolve_continuous', {}, True), ('smeft_evolve', {}, False), ('smeft_evolve', {}, None), ('smeft_evolve', {}, True),
             ('smeft_evolve_continuous', {'rtol': Poly.real('rtol')}, None)]
    if ctx.tier == 'quick':
        calls = calls[:8] + calls[-1:]
    for (name, extra, flag), (env, order) in zip(calls, itertools.cycle(POINTS)):
        at(env)
        f = it.get('wilson.run.smeft.rge.' + name)
        what = '%s newphys=%s %s %s' % (name, flag, sorted(extra), order)
        del B.calls[:], V.calls[:]
        it.effects.clear()
        C = coefs('C', own='the input dictionary')
        try:
            r = it.call(f, [C, SI, SO], dict(extra, **({} if flag is None else {'newphys': flag})))
        except RaiseSig as e:
            ctx.obl('total', what, False, 'raises %s' % e, W)
            continue
        ctx.obl('input-unchanged', what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W)
        ctx.obl('solver-called', what, len(V.calls) == 1, 'the ODE solver is called %d times' % len(V.calls), W)
        if len(V.calls) != 1:
            continue
        b = V.calls[0]
        t0, t1 = b['ts']
        n = b['n']
        for q, v in extra.items():
            got = b.get(q)
            ctx.obl('solver-options', '%s %s' % (what, q), got is not None and (got == v if isinstance(v, str) else number(got) is not None and equal(number(got), v)),
                    'the option %s reaches the solver as %r' % (q, got), W)
        lim = {'rtol': Fraction(1, 1000), 'atol': Fraction(1, 10 ** 6)}
        for q in b:
            if q in ('fun', 't_span', 'y0', 'ts', 'n', 't_eval', 'vectorized') or q in extra:
                continue
            if q == 'dense_output':
                continue
            v = norm(b[q])
            ok = q in lim and isinstance(v, (int, Fraction)) and v <= lim[q] or q == 'method' and v in ('RK45', 'DOP853', 'Radau', 'BDF', 'LSODA')
            ctx.obl('solver-options', '%s unasked %s' % (what, q), ok, 'the solver is given %s=%r although the caller did not ask for it' % (q, v), W)
        # initial condition
        y0 = [number(x) for x in b['y0'].vals()]
        c = cdict(it, b['y0'], n)
        bad = same_coefs(c, C)
        ctx.obl('initial-condition', what, bad is None, 'the initial vector does not represent the input: %s' % bad, W, sample=what)
        # right-hand side
        tt = Poly.real('t')
        Y = V.column(Poly.real('t_any'), n)
        try:
            rhs = it.call(b['fun'], [tt, Y], {})
        except RaiseSig as e:
            ctx.obl('total', what + ' rhs', False, 'the right-hand side raises %s' % e, W)
            continue
        if not isinstance(rhs, Arr) or len(rhs.vals()) != n:
            ctx.obl('right-hand-side', what, False, 'the right-hand side is %r for %d unknowns' % (rhs, n), W)
            continue
        ok = len(B.calls) == 1 and newphys_of(B.calls[0]) is (flag is not False)
        ctx.obl('new-physics-flag', what, ok, 'the beta function is called with newphys=%s' % [newphys_of(x) for x in B.calls], W)
        if B.calls:
            bad = same_coefs(B.calls[0]['C'], cdict(it, Y, n))
            ctx.obl('beta-argument', what, bad is None, 'beta is not evaluated at the current coefficients: %s' % bad, W)
        rc = cdict(it, rhs, n)
        kappa = None
        d = {}
        for k in KEYS:
            g = elems(rc.get(k), shape(k))
            bb = elems(bvals.get(k), shape(k))
            if kappa is None:
                kappa = g[0] / bb[0]
                kappa = Poly.lift(norm(kappa))
                if kappa.atoms(True) - {('r', 'pi')} and not equal(g[0], bb[0] * unit):
                    # not a plain multiple
                    ctx.obl('right-hand-side', '%s %s' % (what, k), False, 'd%s/dt is %r' % (k, g[0]), W)
                    kappa = unit
            ok = all(equal(x, y * kappa) for x, y in zip(g, bb))
            ctx.obl('right-hand-side', '%s %s' % (what, k), ok, 'd%s/dt = %r is not beta_%s times a common factor' % (k, g[0], k), W)
        ok = equal((t1 - t0) * kappa, L * unit)
        ctx.obl('scale-interval', what, ok, 'the evolution over %r..%r with dC/dt = %r beta is not dC/dln(mu) = beta/(16 pi^2) from scale_in to scale_out'
                % (t0, t1, kappa), W, sample=what)
        # result
        if name == 'smeft_evolve':
            ok = isinstance(r, ADict) and set(r.d) == set(KEYS)
            bad = same_coefs(r, cdict(it, V.column(t1, n), n)) if ok else 'keys'
            ctx.obl('final-value', what, bad is None, 'the result is not the solution at scale_out: %s' % bad, RGE + ':' + name, sample=what)
            continue
        for s in (Poly.real('scale'), SO, SI):
            t = t0 + (log(it, s) - log(it, SI)) * unit / kappa
            want = solution_dict(it, V.column(t, n), n)
            try:
                got = it.call(r, [s], {})
            except RaiseSig as e:
                ctx.obl('total', what + ' interpolation', False, 'raises %s' % e, RGE + ':' + name)
                continue
            if isinstance(got, ADict):
                bad = ['%s is %s' % (q, 'missing' if not got.has(q) else repr(got.get(q))) for q in want
                       if not got.has(q) or number(got.get(q)) is None or not equal(number(got.get(q)), want[q])][:3]
            else:
                bad = [repr(got)]
            ctx.obl('interpolation', '%s at %r' % (what, s), not bad, 'the interpolated solution differs: %s' % bad, RGE + ':' + name, sample=what)
        pts = [Poly.real('s1'), Poly.real('s2'), Poly.real('s3')]
        got = it.call(r, [Arr.new(pts, (3,))], {})
        vs = it.iterate(got)
        ok = vs is not None and len(vs) == 3 and all(isinstance(x, ADict) for x in vs)
        if ok:
            for s, x in zip(pts, vs):
                t = t0 + (log(it, s) - log(it, SI)) * unit / kappa
                col = solution_dict(it, V.column(t, n), n)
                ok = ok and all(x.has(q) and equal(number(x.get(q)), col[q]) for q in ('gp', 'phiq1_12', 'Gu_33', 'G', 'll_1122'))
        ctx.obl('interpolation', what + ' array of scales', ok, 'a vector of scales gives %r' % (vs,), RGE + ':' + name)


# ---------------------------------------------------------------- SM parameters
def at_point(it, env, seed=0):
    """decide comparisons by the value of both sides at one generic point of
    the physical region (path selection only; results stay symbolic)"""
    old = it.compare

    def num(v):
        v = norm(v)
        if is_num(v) and not isinstance(v, (libmodel.TN,)):
            return evalf(Poly.lift(v), env, seed=seed)
        return None

    def compare(op, a, b):
        r = old(op, a, b)
        if r is not None:
            return r
        x, y = num(a), num(b)
        if x is None or y is None:
            return None
        if isinstance(op, ast.Eq):
            return abs(x - y) < 1e-12 * (abs(x) + abs(y))
        if isinstance(op, ast.NotEq):
            return not abs(x - y) < 1e-12 * (abs(x) + abs(y))
        if abs(x.imag) > 1e-9 * abs(x) or abs(y.imag) > 1e-9 * abs(y):
            return None
        x, y = x.real, y.real
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}.get(type(op).__name__)
    it.compare = compare

    def sign_of(v):
        if not v.conj() == v:
            return None
        x = num(v)
        return None if x is None or abs(x.imag) > 1e-9 * abs(x) else (x.real > 0) - (x.real < 0)
    it.sign_of = sign_of
    return old


WARSAW_SMALL = {'phi': 0.04, 'phiBox': 0.03, 'phiD': -0.05, 'phiWB': 0.02, 'phiB': 0.015, 'phiW': -0.012, 'phiG': 0.011}


def smenv(sign=1, v=1.1, Mh2=0.9, **kw):
    """a point of the physical region (units with v of order one)"""
    e = {'v': v, 'Mh2': Mh2}
    for k, x in WARSAW_SMALL.items():
        e['C_' + k] = x * sign
    e.update(kw)
    return e


def req(ctx, rule, what, got, want, where, env):
    got = number(got)
    ok = got is not None and equal(got, want, env=env)
    if got is None:
        raise NoAnswer('%s: %s is not a number' % (rule, what))
    ctx.obl(rule, what, ok, '%s is %r (%s), required %r (%s)' % (
        what, got, evalf(got, env), want, evalf(want, env)), where, sample=what)


@prop('H02', 'proof', 'abstract interpretation of the SM parameter extraction: symbolic inverse relations between parameters and observables')
def h02(ctx):
    ctx.use(PAR)
    it = fresh(ctx)
    mod = it.load('wilson.run.smeft.smpar').env.v
    old = it.compare
    real = lambda k: Poly.real('C_' + k)
    W = PAR
    half = Fraction(1, 2)

    def call(f, args, what, kw=None):
        try:
            return it.call(mod[f], args, kw or {})
        except RaiseSig as e:
            ctx.obl('total', '%s %s' % (f, what), False, '%s raises %s' % (f, e), W + ':' + f)
            return None

    # ---- Higgs potential: (m2, Lambda) <-> (v, Mh2)
    v, M = Poly.real('v'), Poly.real('Mh2')
    cases = [('C_phi > 0', smenv(1), real('phi')), ('C_phi < 0', smenv(-1), real('phi')), ('C_phi = 0', smenv(1), 0),
             ('C_phi > 0, heavy', smenv(1, Mh2=2.5, v=0.7), real('phi'))]
    for what, env, cphi in cases:
        it.compare = old
        at_point(it, env)
        C = ADict({'phi': cphi, 'phiBox': real('phiBox'), 'phiD': real('phiD')}, own='the coefficients')
        r = call('vMh2_to_m2Lambda', [v, M, C], what)
        if r is None:
            continue
        m2, lam = r.get('m2'), r.get('Lambda')
        # minimum and curvature of V = -m2 H^2 + Lambda/2 H^4 - C_phi H^6 with H^2 = h^2/2 and the
        # kinetic term (1 - 2 Ckin v^2)... : first-order conditions
        c = Poly.lift(cphi)
        kin = real('phiBox') - real('phiD') * Fraction(1, 4)
        req(ctx, 'minimum', what, number(m2), number(lam) * v * v * half - c * v ** 4 * Fraction(3, 4), W + ':vMh2_to_m2Lambda', env)
        req(ctx, 'higgs-mass', what, number(lam) * v * v - c * v ** 4 * 3, M * (Poly.const(1) - kin * v * v * 2),
            W + ':vMh2_to_m2Lambda', env)
        b = call('m2Lambda_to_vMh2', [m2, lam, C], what)
        if b is not None:
            req(ctx, 'inverse', what + ' v', b.get('v'), v, W + ':m2Lambda_to_vMh2', env)
            req(ctx, 'inverse', what + ' Mh2', b.get('Mh2'), M, W + ':m2Lambda_to_vMh2', env)
    # unphysical inputs are refused
    it.compare = old
    for what, args in (('v = 0', (0, 1)), ('v < 0', (-1, 1)), ('Mh2 = 0', (1, 0)), ('Mh2 < 0', (1, -2))):
        try:
            it.call(mod['vMh2_to_m2Lambda'], list(args) + [ADict({'phi': 0, 'phiBox': 0, 'phiD': 0})], {})
            ok = False
        except RaiseSig as e:
            ok = e.etype == 'ValueError'
        ctx.obl('refused', what, ok, 'vMh2_to_m2Lambda accepts %s' % what, W + ':vMh2_to_m2Lambda')
    F = Fraction
    for what, args, c in (('m2 < 0', (-1, F(1, 2)), (0, 0, 0)), ('Lambda < 0', (1, F(-1, 2)), (0, 0, 0)),
                          ('unbounded', (1, F(1, 2)), (F(1, 10), 0, 0)), ('Mh2 < 0', (1, F(1, 2)), (0, F(5), 0)),
                          ('C_phi < 0, m2 < 0', (-1, F(1, 2)), (F(-1, 10), 0, 0))):
        at_point(it, {})
        try:
            r = it.call(mod['m2Lambda_to_vMh2'], list(args) + [ADict(dict(zip(('phi', 'phiBox', 'phiD'), c)))], {})
            ok = False
        except RaiseSig as e:
            ok = e.etype == 'ValueError'
        ctx.obl('refused', what, ok, 'm2Lambda_to_vMh2 accepts %s' % what, W + ':m2Lambda_to_vMh2')
    # ---- parameters <-> observables
    p = mod.get('p')
    if not isinstance(p, ADict):
        raise NoAnswer('smpar.p is not a dictionary')
    names = list(p.d)
    obs = {k: Poly.real('sm_' + k) for k in names}
    env0 = dict(smenv(1), sm_GF=0.5, sm_alpha_e=0.05, sm_alpha_s=0.1, sm_m_W=0.4, sm_m_h=0.8, sm_m_Z=0.47)
    env0.update({'sm_m_u': .01, 'sm_m_c': .05, 'sm_m_t': .9, 'sm_m_d': .012, 'sm_m_s': .04, 'sm_m_b': .2,
                 'sm_m_e': .003, 'sm_m_mu': .03, 'sm_m_tau': .1, 'sm_gamma': 1.2})
    K = Arr.new([Poly.cplx('K%d%d' % (i + 1, j + 1)) for i in range(3) for j in range(3)], (3, 3))
    Kv = [[K.vals()[3 * i + j] for j in range(3)] for i in range(3)]
    ck = []

    def ckm(it, a, k):
        d = dict(zip(['Vus', 'Vub', 'Vcb', 'gamma'], a))
        d.update({('gamma' if q == 'delta' else q): x for q, x in k.items()})
        ck.append(d)
        return Arr.new(K.vals(), (3, 3))
    it.models['ckmutil.ckm.ckm_tree'] = ckm
    roots = []

    def brentq(it, a, k):
        roots.append((a[0], a[1:3]))
        return Poly.real('root')
    it.models['scipy.optimize.brentq'] = brentq
    for nm in ('scipy.optimize.newton', 'scipy.optimize.root_scalar', 'scipy.optimize.fsolve'):
        it.models.setdefault(nm, lambda it, a, k: it.top('root finder'))
    ph = []

    def phase(it, a, k):
        ph.append(a[0])
        return Poly.real('phase%d' % len(ph))
    for q in ('cmath.phase', 'numpy.angle'):
        it.models[q] = phase
    svd, tak = [], []
    diag = lambda *n: [[obs[n[i]] if i == j else 0 for j in range(3)] for i in range(3)]

    def close(m, w, env):
        try:
            return isinstance(m, Arr) and tuple(m.shape) == (3, 3) and all(
                number(x) is not None and equal(number(x), Poly.lift(norm(y)), env=env) for x, y in zip(m.vals(), sum(w, [])))
        except Exception:
            return False

    def run_pair(basis, wb, tag, env):
        it.compare = old
        at_point(it, env)
        del svd[:], tak[:], ph[:], roots[:], ck[:]
        for k in names:
            p.d[k] = obs[k]
        C = {}
        for k in spec.SMEFT:
            s = shape(k)
            C[k] = Arr.new([Poly.cplx('C_%s%d%d' % ((k,) + i)) for i in itertools.product(range(3), repeat=2)], s) if len(s) == 2 else \
                (real(k) if not s else None)
            if k == 'phiWB' and not wb:
                C[k] = 0
        Cd = ADict({k: x for k, x in C.items() if x is not None}, own='the coefficients')
        it.effects.clear()
        what = '%s %s' % (basis, tag)
        c = call('smeftpar', [Poly.real('scale'), Cd], what, {'basis': basis})
        if c is None:
            return
        ctx.obl('input-unchanged', 'smeftpar ' + what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W + ':smeftpar')
        ok = isinstance(c, ADict) and set(c.d) == set(spec.SMEFT_DIM4)
        ctx.obl('keys', 'smeftpar ' + what, ok, 'smeftpar returns %s' % (c,), W + ':smeftpar')
        if not ok:
            return
        ctx.obl('ckm-input', what, bool(ck) and all(number(d.get(q)) == obs[q] for d in ck for q in ('Vus', 'Vub', 'Vcb', 'gamma')),
                'the CKM matrix is built from %s' % ck, W + ':smeftpar')
        Kd = [[Kv[j][i].conj() for j in range(3)] for i in range(3)]
        U, D, E = diag('m_u', 'm_c', 'm_t'), diag('m_d', 'm_s', 'm_b'), diag('m_e', 'm_mu', 'm_tau')
        mm = lambda a, b: [[sum((Poly.lift(a[i][q]) * b[q][j] for q in range(3)), Poly()) for j in range(3)] for i in range(3)]
        if basis == 'Warsaw':
            Mu, Md = mm(Kd, U), D
        else:
            Mu, Md = U, mm(Kv, D)
        one = Arr.new([int(i == j) for i in range(3) for j in range(3)], (3, 3))
        arr = lambda m: Arr.new(sum(m, []), (3, 3))
        vec = lambda *n: Arr.new([obs[x] for x in n], (3,))
        table = [('u', Mu, arr(Kd) if basis == 'Warsaw' else one, vec('m_u', 'm_c', 'm_t')),
                 ('d', Md, arr(Kv) if basis != 'Warsaw' else one, vec('m_d', 'm_s', 'm_b')),
                 ('e', E, one, vec('m_e', 'm_mu', 'm_tau'))]

        def msvd(it, a, k):
            for n, m, UL, S in table:
                if close(a[0], m, env):
                    svd.append(n)
                    return (UL, S, one)
            svd.append('?')
            return (Arr.full((3, 3), Poly.cplx('any')), vec('m_t', 'm_b', 'm_tau'), one)
        it.models['ckmutil.diag.msvd'] = msvd
        it.models['ckmutil.diag.mtakfac'] = lambda it, a, k: (one, vec('m_e', 'm_mu', 'm_tau'))
        Cs = ADict(dict(Cd.d, **c.d), own='the coefficients')
        it.effects.clear()
        s = call('smpar', [Cs], what)
        if s is None:
            return
        ctx.obl('input-unchanged', 'smpar ' + what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W + ':smpar')
        ctx.obl('mass-matrices', what, sorted(svd) == ['d', 'e', 'u'],
                'smpar diagonalises %s: the effective mass matrices of smeftpar are not recovered' % svd, W + ':smpar', sample=what)
        X = lambda k: s.get(k) if isinstance(s, ADict) and s.has(k) else None
        miss = [k for k in names if X(k) is None]
        ctx.obl('keys', 'smpar ' + what, not miss, 'smpar does not return %s' % miss, W + ':smpar')
        if miss:
            return
        for k in names:
            if k in ('Vus', 'Vub', 'Vcb', 'gamma', 'm_Z', 'alpha_e'):
                continue
            req(ctx, 'observable-recovered', '%s %s' % (what, k), X(k), obs[k], W + ':smpar', env)
        k0 = {'Vus': (0, 1), 'Vub': (0, 2), 'Vcb': (1, 2)}
        for k, (i, j) in k0.items():
            got = number(X(k))
            ok = got is not None and equal(got * got, Kv[i][j] * Kv[i][j].conj(), env=env)
            ctx.obl('observable-recovered', '%s %s' % (what, k), ok, '%s is %r instead of |K_%d%d|' % (k, got, i + 1, j + 1), W + ':smpar')
        want = -Kv[0][0] * Kv[0][2].conj() / (Kv[1][0] * Kv[1][2].conj())
        g = number(X('gamma'))
        ok = any(g == Poly.real('phase%d' % (n + 1)) and positive_multiple(number(a), want, env) for n, a in enumerate(ph))
        ctx.obl('observable-recovered', what + ' gamma', ok, 'gamma is not arg(-V_ud V_ub^* / (V_cd V_cb^*))', W + ':smpar')
        e2 = number(X('alpha_e')) * PI * 4
        v_ = (Poly.const(1) / (obs['GF'] * Poly.const(2) ** half)) ** half
        gb = obs['m_W'] * 2 / v_
        if roots:
            f, (lo, hi) = roots[0]
            x = Poly.real('root')
            f0 = number(it.call(f, [x], {}))
            # at the root the relation between couplings and charge holds: eb(root)^2 = 4 pi alpha_e + O(f0)
            eb = (obs['alpha_e'] * PI * 4) ** half
            ok = equal(e2, (eb + f0) * (eb + f0), env=env) if f0 is not None else False
            ctx.obl('observable-recovered', what + ' alpha_e', ok, 'the equation solved for the hypercharge coupling does not reproduce alpha_e', W + ':get_gpbar')
            gpb = x
            ok = is_num(norm(lo)) and is_num(norm(hi)) and evalf(Poly.lift(norm(lo))).real <= 0.01 and evalf(Poly.lift(norm(hi))).real >= 1
            ctx.obl('root-bracket', what, ok, 'the root is searched in (%r, %r)' % (lo, hi), W + ':get_gpbar')
        else:
            req(ctx, 'observable-recovered', what + ' alpha_e', e2 / (PI * 4), obs['alpha_e'], W + ':smpar', env)
            eb2 = obs['alpha_e'] * PI * 4
            gpb = (eb2 * gb * gb / (gb * gb - eb2)) ** half
        eps = Poly.lift(norm(Cd.get('phiWB'))) * v_ * v_
        mz = v_ * half * (gb * gb + gpb * gpb) ** half * (Poly.const(1) + eps * gb * gpb / (gb * gb + gpb * gpb)) * \
            (Poly.const(1) + real('phiD') * v_ * v_ * Fraction(1, 4))
        req(ctx, 'observable-recovered', what + ' m_Z', X('m_Z'), mz, W + ':smpar', env)
    saved = dict(p.d)
    try:
        for basis in ('Warsaw', 'Warsaw up'):
            for wb, tag, env in ((True, 'generic', env0), (False, 'without C_phiWB', env0), (True, 'other signs', dict(env0, **{k: -x for k, x in env0.items() if k.startswith('C_')}))):
                run_pair(basis, wb, tag, env)
        it.compare = old
        at_point(it, env0)
        for k in names:
            p.d[k] = obs[k]
        for b in ('Higgs-Warsaw up', 'JMS', ''):
            try:
                it.call(mod['smeftpar'], [Poly.real('scale'), coefs('C')], {'basis': b})
                ok = False
            except RaiseSig as e:
                ok = e.etype == 'ValueError'
            ctx.obl('refused', 'basis %r' % b, ok, 'smeftpar accepts the basis %r' % b, W + ':smeftpar')
    finally:
        p.d.clear()
        p.d.update(saved)
    # default values: every observable is a positive finite number
    for k, x in saved.items():
        x = norm(x)
        ctx.obl('defaults', k, isinstance(x, (int, Fraction)) and x > 0, 'the default of %s is %r' % (k, x), W)


def positive_multiple(a, b, env):
    if a is None:
        return False
    for s in range(3):
        x, y = evalf(a, env, seed=s), evalf(b, env, seed=s)
        if y == 0 or x == 0:
            return False
        r = x / y
        if abs(r.imag) > 1e-9 * abs(r) or r.real <= 0:
            return False
    return True


# ---------------------------------------------------------------- SMEFT class
class Opaque:
    """uninterpreted functions on coefficient dictionaries: equal arguments give
    equal results, different arguments different ones"""

    def __init__(self, it):
        self.it = it
        self.ids = {}
        self.log = []

    def canon(self, v):
        v = norm(v)
        if isinstance(v, ADict):
            if v.lazy is not None and not getattr(v, 'enum', False):
                raise NoAnswer('opaque call with an unknown dictionary')
            return ('dict',) + tuple(sorted(((repr(k), self.canon(x)) for k, x in v.d.items()), key=lambda t: t[0]))
        if isinstance(v, Arr):
            return ('arr', v.shape) + tuple(self.canon(x) for x in v.vals())
        if isinstance(v, (AList, tuple)):
            return ('seq',) + tuple(self.canon(x) for x in (v.items if isinstance(v, AList) else v))
        if is_num(v):
            p = Poly.lift(v)
            return ('n', p.key())
        if isinstance(v, (Top, Alt)):
            raise NoAnswer('opaque call with an unknown argument: %r' % (v,))
        if isinstance(v, AObj):
            return ('obj', id(v))
        return ('v', repr(v))

    def ident(self, name, *args):
        k = (name,) + tuple(self.canon(a) for a in args)
        if k not in self.ids:
            self.ids[k] = '%s%d' % (name, len(self.ids))
        return self.ids[k]


def kwdict(d):
    return ADict({k: v for k, v in d.items()})


class SmeftWorld:
    """opaque RG evolution, SM parameter extraction and basis rotation"""

    def __init__(self, it):
        self.it = it
        self.op = Opaque(it)
        self.calls = []
        for name, keys in (('smeft_evolve', ('C_in', 'scale_in', 'scale_out', 'newphys')),
                           ('smeft_evolve_leadinglog', ('C_in', 'scale_in', 'scale_out', 'newphys')),
                           ('smeft_evolve_continuous', ('C_in', 'scale_in', 'scale_out', 'newphys'))):
            self.hook('wilson.run.smeft.rge.' + name, name)
        self.hook('wilson.run.smeft.smpar.smeftpar', 'smeftpar')
        self.hook('wilson.run.smeft.smpar.smpar', 'smpar')
        S = it.get('wilson.run.smeft.classes.SMEFT')
        self.S = S
        f = S.find('_rotate_defaultbasis')
        f = getattr(f, 'f', f)
        if isinstance(f, ABound):
            f = f.f
        q = getattr(f, 'qual', None)
        if q is None:
            raise NoAnswer('SMEFT._rotate_defaultbasis not found')
        it.call_hooks[q] = lambda it, a, k: self.rotate(a[-1] if a else k['C'])

    def hook(self, qual, name):
        f = self.it.get(qual)
        if not isinstance(f, AFunc):
            raise NoAnswer('%s not found' % qual)

        def h(it, args, kw):
            b = dict(it.bind_args(f, args, kw))
            extra = b.pop('kwargs', None)
            if isinstance(extra, ADict):
                b.update(extra.d)
            return getattr(self, name)(**b)
        self.it.call_hooks[f.qual] = h

    def snap(self, C):
        if not isinstance(C, ADict):
            raise NoAnswer('coefficients are %r' % (C,))
        return ADict({k: Arr.new(v.vals(), v.shape) if isinstance(v, Arr) else v for k, v in C.d.items()})

    def full(self, C, what):
        self.calls.append((what, self.snap(C)))

    def coefficients_only(self, C):
        return ADict({k: v for k, v in C.d.items()})

    def smeft_evolve(self, C_in, scale_in, scale_out, newphys=True, **kw):
        # numerical tolerances are part of the call, but do not distinguish results
        self.calls.append(('evolve', self.snap(C_in), scale_in, scale_out, newphys, kw))
        n = self.op.ident('E', self.snap(C_in), scale_in, scale_out, newphys)
        return coefs(n)

    def smeft_evolve_leadinglog(self, C_in, scale_in, scale_out, newphys=True):
        self.calls.append(('ll', self.snap(C_in), scale_in, scale_out, newphys, {}))
        return coefs(self.op.ident('L', self.snap(C_in), scale_in, scale_out, newphys))

    def smeft_evolve_continuous(self, C_in, scale_in, scale_out, newphys=True, **kw):
        self.calls.append(('cont', self.snap(C_in), scale_in, scale_out, newphys, kw))
        n = self.op.ident('F', self.snap(C_in), scale_in, scale_out, newphys)
        return AObj('@fun', {'id': n})

    def smeftpar(self, scale, C, basis):
        self.calls.append(('smeftpar', scale, basis))
        n = self.op.ident('P', self.wc_only(C), basis)
        return coefs(n, keys=list(spec.SMEFT_DIM4))

    def smpar(self, C):
        n = self.op.ident('O', self.snap(C))
        return ADict({'id': n})

    def rotate(self, C):
        return coefs(self.op.ident('R', self.snap(C)))

    def wc_only(self, C):
        return ADict({k: v for k, v in self.snap(C).d.items() if k not in spec.SMEFT_DIM4})


def expected_smpar(w, C0, scale_in, scale_sm):
    """SM parameters at scale_in: smeftpar at scale_sm (with leading-log estimates
    of the coefficients there), evolved with the SM RGEs, in the default basis"""
    z = lambda: {k: (Arr.full(shape(k), 0) if shape(k) else 0) for k in KEYS}

    def up(C):
        P = w.smeftpar(scale_sm, C, 'Warsaw')
        d = z()
        d.update(C.d)
        d.update(P.d)
        E = w.smeft_evolve(ADict(d), scale_sm, scale_in, False)
        R = w.rotate(E)
        return {k: R.d[k] for k in spec.SMEFT_DIM4}
    C1 = ADict(dict(C0.d, **up(C0)))
    L = w.smeft_evolve_leadinglog(C1, scale_in, scale_sm)
    return up(L)


@prop('H03', 'proof', 'abstract interpretation of the SMEFT class with uninterpreted evolution, extraction and rotation functions')
def h03(ctx):
    ctx.use(CLS)
    from .convert import wcobj
    it = fresh(ctx)
    w = SmeftWorld(it)
    W = CLS + ':SMEFT'
    u = it.get('wilson.util.smeftutil')
    S = w.S
    EW = Fraction('91.1876')

    def make(d, kw=None, eft='SMEFT', basis='Warsaw', scale=SI):
        wc = wcobj(it, eft, basis, scale, d)
        wc.attrs['values'].own = 'the input coefficients'
        return wc, it.call(S, [wc], kw or {})

    def padded(wc):
        r = it.call(it.getattr_(u, 'wcxf2arrays_symmetrized'), [it.getattr_(wc, 'dict')], {})
        d = {k: v for k, v in r.d.items() if k not in spec.SMEFT_DIM4}
        for k in spec.SMEFT:
            if k not in d:
                d[k] = Arr.full(shape(k), 0) if shape(k) else 0
        return ADict(d)
    names = spec.smeft_basis()
    sets = {'empty': {}, 'one scalar': {'phiG': Poly.real('phiG')},
            'some': {k: Poly.cplx(k) if not names[k].get('real') else Poly.real(k) for k in ('phiq1_12', 'uphi_33', 'll_1122', 'phiWB', 'qqql_1111')},
            'all': {k: Poly.cplx(k) if not v.get('real') else Poly.real(k) for k, v in names.items()}}
    for eft, basis in (('WET', 'JMS'), ('WET', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('SMEFT', 'Higgs-Warsaw up'), ('SMEFT', 'Warsaw mass')):
        try:
            make({}, None, eft, basis)
            ok = False
        except RaiseSig as e:
            ok = e.etype == 'ValueError'
        ctx.obl('refused', '%s/%s' % (eft, basis), ok, 'SMEFT accepts coefficients in %s/%s' % (eft, basis), W + '._set_initial_wcxf')
    for what, d in sets.items():
        # without SM parameters
        it.effects.clear()
        try:
            wc, o = make(d, {'get_smpar': False})
            del w.calls[:]
            wc2, o2 = make(d)
        except RaiseSig as e:
            ctx.obl('total', what, False, 'raises %s' % e, W + '.__init__')
            continue
        ctx.obl('input-unchanged', what, not it.effects, '%s modified' % [e[0] for e in it.effects][:3], W)
        C = o.attrs.get('C_in')
        C0 = padded(wc)
        ok = isinstance(C, ADict) and set(C.d) == set(spec.SMEFT)
        ctx.obl('initial', what + ' keys', ok, 'initial coefficients %s' % (sorted(set(C.d) ^ set(spec.SMEFT))[:4] if isinstance(C, ADict) else C), W)
        if ok:
            bad = same_coefs(C, C0, list(spec.SMEFT))
            ctx.obl('initial', what, bad is None, 'initial coefficients differ from the input: %s' % bad, W, sample=what)
        ctx.obl('initial', what + ' scale', same_num2(o.attrs.get('scale_in'), SI), 'initial scale is %r' % o.attrs.get('scale_in'), W)
        want = dict(C0.d)
        want.update(expected_smpar(w, C0, SI, EW))
        C = o2.attrs.get('C_in')
        ok = isinstance(C, ADict) and set(C.d) == set(KEYS)
        ctx.obl('initial', what + ' keys with SM', ok, 'initial values %s' % (C,), W)
        if not ok:
            continue
        bad = same_coefs(C, ADict(want))
        ctx.obl('sm-parameters', what, bad is None,
                'the SM parameters at the input scale are not those extracted at the electroweak scale and run up: %s' % bad,
                W + '._get_sm_scale_in', sample=what)
        for c in w.calls:
            if c[0] == 'evolve' and c[4] is False:
                ok = all(q in ('rtol', 'atol', 'method') for q in c[5]) and not (is_num(norm(c[5].get('rtol', 0))) and evalf(Poly.lift(norm(c[5].get('rtol', 0)))).real > 0.0101)
                ctx.obl('sm-parameters', what + ' tolerance', ok, 'SM parameters evolved with %s' % c[5], W + '._run_sm_scale_in')
        # run
        for acc, kw in (('integrate', {}), (None, {}), ('leadinglog', {}), ('integrate', {'rtol': Poly.real('rt'), 'method': 'BDF'})):
            k2 = dict(kw)
            if acc:
                k2['accuracy'] = acc
            del w.calls[:]
            it.effects.clear()
            before = w.snap(C)
            try:
                r = it.call(it.getattr_(o2, 'run'), [SO], k2)
            except RaiseSig as e:
                ctx.obl('total', 'run %s %s' % (what, acc), False, 'raises %s' % e, W + '.run')
                continue
            tag = '%s accuracy=%s %s' % (what, acc, sorted(kw))
            calls = [c for c in w.calls]
            if kw:
                ok = len(calls) == 1 and all(c2 == kw.get(q) or (is_num(c2) and number(c2) == kw[q]) for q, c2 in calls[0][5].items() if q in kw) and set(kw) <= set(calls[0][5])
                ctx.obl('solver-options', tag, ok, 'solver options reach the evolution as %s' % [c[5] for c in calls], W + '.run')
            E = w.smeft_evolve(before, SI, SO) if acc != 'leadinglog' else w.smeft_evolve_leadinglog(before, SI, SO)
            want = it.call(it.getattr_(u, 'arrays2wcxf_nonred'), [w.rotate(E)], {})
            ok = isinstance(r, AObj) and [r.attrs.get(q) for q in ('eft', 'basis')] == ['SMEFT', 'Warsaw'] and same_num2(r.attrs.get('scale'), SO)
            ctx.obl('label', tag, ok, 'the result is labelled %s' % [r.attrs.get(q) for q in ('eft', 'basis', 'scale')] if isinstance(r, AObj) else repr(r), W + '.run')
            if not ok:
                continue
            got = it.getattr_(r, 'dict')
            wk = {k for k in want.d if k in names}
            bad = sorted(set(got.d) ^ wk)[:4] or [k for k in wk if number(got.d[k]) is None or not equal(number(got.d[k]), number(want.d[k]))][:4]
            ctx.obl('evolution', tag, not bad, 'the result is not the rotated solution at the output scale: %s' % bad, W + '.run', sample=tag)
            bad = same_coefs(o2.attrs['C_in'], before)
            ctx.obl('state-unchanged', tag, bad is None, 'run changes the initial values: %s' % bad, W + '.run')
        for acc in ('foo', 'leading-log', None):
            try:
                it.call(it.getattr_(o2, 'run'), [SO], {'accuracy': acc})
                ok = False
            except RaiseSig as e:
                ok = e.etype == 'ValueError'
            ctx.obl('refused', '%s accuracy %r' % (what, acc), ok, 'run accepts accuracy=%r' % acc, W + '.run')
            try:
                it.call(it.getattr_(o2, 'get_smpar'), [], {'accuracy': acc})
                ok = False
            except RaiseSig as e:
                ok = e.etype == 'ValueError'
            ctx.obl('refused', '%s get_smpar accuracy %r' % (what, acc), ok, 'get_smpar accepts accuracy=%r' % acc, W + '.get_smpar')
        for acc, s in (('integrate', None), ('leadinglog', None), ('integrate', Poly.real('sm_scale')), ('leadinglog', Poly.real('sm_scale'))):
            g = it.call(it.getattr_(o2, 'get_smpar'), [], dict({'accuracy': acc}, **({} if s is None else {'scale_sm': s})))
            sc = EW if s is None else s
            E = w.smeft_evolve(C, SI, sc) if acc == 'integrate' else w.smeft_evolve_leadinglog(C, SI, sc)
            ctx.obl('get-smpar', '%s %s %s' % (what, acc, s), isinstance(g, ADict) and g.get('id') == w.smpar(E).get('id'),
                    'get_smpar does not extract the parameters from the evolved solution', W + '.get_smpar')
    # no initial condition
    o = it.call(S, [None], {})
    for m, a in (('run', [SO]), ('get_smpar', [])):
        try:
            it.call(it.getattr_(o, m), a, {})
            ok = False
        except RaiseSig as e:
            ok = True
        ctx.obl('refused', 'uninitialised ' + m, ok, '%s runs without initial values' % m, W)
    # continuous solution
    wc, o = make(sets['some'])
    try:
        it.call(it.getattr_(o, 'run_continuous'), [SI], {})
        ok = False
    except RaiseSig as e:
        ok = e.etype == 'ValueError'
    ctx.obl('refused', 'run_continuous to the input scale', ok, 'accepted', W + '.run_continuous')
    RG = it.get('wilson.classes.RGsolution')
    for a, b in ((100, 1000), (1000, 100)):
        wc, o = make(sets['some'], scale=a)
        C = w.snap(o.attrs['C_in'])
        try:
            r = it.call(it.getattr_(o, 'run_continuous'), [b], {})
        except RaiseSig as e:
            ctx.obl('total', 'run_continuous %s->%s' % (a, b), False, 'raises %s' % e, W + '.run_continuous')
            continue
        f = r.attrs.get('fun') if isinstance(r, AObj) else None
        ctx.obl('continuous', '%s->%s solution' % (a, b), isinstance(f, AObj) and f.attrs.get('id') == w.smeft_evolve_continuous(C, a, b).attrs['id'],
                'the solution is not the continuous evolution from the initial values', W + '.run_continuous')
        lim = [norm(r.attrs.get(q)) for q in ('scale_min', 'scale_max')] if isinstance(r, AObj) else None
        ctx.obl('continuous', '%s->%s range' % (a, b), isinstance(r, AObj) and r.cls is RG and lim == [100, 1000], 'range %s' % lim, W + '.run_continuous')
    # two instances do not share state
    wc, a = make(sets['some'])
    wc, b = make(sets['empty'])
    ctx.obl('instances', 'independent', same_coefs(a.attrs['C_in'], padded(wcobj(it, 'SMEFT', 'Warsaw', SI, sets['some'])), list(spec.SMEFT)) is None,
            'creating a second instance changes the first', W)


def same_num2(a, b):
    a, b = number(a), number(b)
    return a is not None and b is not None and equal(a, b)
