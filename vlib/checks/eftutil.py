"""E-series: tensor representation of Wilson coefficients."""
import itertools
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, lagr
from ..num import Poly

FILE = 'wilson/util/common.py'
UTILS = (('SMEFT', 'wilson.util.smeftutil'), ('WET', 'wilson.util.wetutil'))


def setup(ctx):
    it = base.make(REPO, mode='arr')
    base.generic_position(it)
    it.load('wilson.util')
    ctx.use(FILE, 'wilson/util/__init__.py')
    return it


def basis(eft):
    if eft == 'SMEFT':
        return spec.smeft_basis()
    return {k: v for s in spec.jms_sectors(REPO).values() for k, v in s.items()}


def sym(k, real):
    return Poly.real(k) if real else Poly.cplx(k)


def run(ctx, it, u, name, args, what):
    try:
        return it.call(it.getattr_(u, name), args, {})
    except RaiseSig as e:
        ctx.obl('evaluates', '%s %s' % (what, name), False, '%s raises %s' % (name, e), FILE + ':' + name)
        return None


def enum(d):
    D = ADict(d, own='the input dictionary')
    D.enum = True
    return D


def elements(v, dims):
    """index -> abstract value of a coefficient array (None: wrong shape)"""
    if not dims:
        if isinstance(v, Arr):
            return {(): v.vals()[0]} if len(v.vals()) == 1 else None
        return {(): v}
    if not isinstance(v, Arr) or tuple(v.shape) != tuple(dims):
        return None
    return dict(zip(itertools.product(*[range(d) for d in dims]), v.vals()))


def P(x):
    try:
        return Poly.lift(norm(x)) if not isinstance(x, Poly) else x
    except Exception:
        return None


def read(ctx, r, op, dims, rule, eft):
    if not isinstance(r, ADict) or not r.has(op):
        ctx.obl(rule, '%s %s' % (eft, op), False, 'operator %s is missing from the result' % op, FILE)
        return None
    e = elements(r.get(op), dims)
    if e is None:
        ctx.obl(rule, '%s %s' % (eft, op), False, '%s has shape %s instead of %s' % (
            op, getattr(r.get(op), 'shape', '()'), dims), FILE)
        return None
    e = {k: P(v) for k, v in e.items()}
    if any(v is None for v in e.values()):
        raise NoAnswer('element of %s not in the scalar domain' % op)
    return e


def show(p):
    s = repr(p)
    return s if len(s) < 90 else s[:90] + '..'


def represented(cls, terms, real):
    """coefficient of the non-redundant operator: the sum of all equivalent
    entries; for the symmetric matrix (class 9) the convention of the package is
    that the coefficient is the matrix element itself"""
    tot = Poly()
    for v, (c, s) in terms:
        if real or c == 0:
            tot = tot + v * s
            if cls == 9:
                break
    return tot


def check_array(ctx, eft, op, e, dims, cls, coef, fn):
    """`e` represents sum coef(name)*O_name with the redundancies of cls"""
    if cls == 0:
        c = coef(op)
        ctx.obl('lagrangian', '%s %s' % (eft, op), e[()] == c, '%s becomes %s' % (op, show(e[()])), FILE + ':' + fn,
                sample='%s %s' % (eft, op))
        return
    if cls == 8:
        for l in range(dims[3]):
            acc = {}
            for i in itertools.product(range(3), repeat=3):
                for rep, f in lagr.REL8[i].items():
                    acc[rep] = acc.get(rep, Poly()) + e[i + (l,)] * f
            for rep in spec.qqql_reps():
                n = spec.wcname(op, rep + (l,))
                ctx.obl('lagrangian', '%s %s' % (eft, n), acc.get(rep, Poly()) == coef(n),
                        'the array represents %s * O_%s, the dictionary says %s' % (
                            show(acc.get(rep)), n, show(coef(n))), FILE + ':' + fn, sample=n)
            for p, r, s in itertools.product(range(3), repeat=3):
                lhs = e[(p, r, s, l)] + e[(r, p, s, l)] - e[(s, p, r, l)] - e[(s, r, p, l)]
                ctx.obl('symmetry', '%s %s_%d%d%d%d' % (eft, op, p + 1, r + 1, s + 1, l + 1), lhs.is_zero(),
                        'C_prst + C_rpst - C_sprt - C_srpt = %s' % show(lhs), FILE + ':' + fn)
        return
    for orb, rep, real, zero in lagr.orbits(dims, cls):
        n = spec.wcname(op, rep)
        if zero:
            for i in orb:
                ctx.obl('symmetry', '%s %s' % (eft, spec.wcname(op, i)), e[i].is_zero(),
                        '%s must vanish, is %s' % (spec.wcname(op, i), show(e[i])), FILE + ':' + fn)
            continue
        for i, how in orb.items():
            c, s = sorted(how)[0]
            want = (e[rep].conj() if c else e[rep]) * s
            ctx.obl('symmetry', '%s %s' % (eft, spec.wcname(op, i)), e[i] == want,
                    '%s = %s but symmetry with %s requires %s' % (spec.wcname(op, i), show(e[i]), n, show(want)),
                    FILE + ':' + fn)
        tot = represented(cls, [(e[i], sorted(how)[0]) for i, how in orb.items()], real)
        ctx.obl('lagrangian', '%s %s' % (eft, n), tot == coef(n),
                'the array represents %s * O_%s, the dictionary says %s' % (show(tot), n, show(coef(n))),
                FILE + ':' + fn, sample=n)


@prop('E01', 'proof', 'abstract interpretation with exact linear forms in the coefficients: the array produced from a '
      'generic WCxf dictionary represents the same Lagrangian and has the operator symmetries')
def e01(ctx):
    it = setup(ctx)
    for eft, mod in UTILS:
        u = it.get(mod)
        b = basis(eft)
        d = {k: sym(k, v.get('real')) for k, v in b.items()}
        r = run(ctx, it, u, 'wcxf2arrays_symmetrized', [enum(dict(d))], eft)
        if r is None:
            continue
        for op, (dims, cls) in lagr.ops(eft, REPO).items():
            e = read(ctx, r, op, dims, 'coverage', eft)
            if e is not None:
                check_array(ctx, eft, op, e, dims, cls, lambda n: d[n], 'wcxf2arrays_symmetrized')
        # an empty dictionary means vanishing coefficients
        r = run(ctx, it, u, 'wcxf2arrays_symmetrized', [enum({})], eft)
        if r is not None:
            for op, (dims, cls) in lagr.ops(eft, REPO).items():
                e = read(ctx, r, op, dims, 'coverage', eft)
                if e is not None:
                    ctx.obl('missing-is-zero', '%s %s' % (eft, op), all(v.is_zero() for v in e.values()),
                            'coefficients that are not given are not zero', FILE + ':add_missing')
    finish(ctx, it)


def finish(ctx, it):
    for x in it.issues:
        ctx.obl('well-formed', str(x)[:200], False, str(x), FILE)
    for x in it.effects:
        if 'input' in str(x):
            ctx.obl('input-unchanged', str(x)[:200], False, str(x), FILE)


def symmetric_arrays(eft):
    """generic arrays that have the operator symmetries, + the dictionary they represent"""
    C, d = {}, {}
    for op, (dims, cls) in lagr.ops(eft, REPO).items():
        if cls == 0:
            C[op] = Poly.real('a_' + op)
            d[op] = C[op]
            continue
        e = {}
        if cls == 8:
            rel = {i: lagr.REL8[i] for i in lagr.REL8}
            for l in range(dims[3]):
                for i in itertools.product(range(3), repeat=3):
                    v = Poly()
                    for rep, f in rel[i].items():
                        v = v + Poly.cplx('a_' + spec.wcname(op, rep + (l,))) * f
                    e[i + (l,)] = v
                acc = {}
                for i in itertools.product(range(3), repeat=3):
                    for rep, f in rel[i].items():
                        acc[rep] = acc.get(rep, Poly()) + e[i + (l,)] * f
                for rep, v in acc.items():
                    d[spec.wcname(op, rep + (l,))] = v
        else:
            for orb, rep, real, zero in lagr.orbits(dims, cls):
                x = Poly() if zero else sym('a_' + spec.wcname(op, rep), real)
                terms = []
                for i, how in orb.items():
                    c, s = sorted(how)[0]
                    e[i] = (x.conj() if c else x) * s
                    terms.append((e[i], (c, s)))
                if not zero:
                    d[spec.wcname(op, rep)] = represented(cls, terms, real)
        C[op] = Arr.new([e[i] for i in itertools.product(*[range(x) for x in dims])], dims)
    return C, d


@prop('E02', 'proof', 'abstract interpretation with exact linear forms: non-redundant coefficients extracted from generic '
      'symmetric arrays, compared with the Lagrangian of the arrays; both round trips compose to the identity')
def e02(ctx):
    it = setup(ctx)
    for eft, mod in UTILS:
        u = it.get(mod)
        C, want = symmetric_arrays(eft)
        r = run(ctx, it, u, 'arrays2wcxf_nonred', [enum(dict(C))], eft)
        if r is None:
            continue
        compare_dict(ctx, eft, r, want, 'extraction', 'arrays2wcxf_nonred')
        # arrays -> dictionary -> arrays
        r2 = run(ctx, it, u, 'wcxf2arrays_symmetrized', [r], eft)
        if r2 is not None:
            for op, (dims, cls) in lagr.ops(eft, REPO).items():
                e = read(ctx, r2, op, dims, 'round-trip', eft)
                if e is None:
                    continue
                e0 = {k: P(v) for k, v in elements(C[op], dims).items()}
                for i in e:
                    ctx.obl('round-trip', '%s array %s' % (eft, spec.wcname(op, i)), e[i] == e0[i],
                            '%s becomes %s' % (show(e0[i]), show(e[i])), FILE)
        # dictionary -> arrays -> dictionary
        b = basis(eft)
        d = {k: sym(k, v.get('real')) for k, v in b.items()}
        r = run(ctx, it, u, 'wcxf2arrays_symmetrized', [enum(dict(d))], eft)
        if r is not None:
            r = run(ctx, it, u, 'arrays2wcxf_nonred', [r], eft)
            if r is not None:
                compare_dict(ctx, eft, r, d, 'round-trip', 'arrays2wcxf_nonred')
    finish(ctx, it)


def compare_dict(ctx, eft, r, want, rule, fn, files=FILE):
    got = {k: P(v) for k, v in r.d.items()}
    for n, w in want.items():
        g = got.get(n)
        ctx.obl(rule, '%s %s' % (eft, n), g is not None and g == w,
                '%s: %s instead of %s' % (n, 'missing' if g is None else show(g), show(w)), files + ':' + fn, sample=n)
    for n in sorted(set(got) - set(want)):
        ctx.obl(rule, '%s %s' % (eft, n), False, 'unexpected coefficient %s = %s' % (n, show(got[n])), files + ':' + fn)


@prop('E03', 'proof', 'abstract interpretation with exact linear forms: symmetrisation of fully generic arrays is a '
      'projection onto the declared symmetry that keeps the non-redundant entries')
def e03(ctx):
    it = setup(ctx)
    for eft, mod in UTILS:
        u = it.get(mod)
        gen = {}
        for op, (dims, cls) in lagr.ops(eft, REPO).items():
            if not dims:
                gen[op] = Poly.cplx('g_' + op)
            else:
                # entries that vanish identically by antisymmetry are zero in any input
                null = set() if cls == 8 else {i for orb, _, _, z in lagr.orbits(dims, cls) if z for i in orb}
                gen[op] = Arr.new([Poly() if i in null else Poly.cplx('g_' + spec.wcname(op, i))
                                   for i in itertools.product(*[range(x) for x in dims])], dims)
        copies = {k: list(v.vals()) for k, v in gen.items() if isinstance(v, Arr)}
        if True:
            # scalars enter as 0-d arrays / numbers
            r = run(ctx, it, u, 'symmetrize', [enum(dict(gen))], eft)
            if r is None:
                continue
            first = {}
            for op, (dims, cls) in lagr.ops(eft, REPO).items():
                e = read(ctx, r, op, dims, 'coverage', eft)
                if e is None:
                    continue
                first[op] = e
                if cls == 0:
                    ctx.obl('projection', '%s %s' % (eft, op), e[()] == Poly.cplx('g_' + op).re(),
                            'scalar %s becomes %s' % (op, show(e[()])), FILE + ':symmetrize')
                    continue
                if cls == 8:
                    for l in range(dims[3]):
                        for rep in spec.qqql_reps():
                            n = spec.wcname(op, rep + (l,))
                            ctx.obl('keeps', '%s %s' % (eft, n), e[rep + (l,)] == Poly.cplx('g_' + n),
                                    '%s becomes %s' % (n, show(e[rep + (l,)])), FILE + ':symmetrize')
                        for p, r_, s in itertools.product(range(3), repeat=3):
                            lhs = e[(p, r_, s, l)] + e[(r_, p, s, l)] - e[(s, p, r_, l)] - e[(s, r_, p, l)]
                            ctx.obl('symmetry', '%s %s_%d%d%d%d' % (eft, op, p + 1, r_ + 1, s + 1, l + 1),
                                    lhs.is_zero(), 'C_prst + C_rpst - C_sprt - C_srpt = %s' % show(lhs),
                                    FILE + ':symmetrize')
                    continue
                for orb, rep, real, zero in lagr.orbits(dims, cls):
                    n = spec.wcname(op, rep)
                    x = Poly() if zero else Poly.cplx('g_' + n)
                    if real:
                        x = x.re()
                    for i, how in orb.items():
                        c, s = sorted(how)[0]
                        w = (x.conj() if c else x) * s
                        ctx.obl('projection', '%s %s' % (eft, spec.wcname(op, i)), e[i] == w,
                                '%s becomes %s, expected %s' % (spec.wcname(op, i), show(e[i]), show(w)),
                                FILE + ':symmetrize', sample='%s %s' % (eft, spec.wcname(op, i)))
            for op in gen:
                v = gen[op]
                dims = lagr.ops(eft, REPO)[op][0]
                if isinstance(v, Arr):
                    ok = v.vals() == copies[op]
                    ctx.obl('input-unchanged', '%s %s' % (eft, op), ok, 'the input array is modified',
                            FILE + ':symmetrize')
    finish(ctx, it)


@prop('E04', 'proof', 'abstract interpretation: flattening to the integration vector and back compose to the identity in '
      'both directions; the vector order equals the order of the beta function entries')
def e04(ctx):
    it = setup(ctx)
    for eft, mod in UTILS:
        u = it.get(mod)
        keys = it.getattr_(u, 'C_keys')
        shapes = it.getattr_(u, 'C_keys_shape')
        opd = lagr.ops(eft, REPO)
        C = {}
        names = [x for x in it.iterate(keys)]
        total = 0
        for k in names:
            s = shapes.get(k)
            s = None if isinstance(s, (int, Poly)) else tuple(s)
            if k in opd and opd[k][0]:
                ctx.obl('shape', '%s %s' % (eft, k), s == opd[k][0], 'shape of %s is %s instead of %s' % (k, s, opd[k][0]),
                        FILE)
            elif k in opd:
                ctx.obl('shape', '%s %s' % (eft, k), s is None, 'shape of scalar %s is %s' % (k, s), FILE)
            if s is None:
                C[k] = Poly.cplx('x_' + k)
                total += 1
            else:
                idx = list(itertools.product(*[range(x) for x in s]))
                C[k] = Arr.new([Poly.cplx('x_%s_%s' % (k, ''.join(map(str, i)))) for i in idx], s)
                total += len(idx)
        for k in opd:
            ctx.obl('coverage', '%s %s' % (eft, k), k in C, 'operator %s is not part of the vector' % k, FILE)
        a = run(ctx, it, u, 'C_dict2array', [enum(dict(C))], eft)
        if a is None:
            continue
        ok = isinstance(a, Arr) and len(a.vals()) == total
        ctx.obl('length', eft, ok, 'vector of length %s instead of %s' % (
            len(a.vals()) if isinstance(a, Arr) else '?', total), FILE + ':C_dict2array')
        d = run(ctx, it, u, 'C_array2dict', [a], eft)
        if d is None:
            continue
        for k, v in C.items():
            w = d.d.get(k)
            x = v.vals() if isinstance(v, Arr) else [v]
            y = (w.vals() if isinstance(w, Arr) else [w]) if w is not None else []
            ctx.obl('inverse', '%s %s' % (eft, k), len(x) == len(y) and all(P(p) == P(q) for p, q in zip(x, y)) and
                    (not isinstance(v, Arr) or (isinstance(w, Arr) and w.shape == v.shape)),
                    '%s changes in dict -> array -> dict' % k, FILE + ':C_array2dict', sample='%s %s' % (eft, k))
        # vector -> dict -> vector
        v0 = [Poly.cplx('y%d' % i) for i in range(total)]
        d = run(ctx, it, u, 'C_array2dict', [Arr.new(list(v0), (total,))], eft)
        if d is not None:
            a = run(ctx, it, u, 'C_dict2array', [d], eft)
            if a is not None:
                w = a.vals() if isinstance(a, Arr) else []
                bad = [i for i in range(min(total, len(w))) if P(w[i]) != v0[i]]
                ctx.obl('inverse', '%s vector' % eft, len(w) == total and not bad,
                        'component %s changes in array -> dict -> array' % (bad[:1] or 'count'), FILE + ':C_dict2array')
        # dictionary order must not matter
        rev = enum({k: C[k] for k in reversed(list(C))})
        a2 = run(ctx, it, u, 'C_dict2array', [rev], eft)
        if a2 is not None and isinstance(a, Arr):
            a1 = run(ctx, it, u, 'C_dict2array', [enum(dict(C))], eft)
            x, y = a1.vals(), a2.vals() if isinstance(a2, Arr) else []
            ctx.obl('order', eft, len(x) == len(y) and all(P(p) == P(q) for p, q in zip(x, y)),
                    'the vector depends on the insertion order of the dictionary', FILE + ':C_dict2array')
    finish(ctx, it)
