"""R-series: the SMEFT renormalisation group equations."""
from ..core import prop, NoAnswer
from ..interp import RaiseSig, Top, Unsupported
from .. import spec, tn
from ..num import Poly
from ..tn import TN, simplify_deltas
from .. import smeft_rge as S

FILE = 'wilson/run/smeft/beta.py'
_cache = {}


def beta(ctx, newphys=True):
    from ..core import REPO
    k = newphys
    if k not in _cache:
        try:
            _cache[k] = S.Beta(REPO, newphys)
        except RaiseSig as e:
            ctx.obl('evaluates', 'beta', False, 'evaluation of the beta function raises %s' % e, FILE)
            raise NoAnswer('beta cannot be evaluated')
    b = _cache[k]
    ctx.use(FILE + ':beta')
    for k_, v in b.bad.items():
        if isinstance(v, Top) and v.why == 'division by tensor':
            ctx.obl('well-formed', 'division in %s' % k_, False, 'the running of %s divides by a coefficient or Yukawa matrix' % k_, where(k_))
    for k_, v in b.bad.items():
        raise NoAnswer('entry %s of the beta function is not in the tensor domain: %r' % (k_, v))
    for i in b.issues:
        ctx.obl('well-formed', str(i)[:160], False, str(i), FILE)
    return b


def where(k):
    return '%s: beta()[%r]' % (FILE, k)


def present(ctx, b):
    ok = True
    for k in S.KEYS:
        if k not in b.out:
            ctx.obl('coverage', k, False, 'beta() returns no entry for %s' % k, where(k))
            ok = False
    return [k for k in S.KEYS if k in b.out]


def cov_problem(key, F):
    outs, fac = key
    pos = {}
    if len(outs) != len(F):
        return 'result has %d flavour indices, the operator has %d' % (len(outs), len(F))
    for x, t in zip(outs, F):
        if x in pos:
            return 'two free indices are identified (diagonal extraction)'
        pos[x] = t
    ends = {}
    for l, s, j in fac:
        if s == 'δ':
            continue
        if s.startswith('κ'):
            return 'contraction with a fixed numerical matrix'
        for x, t in zip(l, S.fields(s)):
            ends.setdefault(x, []).append(S.bar(t) if j else t)
    for x, t in ends.items():
        if x in pos:
            if len(t) != 1:
                return 'free index %s also summed' % x
            if t[0] != pos[x]:
                return 'free index of type %s carries an index of type %s' % (pos[x], t[0])
        elif len(t) != 2:
            return 'an index of type %s is contracted %d times' % (t[0], len(t))
        elif t[0] != S.bar(t[1]):
            return 'an index of type %s is contracted with one of type %s' % (t[0], t[1])
    dl = set()
    for l, s, j in fac:
        if s == 'δ':
            a, b = l
            if a not in pos or b not in pos or pos[a] != S.bar(pos[b]):
                return 'flavour-universal term joins indices of different fields'
            dl |= {a, b}
    for x in pos:
        if x not in ends and x not in dl:
            return 'free index of type %s is unconstrained' % pos[x]
    return None


@prop('R01', 'proof', 'abstract interpretation of the beta function over a tensor-network domain; every index '
      'contraction is type-checked against the flavour representation of its tensor')
def r01(ctx):
    b = beta(ctx)
    for k in present(ctx, b):
        F = S.fields(k)
        for key, c in b.can(k).items():
            p = cov_problem(key, F)
            ctx.obl('covariance', k + ' ' + tn.term_str(key), p is None,
                    '%s: term %s * (%s)' % (p, repr(c)[:120], tn.term_str(key)), where(k),
                    sample='%s <- %s * (%s)' % (k, repr(c)[:80], tn.term_str(key)))


# generators of the symmetry groups
GENS = {2: [((1, 0), 1, 1)], 9: [((1, 0), 0, 1)],
        4: [((2, 3, 0, 1), 0, 1), ((1, 0, 3, 2), 1, 1)],
        5: [((1, 0, 3, 2), 1, 1)],
        6: [((2, 3, 0, 1), 0, 1), ((1, 0, 3, 2), 1, 1), ((2, 1, 0, 3), 0, 1)],
        7: [((1, 0, 2, 3), 0, 1)]}


@prop('R02', 'proof', 'abstract interpretation over a tensor-network domain; for each declared symmetry of an operator '
      'the transformed and original normal forms must coincide')
def r02(ctx):
    b = beta(ctx)
    for k in present(ctx, b):
        v = b.out[k]
        if k in spec.SMEFT_YUK:
            continue
        F = S.fields(k)
        if v.rank != len(F):
            ctx.obl('rank', k, False, 'rank %d instead of %d' % (v.rank, len(F)), where(k))
            continue
        if not F:
            d = S.canon(v.terms + (-(v.conj())).terms)
            ctx.obl('real', k, not d, 'the running of a real coefficient acquires an imaginary part: ' + first(d),
                    where(k), sample=k)
            continue
        if k == 'qqql':
            res = S.canon(apply_perm_sum(v.terms, S.QQQL_R))
            structs(ctx, 'flavour-relation', k, res, 'C_prst + C_rpst = C_sprt + C_srpt is not preserved')
            continue
        cl = S.cls(k)
        for p, cf, s in GENS.get(cl, ()):
            w = v.transpose(p)
            if cf:
                w = w.conj()
            if s == -1:
                w = -w
            d = S.canon(v.terms + (-w).terms)
            name = '%s %s%s' % ('conj ' if cf else '', ''.join('prst'[i] for i in p[:len(F)]), '')
            structs(ctx, 'symmetry', '%s %s' % (k, name.strip()), d,
                    'the symmetry C_%s = %sC_%s is not preserved' % ('prst'[:len(F)], '(conj) ' if cf else '',
                                                                     ''.join('prst'[i] for i in p)))


def first(d):
    for k, v in d.items():
        return '%s * (%s)' % (repr(v)[:120], tn.term_str(k))
    return ''


def structs(ctx, rule, construct, d, msg):
    """one obligation per residual tensor structure (none: one discharged)"""
    k = construct.split()[0]
    if not d:
        ctx.obl(rule, construct, True, sample=construct)
        return
    for key, c in d.items():
        ctx.obl(rule, '%s: %s' % (construct, tn.term_str(key)), False,
                '%s: residual %s * (%s)' % (msg, repr(c)[:120], tn.term_str(key)), where(k))


def apply_perm_sum(terms, R):
    out = []
    for c, f, o in terms:
        for g, v in R.items():
            o2 = [None] * 4
            for x in range(3):
                o2[g[x]] = o[x]
            o2[3] = o[3]
            out.append((c * v, f, tuple(o2)))
    return out


@prop('R03', 'proof', 'abstract interpretation over a tensor-network domain with Gaussian-rational coefficients; '
      'reality pattern of every coefficient')
def r03(ctx):
    b = beta(ctx)
    odd = set(spec.SMEFT_0F_CPODD)
    for k in present(ctx, b):
        for key, p in b.can(k).items():
            for m, (re, im) in p.t.items():
                n = (k in odd) + sum(int(e) for x, e in m if x[1] in odd)
                ok = (im == 0) if n % 2 == 0 else (re == 0)
                ctx.obl('cp', '%s: %s * %s' % (k, mono(m), tn.term_str(key)), ok,
                        'coefficient (%s, %si) of %s * (%s) breaks CP covariance' % (re, im, mono(m), tn.term_str(key)),
                        where(k), sample='%s: %s * %s' % (k, mono(m), tn.term_str(key)))


def mono(m):
    return '*'.join('%s^%s' % (x[1], e) if e != 1 else str(x[1]) for x, e in m) or '1'


def weight(k):
    if k in ('g', 'gp', 'gs', 'Gu', 'Gd', 'Ge'):
        return 1
    if k == 'Lambda':
        return 2
    if k in ('m2', 'HIGHSCALE'):
        return 0
    if k in ('G', 'W', 'Gtilde', 'Wtilde'):
        return 1
    if k == 'phi':
        return 4
    if k in ('uphi', 'dphi', 'ephi'):
        return 3
    return 2


@prop('R04', 'proof', 'abstract interpretation over a tensor-network domain; homogeneity (field-number and mass-dimension '
      'grading) of every monomial')
def r04(ctx):
    b = beta(ctx)
    for k in present(ctx, b):
        dim6 = k not in spec.SMEFT_DIM4
        for key, p in b.can(k).items():
            outs, fac = key
            wt = sum(2 if s == 'X_qqql' else weight(s) for l, s, j in fac if s != 'δ')
            nC = sum(1 for l, s, j in fac if s not in ('δ',) and s not in spec.SMEFT_YUK)
            for m, c in p.t.items():
                tot = wt + sum(weight(x[1]) * e for x, e in m if x[0] == 'r')
                n = nC + sum(e for x, e in m if x[1] in spec.SMEFT)
                nm = sum(e for x, e in m if x[1] == 'm2')
                lab = '%s: %s * %s' % (k, mono(m), tn.term_str(key))
                ctx.obl('coupling-order', lab, tot == weight(k) + 2,
                        'term %s has coupling order %s, the one-loop running of %s requires %s'
                        % (lab, tot, k, weight(k) + 2), where(k), sample=lab)
                if dim6:
                    ctx.obl('linearity', lab, n == 1 and nm == 0,
                            'term %s has degree %s in the Wilson coefficients and %s in m2' % (lab, n, nm), where(k))
                else:
                    e = 1 if k == 'm2' else 0
                    ctx.obl('linearity', lab, n in (0, 1) and nm == n + e,
                            'term %s has degree %s in the Wilson coefficients and %s in m2' % (lab, n, nm), where(k))


# ------------------------------------------------------------------ duality
DUAL = {'phiG': 'phiGtilde', 'phiW': 'phiWtilde', 'phiB': 'phiBtilde', 'phiWB': 'phiWtildeB', 'G': 'Gtilde',
        'W': 'Wtilde'}
TL = {v: k for k, v in DUAL.items()}
HOL = ['uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'eW', 'eB']
I = Poly.const(0, 1)


@prop('R05', 'proof', 'abstract interpretation over a tensor-network domain; equivariance of the normal forms under the '
      'dual rotation of field strengths')
def r05(ctx):
    b = beta(ctx)

    def fn(x):
        if x[0] == 'r' and x[1] in DUAL:
            return Poly.real(DUAL[x[1]])
        if x[0] == 'r' and x[1] in TL:
            return -Poly.real(TL[x[1]])
        if x[0] == 'r' and x[1] in spec.SMEFT:
            return Poly()

    def dmap(terms):
        res = []
        for c, f, o in terms:
            c = c.subs(fn)
            if any(s in spec.SMEFT and s not in HOL for s, j, l in f):
                continue
            for s, j, l in f:
                if s in HOL:
                    c = c * (I if j else -I)
            if not c.is_zero():
                res.append((c, f, o))
        return res

    def restrict(terms):
        res = []
        for c, f, o in terms:
            c = c.subs(lambda x: Poly() if x[0] == 'r' and x[1] in spec.SMEFT and x[1] not in DUAL and x[1] not in TL
                       else None)
            if any(s in spec.SMEFT and s not in HOL for s, j, l in f) or c.is_zero():
                continue
            res.append((c, f, o))
        return res
    have = present(ctx, b)
    for k in list(DUAL) + list(TL) + HOL:
        if k not in have or DUAL.get(k, k) not in have or TL.get(k, k) not in have:
            continue
        lhs = dmap(b.out[k].terms)
        if k in DUAL:
            rhs = b.out[DUAL[k]]
        elif k in TL:
            rhs = -b.out[TL[k]]
        else:
            rhs = b.out[k].scale(-I)
        ctx.count('terms', len(lhs))
        d = S.canon(lhs + [(-c, f, o) for c, f, o in restrict(rhs.terms)])
        structs(ctx, 'duality', k, d, 'the dual pair does not run alike')


# ------------------------------------------------------------- isospin mirror
ZERO = {'Ge', 'ephi', 'eW', 'eB', 'ledq', 'lequ1', 'lequ3', 'qque', 'duue', 'llphiphi'}
MIR = {}
SC = {'phiWB': -1, 'phiWtildeB': -1}


def _pair(a, b, perm=None, sg=1):
    n = len(S.fields(a))
    MIR[a] = (b, perm or tuple(range(n)), 0, sg)
    MIR[b] = (a, perm or tuple(range(n)), 0, sg)


for _a, _b in (('Gu', 'Gd'), ('uphi', 'dphi'), ('uG', 'dG'), ('uW', 'dW'), ('uB', 'dB'), ('uu', 'dd'), ('eu', 'ed'),
               ('lu', 'ld'), ('qu1', 'qd1'), ('qu8', 'qd8')):
    _pair(_a, _b)
_pair('phiu', 'phid', sg=-1)
for _k in ('phiq1', 'phil1', 'phie'):
    MIR[_k] = (_k, (0, 1), 0, -1)
MIR['phiud'] = ('phiud', (1, 0), 1, 1)
for _k in ('ud1', 'ud8', 'quqd1', 'quqd8'):
    MIR[_k] = (_k, (2, 3, 0, 1), 0, 1)
MIR['duql'] = ('duql', (1, 0, 2, 3), 0, 1)


@prop('R06', 'proof', 'abstract interpretation over a tensor-network domain; equivariance of the normal forms under the '
      'exchange of up- and down-type right-handed quarks')
def r06(ctx):
    b = beta(ctx)
    nogp = lambda c: c.subs(lambda x: Poly() if x[1] == 'gp' else None)

    def mp(terms):
        res = []
        for c, f, o in terms:
            if any(s in ZERO for s, j, l in f):
                continue
            c = c.subs(lambda x: Poly() if x[1] == 'gp' else (Poly.real(x[1]) * SC[x[1]] if x[1] in SC else None))
            nf = []
            for s, j, l in f:
                if s in MIR:
                    t, p, cf, sg = MIR[s]
                    c = c * sg
                    nf.append((t, j ^ cf, tuple(l[i] for i in p)))
                else:
                    nf.append((s, j, l))
            if not c.is_zero():
                res.append((c, tuple(nf), o))
        return res

    have = present(ctx, b)
    for k in have:
        if k in ZERO or k == 'gp':
            continue
        t, p, cf, sg = MIR.get(k, (k, tuple(range(len(S.fields(k)))), 0, SC.get(k, 1)))
        if t not in have or b.out[k].rank != len(p) or b.out[t].rank != len(p):
            continue
        lhs = mp(b.out[k].terms)
        r = []
        for c, f, o in b.out[t].terms:
            if any(s in ZERO for s, j, l in f):
                continue
            c = nogp(c)
            if not c.is_zero():
                r.append((c, f, o))
        rhs = TN(b.out[t].rank, r).transpose(p).scale(sg)
        if cf:
            rhs = rhs.conj()
        ctx.count('terms', len(lhs))
        d = S.canon(lhs + (-rhs).terms)
        structs(ctx, 'mirror', k, d, 'not the mirror image of the running of %s' % t)


# ------------------------------------------------------------------ interface
def cache_keys(ctx):
    """arrays used as cache keys compare equal only if all elements are equal"""
    from ..core import REPO
    from .. import base
    from ..interp import AClass, Arr
    it = base.make(REPO, mode='arr')
    it.load('wilson.run.smeft.beta')
    m = it.load('wilson.run.smeft.beta')
    for name, c in sorted(m.env.v.items()):
        if not isinstance(c, AClass) or not c.find('__eq__') or not c.find('__hash__'):
            continue
        eq = c.find('__eq__')
        for shape in ((3, 3), (3, 3, 3, 3)):
            n = 3 ** len(shape)
            v = [Poly.const(i + 1, -i) for i in range(n)]
            r = it.call(eq, [Arr.new(list(v), shape), Arr.new(list(v), shape)], {})
            ctx.obl('cache-key', '%s %s equal' % (name, shape), r is True, 'equal arrays compare as %r' % (r,), FILE)
            for i in (range(n) if n < 10 else (0, 1, 29, 53, n - 1)):
                for d in (Poly.const(1), Poly.const(0, 1)):
                    w = list(v)
                    w[i] = w[i] + d
                    r = it.call(eq, [Arr.new(list(v), shape), Arr.new(w, shape)], {})
                    if r is not True and r is not False:
                        raise NoAnswer('%s.__eq__ is not decided' % name)
                    ctx.obl('cache-key', '%s %s element %d' % (name, shape, i), r is False,
                            'arrays that differ in element %d compare equal: the cache returns results of another input'
                            % i, FILE + ':' + name)


def sm_part(terms):
    out = []
    for c, f, o in terms:
        if not any(s in spec.SMEFT for s, j, l in f):
            c = c.subs(lambda x: Poly() if x[1] in spec.SMEFT else None)
            if not c.is_zero():
                out.append((c, f, o))
    return out


@prop('R07', 'proof', 'abstract interpretation of beta() with newphys on and off, effect analysis of the inputs and of '
      'cached intermediate arrays; order of the entries against the integration vector')
def r07(ctx):
    b = beta(ctx)
    n = beta(ctx, False)
    ctx.use(FILE + ':beta_array', 'wilson/util/common.py', 'wilson/util/__init__.py')
    for label, x in (('newphys=True', b), ('newphys=False', n)):
        for e in x.effects:
            ctx.obl('purity', '%s %s %s' % (label, e[0], e[3] if len(e) > 3 else ''), False,
                    '%s modifies %s in place (line %s)' % (e[3] if len(e) > 3 else 'beta', e[0], e[2]), FILE)
        ctx.obl('purity', label, not x.effects, 'beta() has side effects', FILE, sample=label)
    for k in S.KEYS:
        ctx.obl('coverage', k, k in b.out, 'no beta function for %s' % k, where(k), sample=k)
        if k not in b.out:
            continue
        ctx.obl('rank', k, b.out[k].rank == len(S.fields(k)), 'rank %d' % b.out[k].rank, where(k))
    for k in b.out:
        ctx.obl('coverage', 'extra ' + k, k in S.KEYS, 'beta() returns the unknown entry %s' % k, where(k))
    # dim-4 switch
    for k in S.KEYS:
        if k in n.bad or k not in n.out:
            ctx.obl('switch', k, k in n.out, 'beta(newphys=False) lacks %s' % k, where(k))
            continue
        if k in spec.SMEFT_DIM4:
            d = S.canon(sm_part(b.out[k].terms) + [(-c, f, o) for c, f, o in sm_part(n.out[k].terms)])
            structs(ctx, 'switch', k, d, 'newphys=False differs from the Standard Model part of the full running')
        else:
            z = all(c.is_zero() for c, f, o in n.out[k].terms)
            ctx.obl('switch', k, z, 'newphys=False gives a non-zero running for %s' % k, where(k), sample=k)
    cache_keys(ctx)
    # order
    it = b.it
    u = it.get('wilson.util.smeftutil')
    keys = [x for x in it.iterate(it.getattr_(u, 'C_keys'))]
    for lab, x in (('newphys=True', b), ('newphys=False', n)):
        got = list(x.res.d)
        ctx.obl('order', lab, got == keys, 'the entries of beta() are not in the order of the integration vector: %s' % (
            next((str((i, p, q)) for i, (p, q) in enumerate(zip(got, keys)) if p != q), str((len(got), len(keys))))),
            FILE + ':beta_array')


def reference_table(b):
    t = {}
    for k in S.KEYS:
        for key, c in b.can(k).items():
            t['%s: %s' % (k, tn.term_str(key))] = c
    return t


@prop('R08', 'translation_validation', 'abstract interpretation of the beta function over a tensor-network domain; every '
      'coefficient of the normal form is compared with a reference table of the one-loop RGEs')
def r08(ctx):
    from .. import ref
    b = beta(ctx)
    present(ctx, b)
    ref.compare(ctx, 'reference', 'smeft_beta', reference_table(b) if not b.bad and set(S.KEYS) <= set(b.out) else {},
                lambda k: where(k.split(':')[0]))
