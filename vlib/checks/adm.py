"""D-series: the anomalous dimension matrices of the WET."""
import itertools
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, ref
from ..num import Poly, equal

F = Fraction
FILE = 'wilson/run/wet/adm.py'
DEFS = 'wilson/run/wet/definitions.py'
MASSES = 'm_u m_d m_s m_c m_b m_e m_mu m_tau'.split()
UP, DOWN, LEP = ['m_u', 'm_c', 'm_t'], ['m_d', 'm_s', 'm_b'], ['m_e', 'm_mu', 'm_tau']
Q = {'u': F(2, 3), 'd': F(-1, 3), 'e': F(-1), 'n': F(0)}


def b0(f):
    return 11 - F(2 * f, 3)


def b0e(f):
    """one-loop QED beta function: leptons and quarks lighter than the threshold"""
    nu, nd, ne = {5: (2, 3, 3), 4: (2, 2, 3), 3: (1, 2, 2)}[f]
    return -F(4, 3) * (ne * Q['e'] ** 2 + 3 * nd * Q['d'] ** 2 + 3 * nu * Q['u'] ** 2)


def fields(op):
    """flavour letters of the indices of an operator"""
    f = spec.jms_fields(op)
    if op in spec.BNV_LEPTON:
        f = f + (spec.BNV_LEPTON[op],)
    return f


def split(n):
    op, _, ix = n.partition('_')
    return op, tuple(int(x) for x in ix)


def flavour(n):
    """flavour quantum numbers changed by the operator"""
    op, ix = split(n)
    d = {}
    for f, i in zip(fields(op) if ix else (), ix):
        k = f.rstrip('~') + str(i)
        d[k] = d.get(k, 0) + (-1 if f.endswith('~') else 1)
    return tuple(sorted((k, v) for k, v in d.items() if v))


def opposite(fl):
    return tuple((k, -v) for k, v in fl)


class Adm:
    """the anomalous dimensions by names of the operators"""

    def __init__(self, ctx):
        self.ctx = ctx
        it = self.it = base.make(REPO)
        it.load('wilson.run.wet.definitions')
        self.fn = it.load('wilson.run.wet.adm').env.v
        self.sectors = it.get('wilson.run.wet.definitions.sectors')
        self.coeffs = it.get('wilson.run.wet.definitions.coeffs')
        if not isinstance(self.sectors, ADict) or not isinstance(self.coeffs, ADict):
            raise NoAnswer('lists of sectors and coefficients not determined')
        ctx.use(FILE, DEFS, 'wilson/data/run_wet_definitions_coeffs.json')
        self.M = [Poly.real(m) for m in MASSES]
        self.cache = {}

    def names(self, s):
        v = self.it.iterate(self.coeffs.d[s]) if s in self.coeffs.d else None
        return None if v is None else list(v)

    def matrix(self, cls, kind, f):
        k = (cls, kind, f)
        if k not in self.cache:
            fn = self.fn.get('adm_%s_%s' % (kind, cls))
            if fn is None:
                self.cache[k] = None
            else:
                try:
                    r = self.it.call(fn, [f] + self.M, {})
                except RaiseSig as e:
                    self.ctx.obl('evaluates', 'adm_%s_%s' % (kind, cls), False, 'raises %s' % e, FILE)
                    r = None
                if isinstance(r, (Top, Alt)):
                    raise NoAnswer('adm_%s_%s is not determined' % (kind, cls))
                self.cache[k] = r if isinstance(r, Arr) else None
        return self.cache[k]

    def table(self, kind, f):
        """(from, to) -> entry, for the operators present with f flavours"""
        T = {}
        ctx = self.ctx
        for s, want in spec.jms_sectors(REPO, f).items():
            cls = self.sectors.d.get(s)
            l = self.names(s)
            if not ctx.obl('sector-assigned', s, cls is not None and l is not None, 'no class or list of coefficients for the sector', DEFS):
                continue
            if cls == 'inv':
                continue
            if not ctx.obl('coefficients-complete', s, not (set(want) - set(l)) and len(set(l)) == len(l),
                           'the evolution of %s lacks %s' % (s, sorted(set(want) - set(l))[:5]), DEFS):
                continue
            m = self.matrix(cls, kind, f)
            n = len(l)
            if not ctx.obl('dimension', 'adm_%s_%s for %s' % (kind, cls, s), m is not None and tuple(m.shape) == (n, n),
                           'shape %s for %d coefficients' % (getattr(m, 'shape', None), n), FILE):
                continue
            v = m.vals()
            ok = [i for i in range(n) if l[i] in want]
            for i in ok:
                for j in ok:
                    x = norm(v[i * n + j])
                    if isinstance(x, (Top, Alt)):
                        raise NoAnswer('an entry of adm_%s_%s is not determined' % (kind, cls))
                    if isinstance(x, Poly) or x != 0:
                        T[l[i], l[j]] = Poly.lift(x)
        return T


def mass_of(name):
    op, ix = split(name)
    if op in ('uG', 'dG', 'ugamma', 'dgamma', 'egamma'):
        return Poly.real({'u': UP, 'd': DOWN, 'e': LEP}[op[0]][max(ix) - 1])
    return Poly.const(1)


def table_wet_adm(ctx):
    """reference: entries for f=5, and for f=3,4 those that differ"""
    A = Adm(ctx)
    t = {}
    for k in 'se':
        T5 = A.table(k, 5)
        for (a, b), v in T5.items():
            t['%s|5|%s|%s' % (k, a, b)] = v
        for f in (4, 3):
            T = A.table(k, f)
            for (a, b), v in T.items():
                if T5.get((a, b)) != v:
                    t['%s|%d|%s|%s' % (k, f, a, b)] = v
            for (a, b) in T5:
                if (a, b) not in T and spec.quark_ok(a, f) and spec.quark_ok(b, f):
                    t['%s|%d|%s|%s' % (k, f, a, b)] = Poly()
    return t


@prop('D01', 'proof', 'abstract interpretation of the anomalous dimension matrices with symbolic masses; every entry compared by '
      'operator names with a reference table')
def d01(ctx):
    A = Adm(ctx)
    R = ref.load('wet_adm')
    for f in (5, 4, 3):
        sec = spec.jms_sectors(REPO, f)
        where = {n: s for s, l in sec.items() for n in l}
        for k in 'se':
            T = A.table(k, f)
            want = {}
            for g in (5, f):
                for key, v in R.items():
                    kk, ff, a, b = key.split('|')
                    if kk == k and ff == str(g) and a in where and b in where:
                        want[a, b] = v
            for a, b in sorted(set(T) | set(want)):
                x, y = T.get((a, b), Poly()), want.get((a, b), Poly())
                ctx.obl('entry', '%s %d flavours %s -> %s' % ({'s': 'QCD', 'e': 'QED'}[k], f, a, b), x == y or equal(x, y),
                        'the entry is %r instead of %r' % (x, y), '%s:adm_%s_%s' % (FILE, k, A.sectors.d.get(where.get(a))))
            ctx.obl('enumerated', '%s %d: %d entries' % (k, f, len(want)), len(want) > 100, 'no reference entries', FILE)


# ------------------------------------------------------------------ D02
def canon_map(names):
    """all representatives: (operator, indices) -> [(name, conjugated, sign)]"""
    def canon(op, idx):
        out = []
        for p, c, s in spec.group(spec.jms_class(op), len(idx)) if idx else [((), 0, 1)]:
            t = tuple(idx[k] for k in p)
            nm = op + ('_' + ''.join(map(str, t)) if t else '')
            if nm in names:
                out.append((nm, c, s))
        return out
    return canon


def parity(n, canon):
    """image of a coefficient under parity, None without right-handed partners"""
    op, t = split(n)
    if op == 'G':
        return [('G', 0, 1), ('G', 1, 1)]
    if op == 'Gtilde':
        return [('Gtilde', 0, -1), ('Gtilde', 1, -1)]
    if len(t) == 2:
        return [(a, 1 - c, s) for a, c, s in canon(op, (t[1], t[0]))]
    if 'nu' in op or op in spec.BNV_LEPTON:
        return None
    bs, ch = op[:-2], op[-2:]
    if op[0] in 'ST':
        p = (t[3], t[2], t[1], t[0]) if op in ('S1udduRR', 'S8udduRR') else (t[1], t[0], t[3], t[2])
        return [(a, 1 - c, s) for a, c, s in canon(op, p)]
    if op in ('V1udduLR', 'V8udduLR'):
        return [(a, 1 - c, s) for a, c, s in canon(op, (t[3], t[2], t[1], t[0]))]
    if ch in ('LL', 'RR'):
        return canon(bs + {'LL': 'RR', 'RR': 'LL'}[ch], t)
    f = bs.lstrip('V18')
    return canon(bs[:-2] + f[1] + f[0] + 'LR', (t[2], t[3], t[0], t[1]))


def aligned(A, f):
    """name -> name in the orientation of its sector (the matrices refer to the
    complex conjugate of a coefficient with opposite flavour quantum numbers)"""
    R = {}
    for s, l in spec.jms_sectors(REPO, f).items():
        fl = [flavour(n) for n in l]
        main = max(set(fl), key=fl.count)
        for n, x in zip(l, fl):
            R[n] = n
            op, ix = split(n)
            if x != main and x == opposite(main) and spec.jms_class(op) in (4, 5, 6) and len(l) > 30:
                R[n] = op + '_' + ''.join(map(str, (ix[1], ix[0], ix[3], ix[2])))
    return R


def check_image(ctx, rule, what, T, img, relabel=lambda v: v):
    bad = []
    for (a, b), v in T.items():
        x, y = img.get(a), img.get(b)
        if x is None or y is None:
            continue
        pairs = [(p, q) for p in x for q in y if p[1] == q[1]]
        ok = False
        for p, q in pairs:
            w = relabel(v) * (p[2] * q[2])
            if p[1]:
                w = w.conj()
            g = T.get((p[0], q[0]), Poly())
            if g == w or equal(g, w):
                ok = True
                break
        ctx.count(rule)
        ctx.n += 1
        if ok:
            ctx.ok += 1
        else:
            bad.append('%s -> %s (%s): image %s -> %s is %s' % (a, b, v, x[0][0] if x else '?', y[0][0] if y else '?',
                                                            T.get((x[0][0], y[0][0]), 0) if x and y else '?'))
    ctx.obl(rule, what, not bad, '%d entries differ, first: %s' % (len(bad), bad[:3]), FILE)


@prop('D02', 'proof', 'abstract interpretation of the anomalous dimension matrices; flavour universality, parity, flavour conservation and '
      'scaling identities checked between all entries')
def d02(ctx):
    A = Adm(ctx)
    for f in (5, 4, 3):
        R = aligned(A, f)
        nd, nu = {5: 3, 4: 2, 3: 2}[f], {5: 2, 4: 2, 3: 1}[f]
        perms = []
        for q, n in (('d', nd), ('u', nu), ('e', 3), ('n', 3)):
            for p in itertools.permutations(range(1, n + 1)):
                if p != tuple(range(1, n + 1)):
                    perms.append({q: p + tuple(range(n + 1, 4))})
        for kind in 'se':
            what = '%s, %d flavours' % ({'s': 'QCD', 'e': 'QED'}[kind], f)
            T0 = A.table(kind, f)
            T = {}
            for (a, b), v in T0.items():
                x, y = R.get(a, a), R.get(b, b)
                # coefficients without the mass factors of the dipoles
                T[x, y] = v * mass_of(b) / mass_of(a)
            names = set(R.values())
            canon = canon_map(names)
            # flavour conservation
            bad = [(a, b) for a, b in T if flavour(a) != flavour(b)]
            ctx.obl('flavour-conservation', what, not bad, 'operators with different flavour quantum numbers mix: %s' % bad[:3], FILE)
            ctx.n += len(T)
            ctx.ok += len(T) - len(bad)
            for P in perms if f == 5 or ctx.thorough or kind == 's' else perms[:3]:
                m = {}
                for q, l in (('u', UP), ('d', DOWN), ('e', LEP)):
                    for g in range(3):
                        m[l[g]] = l[P.get(q, (1, 2, 3))[g] - 1]
                img = {}
                for n in names:
                    op, t = split(n)
                    img[n] = canon(op, tuple(P.get(x.rstrip('~'), (1, 2, 3))[i - 1] for x, i in zip(fields(op) if t else (), t)))
                no = [n for n in names if not img[n]]
                ctx.obl('closed', '%s %s' % (what, P), not no, 'no image of %s' % no[:3], DEFS)

                def relabel(v, m=m):
                    return v.subs(lambda a: Poly.real(m[a[1]]) if a[0] == 'r' and a[1] in m else None) if not v.is_const() else v
                check_image(ctx, 'universality', '%s, flavours relabelled %s' % (what, P), T, img, relabel)
            check_image(ctx, 'parity', what, T, {n: parity(n, canon) for n in names})


# ------------------------------------------------------------------ D03
def expected(kind, n, f):
    """one-loop anomalous dimensions known in closed form: {to: value} for
    all targets, or None.  Normalisation as in the matrices: dipoles times
    coupling / mass factors"""
    op, ix = split(n)
    fs = [x.rstrip('~') for x in fields(op)] if ix else []
    if kind == 's':
        if op in ('G', 'Gtilde'):
            return {n: 36 - 4 * b0(f)}, 'diagonal'
        if op in ('uG', 'dG'):
            return {n: F(28, 3) - 2 * b0(f), (op[0] + 'gamma_' + n.split('_')[1]): 8 * F(4, 3) * Q[op[0]]}, 'all'
        if op in ('ugamma', 'dgamma'):
            return {n: F(32, 3) - 2 * b0(f)}, 'all'
        if op == 'egamma':
            return {n: -2 * b0(f)}, 'all'
        ql = sum(x in 'ud' for x in fs)
        if len(fs) == 4 and ql == 2 and op not in spec.BNV_LEPTON:
            fl = flavour(n)
            four = len(fl) == 4 and all(abs(v) == 1 for _, v in fl)
            if four and op[0] == 'V':
                return {}, 'all'
            if four and op[0] == 'S':
                return {n: F(-8)}, 'all'
            if four and op[0] == 'T':
                return {n: F(8, 3)}, 'all'
        if len(fs) == 4 and ql == 0 and op[0] == 'V':
            return {}, 'all'
        if op in spec.BNV_LEPTON:
            return {n: F(-4)}, 'all'
        if ql == 4 and len(flavour(n)) == 2 and all(abs(v) == 2 for _, v in flavour(n)):
            # Delta F = 2
            ind = n.split('_')[1]
            if op[0] == 'V' and op[-2:] in ('LL', 'RR'):
                return {n: F(4)}, 'all'
            o = {'1': '8', '8': '1'}[op[1]]
            m = op[0] + o + op[2:] + '_' + ind
            if op[0] == 'V':
                return ({m: F(-12)} if op[1] == '1' else {m: F(-8, 3), n: F(-14)}), 'all'
            return ({n: F(-80, 9), m: F(8, 3)} if op[1] == '1' else {n: F(92, 9), m: F(160, 27)}), 'all'
    else:
        if op == 'egamma':
            return {n: F(16)}, 'all'
        if op in ('ugamma', 'dgamma'):
            return {n: 16 * Q[op[0]] ** 2}, 'self'
        if op in ('uG', 'dG'):
            return {n: 8 * Q[op[0]] ** 2}, 'self'
        if len(fs) == 4 and len(flavour(n)) == 2 and all(abs(v) == 2 for _, v in flavour(n)) and op[0] == 'V':
            return {n: 12 * Q[fs[0]] ** 2 * (1 if op[-2:] in ('LL', 'RR') else -1)}, 'all'
        if len(fs) == 4 and op not in spec.BNV_LEPTON:
            fl = flavour(n)
            four = len(fl) == 4 and all(abs(v) == 1 for _, v in fl) and sum(x in 'ud' for x in fs) == 2
            if four and set(fs) & {'e'} and 'n' not in fs:
                l = 'e'
                q = [x for x in fs if x in 'ud'][0]
                x, y = Q[q] * Q[l], Q[q] ** 2 + Q[l] ** 2
                ch = op[-2:]
                ind = n.split('_')[1]
                if op[0] == 'V':
                    return {n: 12 * x * (1 if ch in ('LL', 'RR') else -1)}, 'all'
                if op[0] == 'S' and ch == 'RL':
                    return {n: -6 * y}, 'all'
                if op[0] == 'S':
                    return {n: -6 * y, 'T' + n[1:]: -2 * x}, 'all'
                if op[0] == 'T':
                    return {n: 2 * y, 'S' + n[1:]: -96 * x}, 'all'
            if fs[:1] == ['n'] and set(fs) == {'n', 'e', 'd', 'u'}:
                e, d, u = Q['e'], Q['d'], Q['u']
                if op == 'VnueduLL':
                    return {n: 6 * e * u}, 'all'
                if op == 'VnueduLR':
                    return {n: -6 * e * d}, 'all'
                if op == 'SnueduRL':
                    return {n: -6 * d * u}, 'all'
                if op == 'SnueduRR':
                    return {n: -6 * d * u, 'T' + n[1:]: -e * (u + d) / 2}, 'all'
                if op == 'TnueduRR':
                    return {n: 2 * d * u + 4 * e * (u - d), 'S' + n[1:]: -24 * e * (u + d)}, 'all'
    return None, None


@prop('D03', 'proof', 'abstract interpretation of the anomalous dimension matrices; classes of entries compared with the general one-loop formulas')
def d03(ctx):
    A = Adm(ctx)
    for f in (5, 4, 3):
        names = {n for l in spec.jms_sectors(REPO, f).values() for n in l}
        for kind in 'se':
            T = A.table(kind, f)
            by = {}
            for (a, b), v in T.items():
                by.setdefault(a, {})[b] = v
            for n in sorted(names):
                want, how = expected(kind, n, f)
                if want is None:
                    continue
                got = by.get(n, {})
                what = '%s %d flavours %s' % ({'s': 'QCD', 'e': 'QED'}[kind], f, n)
                keys = set(got) | set(want) if how.startswith('all') else {n}
                for b in sorted(keys):
                    x, y = got.get(b, Poly()), Poly.lift(want.get(b, 0))
                    ctx.obl('one-loop', '%s -> %s' % (what, b), equal(x, y), 'the entry is %s instead of %s' % (x, y), FILE)
