"""F-series: translation between the bases of the WET."""
import json
import os
import re
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, ref
from ..num import Poly, equal
from .adm import canon_map, fields, split, parity

F = Fraction
FILE = 'wilson/translate/wet.py'
EFTS = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
PARAMS = ('alpha_s alpha_e m_b m_c m_s m_u m_d m_e m_mu m_tau m_t GF Vus Vub Vcb gamma m_W m_Z m_h').split()
BASES = ('flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit')


def user(pre='user_'):
    return {k: Poly.real(pre + k) for k in PARAMS}


def cname(x):
    """name of the coefficient if the atom is one"""
    return x[1][2:] if x[0] in 'rc' and isinstance(x[1], str) and x[1].startswith('C_') else None


def coeffs(v):
    return {cname(x) for m in Poly.lift(v).t for x, e in m if cname(x)}


def same(a, b):
    a, b = Poly.lift(a), Poly.lift(b)
    return a == b or equal(a, b)


def compare(ctx, rule, what, got, want, names, where, missing_zero=False):
    """got = want for each name"""
    bad = []
    for k in names:
        x, y = got.get(k, 0 if missing_zero else None), want.get(k, 0 if missing_zero else None)
        ok = x is not None and y is not None and same(x, y)
        ctx.n += 1
        ctx.ok += ok
        ctx.count(rule)
        if not ok:
            bad.append('%s is %s instead of %s' % (k, x, y))
    ctx.obl(rule, what, not bad, '%d coefficients differ: %s' % (len(bad), '; '.join(b[:300] for b in bad[:3])), where)


class Trans:
    """the translators as functions of symbolic coefficients and parameters"""

    def __init__(self, ctx, names=None):
        self.ctx = ctx
        self.changed = set()
        self.snap = self.names() if names is None else names
        self.register(self.snap)
        it = self.it = base.make(REPO)
        base.generic_position(it)
        it.models['ckmutil.ckm.ckm_tree'] = self.ckm
        it.load('wilson.translate')
        self.jms = {e: spec.jms_sectors(REPO, f) for e, f in EFTS.items()}
        q = it.load('wilson.util.qcd').env.v
        self.real = {}
        for n in ('alpha_s', 'm_b', 'm_c', 'm_s'):
            if not isinstance(q.get(n), AFunc):
                raise NoAnswer('wilson.util.qcd.%s not found' % n)
            it.call_hooks[q[n].qual] = self.hook(n, q[n])
        ctx.use(FILE, 'wilson/translate/__init__.py', 'wilson/util/wet_jms.py', 'wilson/data')

    # ---- models
    def ckm(self, it, a, k):
        d = dict(zip(('Vus', 'Vub', 'Vcb', 'gamma'), a))
        d.update({'gamma' if x == 'delta' else x: v for x, v in k.items()})
        key = ','.join('%s' % Poly.lift(norm(d.get(n, 0))) for n in ('Vus', 'Vub', 'Vcb', 'gamma'))
        if key == ','.join('user_' + n for n in ('Vus', 'Vub', 'Vcb', 'gamma')):
            key = ''
        return Arr.new([Poly.cplx('V%d%d%s' % (i, j, key and '(%s)' % key)) for i in range(3) for j in range(3)], (3, 3))

    def hook(self, name, fn):
        def h(it, args, kw):
            b = it.bind_args(fn, args, kw)
            return self.running(name, **b)
        return h

    def running(self, name, **b):
        vals = list(b.items())
        key = ','.join(str(Poly.lift(norm(v)) if is_num(norm(v)) else v) for k, v in vals)
        return Poly.real('%s(%s)' % (name, key))

    # ---- bases: the names of the coefficients, by sector (reference data)
    @staticmethod
    def names():
        with open(os.path.join(ref.DIR, 'wet_names.json')) as fh:
            return json.load(fh)

    def register(self, names):
        vf = base.virtual_files(REPO)
        for b, l in names.items():
            for eft, f in EFTS.items():
                if eft != 'WET' and b not in ('flavio', 'Bern'):
                    continue
                sec = {s: {} for s in spec.jms_sectors(REPO, f)}
                for k, s in l.items():
                    if s in sec:
                        sec[s][k] = {}
                vf['/virtual/bases/%s.%s.basis.json' % (eft, b)] = json.dumps({'eft': eft, 'basis': b, 'sectors': sec})

    def input(self, eft, basis, names=None, pre='C_'):
        if basis == 'JMS':
            out = {}
            for s, l in self.jms[eft].items():
                for n in l:
                    if names is None or n in names:
                        out[n] = Poly.real(pre + n) if l[n].get('real') else Poly.cplx(pre + n)
            return out
        raise NoAnswer(basis)

    def translator(self, eft, a, b):
        it = self.it
        T = it.get('wilson.wcxf.classes.Translator')
        inst = T.find('instances')
        if not isinstance(inst, ADict):
            raise NoAnswer('registry of translators not determined')
        t = inst.d.get((eft, a, b))
        return None if t is None else it.getattr_(t, 'function')

    def translate(self, eft, a, b, C, params=None, sectors=None, scale=None):
        fn = self.translator(eft, a, b)
        if fn is None:
            return None
        kw = {}
        if sectors is not None:
            kw['sectors'] = sectors
        r = self.it.call(fn, [ADict(dict(C)), Poly.real('scale') if scale is None else scale, None if params is None else ADict(dict(params))], kw)
        if isinstance(r, ADict):
            return {k: norm(v) for k, v in r.d.items()}
        raise NoAnswer('the result of the translator %s %s %s is %r' % (eft, a, b, r))

    def call(self, eft, a, b, C, params, sectors=None):
        kw = {} if sectors is None else {'sectors': sectors}
        before = [list(x.d.items()) if isinstance(x, ADict) else None for x in (C, params)]
        r = self.it.call(self.translator(eft, a, b), [C, Poly.real('scale'), params], kw)
        for x, y, w in zip((C, params), before, ('coefficients', 'parameters')):
            if isinstance(x, ADict) and list(x.d.items()) != y:
                new = [k for k in x.d if k not in dict(y)]
                self.changed.add('%s: %s to %s changes the %s given by the caller (%d of %d entries given; new ones: %s)'
                                 % (eft, a, b, w, len(y), len(x.d), new[:3]))
        if isinstance(r, ADict):
            return {k: norm(v) for k, v in r.d.items()}
        raise NoAnswer('the result of the translator %s %s %s is %r' % (eft, a, b, r))

    def atoms(self, eft, b):
        if b == 'JMS':
            return self.input(eft, 'JMS')
        out = {}
        f = {n for l in self.jms[eft].values() for n in l}
        for k, s in self.snap[b].items():
            if eft == 'WET' or s in self.jms[eft]:
                out[k] = Poly.cplx('C_' + k)
        if b in ('flavio', 'FlavorKit'):
            for k in self.reals(b):
                if k in out:
                    out[k] = Poly.real('C_' + k)
        return out

    def reals(self, b):
        """coefficients that are those of hermitian operators"""
        if b not in self.real:
            C = self.input('WET', 'JMS')
            re_ = {n for l in self.jms['WET'].values() for n in l if l[n].get('real')}
            r = self.translate('WET', 'JMS', b, C, user())
            self.real[b] = [k for k, v in r.items() if isinstance(v, Poly) and not v.is_zero() and v == v.conj() and
                            set(coeffs(v)) <= re_]
        return self.real[b]


def functions(T, eft, a, b):
    fn = T.translator(eft, a, b)
    return '%s:%s' % ('wilson/translate/__init__.py', getattr(fn, 'qual', '?').split('.')[-1]) if fn is not None else FILE


# ------------------------------------------------------------------ F01
@prop('F01', 'proof', 'abstract interpretation of the translators with symbolic coefficients and parameters; round trips and compositions '
      'are compared coefficient by coefficient')
def f01(ctx):
    T = Trans(ctx)
    p = user()
    for eft in EFTS:
        for b in ('flavio', 'Bern', 'FlavorKit'):
            if T.translator(eft, 'JMS', b) is None and eft != 'WET' and b == 'FlavorKit':
                continue
            for x, y in (('JMS', b), (b, 'JMS')):
                ctx.obl('registered', '%s: %s to %s' % (eft, x, y), T.translator(eft, x, y) is not None,
                        'there is no such translator', 'wilson/translate/__init__.py')
            if T.translator(eft, 'JMS', b) is None or T.translator(eft, b, 'JMS') is None:
                continue
            C = T.atoms(eft, b)
            J = T.translate(eft, b, 'JMS', C, p)
            R = T.translate(eft, 'JMS', b, J, p)
            compare(ctx, 'round-trip', '%s: %s to JMS and back' % (eft, b), R, C, C, functions(T, eft, b, 'JMS'))
            names = {n for l in T.jms['WET'].values() for n in l}
            ctx.obl('in-basis', '%s: %s to JMS' % (eft, b), set(J) <= names, 'coefficients that are not in the JMS basis: %s' % sorted(
                set(J) - names)[:5], functions(T, eft, b, 'JMS'))
            CJ = T.atoms(eft, 'JMS')
            X = T.translate(eft, 'JMS', b, CJ, p)
            ctx.obl('in-basis', '%s: JMS to %s' % (eft, b), set(X) <= set(T.snap[b]), 'coefficients that are not in the %s basis: %s' % (
                b, sorted(set(X) - set(T.snap[b]))[:5]), functions(T, eft, 'JMS', b))
            back = T.translate(eft, b, 'JMS', X, p)
            seen = coeffs_of(X)
            # the coefficients a basis can express come back unchanged, the others do not appear
            compare(ctx, 'round-trip', '%s: JMS to %s and back' % (eft, b), back,
                    {k: CJ.get(k, 0) if k in seen else 0 for k in back}, back, functions(T, eft, b, 'JMS'))
            lost = sorted(k for k in seen if k not in back)
            ctx.obl('complete', '%s: JMS to %s and back' % (eft, b), not lost, 'coefficients lost: %s' % lost[:5], functions(T, eft, b, 'JMS'))
        C = T.atoms(eft, 'Bern')
        if all(T.translator(eft, x, y) for x in ('JMS', 'flavio', 'Bern') for y in ('JMS', 'flavio', 'Bern') if x != y):
            via = T.translate(eft, 'JMS', 'flavio', T.translate(eft, 'Bern', 'JMS', C, p), p)
            d = T.translate(eft, 'Bern', 'flavio', C, p)
            compare(ctx, 'composition', '%s: Bern to flavio equals Bern to JMS to flavio' % eft, d, via, sorted(set(d) | set(via)),
                    functions(T, eft, 'Bern', 'flavio'), True)
            C = T.atoms(eft, 'flavio')
            via = T.translate(eft, 'JMS', 'Bern', T.translate(eft, 'flavio', 'JMS', C, p), p)
            d = T.translate(eft, 'flavio', 'Bern', C, p)
            compare(ctx, 'composition', '%s: flavio to Bern equals flavio to JMS to Bern' % eft, d, via, sorted(set(d) | set(via)),
                    functions(T, eft, 'flavio', 'Bern'), True)
    C = T.atoms('WET', 'FlavorKit')
    if T.translator('WET', 'FlavorKit', 'flavio') is not None:
        via = T.translate('WET', 'JMS', 'flavio', T.translate('WET', 'FlavorKit', 'JMS', C, p), p)
        d = T.translate('WET', 'FlavorKit', 'flavio', C, p)
        compare(ctx, 'composition', 'WET: FlavorKit to flavio equals FlavorKit to JMS to flavio', d, via, sorted(set(d) | set(via)),
                functions(T, 'WET', 'FlavorKit', 'flavio'), True)
    eos(ctx, T, p)


def eos(ctx, T, p):
    """the EOS coefficients are the real and imaginary parts, or the values, of those of flavio and Bern"""
    C = T.atoms('WET', 'JMS')
    E = T.translate('WET', 'JMS', 'EOS', C, p)
    Fl = T.translate('WET', 'JMS', 'flavio', C, p)
    B = T.translate('WET', 'JMS', 'Bern', C, p)
    where = functions(T, 'WET', 'JMS', 'EOS')
    want = {}
    re = lambda x: (Poly.lift(x) + Poly.lift(x).conj()) * Poly.const(F(1, 2))
    im = lambda x: (Poly.lift(x) - Poly.lift(x).conj()) * Poly.const(0, F(-1, 2))
    q = T.it.load('wilson.util.qcd').env.v
    mb = Poly.lift(T.it.call(q['m_b'], [p['m_b'], Poly.real('scale'), 5, p['alpha_s']], {}))
    for l in ('e', 'mu'):
        for c, f, m in (('c9', 'C9', 1), ("c9'", 'C9p', 1), ('c10', 'C10', 1), ("c10'", 'C10p', 1), ('cS', 'CS', mb), ("cS'", 'CSp', mb),
                        ('cP', 'CP', mb), ("cP'", 'CPp', mb)):
            v = Fl['%s_bs%s%s' % (f, l, l)] * m
            want['b->s%s%s::Re{%s}' % (l, l, c)], want['b->s%s%s::Im{%s}' % (l, l, c)] = re(v), im(v)
    for c, f in (('7', 'C7_bs'), ("7'", 'C7p_bs')):
        want['b->s::Re{c%s}' % c], want['b->s::Im{c%s}' % c] = re(Fl[f]), im(Fl[f])
    want['b->s::c8'], want["b->s::c8'"] = re(Fl['C8_bs']), re(Fl['C8p_bs'])
    V = T.ckm(None, [p[k] for k in ('Vus', 'Vub', 'Vcb', 'gamma')], {})
    v = lambda i, j: T.it.getitem(V, (i, j))
    for l in ('e', 'mu', 'tau'):
        for q in 'uc':
            for c in ('VL', 'VR', 'SL', 'SR', 'T'):
                want['%sb%snu%s::c%s' % (q, l, l, c)] = Fl['C%s_b%s%snu%s' % (c, q, l, l)]
    for i in range(1, 6):
        for pr in ('', 'p'):
            if i > 3 and pr:
                continue
            want['sbsb::c%d%s' % (i, "'" if pr else '')] = B['%d%ssbsb' % (i, pr)] / (v(2, 2) * v(2, 1).conj()) ** 2
    for q, j in (('s', 1), ('d', 0)):
        for i in range(1, 11):
            for pr in ('', 'p'):
                want['%sbcu::c%d%s' % (q, i, "'" if pr else '')] = B['%d%s%sbcu' % (i, pr, q)] / (v(1, 2) * v(0, j).conj())
    compare(ctx, 'eos', 'WET: coefficients of EOS from those of flavio and Bern', E, want, want, where)
    for k, x in sorted(E.items()):
        if k.startswith('b->s'):
            ctx.obl('real', k, same(x, Poly.lift(x).conj()), 'the parameter is complex: %s' % str(x)[:300], where)


def coeffs_of(X):
    return {n for v in X.values() for n in coeffs(v)}


# ------------------------------------------------------------------ F02
PAIRS = [('JMS', b) for b in BASES] + [(b, 'JMS') for b in ('flavio', 'Bern', 'FlavorKit')] + [('flavio', 'Bern'), ('Bern', 'flavio')]


def table_wet_trans(ctx):
    T = Trans(ctx)
    out = {}
    for a, b in PAIRS:
        r = T.translate('WET', a, b, T.atoms('WET', a), user())
        for k, v in r.items():
            if not Poly.lift(v).is_zero():
                out['%s > %s : %s' % (a, b, k)] = Poly.lift(v)
    return out


@prop('F02', 'proof', 'abstract interpretation of the translators with symbolic coefficients and parameters; every translated coefficient is '
      'compared as an exact formula with the reference table')
def f02(ctx):
    want = ref.load('wet_trans')
    T = Trans(ctx)
    for a, b in PAIRS:
        if T.translator('WET', a, b) is None:
            ctx.obl('registered', 'WET: %s to %s' % (a, b), False, 'there is no such translator', 'wilson/translate/__init__.py')
            continue
        r = T.translate('WET', a, b, T.atoms('WET', a), user())
        pre = '%s > %s : ' % (a, b)
        w = {k[len(pre):]: v for k, v in want.items() if k.startswith(pre)}
        ctx.obl('enumerated', pre, len(w) > 50, 'no reference formulas', FILE)
        names = sorted(set(r) | set(w))
        groups = {}
        for n in names:
            groups.setdefault(T.snap[b].get(n) if b != 'JMS' else [s for s, l in T.jms['WET'].items() if n in l][:1].__str__(), []).append(n)
        for s, l in groups.items():
            compare(ctx, 'formula', 'WET: %s to %s, sector %s' % (a, b, s), r, w, l, functions(T, 'WET', a, b), True)


# ------------------------------------------------------------------ F03
TOK = re.compile('nutau|numu|nue|tau|mu|[eudscb]')
GEN = {'d': ('d', 1), 's': ('d', 2), 'b': ('d', 3), 'u': ('u', 1), 'c': ('u', 2), 'e': ('e', 1), 'mu': ('e', 2), 'tau': ('e', 3),
       'nue': ('n', 1), 'numu': ('n', 2), 'nutau': ('n', 3), 'm': ('e', 2), 't': ('e', 3)}


def label(b, k):
    """flavours the name of a coefficient refers to: (prefix, tokens)"""
    if b == 'flavio':
        pre, _, l = k.partition('_')
        t = TOK.findall(l)
        return (pre, t) if ''.join(t) == l and l else (k, None)
    if b == 'Bern':
        m = re.match(r'((?:nu)?\d+p?(?:gamma|g)?)([a-z]*)$', k)
        t = TOK.findall(m.group(2)) if m else []
        return (m.group(1), t) if m and ''.join(t) == m.group(2) else (k, None)
    return k, None


def field_flavours(n):
    op, ix = split(n)
    return sorted((f.rstrip('~'), i) for f, i in zip(fields(op) if ix else (), ix))


CHG = {}


def charge(m):
    """rephasing charge of a monomial of coefficients and CKM elements"""
    d = {}
    for x, e in m:
        n = cname(x)
        if n is not None:
            op, ix = split(n)
            s = -1 if x[0] == 'c' and x[2] else 1
            for f, i in zip(fields(op) if ix else (), ix):
                q = (f.rstrip('~'), i)
                d[q] = d.get(q, 0) + s * e * (1 if f.endswith('~') else -1)
        elif x[0] == 'c' and re.match(r'V\d\d', x[1]):
            s = -1 if x[2] else 1
            for q, w in ((('u', int(x[1][1]) + 1), 1), (('d', int(x[1][2]) + 1), -1)):
                d[q] = d.get(q, 0) + s * e * w
    return tuple(sorted((k, v) for k, v in d.items() if v))


def opp(c):
    return tuple((k, -v) for k, v in c)


def relabelled(v, P, canon, ckm=True):
    """a formula with the flavours of coefficients, CKM elements and masses permuted"""
    lost = []

    def f(a):
        n = cname(a)
        if n is not None:
            op, t = split(n)
            c = canon(op, tuple(P.get(x.rstrip('~'), (1, 2, 3))[i - 1] for x, i in zip(fields(op) if t else (), t)))
            if not c:
                lost.append(n)
                return Poly()
            nm, cj, s = c[0]
            r = atom_of(nm) * s
            return r.conj() if cj != (a[0] == 'c' and a[2]) else r
        if ckm and a[0] == 'c' and re.match(r'V\d\d$', a[1]):
            i, j = int(a[1][1]), int(a[1][2])
            r = Poly.cplx('V%d%d' % (P.get('u', (1, 2, 3))[i] - 1, P.get('d', (1, 2, 3))[j] - 1))
            return r.conj() if a[2] else r
        return None
    r = v.subs(f) if not v.is_const() else v
    return None if lost else r


_REAL = {}


def atom_of(n):
    return Poly.real('C_' + n) if _REAL.get(n) else Poly.cplx('C_' + n)


def flip(b, k):
    """the chirality flipped partner of a coefficient of an operator without neutrinos"""
    if b == 'Bern':
        m = re.match(r'(\d+)(p?)((?:gamma|g)?)([a-z]*)$', k)
        if not m:
            return None
        return m.group(1) + ('' if m.group(2) else 'p') + m.group(3) + m.group(4), 1
    if b == 'flavio':
        pre, _, l = k.partition('_')
        m = re.match(r'C([VST][18]?)(LL|RR|LR|RL)(t?)$', pre)
        if m:
            return 'C%s%s%s_%s' % (m.group(1), m.group(2).translate(str.maketrans('LR', 'RL')), m.group(3), l), 1
        m = re.match(r'C(7|8|9|10|S|P)(p?)$', pre)
        if m:
            return 'C%s%s_%s' % (m.group(1), '' if m.group(2) else 'p', l), -1 if m.group(1) in ('10', 'P') else 1
        return (k, 1) if pre in ('Cgamma', 'CG') else None
    if b == 'formflavor':
        pre, _, l = k.partition('_')
        return pre.translate(str.maketrans('LR', 'RL')) + '_' + l, 1
    if b == 'EOS' and '::' in k and re.match(r'(sb|db|sbsb)?.*::c\d+\'?$', k) and not k.startswith('b->s'):
        return (k[:-1] if k.endswith("'") else k + "'"), 1
    m = re.match(r"(b->s\w*::)(Re|Im)\{(c7|c9|c10|cS|cP)('?)\}$", k) if b == 'EOS' else None
    if m:
        return '%s%s{%s%s}' % (m.group(1), m.group(2), m.group(3), '' if m.group(4) else "'"), -1 if m.group(3) in ('c10', 'cP') else 1
    return None


@prop('F03', 'proof', 'abstract interpretation of the translators with symbolic coefficients; rephasing covariance, flavour content, flavour '
      'universality and parity of every translated coefficient')
def f03(ctx):
    T = Trans(ctx)
    names = {n for l in T.jms['WET'].values() for n in l}
    for l in T.jms['WET'].values():
        for n in l:
            _REAL[n] = bool(l[n].get('real'))
    canon = canon_map(names)
    C = T.atoms('WET', 'JMS')
    for b in BASES:
        X = {k: Poly.lift(v) for k, v in T.translate('WET', 'JMS', b, C, user()).items()}
        where = functions(T, 'WET', 'JMS', b)
        ctx.obl('enumerated', b, len(X) > 50, 'only %d coefficients' % len(X), where)
        for k, v in sorted(X.items()):
            # a field redefinition by phases multiplies a coefficient by a phase
            ch = {charge(m) for m in v.t}
            ok = len(ch) <= 1 or b == 'EOS' and k.startswith('b->s') and len(ch) == 1
            ctx.obl('covariant', '%s: %s' % (b, k), ok, 'terms with different phases under redefinitions of the quark fields: %s' % (
                str(v)[:300]), where)
            # the flavours are those the name says
            ff = {tuple(field_flavours(n)) for n in coeffs(v)}
            pre, t = label(b, k)
            if t is not None and v.t:
                w = []
                fl = [GEN[x] for x in t]
                for x in ff:
                    g = list(fl)
                    if b == 'Bern' and len(g) == 4 and any(y[0] == 'n' for y in x):
                        g = [y if y in x else ('n', y[1]) if y[0] == 'e' and pre.startswith('nu') else y for y in g]
                        if not pre.startswith('nu'):
                            g = g[:3] + [('n', g[3][1])]
                    w.append(tuple(sorted(g)) == x)
                ctx.obl('flavours', '%s: %s' % (b, k), all(w), 'the translated coefficients have flavours %s' % sorted(ff)[:3], where)
            elif v.t and b in ('EOS', 'formflavor', 'FlavorKit'):
                ctx.obl('flavours', '%s: %s' % (b, k), flavours_ok(b, k, ff), 'the translated coefficients have flavours %s' % sorted(ff)[:3],
                        where)
        # flavour universality
        if b in ('flavio', 'Bern'):
            perms = [{'e': p, 'n': p} for p in ((2, 1, 3), (1, 3, 2), (2, 3, 1))] + [{'d': (2, 1, 3)}, {'u': (2, 1, 3)}] + [
                {'d': p} for p in ((1, 3, 2), (3, 1, 2), (2, 3, 1), (3, 2, 1))]
            for P in perms:
                bad, n = [], 0
                tok = {}
                for x, (q, g) in GEN.items():
                    if len(x) > 1 or x not in 'mt':
                        g2 = P.get(q, (1, 2, 3))[g - 1]
                        tok[x] = next(y for y, z in GEN.items() if z == (q, g2) and y not in 'mt')
                for k, v in X.items():
                    pre, t = label(b, k)
                    if t is None or not t or not v.t:
                        continue
                    sep = '_' if b == 'flavio' else ''
                    k2 = pre + sep + ''.join(tok[x] for x in t)
                    if k2 == k or k2 not in X:
                        continue
                    ms = {x[1] for m in v.t for x, e in m if x[0] == 'r' and re.match(r'm_\w\(|user_m_', x[1])}
                    m2 = {x[1] for m in X[k2].t for x, e in m if x[0] == 'r' and re.match(r'm_\w\(|user_m_', x[1])}
                    if ms != m2:
                        continue
                    w = relabelled(v, P, canon)
                    if w is None:
                        continue
                    n += 1
                    if not same(w, X[k2]) and not same(relabelled(v, P, canon, False), X[k2]):
                        bad.append('%s -> %s: %s instead of %s' % (k, k2, str(X[k2])[:150], str(w)[:150]))
                ctx.n += n
                ctx.ok += n - len(bad)
                ctx.obl('universality', '%s: flavours relabelled %s, %d coefficients' % (b, P, n), not bad and n > 20 or not bad and 'd' in P,
                        '%d differ: %s' % (len(bad), bad[:2]), where)
        # parity
        bad, n = [], 0
        for k, v in X.items():
            f = flip(b, k)
            if f is None or not v.t:
                continue
            k2, s = f
            lost = []

            def im(a):
                nm = cname(a)
                if nm is not None:
                    img = parity(nm, canon)
                    if not img:
                        lost.append(nm)
                        return Poly()
                    m, cj, sg = img[0]
                    r = atom_of(m) * sg
                    return r.conj() if cj != (a[0] == 'c' and a[2]) else r
                return None
            w = v.subs(im) if not v.is_const() else v
            if lost:
                continue
            n += 1
            if not any(same((w.conj() if cj else w) * s, X[j]) for j, cj in partners(b, k, k2) if j in X):
                bad.append('%s <-> %s: %s instead of %s' % (k, k2, str(X.get(k2))[:150], str(w * s)[:150]))
        ctx.n += n
        ctx.ok += n - len(bad)
        ctx.obl('parity', '%s: %d coefficients' % (b, n), not bad, '%d differ: %s' % (len(bad), bad[:2]), where)


def partners(b, k, k2):
    yield k2, 0
    pre, t = label(b, k)
    if b == 'flavio' and t:
        if len(t) == 4:
            yield pre + '_' + ''.join(t[2:] + t[:2]), 0
            yield pre + '_' + ''.join([t[1], t[0], t[3], t[2]]), 1
            yield pre + '_' + ''.join([t[3], t[2], t[1], t[0]]), 1
        else:
            yield pre + '_' + ''.join(t[::-1]), 1
    elif b in ('formflavor', 'Bern', 'EOS') and re.search(r'(sb|bs|db|bd|ds|sd|cu){2}', k):
        yield k, 0      # its own partner


def flavours_ok(b, k, ff):
    if b == 'FlavorKit':
        ix = sorted(k.partition('_')[2])
        return all(sorted(str(i) for _, i in x) == ix for x in ff)
    if b == 'formflavor':
        l = k.partition('_')[2]
        if l == 'sdnn':
            return all([y for y in x if y[0] == 'd'] == [('d', 1), ('d', 2)] for x in ff) and len(ff) == 3
        return all(tuple(sorted(GEN[c] for c in l)) == x for x in ff)
    pre = k.split('::')[0]
    if pre.startswith('b->s'):
        ll = pre[4:]
        want = [('d', 2), ('d', 3)]
        return all(all(y in x for y in want) and (not ll or tuple(sorted(want + [('e', {'e': 1, 'mu': 2}[ll[:len(ll) // 2]])] * 2)) == x) for x in ff)
    t = TOK.findall(pre)
    return all(tuple(sorted(GEN[y] for y in t)) == x for x in ff)


# ------------------------------------------------------------------ F04
FEWER = [(a, b) for a in ('JMS', 'flavio', 'Bern') for b in ('JMS', 'flavio', 'Bern') if a != b]


@prop('F04', 'proof', 'abstract interpretation of the translators with symbolic coefficients for every sector, effective theory and way of '
      'passing parameters')
def f04(ctx):
    T = Trans(ctx)
    p = user()
    it = T.it
    D = it.get('wilson.parameters.p')
    if not isinstance(D, ADict):
        raise NoAnswer('default parameters not determined')
    defaults = {k: v for k, v in D.d.items()}
    for b in ('flavio', 'FlavorKit'):
        T.reals(b)
    ctx.fork(PAIRS + [('FlavorKit', 'flavio')], lambda c, ab: f04_pair(c, T, p, D, defaults, *ab))
    for e, a, b in sorted(k for k in it.get('wilson.wcxf.classes.Translator').find('instances').d if k[0] in EFTS):
        ctx.obl('registered', '%s: %s to %s' % (e, a, b), (a, b) in PAIRS + [('FlavorKit', 'flavio')],
                'a translator the analysis does not know', 'wilson/translate/__init__.py')


def f04_pair(ctx, T, p, D, defaults, a, b):
    C = T.atoms('WET', a)
    where = functions(T, 'WET', a, b)
    what = 'WET: %s to %s' % (a, b)
    if T.translator('WET', a, b) is None:
        ctx.obl('registered', what, False, 'there is no such translator', 'wilson/translate/__init__.py')
        return
    inp, par = ADict(dict(C)), ADict(dict(p))
    full = T.call('WET', a, b, inp, par)
    ctx.obl('pure', what, list(inp.d.items()) == list(C.items()) and list(par.d.items()) == list(p.items()),
            'the translation changes its input', where)
    ctx.obl('defaults kept', what, {k: v for k, v in D.d.items()} == defaults, 'the default parameters are changed', where)
    # linear, with missing coefficients equal to zero
    bad = [k for k, v in full.items() if not linear(v)]
    ctx.obl('linear', what, not bad, 'not linear in the coefficients: %s' % bad[:5], where)
    z = T.call('WET', a, b, ADict({}), par)
    bad = [k for k, v in z.items() if not Poly.lift(v).is_zero()]
    ctx.obl('missing', what, not bad, 'nonzero without any coefficient: %s' % bad[:5], where)
    # sectors
    if a != 'JMS':
        sec = {s: [k for k in C if T.snap[a][k] == s] for s in T.jms['WET']}
    else:
        sec = {s: list(l) for s, l in T.jms['WET'].items()}
    of = {k: s for s, l in sec.items() for k in l}
    owners = {k: {of[n] for n in coeffs(v)} for k, v in full.items()}
    single = {}
    for i, s in enumerate(sec):
        kind = (lambda x: tuple(x), lambda x: AList(list(x)), lambda x: ASet(set(x)))[i % 3] if not ctx.thorough else lambda x: tuple(x)
        part = ADict({k: v for k, v in C.items() if of[k] == s})
        try:
            r = T.call('WET', a, b, part, par, kind((s,)))
        except RaiseSig as e:
            ctx.obl('sectors', '%s, sector %s' % (what, s), False, 'the translation is refused: %s' % e, where)
            continue
        single[s] = r
        mine = [k for k, o in owners.items() if s in o]
        bad = [k for k in r if k not in mine and not Poly.lift(r[k]).is_zero()]
        ctx.obl('sectors', '%s, sector %s: others vanish' % (what, s), not bad, 'unexpected coefficients: %s' % bad[:5], where)
        compare(ctx, 'sectors', '%s, sector %s' % (what, s), r, full, mine, where)
    for g in ([list(sec)[:7], list(sec)[7:]] if not ctx.thorough else [list(sec)[i::3] for i in range(3)]):
        try:
            r = T.call('WET', a, b, ADict(dict(C)), par, tuple(g))
        except RaiseSig as e:
            ctx.obl('sectors', '%s, %d sectors' % (what, len(g)), False, 'the translation is refused: %s' % e, where)
            continue
        compare(ctx, 'sectors', '%s, %d sectors' % (what, len(g)), r, full, [k for k, o in owners.items() if o & set(g)], where)
    # parameters: missing ones are the defaults, the order and other entries are irrelevant
    some = {k: p[k] for k in ('alpha_s', 'Vcb', 'm_b', 'm_mu')}
    none = T.call('WET', a, b, ADict(dict(C)), None)
    expl = T.call('WET', a, b, ADict(dict(C)), ADict(dict(defaults)))
    compare(ctx, 'parameters', '%s: none given' % what, none, expl, sorted(set(none) | set(expl)), where, True)
    part = T.call('WET', a, b, ADict(dict(C)), ADict(dict(some)))
    m = dict(defaults)
    m.update(some)
    expl = T.call('WET', a, b, ADict(dict(C)), ADict(m))
    compare(ctx, 'parameters', '%s: some given' % what, part, expl, sorted(set(part) | set(expl)), where, True)
    # all values that matter are those of the user: numbers of the defaults do not enter
    deps = {x[1] for v in full.values() for mo in Poly.lift(v).t for x, e in mo if x[0] == 'r' and x[1].startswith('user_')}
    bad = sorted({x[1] for v in full.values() for x in atoms_in(v) if x[0] in 'rc' and not cname(x) and not known(x[1], deps)})
    ctx.obl('parameters', '%s: all given' % what, not bad, 'quantities not taken from the given parameters: %s' % bad[:4], where)
    # effective theories with fewer flavours
    for eft in ('WET-4', 'WET-3'):
        if T.translator(eft, a, b) is None:
            ctx.obl('registered', '%s: %s to %s' % (eft, a, b), (a, b) not in FEWER,
                    'there is no such translator', 'wilson/translate/__init__.py')
            continue
        C4 = T.atoms(eft, a)
        r = T.call(eft, a, b, ADict(dict(C4)), par)
        w = T.call('WET', a, b, ADict(dict(C4)), par)
        compare(ctx, 'effective theories', '%s: %s to %s' % (eft, a, b), r, w, sorted(set(r) | set(w)), functions(T, eft, a, b), True)
        s = next(iter(T.jms[eft]))
        r2 = T.call(eft, a, b, ADict(dict(C4)), par, (s,))
        w = T.call('WET', a, b, ADict(dict(C4)), par, (s,))
        compare(ctx, 'effective theories', '%s: %s to %s, sector %s' % (eft, a, b, s), r2, w, sorted(set(r2) | set(w)),
                functions(T, eft, a, b), True)
        r3 = T.call(eft, a, b, ADict(dict(C4)), None)
        w = T.call('WET', a, b, ADict(dict(C4)), None)
        compare(ctx, 'effective theories', '%s: %s to %s, no parameters' % (eft, a, b), r3, w, sorted(set(r3) | set(w)),
                functions(T, eft, a, b), True)
    ctx.obl('pure', what + ', in every call made', not T.changed, '; '.join(sorted(T.changed)[:3]), where)


def atoms_in(v):
    out = set()

    def walk(p):
        for m in p.t:
            for x, e in m:
                out.add(x)
                if x[0] == 's':
                    walk(Poly(dict(x[1])))
    walk(Poly.lift(v))
    return out


def known(n, deps):
    if n.startswith('user_') or n == 'pi':
        return True
    if re.match(r'V\d\d$', n):
        return True
    m = re.match(r'(alpha_s|m_b|m_c|m_s)\((.*)\)$', n)
    if m:
        return all(x.startswith('user_') or x in ('scale', '5', '3', '4') for x in m.group(2).split(','))
    return False


def linear(v):
    v = Poly.lift(v)
    for m in v.t:
        cs = [(x, e) for x, e in m if cname(x)]
        if len(cs) != 1 or cs[0][1] != 1:
            return False
        if any(cname(y) for x, e in m if x[0] in 'sf' for y in atoms_in(Poly({((x, F(1)),): (F(1), F(0))})) if y != x):
            return False
    return True
