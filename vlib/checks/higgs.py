"""F05: translation between the Warsaw bases and the Higgs-Warsaw basis of the SMEFT."""
import json
import re
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, spec, ref
from ..num import Poly
from .wettrans import user, compare, same, linear, atoms_in, cname

F = Fraction
FILE = 'wilson/translate/smeft_higgs.py'
OTHER = 'deltalambda3 deltacz czBox cgg cgammagamma czz czgamma cggtilde cgammagammatilde czztilde czgammatilde'.split()
GONE = 'phi phiBox phiD phiG phiW phiB phiWB phiGtilde phiWtilde phiBtilde phiWtildeB'.split()
VERTEX = {'phil3': 'deltagWlL', 'phil1': 'deltagZeL', 'phie': 'deltagZeR', 'phiq3': 'deltagZuL', 'phiq1': 'deltagZdL', 'phiu': 'deltagZuR',
          'phid': 'deltagZdR', 'phiud': 'deltagWqR'}


def higgs_basis():
    """the Higgs-Warsaw basis: couplings of Higgs and gauge bosons instead of
    the coefficients of the Warsaw basis that modify them"""
    out = {}
    for k, v in spec.smeft_basis().items():
        a, _, ix = k.partition('_')
        if k in GONE:
            continue
        out[VERTEX.get(a, a) + ('_' + ix if ix else '')] = v
    for k in OTHER:
        out[k] = {'real': True}
    return out


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def unitary(seed):
    """an exactly unitary matrix: a product of complex rotations by Pythagorean angles"""
    M = [[(F(int(i == j)), F(0)) for j in range(3)] for i in range(3)]
    for n, (i, j) in enumerate(((1, 2), (0, 2), (0, 1))):
        a, b, h = ((3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29))[(n + seed) % 4]
        c, s = F(b, h), F(a, h)
        ph = (F(3, 5), F(4, 5)) if n == 1 else (F(1), F(0))
        R = [[(F(int(x == y)), F(0)) for y in range(3)] for x in range(3)]
        R[i][i] = R[j][j] = (c, F(0))
        R[i][j] = (s * ph[0], -s * ph[1])
        R[j][i] = (-s * ph[0], -s * ph[1])
        N = []
        for x in range(3):
            row = []
            for y in range(3):
                t = (F(0), F(0))
                for z in range(3):
                    u = cmul(M[x][z], R[z][y])
                    t = (t[0] + u[0], t[1] + u[1])
                row.append(t)
            N.append(row)
        M = N
    return Arr.new([Poly.const(*x) for r in M for x in r], (3, 3))


class Higgs:
    def __init__(self, ctx):
        sm = spec.smeft_basis()
        self.basis = {'Warsaw': sm, 'Warsaw up': sm, 'Higgs-Warsaw up': higgs_basis()}
        vf = base.virtual_files(REPO)
        vf['/virtual/bases/SMEFT.Higgs-Warsaw up.basis.json'] = json.dumps({
            'eft': 'SMEFT', 'basis': 'Higgs-Warsaw up', 'sectors': {'all': self.basis['Higgs-Warsaw up']}})
        it = self.it = base.make(REPO)
        base.generic_position(it)
        self.asked = []
        self.changed = set()
        it.models['ckmutil.ckm.ckm_tree'] = self.ckm
        it.load('wilson.translate')
        ctx.use(FILE, 'wilson/translate/__init__.py', 'wilson/translate/smeft.py')

    def ckm(self, it, a, k):
        d = dict(zip(('Vus', 'Vub', 'Vcb', 'gamma'), a))
        d.update({'gamma' if x == 'delta' else x: v for x, v in k.items()})
        key = [str(Poly.lift(norm(d.get(n, 0)))) for n in ('Vus', 'Vub', 'Vcb', 'gamma')]
        if key == ['user_' + n for n in ('Vus', 'Vub', 'Vcb', 'gamma')]:
            return unitary(0)
        self.asked.append(key)
        return unitary(1)

    def fn(self, a, b):
        inst = self.it.get('wilson.wcxf.classes.Translator').find('instances')
        t = inst.d.get(('SMEFT', a, b))
        return None if t is None else self.it.getattr_(t, 'function')

    def tr(self, a, b, C, p, sectors=None):
        kw = {} if sectors is None else {'sectors': sectors}
        if not isinstance(C, ADict):
            C = ADict(dict(C))
        before = [list(x.d.items()) if isinstance(x, ADict) else None for x in (C, p)]
        r = self.it.call(self.fn(a, b), [C, Poly.real('scale'), p], kw)
        for x, y, w in zip((C, p), before, ('coefficients', 'parameters')):
            if isinstance(x, ADict) and list(x.d.items()) != y:
                self.changed.add('%s to %s changes the %s given by the caller (%d of %d entries given)' % (a, b, w, len(y), len(x.d)))
        if not isinstance(r, ADict):
            raise NoAnswer('the result of the translator is %r' % (r,))
        return {k: norm(v) for k, v in r.d.items()}

    def coeffs(self, b):
        return {k: Poly.real('C_' + k) if v.get('real') else Poly.cplx('C_' + k) for k, v in self.basis[b].items()}


def only(v, few):
    """the part of a linear formula with these coefficients"""
    v = Poly.lift(v)
    return Poly({m: c for m, c in v.t.items() if any(cname(x) in few for x, e in m)})


def table_higgs_trans(ctx):
    H = Higgs(ctx)
    out = {}
    for a, b in (('Higgs-Warsaw up', 'Warsaw up'), ('Warsaw up', 'Higgs-Warsaw up')):
        for k, v in H.tr(a, b, H.coeffs(a), ADict(user())).items():
            if Poly.lift(v) != H.coeffs(a).get(k):
                out['%s > %s : %s' % (a, b, k)] = Poly.lift(v)
    return out


@prop('F05', 'proof', 'abstract interpretation of the translators with symbolic coefficients and parameters; both round trips are the '
      'identity, compositions and conventions for parameters are compared exactly')
def f05(ctx):
    H = Higgs(ctx)
    p = ADict(user())
    D = H.it.get('wilson.parameters.p')
    defaults = dict(D.d)
    U, W, X = 'Warsaw up', 'Warsaw', 'Higgs-Warsaw up'
    for a, b in ((X, U), (U, X), (X, W), (W, X)):
        ctx.obl('registered', '%s to %s' % (a, b), H.fn(a, b) is not None, 'there is no such translator', 'wilson/translate/__init__.py')
        if H.fn(a, b) is None:
            return
    for a, b in ((X, U), (U, X), (X, W), (W, X)):
        what, where = '%s to %s' % (a, b), '%s:%s' % (FILE, 'higgslike_to_warsaw_up' if a == X else 'warsaw_up_to_higgslike')
        C = H.coeffs(a)
        inp = ADict(dict(C))
        r = H.tr(a, b, inp, p)
        ctx.obl('pure', what, list(inp.d.items()) == list(C.items()) and dict(p.d) == user(), 'the translation changes its input', where)
        if W not in (a, b):
            want = {k: v for k, v in C.items() if k in r}
            want.update({k.split(' : ')[1]: v for k, v in ref.load('higgs_trans').items() if k.startswith('%s > %s :' % (a, b))})
            compare(ctx, 'formula', what, r, want, sorted(set(r) | set(want)), where, True)
        ctx.obl('defaults kept', what, dict(D.d) == defaults, 'the default parameters are changed', where)
        ctx.obl('in-basis', what, set(r) <= set(H.basis[b]), 'coefficients that are not in the basis: %s' % sorted(
            set(r) - set(H.basis[b]))[:5], where)
        ctx.obl('complete', what, set(r) >= set(H.basis[b]), 'coefficients that are missing: %s' % sorted(
            set(H.basis[b]) - set(r))[:5], where)
        bad = [k for k, v in r.items() if not linear(v)]
        ctx.obl('linear', what, not bad, 'not linear in the coefficients: %s' % bad[:5], where)
        z = H.tr(a, b, {}, p)
        bad = [k for k, v in z.items() if not Poly.lift(v).is_zero()]
        ctx.obl('missing', what, not bad, 'nonzero without any coefficient: %s' % bad[:5], where)
        bad = [k for k, v in r.items() if H.basis[b].get(k, {}).get('real') and not same(v, Poly.lift(v).conj())]
        ctx.obl('real', what, not bad, 'coefficients of hermitian operators that are complex: %s' % bad[:5], where)
        if b != W:
            back = H.tr(b, a, r, p)
            compare(ctx, 'round-trip', '%s and back' % what, back, C, sorted(C), where)
        if W in (a, b):
            # through the basis with up alignment
            via = H.tr(U, b, H.tr(a, U, C, p), p)
            compare(ctx, 'composition', '%s through %s' % (what, U), r, via, sorted(set(r) | set(via)), where, True)
        compare(ctx, 'sectors', what, H.tr(a, b, C, p, ('all',)), r, sorted(r), where)
        # only some coefficients given
        for n in range(3 if ctx.thorough else 1):
            few = {k: v for i, (k, v) in enumerate(C.items()) if (i + n) % 3 == 0}
            sub = H.tr(a, b, few, p)
            compare(ctx, 'missing', '%s: a third of the coefficients' % what, sub, {k: only(v, few) for k, v in r.items()}, sorted(r), where, True)
        # parameters
        if a != W and b != W or ctx.thorough:
            few = {k: v for i, (k, v) in enumerate(C.items()) if '_' not in k or k.split('_')[0] in set(VERTEX) | set(VERTEX.values()) or k in
                   ('ll_1221',) or i % 40 == 0}
            none = H.tr(a, b, few, None)
            full = H.tr(a, b, few, ADict(dict(defaults)))
            compare(ctx, 'parameters', '%s: none given' % what, none, full, sorted(set(none) | set(full)), where, True)
            some = {k: user()[k] for k in ('alpha_s', 'Vcb', 'm_Z', 'GF')}
            part = H.tr(a, b, few, ADict(dict(some)))
            m = dict(defaults)
            m.update(some)
            full = H.tr(a, b, few, ADict(m))
            compare(ctx, 'parameters', '%s: some given' % what, part, full, sorted(set(part) | set(full)), where, True)
        bad = sorted({str(x[1]) for v in r.values() for x in atoms_in(v) if x[0] in 'rc' and not cname(x) and not str(x[1]).startswith(
            'user_') and x[1] != 'pi'})
        ctx.obl('parameters', '%s: all given' % what, not bad, 'quantities not taken from the given parameters: %s' % bad[:4], where)
    H.asked.clear()
    for a, b in ((X, U), (U, X), (X, W), (W, X)):
        H.tr(a, b, {'cgg': 1} if a == X else {'phiG': 1}, p)
    ctx.obl('pure', 'in every call made', not H.changed, '; '.join(sorted(H.changed)[:3]), FILE)
    ctx.obl('parameters', 'CKM matrix', not H.asked, 'the CKM matrix is calculated from %s' % H.asked[:1], FILE)
