"""J-series: running coupling and quark masses (typestate over the rundec calls)."""
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base
from ..num import Poly

FILE = 'wilson/util/qcd.py'
MZ = Fraction('91.1876')
FUN = {  # function: (kind, flavours of the reference value, allowed f)
    'alpha_s': ('alpha_s', 5, (3, 4, 5, 6)),
    'm_b': ('m_b', 5, (3, 4, 5, 6)),
    'm_c': ('m_c', 4, (3, 4, 5)),
    'm_s': ('m_s', 3, (3, 4, 5)),
}
A0, LOOP, S, M0 = (Poly.real(x) for x in ('alphasMZ', 'loop', 'scale', 'mref'))


_IT = []


class Track:
    """the rundec library as a typed state machine"""

    def __init__(self, ctx, fn, f):
        self.ctx, self.fn, self.f = ctx, fn, f
        self.types = {}
        self.n = 0
        self.thr = {}
        if not _IT:
            _IT.append(base.make(REPO, mode='arr'))
            _IT.append(_IT[0].compare)
        self.it = it = _IT[0]
        it.models['rundec.CRunDec'] = self.crd
        old_cmp = _IT[1]

        def compare(op, a, b):
            r = old_cmp(op, a, b)
            if r is not None:
                return r
            x, y = self.sgn(a), self.sgn(b)
            if x is None or y is None:
                return None
            if isinstance(op, ast.Eq):
                return False       # generic position
            if isinstance(op, ast.NotEq):
                return True
            if x > 0 and y <= 0:
                return isinstance(op, (ast.Gt, ast.GtE))
            if x <= 0 and y > 0:
                return isinstance(op, (ast.Lt, ast.LtE))
            return None
        it.compare = compare

    def sgn(self, v):
        v = norm(v)
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return 1 if v > 0 else 0
        if isinstance(v, Poly) and len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and c[1] == 0 and m[0][0][0] == 'r' and c[0] > 0 and not m[0][0][1].startswith('#'):
                return 1
        return None

    def obl(self, rule, what, ok, msg):
        self.ctx.obl(rule, '%s f=%s %s' % (self.fn, self.f, what), ok, msg,
                     '%s:%s line %s' % (FILE, self.it.stack[-1].split('.')[-1] if self.it.stack else self.fn,
                                        self.it.loc[1] if self.it.loc else '?'),
                     sample='%s(f=%s): %s' % (self.fn, self.f, what))

    def alts(self, v):
        return v.vals if isinstance(v, Alt) else [v]

    def type_of(self, v):
        v = norm(v)
        if isinstance(v, Poly):
            return self.types.get(v)
        return None

    def new(self, kind, nf, mu):
        self.n += 1
        a = Poly.real('#%s%d' % (kind, self.n))
        self.types[a] = (kind, nf, mu)
        return a

    def num(self, v):
        v = norm(v)
        return v if isinstance(v, (int, Fraction)) else None

    def is_mu(self, a, b):
        a, b = norm(a), norm(b)
        if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
            return False
        return Poly.lift(a) == Poly.lift(b)

    def expect(self, v, kind, nf, mu, what):
        for x in self.alts(v):
            t = self.type_of(x)
            if t is None:
                self.obl('typestate', what, False, '%s: %r is not a running %s value' % (what, x, kind))
                continue
            ok = t[0] == kind and t[1] == nf and (mu is None or self.is_mu(t[2], mu))
            self.obl('typestate', what, ok, '%s is %s(f=%s, mu=%s), required %s(f=%s, mu=%s)' % (
                (what,) + t + (kind, nf, mu)))

    def loops(self, v, what):
        self.obl('forwarding', what, self.is_mu(v, LOOP), '%s uses %r instead of the requested number of loops' % (what, v))

    def crd(self, it, args, kw):
        mmu = AObj('@nfMmu', {})
        o = AObj('@crd', {'nfMmu': mmu})

        def threshold(x, what):
            a = dict(x.attrs) if isinstance(x, AObj) and x.cls == '@nfMmu' else {}
            vals = {k: self.num(a.get(k)) for k in ('Mth', 'muth', 'nf')}
            self.obl('threshold', what + ' set', None not in vals.values(),
                     'the decoupling parameters are not all set (%s)' % vals)
            if None in vals.values():
                raise NoAnswer('threshold of %s' % what)
            nf = int(vals['nf'])
            self.obl('threshold', '%s nf=%d matching scale' % (what, nf), vals['muth'] == vals['Mth'],
                     'matching scale %s differs from the threshold mass %s' % (vals['muth'], vals['Mth']))
            self.thr.setdefault(nf, set()).add(vals['Mth'])
            return nf

        def exact(it, a, k):
            nf = self.num(a[3])
            self.expect(a[0], 'alpha_s', nf, a[1], 'AlphasExact input')
            self.loops(a[4], 'AlphasExact')
            return self.new('alpha_s', nf, a[2])

        def al(down):
            name = 'AlH2AlL' if down else 'AlL2AlH'

            def f(it, a, k):
                nf = threshold(a[2], name)
                i, o_ = (nf, nf - 1) if down else (nf - 1, nf)
                self.expect(a[0], 'alpha_s', i, a[1], name + ' input')
                self.loops(a[4], name)
                return self.new('alpha_s', o_, a[3])
            return f

        def mrun(it, a, k):
            nf = self.num(a[3])
            out = None
            for x in self.alts(a[2]):
                t = self.type_of(x)
                if t is None:
                    self.obl('typestate', 'mMS2mMS target coupling', False, '%r is not a coupling' % (x,))
                    raise NoAnswer('mMS2mMS')
                out = t[2]
            self.expect(a[1], 'alpha_s', nf, self.mass_mu(a[0], 'mMS2mMS'), 'mMS2mMS initial coupling')
            self.expect(a[2], 'alpha_s', nf, None, 'mMS2mMS final coupling')
            self.expect(a[0], self.fn, nf, None, 'mMS2mMS mass')
            self.loops(a[4], 'mMS2mMS')
            return self.new(self.fn, nf, out)

        def mdec(down):
            name = 'mH2mL' if down else 'mL2mH'

            def f(it, a, k):
                nf = threshold(a[3], name)
                i, o_ = (nf, nf - 1) if down else (nf - 1, nf)
                self.expect(a[0], self.fn, i, a[2], name + ' mass')
                self.expect(a[1], 'alpha_s', i, a[2], name + ' coupling')
                self.loops(a[5], name)
                return self.new(self.fn, o_, a[4])
            return f
        for n, f, k in (('AlphasExact', exact, 5), ('AlH2AlL', al(True), 5), ('AlL2AlH', al(False), 5),
                        ('mMS2mMS', mrun, 5), ('mH2mL', mdec(True), 6), ('mL2mH', mdec(False), 6)):
            def g(it, a, kk, f=f, n=n, k=k):
                if len(a) != k or kk:
                    raise NoAnswer('call of %s' % n)
                return f(it, a, kk)
            o.attrs[n] = Builtin(n, g)
        o.attrs['@getattr'] = lambda n: (_ for _ in ()).throw(NoAnswer('rundec method %s' % n))
        return o

    def mass_mu(self, v, what):
        for x in self.alts(v):
            t = self.type_of(x)
            if t:
                return t[2]
        return None

    def call(self, scale):
        """returns ('value', v) or ('raise', type)"""
        self.types[A0] = ('alpha_s', 5, MZ)
        f = self.it.get('wilson.util.qcd.' + self.fn)
        if self.fn == 'alpha_s':
            args = [scale, self.f]
        else:
            ref = Fraction(2) if self.fn == 'm_s' else M0
            self.types[M0] = (self.fn, FUN[self.fn][1], ref)
            args = [M0, scale, self.f]
        try:
            return 'value', self.it.call(f, args, {'alphasMZ': A0, 'loop': LOOP})
        except RaiseSig as e:
            return 'raise', e.etype


@prop('J01', 'proof', 'typestate analysis: every call into the rundec library is checked against the number of flavours, '
      'scale and loop order of the values it receives, on every path of the four functions')
def j01(ctx):
    ctx.use(*[FILE + ':' + f for f in FUN])
    thr = {}
    for fn, (kind, nf0, allowed) in FUN.items():
        for f in allowed:
            t = Track(ctx, fn, f)
            how, v = t.call(S)
            t.obl('result', 'result', how == 'value', 'raises %s for a positive scale' % v)
            if how == 'value':
                t.expect(v, kind, f, S, 'result')
            for k, s in t.thr.items():
                thr.setdefault(k, {}).setdefault(tuple(sorted(s)), set()).add(fn)
    for nf, d in sorted(thr.items()):
        vals = {x for s in d for x in s}
        ctx.obl('threshold', 'flavour %d' % nf, len(vals) == 1,
                'the threshold of flavour %d differs between functions: %s' % (nf, {str([str(float(y)) for y in x]): sorted(y)
                                                                                  for x, y in d.items()}), FILE,
                sample='nf=%d at %s' % (nf, [float(x) for x in vals]))
    order = [min(x for s in thr[n] for x in s) for n in sorted(thr)]
    ctx.obl('threshold', 'ordering', order == sorted(order), 'thresholds are not increasing: %s' % order, FILE)


@prop('J02', 'proof', 'abstract interpretation at the reference point of each quantity and for all classes of invalid '
      'arguments')
def j02(ctx):
    ctx.use(*[FILE + ':' + f for f in FUN])
    for fn, (kind, nf0, allowed) in FUN.items():
        ref = {'alpha_s': MZ, 'm_s': 2}.get(fn, M0)
        t = Track(ctx, fn, nf0)
        how, v = t.call(ref)
        want = A0 if fn == 'alpha_s' else M0
        t.obl('reference-point', 'at its reference scale', how == 'value' and all(t.is_mu(x, want) for x in t.alts(v)),
              'returns %s %r instead of the input value' % (how, v))
        # other theories at the same scale must go through the thresholds
        for f in allowed:
            if f == nf0:
                continue
            t = Track(ctx, fn, f)
            how, v = t.call(ref)
            if how == 'value':
                t.expect(v, kind, f, ref, 'at the reference scale')
            else:
                t.obl('reference-point', 'other theory', False, 'raises %s' % v)
        bad = [(S, f) for f in (0, 1, 2, 7, 8, Fraction(7, 2), 3, 4, 5, 6) if f not in allowed]
        bad += [(ref, f) for f in (2, 6, 7) if f not in allowed]
        bad += [(s, f) for s in (0, -1, Fraction(-91)) for f in allowed]
        for s, f in bad:
            t = Track(ctx, fn, f)
            how, v = t.call(s)
            sn = 'scale' if s is S else 'reference scale' if s is ref else s
            t.obl('invalid-input', 'scale=%s' % sn, how == 'raise' and v == 'ValueError',
                  'an invalid request is answered with %s %r' % (how, v))
