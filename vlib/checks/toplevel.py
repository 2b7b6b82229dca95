"""H04: the Wilson class - composition of running, matching and translation,
caching and options - with opaque physics."""
import itertools
from fractions import Fraction
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, libmodel
from ..num import Poly, equal
from .drivers import number, same_num2

FILE = 'wilson/classes.py'
F = Fraction


# ------------------------------------------------------------- voluptuous
def volup(it):
    """models of the voluptuous validators (library behaviour)"""
    def invalid(msg):
        raise RaiseSig('voluptuous.MultipleInvalid', msg, it.where())

    def obj(fn):
        return AObj('@validator', {'@call': fn})

    def check(schema, v):
        if isinstance(schema, ADict):
            if not isinstance(v, ADict):
                invalid('expected a dictionary')
            r = ADict()
            extra = [s for k, s in schema.d.items() if isinstance(k, Ext) or getattr(k, 'cls', None) == '@extra']
            plain = {k: s for k, s in schema.d.items() if not (isinstance(k, Ext) or getattr(k, 'cls', None) == '@extra')}
            if any(not isinstance(k, (str, int)) for k in plain):
                raise NoAnswer('schema with keys %s' % list(plain))
            for k, x in v.d.items():
                if k in plain:
                    r.d[k] = check(plain[k], x)
                elif extra:
                    r.d[k] = check(extra[0], x)
                else:
                    invalid('extra keys not allowed')
            return r
        if isinstance(schema, AObj) and '@call' in schema.attrs:
            return it.call(schema, [v], {})
        if isinstance(schema, (Builtin, AClass)) and getattr(schema, 'name', '') in ('int', 'float', 'str', 'dict', 'bool', 'list'):
            if libmodel_isinstance(it, v, schema) is not True:
                invalid('expected %s' % schema.name)
            return v
        if isinstance(schema, (AFunc, ABound)):
            try:
                return it.call(schema, [v], {})
            except RaiseSig as e:
                invalid(str(e))
        if isinstance(schema, (str, int, Fraction)) or schema is None:
            if norm(v) != schema:
                invalid('not a valid value')
            return v
        raise NoAnswer('schema %r not understood' % (schema,))

    def m_in(it, a, k):
        vals = it.iterate(a[0])
        if vals is None:
            raise NoAnswer('vol.In of an unknown container')

        def f(it, a, k):
            r = it.contains(AList(vals), a[0])
            if r is None:
                raise NoAnswer('membership of %r not decided' % (a[0],))
            return a[0] if r else invalid('value is not allowed')
        return obj(f)

    def m_coerce(it, a, k):
        t = a[0]

        def f(it, a, k):
            try:
                return it.call(t, [a[0]], {})
            except RaiseSig as e:
                invalid(str(e))
        return obj(f)

    def m_any(it, a, k):
        def f(it, b, k):
            for s in a:
                try:
                    return check(s, b[0])
                except RaiseSig:
                    pass
            invalid('no valid alternative')
        return obj(f)

    def m_all(it, a, k):
        def f(it, b, k):
            v = b[0]
            for s in a:
                v = check(s, v)
            return v
        return obj(f)

    def m_range(it, a, k):
        d = dict(zip(['min', 'max', 'min_included', 'max_included'], a))
        d.update(k)

        def f(it, b, k):
            v = norm(b[0])
            if not isinstance(v, (int, Fraction)):
                raise NoAnswer('vol.Range of %r' % (v,))
            lo, hi = norm(d.get('min')), norm(d.get('max'))
            if lo is not None and (v < lo or v == lo and d.get('min_included', True) is False) or \
                    hi is not None and (v > hi or v == hi and d.get('max_included', True) is False):
                invalid('out of range')
            return b[0]
        return obj(f)
    mark = AObj('@extra', {})
    it.ext_values['voluptuous.Extra'] = mark
    it.ext_values['voluptuous.ALLOW_EXTRA'] = 1
    m = {'Schema': lambda it, a, k: AObj('@schema', {'@call': lambda it, b, k: check(a[0], b[0]), 'schema': a[0]}),
         'In': m_in, 'Coerce': m_coerce, 'Any': m_any, 'Or': m_any, 'All': m_all, 'And': m_all, 'Range': m_range,
         'Optional': lambda it, a, k: a[0], 'Required': lambda it, a, k: a[0]}
    for n, f in m.items():
        it.models['voluptuous.' + n] = f
        it.models['voluptuous.validators.' + n] = f


def libmodel_isinstance(it, v, t):
    return it.call(libmodel.BUILTINS['isinstance'], [v, t], {}) if hasattr(libmodel, 'BUILTINS') else None


# ------------------------------------------------------------- the world
class World:
    """opaque translation, matching and running; coefficients carry the term
    that describes how they were obtained"""

    def __init__(self, it):
        self.it = it
        mod = it.load('wilson.wcxf.classes').env.v
        self.WC, self.TR, self.MA = mod['WC'], mod['Translator'], mod['Matcher']
        self.calls = []
        self.hook(self.TR, 'translate', self.translate)
        self.hook(self.MA, 'match', self.match)
        self.hook(self.WC, 'validate', self.validate)
        self.SM = it.get('wilson.run.smeft.classes.SMEFT')
        self.WR = it.get('wilson.run.wet.classes.WETrunner')
        self.hook(self.SM, '__init__', self.smeft_init)
        self.hook(self.SM, 'run', self.smeft_run)
        self.hook(self.WR, '__init__', self.wet_init)
        self.hook(self.WR, 'run', self.wet_run)
        self.defaults = it.get('wilson.parameters.p')
        self.sink = []            # problems noticed in calls
        self.params = None
        self.terms = {}
        self.objs = {}

    def hook(self, cls, name, fn):
        f = cls.find(name)
        f = getattr(f, 'f', f)
        if not isinstance(f, AFunc):
            raise NoAnswer('%s.%s not found' % (cls.name, name))

        def h(it, args, kw):
            b = dict(it.bind_args(f, args, kw))
            extra = b.pop('kwargs', None)
            if isinstance(extra, ADict):
                b.update(extra.d)
            names = list(b)
            self_ = b.pop(names[0])
            return fn(self_, **{k: v for k, v in b.items()})
        self.it.call_hooks[f.qual] = h

    def wc(self, eft, basis, scale, term, restr):
        key = (eft, basis, scale, term, restr)
        w = self.it.call(self.WC, [eft, basis, scale, ADict({})], {})
        w.attrs['@term'] = term
        w.attrs['@restr'] = restr
        return w

    def term(self, w):
        if not isinstance(w, AObj) or w.cls is not self.WC:
            raise NoAnswer('expected coefficients, found %r' % (w,))
        if '@term' in w.attrs:
            return w.attrs['@term'], w.attrs['@restr']
        return ('in', self.ident(w)), None

    def ident(self, w):
        """the input coefficients, identified by their values"""
        v = self.it.getattr_(w, 'values')
        return tuple(sorted((k, repr(self.canon(x))) for k, x in v.d.items()))

    def canon(self, v):
        v = norm(v)
        if isinstance(v, ADict):
            return tuple(sorted((repr(k), self.canon(x)) for k, x in v.d.items()))
        if is_num(v):
            return Poly.lift(v).key()
        if isinstance(v, (Top, Alt)):
            raise NoAnswer('a value is not determined: %r' % (v,))
        return repr(v)

    def eff(self, parameters):
        """effective parameters of a call"""
        if parameters is not None and not isinstance(parameters, ADict):
            raise NoAnswer('parameters are %r' % (parameters,))
        d = dict(self.defaults.d)
        d.update(parameters.d if parameters is not None else {})
        lo = d.pop('loop_order', 0)
        return tuple(sorted((k, self.canon(v)) for k, v in d.items())), self.canon(lo)

    def sectors(self, s):
        if s is None or s == 'all':
            return None
        v = self.it.iterate(s)
        if v is None:
            raise NoAnswer('sectors are %r' % (s,))
        return frozenset(v)

    def meet(self, a, b):
        return b if a is None else a if b is None else a & b

    def get(self, o, n):
        return self.it.getattr_(o, n)

    def translate(self, o, WC_in, parameters=None, sectors=None):
        t, r = self.term(WC_in)
        p, _ = self.eff(parameters)
        eft = self.get(WC_in, 'eft')
        if p != self.params:
            self.sink.append('translation from %s to %s uses other parameters than those of the instance' % (
                self.get(o, 'from_basis'), self.get(o, 'to_basis')))
        if eft != 'SMEFT':
            r = self.meet(r, self.sectors(sectors))
        return self.wc(eft, self.get(o, 'to_basis'), self.get(WC_in, 'scale'), t, r)

    def match(self, o, WC_in, parameters=None):
        t, r = self.term(WC_in)
        p, lo = self.eff(parameters)
        if self.get(WC_in, 'eft') == 'SMEFT':
            if p != self.params:
                self.sink.append('matching at the electroweak scale uses other parameters than those of the instance')
            if r is not None:
                r = frozenset()
            t = ('match', lo, self.key(self.get(WC_in, 'scale')), t)
        else:
            t = ('match', self.get(o, 'to_eft'), self.key(self.get(WC_in, 'scale')), t)
        return self.wc(self.get(o, 'to_eft'), self.get(o, 'to_basis'), self.get(WC_in, 'scale'), t, r)

    def validate(self, o):
        self.calls.append(('validate', o))

    def key(self, x):
        n = number(x)
        if n is None:
            raise NoAnswer('scale is %r' % (x,))
        return n.key()

    def smeft_init(self, o, wc=None, get_smpar=True):
        if self.get(wc, 'eft') != 'SMEFT' or self.get(wc, 'basis') != 'Warsaw':
            raise RaiseSig('ValueError', 'wrong EFT or basis', self.it.where())
        if get_smpar is not True:
            self.sink.append('SMEFT running without SM parameters')
        o.attrs.update({'wc': wc, 'scale_in': self.get(wc, 'scale')})

    def smeft_run(self, o, scale, accuracy='integrate', **kw):
        w = o.attrs['wc']
        t, r = self.term(w)
        return self.wc('SMEFT', 'Warsaw', scale, ('smeft', accuracy, self.key(self.get(w, 'scale')), self.key(scale), t), r)

    def wet_init(self, o, wc=None, parameters=None, qed_order=1, qcd_order=1):
        if self.get(wc, 'basis') != 'JMS':
            raise RaiseSig('AssertionError', 'JMS', self.it.where())
        e = self.get(wc, 'eft')
        if e not in ('WET', 'WET-4', 'WET-3'):
            raise RaiseSig('AttributeError', 'f', self.it.where())
        p, _ = self.eff(parameters)
        if p != self.params:
            self.sink.append('%s running uses other parameters than those of the instance' % e)
        o.attrs.update({'@wc': wc, '@eft': e, '@opts': (norm(qed_order), norm(qcd_order))})
        return NotImplemented     # the attributes are those the code sets

    def wet_run(self, o, scale_out, sectors='all'):
        w = o.attrs['@wc']
        t, r = self.term(w)
        r = self.meet(r, self.sectors(sectors))
        a, b = self.key(self.get(w, 'scale')), self.key(scale_out)
        if a != b:
            t = ('wet', o.attrs['@opts'], a, b, t)
        return self.wc(o.attrs['@eft'], 'JMS', scale_out, t, r)

    def has(self, cls, key):
        d = cls.env.v.get('instances') if hasattr(cls, 'env') else None
        try:
            self.it.call(self.it.getattr_(cls, 'get_instance'), [key], {})
            return True
        except RaiseSig:
            return False


CHAIN = ['WET', 'WET-4', 'WET-3']


class Expect:
    def __init__(self, w, wc, opts):
        self.w, self.wc, self.o = w, wc, opts
        self.eft, self.basis, self.scale = (w.get(wc, n) for n in ('eft', 'basis', 'scale'))
        self.t = w.term(wc)[0]

    def tr(self, eft, a, b):
        return a == b or self.w.has(self.w.TR, (eft, a, b))

    def __call__(self, scale, eft, basis, sectors):
        """(term, basis, whether sectors must be exact) or None if unsupported"""
        w, o, k = self.w, self.o, self.w.key
        same = k(scale) == k(self.scale)
        if eft == self.eft and same:
            return (self.t, False) if self.tr(eft, self.basis, basis) else None
        opts = (o['qed_order'], o['qcd_order'])
        if self.eft == 'SMEFT':
            if not self.tr('SMEFT', self.basis, 'Warsaw'):
                return None
            if eft == 'SMEFT':
                t = ('smeft', o['smeft_accuracy'], k(self.scale), k(scale), self.t)
                return (t, False) if self.tr('SMEFT', 'Warsaw', basis) else None
            if eft not in CHAIN:
                return None
            ew = o['smeft_matchingscale']
            t = self.t
            if k(ew) != k(self.scale):
                t = ('smeft', o['smeft_accuracy'], k(self.scale), k(ew), t)
            t = ('match', w.canon(o['smeft_matching_order']), k(ew), t)
            cur, cs = 'WET', ew
        elif self.eft in CHAIN:
            if not self.tr(self.eft, self.basis, 'JMS'):
                return None
            t, cur, cs = self.t, self.eft, self.scale
        else:
            return None
        if eft not in CHAIN or CHAIN.index(eft) < CHAIN.index(cur):
            return None

        def run(t, cs, s):
            return t if k(cs) == k(s) else ('wet', opts, k(cs), k(s), t)
        while cur != eft:
            s = o['mb_matchingscale' if cur == 'WET' else 'mc_matchingscale']
            t = run(t, cs, s)
            cur, cs = CHAIN[CHAIN.index(cur) + 1], s
            t = ('match', cur, k(s), t)
        t = run(t, cs, scale)
        return (t, True) if self.tr(eft, 'JMS', basis) else None


DEFAULTS = {'smeft_accuracy': 'integrate', 'qed_order': 1, 'qcd_order': 1, 'smeft_matching_order': 0,
            'smeft_matchingscale': F('91.1876'), 'mb_matchingscale': F('4.2'), 'mc_matchingscale': F('1.3')}
CHANGES = {'smeft_accuracy': 'leadinglog', 'qed_order': 0, 'qcd_order': 0, 'smeft_matching_order': 1,
           'smeft_matchingscale': F(160), 'mb_matchingscale': F('4.8'), 'mc_matchingscale': F('1.5')}


def show(t):
    if isinstance(t, tuple) and t and t[0] == 'in':
        return 'input'
    if isinstance(t, tuple) and t and isinstance(t[0], str) and t[0] in ('smeft', 'wet', 'match'):
        return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
    return key2num(t)


def key2num(t):
    try:
        (m, c), = t
        if m == ():
            return '%g' % float(c[0])
    except Exception:
        pass
    return str(t)[:40]


class Runner:
    def __init__(self, ctx, it, w):
        self.ctx, self.it, self.w = ctx, it, w
        self.cls = it.get('wilson.classes.Wilson')
        self.n = 0

    def new(self, eft, basis, scale, tag='c', d=None):
        d = d if d is not None else {'%s_1' % tag: Poly.real(tag + '1'), '%s_2' % tag: Poly.cplx(tag + '2')}
        self.d = ADict(dict(d), own='the coefficients given by the user')
        return self.it.call(self.cls, [], {'wcdict': self.d, 'scale': scale, 'eft': eft, 'basis': basis})

    def request(self, o, req, opts, params, what):
        scale, eft, basis, sectors = req
        w = self.w
        wc = self.it.getattr_(o, 'wc')
        w.params = w.eff(ADict(dict(params)))[0]
        exp = Expect(w, wc, opts)(scale, eft, basis, sectors)
        del w.sink[:]
        self.it.effects.clear()
        W = FILE + ':Wilson.match_run'
        kw = {} if sectors == 'default' else {'sectors': sectors}
        try:
            r = self.it.call(self.it.getattr_(o, 'match_run'), [scale, eft, basis], kw)
        except RaiseSig as e:
            if exp is None:
                self.ctx.obl('unsupported-refused', what, e.etype == 'ValueError', 'raises %s' % e, W)
            else:
                self.ctx.obl('supported', what, False, 'raises %s' % e, W)
            return None
        if exp is None:
            self.ctx.obl('unsupported-refused', what, False, 'an unsupported request is answered', W)
            return None
        bad = sorted({e[0] for e in self.it.effects if e[0] is not None})
        self.ctx.obl('input-unchanged', what, not bad, '%s modified' % bad[:3], W)
        self.ctx.obl('parameters', what, not w.sink, '; '.join(sorted(set(w.sink)))[:300], W)
        lab = [self.it.getattr_(r, n) for n in ('eft', 'basis', 'scale')] if isinstance(r, AObj) and r.cls is w.WC else None
        self.ctx.obl('label', what, lab is not None and lab[:2] == [eft, basis] and same_num2(lab[2], scale), 'the result is labelled %s' % lab, W)
        if lab is None:
            return None
        t, restr = w.term(r)
        ok = t == exp[0]
        self.ctx.obl('composition', what, ok, 'the result is %s instead of %s' % (show(t), show(exp[0])), W, sample=what)
        s = w.sectors(None if sectors == 'default' else sectors)
        if s is None:
            ok = restr is None
        else:
            ok = restr is None or restr >= s
            if exp[1]:
                ok = restr == s
        self.ctx.obl('sectors', what, ok, 'the result contains %s instead of %s' % (
            'all sectors' if restr is None else sorted(restr), 'all sectors' if s is None else sorted(s)), W)
        return r


def set_option(it, o, k, v):
    it.call(it.getattr_(o, 'set_option'), [k, v], {})


@prop('H04', 'proof', 'abstract interpretation of the Wilson class with uninterpreted running, matching and translation, over sequences of calls')
def h04(ctx):
    ctx.use(FILE, 'wilson/parameters.py')
    it = base.make(REPO, mode='arr')
    volup(it)
    it.load('wilson')
    it.universal_bases = False
    base.generic_position(it)
    w = World(it)
    R = Runner(ctx, it, w)
    W = FILE + ':Wilson'
    it.get('wilson.parameters.p').own = 'wilson.parameters.p'
    EW, MB, MC = DEFAULTS['smeft_matchingscale'], DEFAULTS['mb_matchingscale'], DEFAULTS['mc_matchingscale']
    inputs = [('SMEFT', 'Warsaw', F(1000)), ('SMEFT', 'Warsaw up', F(1000)), ('SMEFT', 'Warsaw', EW), ('SMEFT', 'Warsaw up', EW),
              ('SMEFT', 'Higgs-Warsaw up', F(1000)), ('SMEFT', 'Higgs-Warsaw up', EW), ('SMEFT', 'Warsaw', F(10)),
              ('WET', 'JMS', EW), ('WET', 'JMS', MB), ('WET', 'flavio', F(160)), ('WET', 'Bern', F(3)), ('WET', 'EOS', F(5)),
              ('WET-4', 'JMS', MB), ('WET-4', 'flavio', F(2)), ('WET-3', 'JMS', MC), ('WET-3', 'flavio', F(1)),
              ('WET-2', 'JMS', F(1)), ('SMEFT', 'Warsaw mass', F(1000))]
    targets = [('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('WET', 'JMS'), ('WET', 'flavio'), ('WET', 'EOS'), ('WET-4', 'JMS'),
               ('WET-4', 'flavio'), ('WET-3', 'JMS'), ('WET-3', 'flavio'), ('WET-2', 'JMS')]
    scales = [F(1000), F(5000), EW, F(10), MB, F(2), MC, F(1)]
    sects = ['default', 'all', ('sb',), ('cu', 'sb')]
    reqs = [(s, e, b, q) for e, b in targets for s in scales for q in sects]

    def name(i):
        return '%s/%s at %g' % (i[0], i[1], float(i[2]))

    def rname(r):
        return '%s/%s at %g sectors=%s' % (r[1], r[2], float(r[0]), r[3])
    # ---- construction
    for i in inputs:
        del w.calls[:]
        o = R.new(i[0], i[1], i[2])
        wc = it.getattr_(o, 'wc')
        ok = isinstance(wc, AObj) and [it.getattr_(wc, n) for n in ('eft', 'basis')] == list(i[:2]) and same_num2(it.getattr_(wc, 'scale'), i[2])
        ctx.obl('construction', name(i), ok, 'the coefficients are labelled wrongly', W + '.__init__')
        d = it.getattr_(wc, 'dict')
        ok = set(d.d) == set(R.d.d) and all(same_num2(d.d[k], R.d.d[k]) for k in d.d)
        ctx.obl('construction', name(i) + ' values', ok, 'the coefficients differ from the given ones', W + '.__init__')
        ctx.obl('construction', name(i) + ' validated', any(c[0] == 'validate' and c[1] is wc for c in w.calls), 'the coefficients are not validated', W + '.__init__')
        for how in ('from_wc', 'load_wc'):
            w2 = it.call(w.WC, [i[0], i[1], i[2], it.call(it.getattr_(w.WC, 'dict2values'), [R.d], {})], {})
            if how == 'load_wc':
                f = w.WC.find('load')
                f = getattr(f, 'f', f)
                it.call_hooks[f.qual] = lambda it, a, k: w2
                arg = AObj('@stream', {})
            else:
                arg = w2
            o2 = it.call(it.getattr_(R.cls, how), [arg], {})
            wc2 = it.getattr_(o2, 'wc')
            d = it.getattr_(wc2, 'dict')
            ok = [it.getattr_(wc2, n) for n in ('eft', 'basis')] == list(i[:2]) and same_num2(it.getattr_(wc2, 'scale'), i[2]) and \
                set(d.d) == set(R.d.d) and all(same_num2(d.d[k], R.d.d[k]) for k in d.d)
            ctx.obl('construction', '%s %s' % (how, name(i)), ok, '%s does not reproduce the coefficients' % how, W + '.' + how)
    # ---- every request on a fresh instance, and again from the cache
    for i in inputs:
        for r in reqs:
            o = R.new(*i)
            a = R.request(o, r, DEFAULTS, {}, '%s -> %s' % (name(i), rname(r)))
            if a is not None:
                R.request(o, r, DEFAULTS, {}, '%s -> %s again' % (name(i), rname(r)))
    # ---- sequences of requests on one instance
    small = [r for r in reqs if r[3] != 'default' and r[3] != ('cu', 'sb')]
    mixed = reqs[::3] + reqs[1::3] + reqs[2::3]
    for i in inputs:
        for tag, seq in (('forward', reqs), ('backward', reqs[::-1]), ('mixed', mixed)):
            o = R.new(*i)
            for r in seq:
                R.request(o, r, DEFAULTS, {}, '%s -> %s in a %s sequence of requests' % (name(i), rname(r), tag))
    pairs = [r for r in small if r[:3] in ((EW, 'WET', 'JMS'), (EW, 'WET', 'flavio'), (F(10), 'WET', 'JMS'), (F(10), 'WET', 'flavio'),
                                           (MB, 'WET-4', 'JMS'), (F(2), 'WET-4', 'JMS'), (F(2), 'WET-3', 'JMS'), (F(1), 'WET-3', 'JMS'),
                                           (MC, 'WET-3', 'flavio'), (F(5000), 'SMEFT', 'Warsaw'), (EW, 'SMEFT', 'Warsaw'), (F(2), 'WET', 'JMS'))]
    if ctx.thorough:
        pairs = small
    for i in (inputs if ctx.thorough else [inputs[n] for n in (0, 2, 7, 12)]):
        for r1 in pairs:
            for r2 in pairs:
                o = R.new(*i)
                try:
                    it.call(it.getattr_(o, 'match_run'), list(r1[:3]), {'sectors': r1[3]})
                except RaiseSig:
                    break
                R.request(o, r2, DEFAULTS, {}, '%s -> %s after %s' % (name(i), rname(r2), rname(r1)))
    # ---- options
    par = {'Vcb': F(1, 20), 'm_b': F(5), 'extra': F(7)}
    few = [(F(2), 'WET-3', 'flavio', 'all'), (F(10), 'WET', 'JMS', ('sb',)), (F(500), 'SMEFT', 'Warsaw up', 'all'), (F(3), 'WET-4', 'flavio', 'all'),
           (EW, 'WET', 'flavio', 'all')]
    changes = [(k, v, dict(DEFAULTS, **{k: v}), {}) for k, v in CHANGES.items()] + [('parameters', ADict(dict(par), own='the parameters given by the user'), DEFAULTS, par)]
    for i in inputs[:4] + inputs[7:10] + inputs[12:15]:
        for k, v, opts, pars in changes:
            for r in few:
                o = R.new(*i)
                other = R.new(*i, tag='z')
                if Expect(w, it.getattr_(o, 'wc'), opts)(*r) is None:
                    continue
                R.request(o, r, DEFAULTS, {}, '%s -> %s before setting %s' % (name(i), rname(r), k))
                it.effects.clear()
                set_option(it, o, k, v)
                bad = sorted({e[0] for e in it.effects if e[0]})
                ctx.obl('input-unchanged', 'set_option %s' % k, not bad, '%s modified' % bad, W + '.set_option')
                R.request(o, r, opts, pars, '%s -> %s after setting %s' % (name(i), rname(r), k))
                R.request(other, r, DEFAULTS, {}, '%s -> %s on another instance after setting %s' % (name(i), rname(r), k))
                set_option(it, o, k, DEFAULTS.get(k, ADict({})))
                R.request(o, r, DEFAULTS, {}, '%s -> %s after resetting %s' % (name(i), rname(r), k))
    # ---- default options
    saved = it.getattr_(R.cls, '_default_options') if R.cls.find('_default_options') is not None else None
    for k, v, opts, pars in changes:
        i, r = inputs[0], few[0]
        a = R.new(*i)
        it.effects.clear()
        it.call(it.getattr_(R.cls, 'set_default_option'), [k, v], {})
        bad = sorted({e[0] for e in it.effects if e[0]})
        ctx.obl('input-unchanged', 'set_default_option %s' % k, not bad, '%s modified' % bad, W + '.set_default_option')
        b = R.new(*i)
        R.request(a, r, DEFAULTS, {}, 'existing instance after set_default_option(%s)' % k)
        R.request(b, r, opts, pars, 'new instance after set_default_option(%s)' % k)
        g = it.call(it.getattr_(b, 'get_option'), [k], {})
        g0 = it.call(it.getattr_(a, 'get_option'), [k], {})
        ctx.obl('get-option', 'new instance %s' % k, w.canon(g) == w.canon(v), 'get_option returns %r' % (g,), W + '.get_option')
        ctx.obl('get-option', 'existing instance %s' % k, w.canon(g0) == w.canon(DEFAULTS.get(k, ADict({}))), 'get_option returns %r' % (g0,), W + '.get_option')
        it.call(it.getattr_(R.cls, 'set_default_option'), [k, DEFAULTS.get(k, ADict({}))], {})
    o = R.new(*inputs[0])
    for k, v in dict(DEFAULTS, parameters=ADict({})).items():
        g = it.call(it.getattr_(o, 'get_option'), [k], {})
        ctx.obl('default-option', k, w.canon(g) == w.canon(v), 'the default of %s is %r' % (k, g), W)
    # old name of the CP phase
    for meth, tgt in (('set_option', o), ('set_default_option', R.cls)):
        d = ADict({'delta': F(6, 5), 'Vcb': F(1, 20)}, own='the parameters given by the user')
        it.effects.clear()
        it.call(it.getattr_(tgt, meth), ['parameters', d], {})
        bad = sorted({e[0] for e in it.effects if e[0]})
        ctx.obl('input-unchanged', '%s delta' % meth, not bad, '%s modified' % bad, W + '.' + meth)
        x = o if meth == 'set_option' else R.new(*inputs[0])
        p = it.getattr_(x, 'parameters')
        ok = isinstance(p, ADict) and not p.has('delta') and same_num2(p.get('gamma'), F(6, 5)) and same_num2(p.get('Vcb'), F(1, 20))
        ctx.obl('deprecated-delta', meth, ok, 'the parameter delta is not used as gamma', W + '.' + meth)
        it.call(it.getattr_(tgt, meth), ['parameters', ADict({})], {})
    p = it.getattr_(o, 'parameters')
    ctx.obl('parameters', 'defaults', w.eff(p)[0] == w.eff(None)[0] and set(p.d) == set(w.defaults.d), 'the default parameters are changed', W + '.parameters')
    # invalid options
    bad = [('foo', 1), ('qcd_order', 2), ('qed_order', -1), ('smeft_accuracy', 'exact'), ('smeft_matching_order', 2), ('mb_matchingscale', 'high'),
           ('parameters', 3), ('parameters', ADict({'m_b': 'heavy'}))]
    for k, v in bad:
        for meth, tgt in (('set_option', o), ('set_default_option', R.cls)):
            try:
                it.call(it.getattr_(tgt, meth), [k, v], {})
                ok = False
            except RaiseSig as e:
                ok = True
            ctx.obl('refused', '%s %s=%r' % (meth, k, v), ok, '%s accepts %s=%r' % (meth, k, v), W + '.' + meth)
    try:
        it.call(it.getattr_(o, 'get_option'), ['foo'], {})
        ok = False
    except RaiseSig as e:
        ok = True
    ctx.obl('refused', 'get_option foo', ok, 'get_option accepts an unknown option', W + '.get_option')
    # numbers given as other types are coerced
    set_option(it, o, 'mb_matchingscale', 5)
    R.request(o, (F(2), 'WET-4', 'JMS', 'all'), dict(DEFAULTS, mb_matchingscale=F(5)), {}, 'integer matching scale')
    # ---- hash
    hashes(ctx, it, w, R)
    # ---- solutions of the RGE
    rgsolution(ctx, it)


def canon_hash(v, it=None):
    v = norm(v)
    if isinstance(v, AObj) and v.cls == '@hash':
        return ('h', canon_hash(v.attrs['of']))
    if isinstance(v, ADict) or isinstance(v, AList) or isinstance(v, ASet) and not v.frozen:
        raise RaiseSig('TypeError', 'unhashable type', None)
    if isinstance(v, ASet):
        return ('set',) + tuple(sorted((canon_hash(x) for x in v.items), key=repr))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(canon_hash(x) for x in v)
    if is_num(v):
        return ('n', Poly.lift(v).key())
    if isinstance(v, AObj):
        return ('obj', id(v))
    if isinstance(v, (Top, Alt)):
        raise NoAnswer('hash of %r' % (v,))
    return ('v', repr(v))


def hashes(ctx, it, w, R):
    W = FILE + ':Wilson.__hash__'

    def h(o):
        f = o.cls.find('__hash__')
        if f is None:
            raise NoAnswer('Wilson.__hash__ not found')
        return canon_hash(it.call(it.getattr_(o, '__hash__'), [], {}))
    try:
        o = R.new('SMEFT', 'Warsaw', F(1000))
        a = h(o)
        ctx.obl('hash', 'stable', a == h(o), 'two calls give different hashes', W)
        it.call(it.getattr_(o, 'match_run'), [F(10), 'WET', 'JMS'], {})
        ctx.obl('hash', 'stable under requests', a == h(o), 'the hash changes with a request', W)
        for k, v in dict(CHANGES, parameters=ADict({'Vcb': F(1, 20)})).items():
            set_option(it, o, k, v)
            b = h(o)
            ctx.obl('hash', 'changes with ' + k, a != b, 'the hash does not depend on the value of %s' % k, W)
            set_option(it, o, k, DEFAULTS.get(k, ADict({})))
            ctx.obl('hash', 'restored with ' + k, a == h(o), 'the hash is not a function of coefficients and options (%s)' % k, W)
        set_option(it, o, 'parameters', ADict({'Vcb': F(1, 20)}))
        b = h(o)
        set_option(it, o, 'parameters', ADict({'Vcb': F(1, 25)}))
        ctx.obl('hash', 'changes with parameter values', b != h(o), 'the hash does not depend on the parameter values', W)
        o2 = R.new('SMEFT', 'Warsaw', F(1000), tag='other')
        ctx.obl('hash', 'coefficients', h(o2) != a, 'the hash does not depend on the coefficients', W)
    except RaiseSig as e:
        ctx.obl('hash', 'total', False, 'raises %s' % e, W)


def rgsolution(ctx, it):
    RG = it.get('wilson.classes.RGsolution')
    W = FILE + ':RGsolution'
    lo, hi, st = Poly.real('smin'), Poly.real('smax'), 4
    log = []

    def grid(name):
        def f(it, a, k):
            names = {'logspace': ['start', 'stop', 'num', 'endpoint', 'base'], 'linspace': ['start', 'stop', 'num', 'endpoint'],
                     'geomspace': ['start', 'stop', 'num', 'endpoint']}[name]
            d = dict(zip(names, a))
            d.update(k)
            log.append((name, d))
            n = norm(d.get('num', 50))
            if not isinstance(n, int):
                raise NoAnswer('number of steps is %r' % (n,))
            r = Arr.new([Poly.real('x%d' % i) for i in range(n)], (n,))
            return r
        return f
    for n in ('logspace', 'linspace', 'geomspace'):
        it.models['numpy.' + n] = grid(n)

    def fun(it, a, k):
        xs = it.iterate(a[0])
        if xs is None:
            raise NoAnswer('the solution is evaluated at %r' % (a[0],))
        return Arr.new([ADict({'C': Poly.cplx('C@%r' % norm(x)), 'g': Poly.cplx('g@%r' % norm(x))}) for x in xs], (len(xs),))
    o = it.call(RG, [AObj('@fun', {'@call': fun}), lo, hi], {})

    def logs(x):
        return Poly.lift(libmodel.s_log(it, x))
    for part in (None, 're', 'im'):
        for scale in (None, 'log', 'linear'):
            for key in 'Cg':
                for steps in (None, 4):
                    kw = {k: v for k, v in (('part', part), ('scale', scale), ('steps', steps)) if v is not None}
                    what = 'plotdata %s %s' % (key, sorted(kw.items()))
                    del log[:]
                    try:
                        r = it.call(it.getattr_(o, 'plotdata'), [key], kw)
                    except RaiseSig as e:
                        ctx.obl('plotdata', what, False, 'raises %s' % e, W + '.plotdata')
                        continue
                    v = it.iterate(r)
                    ok = v is not None and len(v) == 2 and all(isinstance(x, Arr) for x in v) and len(log) == 1
                    if not ok:
                        ctx.obl('plotdata', what, False, 'returns %r' % (r,), W + '.plotdata')
                        continue
                    n, d = log[0]
                    cnt = norm(d.get('num', 50))
                    a, b = d.get('start'), d.get('stop')
                    if n == 'linspace':
                        ok = scale == 'linear' and same_num2(a, lo) and same_num2(b, hi)
                    elif n == 'geomspace':
                        ok = scale != 'linear' and same_num2(a, lo) and same_num2(b, hi)
                    else:
                        ba = Poly.lift(norm(d.get('base', 10)))
                        lb = Poly.const(1) if ba == Poly.real('euler') else logs(ba)
                        ok = scale != 'linear' and same_num2(Poly.lift(norm(a)) * lb, logs(lo)) and same_num2(Poly.lift(norm(b)) * lb, logs(hi))
                    ok = ok and d.get('endpoint', True) is True and cnt == (steps or 50)
                    ctx.obl('plotdata', what + ' scales', ok, 'the scales are %s%s' % (n, d), W + '.plotdata', sample=what)
                    xs = [Poly.real('x%d' % i) for i in range(cnt)]
                    ok = [number(x) for x in v[0].vals()] == xs
                    want = [Poly.cplx('%s@%r' % (key, x)) for x in xs]
                    want = [x.im() if part == 'im' else x.re() for x in want]
                    ys = [number(y) for y in v[1].vals()]
                    ok = ok and len(ys) == len(want) and all(y is not None and equal(y, Poly.lift(norm(x))) for y, x in zip(ys, want))
                    ctx.obl('plotdata', what + ' values', ok, 'the values are %s' % ys[:2], W + '.plotdata', sample=what)
    # plot forwards its arguments
    pl = []
    for n in ('plot', 'xscale', 'legend'):
        it.models['matplotlib.pyplot.' + n] = (lambda n: lambda it, a, k: pl.append((n, a, k)))(n)
    for kw in ({}, {'part': 'im'}, {'scale': 'linear', 'steps': 4}, {'legend': False, 'plotargs': ADict({'lw': 2})}):
        del pl[:], log[:]
        what = 'plot %s' % sorted(kw)
        try:
            it.call(it.getattr_(o, 'plot'), ['C'], kw)
        except RaiseSig as e:
            ctx.obl('plot', what, False, 'raises %s' % e, W + '.plot')
            continue
        d = it.iterate(it.call(it.getattr_(o, 'plotdata'), ['C'], {k: v for k, v in kw.items() if k in ('part', 'scale', 'steps')}))
        c = [x for x in pl if x[0] == 'plot']
        ok = len(c) == 1 and len(c[0][1]) >= 2 and all(isinstance(x, Arr) and [number(z) for z in x.vals()] == [number(z) for z in y.vals()]
                                                     for x, y in zip(c[0][1], d))
        ctx.obl('plot', what, ok, 'the plotted data are not those of plotdata', W + '.plot', sample=what)
        ok = (('xscale' in [x[0] for x in pl]) == (kw.get('scale', 'log') == 'log')) and (('legend' in [x[0] for x in pl]) == kw.get('legend', True)) \
            and ('plotargs' not in kw or c and same_num2(c[0][2].get('lw'), 2)) and (not c or c[0][2].get('label') == 'C')
        ctx.obl('plot', what + ' decoration', ok, 'plot arguments, scale or legend are not applied: %s' % [x[0] for x in pl], W + '.plot')
