"""G-series: the WCxf data classes (EFT, Basis, WC, Translator, Matcher)."""
import itertools
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, libmodel
from ..num import Poly

FILE = 'wilson/wcxf/classes.py'
_IT = []


class Texts:
    """models of json / yaml: a text is a token standing for a payload"""

    def __init__(self):
        self.payload = {}      # token -> (fmt, value)
        self.calls = []

    def copy(self, v):
        if isinstance(v, ADict):
            return ADict({k: self.copy(x) for k, x in v.d.items()})
        if isinstance(v, AList):
            return AList([self.copy(x) for x in v.items])
        if isinstance(v, tuple):
            return AList([self.copy(x) for x in v])
        return v

    def new(self, fmt, v):
        t = '@text-%s-%d' % (fmt, len(self.payload))
        self.payload[t] = (fmt, self.copy(v))
        return t

    def stream(self, text=None):
        s = AObj('@stream', {'text': text})

        def ga(n):
            if n == 'read':
                return Builtin('read', lambda it, a, k: s.attrs['text'])
            if n == 'write':
                def w(it, a, k):
                    s.attrs['text'] = a[0]
                return Builtin('write', w)
            return Ext('stream.' + n)
        s.attrs['@getattr'] = ga
        return s

    def src(self, x):
        return x.attrs['text'] if isinstance(x, AObj) and x.cls == '@stream' else x

    def install(self, it):
        def loads(fmts):
            def f(it, a, k):
                t = self.src(a[0])
                if t not in self.payload:
                    raise RaiseSig('ValueError', t, it.where())
                fmt, v = self.payload[t]
                if fmt not in fmts:
                    raise RaiseSig('ValueError', t, it.where())
                return self.copy(v)
            return f

        def dump(fmt, need):
            def f(it, a, k):
                k = dict(k)
                stream = a[1] if len(a) > 1 else k.pop('stream', k.pop('fp', None))
                self.calls.append((fmt, k))
                t = self.new(fmt, a[0])
                if stream is None:
                    return t
                if not (isinstance(stream, AObj) and stream.cls == '@stream'):
                    raise NoAnswer('stream %r' % (stream,))
                stream.attrs['text'] = t
                return None
            return f
        it.models.update({'json.loads': loads(('json',)), 'json.load': loads(('json',)),
                          'yaml.safe_load': loads(('json', 'yaml')), 'yaml.load': loads(('json', 'yaml')),
                          'json.dumps': dump('json', False), 'json.dump': dump('json', True),
                          'yaml.dump': dump('yaml', None), 'yaml.safe_dump': dump('yaml', None)})


def setup(ctx):
    if not _IT:
        it = base.make(REPO, mode='arr')
        it.load('wilson.wcxf.classes')
        it.universal_bases = False
        base.generic_position(it, positive=('scale', 'a', 'b', 'c'))
        _IT.append(it)
        _IT.append(it.load('wilson.wcxf.classes').env.v)
    it, ns = _IT
    ctx.use(FILE)
    it.issues.clear()
    it.effects.clear()
    for c in ('EFT', 'Basis', 'Translator', 'Matcher', 'WC', 'WCxf', 'NamedInstanceClass'):
        if not isinstance(ns.get(c), AClass):
            raise NoAnswer('class %s not found' % c)
        ns[c].attrs.pop('instances', None)
    return it, ns


def attempt(it, f, *a, **k):
    try:
        return 'ok', it.call(f, list(a), k)
    except RaiseSig as e:
        return 'raise', e.etype


def veq(it, a, b):
    """structural equality of abstract values"""
    a, b = norm(a), norm(b)
    if isinstance(a, ADict) and isinstance(b, ADict):
        return set(a.d) == set(b.d) and all(veq(it, a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (AList, tuple)) and isinstance(b, (AList, tuple)):
        x = a.items if isinstance(a, AList) else list(a)
        y = b.items if isinstance(b, AList) else list(b)
        return len(x) == len(y) and all(veq(it, p, q) for p, q in zip(x, y))
    if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
        return False
    if is_num(a) and is_num(b):
        return Poly.lift(a) == Poly.lift(b)
    return same(a, b)


def D(**k):
    return ADict(k)


def r(n):
    return Poly.real(n)


def line(it):
    return FILE


@prop('G01', 'proof', 'abstract interpretation of the value accessors with symbolic real and imaginary parts')
def g01(ctx):
    it, ns = setup(ctx)
    WC = ns['WC']
    a, b = r('a'), r('b')
    I = Poly.const(0, 1)
    cases = [('real number', a, a), ('Re/Im', D(Re=a, Im=b), a + I * b), ('Re only', D(Re=a), a), ('Im only', D(Im=b), I * b),
             ('empty', ADict({}), Poly()), ('integer', 3, Poly.const(3)), ('zero', 0, Poly()), ('text', '0.5', Poly.const(Fraction(1, 2)))]
    for lab, inp, want in cases:
        vals = ADict({'C_1': inp, 'C_2': D(Re=b, Im=a)})
        how, w = attempt(it, WC, 'E', 'B', r('scale'), vals)
        if how != 'ok':
            ctx.obl('value', lab, False, 'constructor raises ' + w, FILE)
            continue
        for i in (1, 2):       # first and cached access
            d = it.getattr_(w, 'dict')
            got = d.get('C_1') if isinstance(d, ADict) else None
            ctx.obl('value', '%s access %d' % (lab, i), got is not None and is_num(norm(got)) and Poly.lift(norm(got)) == want,
                    'a %s entry is read as %r instead of %r' % (lab, got, want), FILE + ':WC.dict', sample=lab)
        ctx.obl('value', lab + ' keys', isinstance(d, ADict) and set(d.d) == {'C_1', 'C_2'}, 'keys %r' % (d,), FILE)
        g = it.getitem(w, 'C_1')
        ctx.obl('item', lab, is_num(norm(g)) and Poly.lift(norm(g)) == want, 'wc[name] = %r' % (g,), FILE + ':WC.__getitem__')
        g = it.getitem(w, 'other')
        ctx.obl('item', lab + ' missing', is_num(norm(g)) and Poly.lift(norm(g)).is_zero(), 'wc[missing] = %r' % (g,),
                FILE + ':WC.__getitem__')
        ctx.obl('scale', lab, Poly.lift(norm(it.getattr_(w, 'scale'))) == r('scale'), 'scale changed', FILE)
        # data frame
        seen = []
        it.models['pandas.DataFrame'] = lambda it, a, k: seen.append((a, k)) or AObj('@df', {})
        it.getattr_(w, 'df')
        ok = len(seen) == 1
        if ok:
            aa, kk = seen[0]
            dd = aa[0] if aa else kk.get('data')
            idx = kk.get('index', aa[1] if len(aa) > 1 else None)
            names = it.iterate(idx)
            names = list(names) if names is not None else None
            ok = isinstance(dd, ADict) and set(dd.d) == {'Re', 'Im'} and names is not None and set(names) == {'C_1', 'C_2'}
            if ok:
                for col, part in (('Re', lambda z: z.re()), ('Im', lambda z: z.im())):
                    vals_ = list(it.iterate(dd.get(col)))
                    exp = {'C_1': want, 'C_2': b + I * a}
                    ok = ok and len(vals_) == 2 and all(Poly.lift(norm(v)) == part(exp[n]) for v, n in zip(vals_, names))
        ctx.obl('table', lab, ok, 'the table of real and imaginary parts does not show the values', FILE + ':WC.df')
    # number -> entry -> number
    z = Poly.cplx('z')
    cases = [
        ('signs %d %d' % (x, y), a * x + I * b * y) for x in (-1, 0, 1) for y in (-1, 0, 1)] + [
('constant', Poly.const(2)),
             ('complex constant', Poly.const(1, 2)), ('imaginary constant', Poly.const(0, -3)), ('zero', Poly())]
    for lab, v in cases:
        how, e = attempt(it, it.getattr_(WC, 'dict2values'), ADict({'C_1': v, 'C_2': a}))
        if how != 'ok' or not isinstance(e, ADict):
            ctx.obl('entry', lab, False, 'dict2values: %s %r' % (how, e), FILE)
            continue
        ctx.obl('entry', lab + ' keys', set(e.d) == {'C_1', 'C_2'}, 'keys %r' % list(e.d), FILE)
        x = e.get('C_1')
        plain = isinstance(x, ADict) and set(x.d) <= {'Re', 'Im'} and all(Poly.lift(norm(y)).conj() == Poly.lift(norm(y)) for y in x.d.values()) \
            or is_num(norm(x)) and Poly.lift(norm(x)).conj() == Poly.lift(norm(x)) and not isinstance(x, Alt)
        ctx.obl('entry', lab, plain, 'the value is stored as %r (neither a real number nor a Re/Im pair of real numbers)' % (x,),
                FILE + ':WC._to_complex_dict')
        how, w = attempt(it, WC, 'E', 'B', 1, e)
        got = it.getattr_(w, 'dict').get('C_1')
        ctx.obl('round-trip', lab, got is not None and is_num(norm(got)) and Poly.lift(norm(got)) == v,
                '%s value %r is stored as %r and read back as %r' % (lab, v, x, got), FILE, sample=lab)


def instances(it, ns):
    """representative objects of each file class: (label, class, ctor kwargs)"""
    sec = ADict({'s1': ADict({'C_1': D(tex='c', real=True), 'C_2': None}), 's2': ADict({})})
    return [
        ('EFT', ns['EFT'], dict(eft='E', sectors=ADict({'s1': None, 's2': D(dB=1)}), metadata=D(description='d'), superset='F')),
        ('Basis', ns['Basis'], dict(eft='E', basis='B', sectors=sec, metadata=D(author='x'))),
        ('WC', ns['WC'], dict(eft='E', basis='B', scale=r('scale'), values=ADict({'C_1': r('a'), 'C_2': D(Re=r('b'), Im=r('c'))}),
                              metadata=D(generator='g'))),
        ('EFT', ns['EFT'], dict(eft='E', sectors=ADict({}), metadata=ADict({}), superset=None)),
        ('Basis', ns['Basis'], dict(eft='E', basis='B', sectors=ADict({}), metadata=None, version=0)),
        ('WC', ns['WC'], dict(eft='E', basis='B', scale=0, values=ADict({}), flag=False, note='')),
    ]


@prop('G02', 'proof', 'abstract interpretation with token models of the JSON and YAML libraries: dump followed by load '
      'restores every public attribute')
def g02(ctx):
    it, ns = setup(ctx)
    T = Texts()
    saved = dict(it.models)
    T.install(it)
    try:
        for n, (lab, cls, kw) in enumerate(instances(it, ns)):
            ns['EFT'].attrs.pop('instances', None)
            ns['Basis'].attrs.pop('instances', None)
            for fmt in (None, 'json', 'yaml', 'JSON', 'YAML'):
                for use_stream in (False, True):
                    what = '%s%d fmt=%s %s' % (lab, n, fmt, 'stream' if use_stream else 'string')
                    how, o = attempt(it, cls, **{k: T.copy(v) for k, v in kw.items()})
                    if how != 'ok':
                        ctx.obl('dump', what, False, 'constructor raises %s' % o, FILE)
                        continue
                    if lab == 'WC':
                        it.getattr_(o, 'dict')      # fill the caches
                    s = T.stream()
                    args = ([s] if use_stream else []) + ([] if fmt is None else [])
                    k = {} if fmt is None else {'fmt': fmt}
                    try:
                        ret = it.call(it.getattr_(o, 'dump'), args, k)
                    except RaiseSig as e:
                        ctx.obl('dump', what, False, 'raises %s' % e, FILE + ':WCxf.dump')
                        continue
                    tok = s.attrs['text'] if use_stream else ret
                    ok = tok in T.payload if isinstance(tok, str) else False
                    ctx.obl('dump', what, ok, 'no document is produced', FILE + ':WCxf.dump')
                    if not ok:
                        continue
                    f, v = T.payload[tok]
                    ctx.obl('format', what, f == (fmt or 'json').lower(), 'a %s document is written' % f, FILE + ':WCxf.dump')
                    want = {k_: x for k_, x in kw.items()}
                    got = v.d if isinstance(v, ADict) else {}
                    ctx.obl('content', what, set(got) == set(want) and all(veq(it, got[x], want[x]) for x in got),
                            'the document has fields %s, the object %s' % (sorted(got), sorted(want)), FILE + ':WCxf.dump',
                            sample=what)
                    for src in (tok, T.stream(tok)):
                        try:
                            o2 = it.call(it.getattr_(cls, 'load'), [src], {})
                        except RaiseSig as e:
                            ctx.obl('load', what, False, 'loading the document raises %s' % e, FILE + ':WCxf.load')
                            continue
                        ok = isinstance(o2, AObj) and o2.cls is cls
                        for x in want:
                            y = it.getattr_(o2, x) if ok else None
                            ctx.obl('round-trip', '%s %s' % (what, x), ok and veq(it, y, want[x]),
                                    'attribute %s is %r after dump and load' % (x, y), FILE + ':WCxf.load')
            how, o = attempt(it, cls, **kw)
            for bad in ('xml', 'txt'):
                how, v = attempt(it, it.getattr_(o, 'dump'), fmt=bad)
                ctx.obl('format', '%s %s' % (lab, bad), how == 'raise' and v == 'ValueError', 'format %s is accepted' % bad,
                        FILE + ':WCxf.dump')
        # style arguments reach the library
        how, o = attempt(it, ns['EFT'], 'E', ADict({}))
        for fmt, key in (('json', 'indent'), ('json', 'sort_keys'), ('yaml', 'default_flow_style'), ('yaml', 'width')):
            T.calls.clear()
            attempt(it, it.getattr_(o, 'dump'), fmt=fmt, **{key: 7})
            ok = len(T.calls) == 1 and T.calls[0][0] == fmt and norm(T.calls[0][1].get(key)) == 7
            ctx.obl('style', '%s %s' % (fmt, key), ok, 'the argument %s is not passed on (%s)' % (key, T.calls), FILE + ':WCxf.dump')
        # format conversion helpers
        for fn, a, b in (('_yaml_to_json', 'yaml', 'json'), ('_json_to_yaml', 'json', 'yaml')):
            if not isinstance(ns.get(fn), AFunc):
                continue
            doc = ADict({'x': r('a'), 'y': AList([1, D(z=r('b'))])})
            out = T.stream()
            how, v = attempt(it, ns[fn], T.stream(T.new(a, doc)), out)
            t = out.attrs['text']
            ok = how == 'ok' and t in T.payload and T.payload[t][0] == b and veq(it, T.payload[t][1], doc)
            ctx.obl('convert', fn, ok, 'the converted document differs (%s %r)' % (how, t), FILE + ':' + fn)
    finally:
        it.models.clear()
        it.models.update(saved)


@prop('G03', 'proof', 'abstract interpretation of translate/match against registries with decoy entries; the call '
      'trace and the result are compared with the registered function')
def g03(ctx):
    it, ns = setup(ctx)
    WC, Tr, Ma = ns['WC'], ns['Translator'], ns['Matcher']
    a, b, c = r('a'), Poly.cplx('b'), r('c')
    efts, bases = ('E', 'F'), ('A', 'B', 'C')

    def wc(eft='E', bs='A'):
        v = ADict({'C_1': a, 'C_2': D(Re=b.re(), Im=b.im())}, own='the values of the input')
        return it.call(WC, [eft, bs, r('scale'), v], {})
    calls = []

    def func(tag):
        def f(it_, aa, kk):
            calls.append((tag, aa, kk))
            d = aa[0]
            x = d.get('C_1') if isinstance(d, ADict) else Poly()
            y = d.get('C_2') if isinstance(d, ADict) else Poly()
            return ADict({'D_1': Poly.lift(norm(x)) * 2, 'D_2': Poly.lift(norm(y)) + c, 'D_0': 0, 'D_00': Poly()})
        return Builtin(str(tag), f)
    # -- no registry at all
    for lab, call in (('translate', lambda w: attempt(it, it.getattr_(w, 'translate'), 'B')),
                      ('match', lambda w: attempt(it, it.getattr_(w, 'match'), 'F', 'B'))):
        how, v = call(wc())
        ctx.obl('missing', lab + ' empty registry', how == 'raise' and v == 'ValueError', '%s %r' % (how, v), FILE + ':WC.' + lab)
    for e, f, t in itertools.product(efts, bases, bases):
        if f != t and (f, t) != ('A', 'C'):
            if (e, f, t) == ('E', 'A', 'B'):
                # registered with the decorator
                fn = func((e, f, t))
                deco = attempt(it, ns['translator'], e, f, t)[1]
                ret = attempt(it, deco, fn)[1]
                ctx.obl('decorator', 'translator', ret is fn, 'the decorator does not return the function', FILE + ':translator')
            else:
                it.call(Tr, [e, f, t, func((e, f, t))], {})
    for e, f, e2, t in itertools.product(efts, bases, efts, bases):
        if e != e2 and (f, t) != ('A', 'C'):
            if (e, f, e2, t) == ('E', 'A', 'F', 'B'):
                fn = func((e, f, e2, t))
                deco = attempt(it, ns['matcher'], e, f, e2, t)[1]
                ret = attempt(it, deco, fn)[1]
                ctx.obl('decorator', 'matcher', ret is fn, 'the decorator does not return the function', FILE + ':matcher')
            else:
                it.call(Ma, [e, f, e2, t, func((e, f, e2, t))], {})
    par = ADict({'p': r('p')}, own='the parameters of the caller')
    secs = ('s1', 's2')

    def result(what, w, how, v, tag, eft, bs, e_par, e_sec, where):
        ok = how == 'ok' and isinstance(v, AObj) and v.cls is WC
        ctx.obl('result', what, ok, '%s %r' % (how, v), where)
        if not ok:
            return
        ctx.obl('dispatch', what, len(calls) == 1 and calls[0][0] == tag, 'calls %s instead of %s' % ([x[0] for x in calls], tag),
                where, sample=what)
        if len(calls) == 1:
            aa, kk = calls[0][1], dict(calls[0][2])
            names = ('wc', 'scale', 'parameters', 'sectors')
            full = dict(zip(names, aa))
            full.update(kk)
            d = full.get('wc')
            good = isinstance(d, ADict) and veq(it, d, ADict({'C_1': a, 'C_2': b}))
            ctx.obl('arguments', what + ' coefficients', good, 'the function receives %r' % (d,), where)
            ctx.obl('arguments', what + ' scale', veq(it, full.get('scale'), r('scale')), 'scale %r' % (full.get('scale'),), where)
            ctx.obl('arguments', what + ' parameters', full.get('parameters') is e_par, 'parameters %r' % (full.get('parameters'),),
                    where)
            if e_sec is not None:
                ctx.obl('arguments', what + ' sectors', full.get('sectors') == e_sec, 'sectors %r' % (full.get('sectors'),), where)
            else:
                ctx.obl('arguments', what + ' sectors', full.get('sectors') is None, 'sectors %r' % (full.get('sectors'),), where)
        for k, x in (('eft', eft), ('basis', bs), ('scale', r('scale'))):
            ctx.obl('result', '%s %s' % (what, k), veq(it, it.getattr_(v, k), x), '%s is %r' % (k, it.getattr_(v, k)), where)
        ctx.obl('result', what + ' values', veq(it, it.getattr_(v, 'dict'), ADict({'D_1': a * 2, 'D_2': b + c})),
                'the result contains %r' % (it.getattr_(v, 'dict'),), where)
        ctx.obl('result', what + ' zeros', veq(it, sorted(it.getattr_(v, 'values').d), ['D_1', 'D_2']),
                'vanishing coefficients are kept', where)
    W = FILE + ':WC.translate'
    for e, f, t in itertools.product(efts, bases, bases):
        for pp, ss in ((None, None), (par, None), (par, secs), (None, secs)):
            calls.clear()
            w = wc(e, f)
            k = {}
            if pp is not None:
                k['parameters'] = pp
            if ss is not None:
                k['sectors'] = ss
            how, v = attempt(it, it.getattr_(w, 'translate'), t, **k)
            what = 'translate %s %s->%s parameters=%s sectors=%s' % (e, f, t, pp is not None, ss is not None)
            if f == t:
                ctx.obl('identity', what, how == 'ok' and v is w and not calls, '%s %r' % (how, v), W)
            elif (f, t) == ('A', 'C'):
                ctx.obl('missing', what, how == 'raise' and v == 'ValueError', '%s %r' % (how, v), W)
            else:
                result(what, w, how, v, (e, f, t), e, t, pp, ss, W)
    W = FILE + ':WC.match'
    for e, f, e2, t in itertools.product(efts, bases, efts, bases):
        for pp in (None, par):
            calls.clear()
            w = wc(e, f)
            k = {} if pp is None else {'parameters': pp}
            how, v = attempt(it, it.getattr_(w, 'match'), e2, t, **k)
            what = 'match %s %s->%s %s parameters=%s' % (e, f, e2, t, pp is not None)
            if e == e2 and f == t:
                ctx.obl('identity', what, how == 'ok' and v is w and not calls, '%s %r' % (how, v), W)
            elif e == e2 or (f, t) == ('A', 'C'):
                ctx.obl('missing', what, how == 'raise' and v == 'ValueError', '%s %r' % (how, v), W)
            else:
                result(what, w, how, v, (e, f, e2, t), e2, t, pp, None, W)
    for e in it.effects:
        ctx.obl('input-unchanged', str(e[0]), False, '%s is modified at line %s' % (e[0], e[2]), FILE)
    ctx.obl('input-unchanged', 'all', not it.effects, 'inputs are modified', FILE)


@prop('G04', 'proof', 'abstract interpretation of the registries over histories of creation, lookup, deletion and '
      'inheritance')
def g04(ctx):
    it, ns = setup(ctx)
    EFT, B, Tr, Ma = ns['EFT'], ns['Basis'], ns['Translator'], ns['Matcher']
    W = FILE + ':NamedInstanceClass'

    def get(c, k):
        try:
            return it.getitem(c, k)
        except RaiseSig as e:
            return e.etype

    def sec():
        return ADict({'s1': ADict({'C_1': None, 'C_2': None}), 's2': ADict({'C_3': None})})
    e1, e2 = (it.call(EFT, [n, ADict({'s1': None, 's2': None})], {}) for n in ('E', 'F'))
    b1 = it.call(B, ['E', 'A', sec()], {})
    b2 = it.call(B, ['E', 'B', sec()], {})
    b3 = it.call(B, ['F', 'A', sec()], {})
    fn = Builtin('f', lambda it, a, k: a[0])
    t = {k: it.call(Tr, list(k) + [fn], {}) for k in (('E', 'A', 'B'), ('E', 'B', 'A'), ('F', 'A', 'B'), ('E', 'A', 'C'))}
    m = {k: it.call(Ma, list(k) + [fn], {}) for k in (('E', 'A', 'F', 'A'), ('E', 'B', 'F', 'A'))}
    objs = [(EFT, 'E', e1), (EFT, 'F', e2), (B, ('E', 'A'), b1), (B, ('E', 'B'), b2), (B, ('F', 'A'), b3)] + \
        [(Tr, k, v) for k, v in t.items()] + [(Ma, k, v) for k, v in m.items()]

    def all_found(stage, gone=()):
        for c, k, v in objs:
            g = get(c, k)
            if (c, k) in gone:
                ctx.obl('registry', '%s %s %s' % (stage, c.name, k), g == 'KeyError', 'deleted object still found: %r' % (g,), W)
            else:
                ctx.obl('registry', '%s %s %s' % (stage, c.name, k), g is v, 'lookup gives %r' % (g,), W,
                        sample='%s[%s]' % (c.name, k))
            try:
                g = it.call(it.getattr_(c, 'get_instance'), [k], {})
            except RaiseSig as e:
                g = e.etype
            ctx.obl('registry', '%s %s.get_instance(%s)' % (stage, c.name, k), (g == 'KeyError') if (c, k) in gone else g is v,
                    'get_instance gives %r' % (g,), W)
    all_found('created')
    for c, k in ((EFT, 'X'), (B, ('E', 'X')), (B, ('X', 'A')), (Tr, ('E', 'B', 'C')), (Ma, ('F', 'A', 'E', 'A'))):
        g = get(c, k)
        ctx.obl('registry', 'unknown %s %s' % (c.name, k), g == 'KeyError', 'unknown name gives %r' % (g,), W)

    def names(x):
        v = it.iterate(x)
        return None if v is None else sorted(tuple(y) if isinstance(y, (tuple, list)) else y for y in v)
    W2 = FILE + ':known_translators'
    ctx.obl('listing', 'EFT.known_bases', names(it.getattr_(e1, 'known_bases')) == ['A', 'B'] and
            names(it.getattr_(e2, 'known_bases')) == ['A'], 'wrong list', FILE + ':EFT.known_bases')
    ctx.obl('listing', 'EFT.known_translators',
            names(it.getattr_(e1, 'known_translators')) == [('E', 'A', 'B'), ('E', 'A', 'C'), ('E', 'B', 'A')] and
            names(it.getattr_(e2, 'known_translators')) == [('F', 'A', 'B')], 'wrong list', W2)
    exp = {id(b1): ([('E', 'A', 'B'), ('E', 'A', 'C')], [('E', 'B', 'A')]), id(b2): ([('E', 'B', 'A')], [('E', 'A', 'B')]),
           id(b3): ([('F', 'A', 'B')], [])}
    for lab, b in (('E A', b1), ('E B', b2), ('F A', b3)):
        k = it.getattr_(b, 'known_translators')
        ok = isinstance(k, ADict) and set(k.d) == {'from', 'to'} and \
            (names(k.get('from')), names(k.get('to'))) == exp[id(b)]
        ctx.obl('listing', 'Basis.known_translators ' + lab, ok, 'known translators of %s: %r' % (lab, k), W2)
    for b in (b1, b2, b3):
        for i in (1, 2):
            w = it.getattr_(b, 'all_wcs')
            ctx.obl('listing', 'all_wcs %d' % i, isinstance(w, AList) and sorted(w.items) == ['C_1', 'C_2', 'C_3'],
                    'all_wcs = %r' % (w,), FILE + ':Basis.all_wcs')
    # redefinition replaces
    b1n = it.call(B, ['E', 'A', ADict({'s1': ADict({'C_9': None})})], {})
    objs[2] = (B, ('E', 'A'), b1n)
    all_found('redefined')
    w = it.getattr_(b1n, 'all_wcs')
    ctx.obl('listing', 'all_wcs after redefinition', isinstance(w, AList) and w.items == ['C_9'], 'all_wcs = %r' % (w,),
            FILE + ':Basis.all_wcs')
    # deletion through both interfaces
    try:
        if ns['NamedInstanceMetaclass'].find('__delitem__'):
            it.call(ABound(ns['NamedInstanceMetaclass'].find('__delitem__'), B), [('E', 'B')], {})
        else:
            it.call(it.getattr_(B, 'del_instance'), [('E', 'B')], {})
        it.call(it.getattr_(Tr, 'del_instance'), [('E', 'A', 'C')], {})
    except RaiseSig as e:
        ctx.obl('registry', 'deletion', False, 'raises %s' % e, W)
    all_found('deleted', {(B, ('E', 'B')), (Tr, ('E', 'A', 'C'))})
    # inheritance
    W3 = FILE + ':Basis.__init__'
    ps = sec()
    parent = it.call(B, ['E', 'P', ps], {})
    keep = {k: list(v.d) for k, v in ps.d.items()}
    child = it.call(B, ['E', 'Q', ADict({'s2': ADict({'C_7': None})})], {'parent': 'P'})
    cs = it.getattr_(child, 'sectors')
    got = {k: list(v.d) for k, v in cs.d.items()} if isinstance(cs, ADict) else None
    ctx.obl('inheritance', 'child sectors', got == {'s1': ['C_1', 'C_2'], 's2': ['C_7']}, 'sectors of the child: %r' % (got,), W3)
    pp = it.getattr_(parent, 'sectors')
    ctx.obl('inheritance', 'parent unchanged', {k: list(v.d) for k, v in pp.d.items()} == keep, 'the parent is modified', W3)
    w = it.getattr_(child, 'all_wcs')
    ctx.obl('inheritance', 'all_wcs', isinstance(w, AList) and sorted(w.items) == ['C_1', 'C_2', 'C_7'], '%r' % (w,), W3)
    grand = it.call(B, ['E', 'R', ADict({'s1': ADict({'C_8': None})})], {'parent': 'Q'})
    gs = it.getattr_(grand, 'sectors')
    ctx.obl('inheritance', 'grandchild', {k: list(v.d) for k, v in gs.d.items()} == {'s1': ['C_8'], 's2': ['C_7']}, '%r' % (gs,), W3)
    # a parent of the same name in another EFT does not count; a missing parent is an error
    for p in ('nope', 'A2'):
        if p == 'A2':
            it.call(B, ['F', 'A2', sec()], {})
        try:
            it.call(B, ['E', 'S', ADict({})], {'parent': p})
            ok = False
        except RaiseSig as e:
            ok = e.etype == 'ValueError'
        ctx.obl('inheritance', 'missing parent ' + p, ok, 'a missing parent is not reported', W3)
        ctx.obl('inheritance', 'missing parent %s leaves nothing' % p, get(B, ('E', 'S')) == 'KeyError',
                'the rejected basis stays registered', W3)
        try:
            it.call(B, ['E', 'P', ADict({})], {'parent': p})
        except RaiseSig:
            pass
        ctx.obl('inheritance', 'missing parent %s keeps the old basis' % p, get(B, ('E', 'P')) is parent,
                'a rejected basis replaces the valid one', W3)


@prop('G05', 'proof', 'abstract interpretation of the validators for each class of invalid file')
def g05(ctx):
    it, ns = setup(ctx)
    EFT, B, WC = ns['EFT'], ns['Basis'], ns['WC']
    tex = {'ok': True}
    seen = []

    def testtex(it_, a, k):
        seen.append(a[0] if a else next(iter(k.values())))
        return ADict({'success': tex['ok'], 'log': ''})
    if isinstance(ns.get('_testtex'), AFunc):
        it.call_hooks[ns['_testtex'].qual] = testtex

    def sec(**k):
        return ADict({s: ADict({c: None if i % 2 else D(tex='t' + c) for i, c in enumerate(v)}) for s, v in k.items()})

    def run(o):
        try:
            it.call(it.getattr_(o, 'validate'), [], {})
            return 'ok'
        except RaiseSig as e:
            return e.etype

    def case(lab, o, want, where):
        got = run(o)
        ctx.obl('validate', lab, (got == 'ok') == (want == 'ok') and (want == 'ok' or got in want),
                'validation %s instead of %s' % ('passes' if got == 'ok' else 'raises ' + got, want), where, sample=lab)
    W = FILE + ':Basis.validate'
    good = lambda: it.call(B, ['E', 'A', sec(s1=['C_1', 'C_2'], s2=['C_3'])], {})
    case('basis without any EFT', good(), ('ValueError',), W)
    it.call(EFT, ['F', ADict({'s1': None})], {})
    case('basis of an undefined EFT', good(), ('ValueError',), W)
    it.call(EFT, ['E', ADict({'s1': None, 's2': None, 's3': None})], {})
    case('good basis', good(), 'ok', W)
    case('unknown sector', it.call(B, ['E', 'B', sec(s1=['C_1'], x=['C_3'])], {}), ('ValueError',), W)
    case('sector of another EFT', it.call(B, ['F', 'B', sec(s1=['C_1'], s2=['C_3'])], {}), ('ValueError',), W)
    case('duplicate coefficient', it.call(B, ['E', 'B', sec(s1=['C_1', 'C_2'], s2=['C_2'])], {}), ('ValueError',), W)
    case('duplicate coefficient, first and last sector', it.call(B, ['E', 'B', sec(s1=['C_1'], s2=['C_3'], s3=['C_1'])], {}),
         ('ValueError',), W)
    tex['ok'] = False
    case('LaTeX error', good(), ('ValueError',), W)
    tex['ok'] = True
    case('empty basis', it.call(B, ['E', 'B', ADict({})], {}), 'ok', W)
    W = FILE + ':WC.validate'
    wc = lambda e, b, v: it.call(WC, [e, b, 1, ADict(v)], {})
    good()
    case('good coefficients', wc('E', 'A', {'C_1': r('a'), 'C_3': D(Re=r('a'))}), 'ok', W)
    case('no coefficients', wc('E', 'A', {}), 'ok', W)
    case('unknown EFT', wc('X', 'A', {'C_1': 1}), ('ValueError',), W)
    case('unknown basis', wc('E', 'X', {'C_1': 1}), ('ValueError',), W)
    case('basis of another EFT', wc('F', 'A', {'C_1': 1}), ('ValueError',), W)
    case('unknown coefficient', wc('E', 'A', {'C_1': 1, 'C_9': 1}), ('AssertionError', 'ValueError'), W)
    case('unknown coefficient with value zero', wc('E', 'A', {'C_9': 0}), ('AssertionError', 'ValueError'), W)
    ctx.assumptions.append('the LaTeX compiler call is replaced by its two possible answers')


@prop('G06', 'proof', 'abstract interpretation of the LaTeX test under every outcome of its system calls with a '
      'typestate of the temporary directory')
def g06(ctx):
    it, ns = setup(ctx)
    f = ns.get('_testtex')
    if not isinstance(f, AFunc):
        raise NoAnswer('_testtex not found')
    W = FILE + ':_testtex'
    I = libmodel.I
    saved, sopen = dict(it.models), I.BUILTINS['open']
    outcomes = [('no latex', None, None)]
    for rc in (0, 1):
        for lab, log in (('no log', None), ('empty log', []), ('clean log', ['a\n', 'b\n', '\n']),
                         ('undefined control sequence', ['x\n', '! Undefined control sequence.\n', 'l.5 \\foo\n', '\n', 'y\n']),
                         ('emergency stop at the end', ['x\n', '! Emergency stop.\n', 'z\n'])):
            outcomes.append(('exit status %d, %s' % (rc, lab), rc, log))
    try:
        for lab, rc, log in outcomes:
            for delete in (None, True, False):
                live, made, written, runs = set(), [], {}, []

                def mk(it_, a, k):
                    n = '/tmp/@tmp%d' % len(made)
                    made.append(n)
                    live.add(n)
                    return n

                def rm(it_, a, k):
                    live.discard(a[0])

                def td(it_, a, k):
                    n = mk(it_, a, k)
                    o = AObj('@tmpdir', {'name': n})
                    o.attrs.update({'@enter': lambda: n, '@exit': lambda: live.discard(n)})
                    o.attrs['@getattr'] = lambda x: Builtin(x, lambda *z: live.discard(n))
                    return o

                def op(it_, a, k):
                    p, mode = a[0], (list(a) + [k.get('mode', 'r')])[1]
                    if not isinstance(p, str):
                        raise NoAnswer('open of unknown path')
                    if 'w' in mode:
                        o = AObj('@file', {})
                        o.attrs['@getattr'] = lambda x: Builtin(x, lambda it2, b, k2: written.__setitem__(p, b[0]) if x == 'write' else None)
                        return o
                    if log is None or not p.endswith('.log') or not any(p.startswith(d + '/') for d in live):
                        raise RaiseSig('FileNotFoundError', p, it_.where())
                    o = AObj('@file', {})
                    o.attrs['@iter'] = lambda: list(log)
                    o.attrs['@getattr'] = lambda x: Builtin(x, lambda it2, b, k2: AList(log) if x == 'readlines' else
                                                            ''.join(log) if x == 'read' else None)
                    return o

                def sub(it_, a, k):
                    runs.append((a, dict(k)))
                    if rc is None:
                        raise RaiseSig('FileNotFoundError', 'latex', it_.where())
                    return AObj('@proc', {'returncode': rc})
                it.models.update({'tempfile.mkdtemp': mk, 'tempfile.TemporaryDirectory': td, 'shutil.rmtree': rm,
                                  'subprocess.run': sub})
                I.BUILTINS['open'] = Builtin('open', op)
                what = '%s, delete=%s' % (lab, delete)
                k = {} if delete is None else {'delete': delete}
                how, v = attempt(it, f, 'BODY', **k)
                ctx.obl('answer', what, how == 'ok' and isinstance(v, ADict) and v.get('success') in (True, False),
                        '%s %r' % (how, v), W, sample=what)
                if delete is not False:
                    ctx.obl('released', what, not live, 'the temporary directory is not removed', W, sample=what)
                if how == 'ok' and isinstance(v, ADict):
                    ctx.obl('verdict', what, bool(v.get('success')) == (rc in (0, None)), 'success=%r' % (v.get('success'),), W)
                    if rc == 1:
                        lg = v.get('log')
                        hit = log and any('Undefined' in x or 'Emergency' in x for x in log)
                        ctx.obl('log', what, isinstance(lg, str) and (not hit or 'Undefined control' in lg or 'Emergency stop' in lg)
                                and (not hit or lg in ''.join(log)), 'log %r' % (lg,), W)
                tex = [t for p, t in written.items() if p.endswith('.tex')]
                ctx.obl('document', what, len(tex) == 1 and isinstance(tex[0], str) and 'BODY' in tex[0] and
                        tex[0].index('begin{document}') < tex[0].index('BODY') < tex[0].index('end{document}') and
                        all(any(p.startswith(d + '/') for d in made) for p in written), 'the document is not written once '
                        'inside the temporary directory', W)
                ctx.obl('command', what, len(runs) == 1 and isinstance(runs[0][0][0], AList) and runs[0][0][0].items[0] == 'latex' and
                        any(p in runs[0][0][0].items for p in written), 'latex is not run on the document', W)
    finally:
        it.models.clear()
        it.models.update(saved)
        I.BUILTINS['open'] = sopen


@prop('G07', 'proof', 'abstract interpretation of the text views of bases and coefficients on structurally distinct objects')
def g07(ctx):
    it, ns = setup(ctx)
    B, WC = ns['Basis'], ns['WC']
    for nsec, meta, in itertools.product((0, 1, 3), (None, ADict({}), D(description='about it'))):
        sec = {}
        kinds = [('R', D(tex=r'\\alpha', real=True)), ('C', D(tex=r'\\beta', real=False)), ('C', D(tex=r'\\gamma')), ('C', None), ('R', D(real=True)),
                 ('C', ADict({}))]
        exp = []
        for i in range(nsec):
            sec['sec%d' % i] = ADict({'K_%d%d' % (i, j): v for j, (t, v) in enumerate(kinds[:6 - 2 * i])})
            exp += [('sec%d' % i, 'K_%d%d' % (i, j), t, v) for j, (t, v) in enumerate(kinds[:6 - 2 * i])]
        kw = {} if meta is None else {'metadata': meta}
        b = it.call(B, ['EE', 'BB', ADict(sec)], kw)
        W = FILE + ':Basis.__str__'
        lab = '%d sectors, metadata %s' % (nsec, meta)
        try:
            t = it.call(it.getattr_(b, '__str__'), [], {})
        except RaiseSig as e:
            ctx.obl('basis', lab, False, 'str() raises %s' % e.etype, W)
            continue
        if not isinstance(t, str):
            raise NoAnswer('text of a basis %r' % (t,))
        ctx.obl('basis', lab + ' names', 'EE' in t and 'BB' in t and (not meta or not meta.d or 'about it' in t), 'head missing', W)
        lines, cur, rows = t.split('\n'), None, []
        for l in lines:
            if l.startswith('#') and 'sec' in l:
                cur = l.strip('#` ')
            if l.startswith('|') and 'K_' in l:
                c = [x.strip() for x in l.strip('|').split('|')]
                rows.append((cur, c[0].strip('`'), c[2], c[1]))
        want = [(s, n, ty, v.get('tex') if isinstance(v, ADict) else None) for s, n, ty, v in exp]
        ctx.obl('basis', lab + ' rows', [x[:3] for x in rows] == [x[:3] for x in want] and
                all(w[3] is None or w[3] in g[3] for w, g in zip(want, rows)), 'the tables list %s instead of %s' % (rows, want), W,
                sample=lab)
    W = FILE + ':WC._repr_markdown_'
    z = Poly.cplx('z')
    it.tok = {}
    try:
        for vals, want in (({}, {}), ({'C_1': r('a'), 'C_2': D(Re=z.re(), Im=z.im())}, {'C_1': r('a'), 'C_2': z})):
            w = it.call(WC, ['EE', 'BB', r('scale'), ADict(vals)], {})
            for meth in ('__str__', '_repr_markdown_'):
                try:
                    t = it.call(it.getattr_(w, meth), [], {})
                except RaiseSig as e:
                    ctx.obl('coefficients', meth, False, 'raises %s' % e.etype, W)
                    continue
                if not isinstance(t, str):
                    raise NoAnswer('text of coefficients')
                rows = {}
                for l in t.split('\n'):
                    if l.startswith('|') and 'C_' in l:
                        c = [x.strip() for x in l.strip('|').split('|')]
                        rows[c[0].strip('`')] = it.tok.get(c[1].strip('`$ '))
                sc = it.num_text(r('scale'))
                ctx.obl('coefficients', '%s %d values' % (meth, len(vals)), 'EE' in t and 'BB' in t and sc in t and set(rows) == set(want)
                        and all(rows[k] is not None and Poly.lift(rows[k]) == want[k] for k in want), 'the view shows %s' % rows, W,
                        sample=meth)
            it.models['pandas.DataFrame'] = lambda it_, a, k: AObj('@df', {'@getattr': lambda n: Builtin(n, lambda *x: '@TABLE@')})
            for meth in ('_repr_html_', '__repr__'):
                t = it.call(it.getattr_(w, meth), [], {})
                if isinstance(t, str):
                    ctx.obl('coefficients', '%s %d values' % (meth, len(vals)), 'EE' in t and 'BB' in t and it.num_text(r('scale')) in t
                            and (meth == '__repr__' or '@TABLE@' in t), 'the view is %r' % t, FILE + ':WC.' + meth)
    finally:
        it.tok = None
        it.models.pop('pandas.DataFrame', None)
