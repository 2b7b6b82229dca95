"""I02: the command line tools."""
import argparse
import io
import contextlib
import itertools
import os
import re
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, libmodel, spec
from ..num import Poly
from . import wcxf as wx

CLI = 'wilson/wcxf/cli.py'
SAVED = ('open', 'input', 'quit', 'exit')


class World:
    """virtual files, streams, arguments and the (real) argparse library driven with abstract stream values"""

    def __init__(self, it, T):
        self.it, self.T = it, T
        self.files = {}
        self.dirs = {'/home/parameters', '/usr/share/eos/parameters', '/opt/eos/share/eos/parameters'}
        self.reset([])

    def reset(self, argv, stdin=None, keys=()):
        self.argv = argv
        self.out = {}
        self.keys = list(keys)
        self.stdin = self.reader(stdin, 'stdin')
        self.stdout = self.writer('<stdout>')
        self.stderr = self.writer('<stderr>')
        self.it.ext_values.update({'sys.stdin': self.stdin, 'sys.stdout': self.stdout, 'sys.stderr': self.stderr,
                                   'sys.argv': AList(['prog'] + list(argv))})
        self.it.events.clear()

    def reader(self, text, name):
        s = self.T.stream(text)
        s.attrs['name'] = name
        return s

    def writer(self, path):
        s = AObj('@stream', {'name': path, 'text': None, 'closed': False})
        chunks = []

        def write(it, a, k):
            chunks.append(a[0])
            return None
        ent = self.out[path] = {'chunks': chunks, 'obj': s}

        def close(it, a, k):
            ent['closed'] = True
            return None
        nop = Builtin('flush', lambda it, a, k: None)

        def ga(n):
            if n == 'write':
                return Builtin('write', write)
            if n == 'close':
                return Builtin('close', close)
            return nop
        s.attrs['@getattr'] = ga
        s.attrs['@enter'] = s
        s.attrs['@exit'] = lambda: ent.__setitem__('closed', True)
        s.attrs['@chunks'] = chunks
        return s

    def open(self, path, mode='r'):
        if 'r' in mode:
            if path not in self.files:
                raise RaiseSig('FileNotFoundError', path, self.it.where())
            s = self.reader(self.files[path], path)
            return s
        return self.writer(path)

    # -- argparse
    def ftype(self, mode):
        w = self

        def f(name):
            if name == '-':
                return w.stdin if 'r' in mode else w.stdout
            try:
                return w.open(name, mode)
            except RaiseSig:
                raise argparse.ArgumentTypeError('cannot open')
        return f

    def conv(self, v):
        if isinstance(v, AObj) and '@pyfunc' in v.attrs:
            return v.attrs['@pyfunc']
        if isinstance(v, Builtin) and v.name in ('str', 'int', 'float'):
            return {'str': str, 'int': int, 'float': lambda s: Fraction(s)}[v.name]
        if isinstance(v, AList):
            return [self.conv(x) for x in v.items]
        if isinstance(v, (str, int, Fraction, AObj, AFunc, tuple)) or v is None:
            return v
        if isinstance(v, Ext):
            return v
        raise NoAnswer('argparse argument %r' % (v,))

    def wrap(self, p):
        """abstract object for a real argparse parser / subparsers action"""
        o = AObj('@argparse', {'@p': p})

        def meth(n):
            def f(it, a, k):
                if n == 'parse_args' or n == 'parse_known_args':
                    argv = list(self.argv) if not a or a[0] is None else list(it.iterate(a[0]))
                    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                        try:
                            ns = p.parse_args(argv)
                        except SystemExit as e:
                            raise RaiseSig('SystemExit', e.code, it.where())
                    at = {}
                    for x, v in vars(ns).items():
                        at[x] = AList(v) if isinstance(v, list) else v
                    r = AObj('@namespace', at)

                    def ga(nm):
                        raise RaiseSig('AttributeError', nm, it.where())
                    r.attrs['@getattr'] = ga
                    return r
                if n in ('print_help', 'print_usage'):
                    it.events.append(('help', None, None, ''))
                    return None
                if n in ('error', 'exit'):
                    raise RaiseSig('SystemExit', 2 if n == 'error' else (a[0] if a else 0), it.where())
                kw = {x: self.conv(v) for x, v in k.items() if x not in ('formatter_class',)}
                r = getattr(p, n)(*[self.conv(x) for x in a], **kw)
                return self.wrap(r) if r is not None and not isinstance(r, str) else r
            return Builtin(n, f)
        o.attrs['@getattr'] = meth
        return o

    def install(self):
        it = self.it

        def parser(it_, a, k):
            return self.wrap(argparse.ArgumentParser(**{x: self.conv(v) for x, v in k.items() if x not in ('formatter_class',)}))

        def filetype(it_, a, k):
            mode = a[0] if a else k.get('mode', 'r')
            return AObj('@filetype', {'@pyfunc': self.ftype(mode)})
        it.models['argparse.ArgumentParser'] = parser
        it.models['argparse.FileType'] = filetype
        it.models['os.path.isdir'] = lambda it_, a, k: a[0].rstrip('/') in self.dirs
        it.models['os.path.exists'] = lambda it_, a, k: a[0].rstrip('/') in self.dirs or a[0] in self.files

        def glob(it_, a, k):
            import fnmatch
            return AList([p for p in sorted(self.files) if fnmatch.fnmatch(p, a[0])])
        it.models['glob.glob'] = glob
        it.models['os.listdir'] = lambda it_, a, k: AList(sorted(os.path.basename(p) for p in self.files if os.path.dirname(p) == a[0].rstrip('/')))
        B = libmodel.I.BUILTINS
        self.saved = {n: B.get(n) for n in SAVED}
        B['open'] = Builtin('open', lambda it_, a, k: self.open(a[0], a[1] if len(a) > 1 else k.get('mode', 'r')))
        B['input'] = Builtin('input', lambda it_, a, k: self.keys.pop(0) if self.keys else '')

        def quit_(it_, a, k):
            raise RaiseSig('SystemExit', a[0] if a else 0, it_.where())
        B['quit'] = B['exit'] = Builtin('quit', quit_)

        def pylha_dump(it_, a, k):
            data = a[0]
            fmt = k.get('fmt', a[1] if len(a) > 1 else 'lha')
            stream = k.get('stream', a[2] if len(a) > 2 else None)
            t = self.T.new('lha' if fmt == 'lha' else fmt, data)
            if stream is None:
                return t
            stream.attrs['@chunks'].append(t)
            return None

        def pylha_load(it_, a, k):
            t = self.T.src(a[0])
            if t not in self.T.payload or self.T.payload[t][0] != 'lha':
                raise RaiseSig('ValueError', t, it_.where())
            return self.T.copy(self.T.payload[t][1])
        it.models['pylha.dump'] = pylha_dump
        it.models['pylha.load'] = pylha_load
        # dumps of the json / yaml models to our writers
        for n in ('json.dump', 'yaml.dump', 'yaml.safe_dump'):
            old = it.models[n]

            def f(it_, a, k, old=old):
                stream = a[1] if len(a) > 1 else k.get('stream', k.get('fp'))
                if isinstance(stream, AObj) and '@chunks' in stream.attrs:
                    t = old(it_, [a[0]], {x: v for x, v in k.items() if x not in ('stream', 'fp')})
                    stream.attrs['@chunks'].append(t)
                    return None
                return old(it_, a, k)
            it.models[n] = f
        for n, e in (('json.load', 'JSONDecodeError'), ('json.loads', 'JSONDecodeError'), ('yaml.safe_load', 'YAMLError'),
                     ('yaml.load', 'YAMLError')):
            old = it.models[n]

            def f(it_, a, k, old=old, e=e):
                try:
                    return old(it_, a, k)
                except RaiseSig:
                    raise RaiseSig(e, None, it_.where())
            it.models[n] = f

    def restore(self):
        B = libmodel.I.BUILTINS
        for n, v in self.saved.items():
            if v is None:
                B.pop(n, None)
            else:
                B[n] = v


def entry_points(root):
    p = os.path.join(root, 'setup.py')
    out = dict(re.findall(r'"\s*(wcxf\w*|dsixtools2wcxf)\s*=\s*wilson\.wcxf\.cli:(\w+)\s*"', open(p).read())) if os.path.exists(p) else {}
    d = {'wcxf': 'wcxf_cli', 'wcxf2eos': 'eos', 'wcxf2dsixtools': 'wcxf2dsixtools', 'dsixtools2wcxf': 'dsixtools2wcxf', 'wcxf2smeftsim': 'smeftsim'}
    d.update(out)
    return d


@prop('I02', 'proof', 'abstract interpretation of the command line tools in a virtual world of files and streams for every subcommand '
      'and combination of options; the output and exit status are compared with the library calls the options stand for')
def i02(ctx):
    it = base.make(REPO, mode='arr')
    it.load('wilson')
    base.generic_position(it, positive=('scale', 'a', 'b', 'c'))
    T = wx.Texts()
    T.install(it)
    cl = it.load('wilson.wcxf.classes').env.v
    cli = it.load('wilson.wcxf.cli').env.v
    mods = {n: it.load('wilson.wcxf.converters.' + n).env.v for n in ('eos', 'smeftsim', 'dsixtools', 'yamljson')}
    ctx.use(CLI, 'wilson/wcxf/converters/yamljson.py', 'wilson/wcxf/converters/eos.py', 'wilson/wcxf/converters/dsixtools.py',
            'wilson/wcxf/converters/smeftsim.py')
    for c in ('EFT', 'Basis', 'Translator', 'Matcher', 'WC', 'WCxf', 'NamedInstanceClass'):
        if not isinstance(cl.get(c), AClass):
            raise NoAnswer('class %s not found' % c)
    it.universal_bases = False
    for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
        cl[c].attrs.pop('instances', None)
    w = World(it, T)
    w.install()
    try:
        run_all(ctx, it, T, w, cl, cli, mods)
    finally:
        w.restore()


def run_all(ctx, it, T, w, cl, cli, mods):
    eps = entry_points(REPO)
    names = ['C_1', 'C_2', 'b->s::c7', 'b->s::c9']
    D = wx.D

    def basis(e, b, ns=names):
        it.call(cl['Basis'], [e, b, ADict({'s': ADict({n: D(tex='c') for n in ns})})], {})
    smeft = list(spec.smeft_basis())
    it.call(cl['EFT'], ['E', ADict({'s': ADict({})})], {})
    for b in 'AB':
        basis('E', b)
    for e in ('F', 'WET'):
        it.call(cl['EFT'], [e, ADict({'s': ADict({})})], {})
    basis('F', 'C')
    basis('WET', 'EOS')
    it.call(cl['EFT'], ['SMEFT', ADict({'all': ADict({})})], {})
    it.call(cl['Basis'], ['SMEFT', 'Warsaw mass', ADict({'all': ADict({n: D(tex='c') for n in smeft})})], {})
    it.call(cl['Basis'], ['SMEFT', 'Warsaw', ADict({'all': ADict({n: D(tex='c') for n in smeft})})], {})

    def func(k):
        def f(it_, a, kw):
            d = a[0]
            return ADict({n: Poly.lift(norm(v)) * k for n, v in d.d.items()})
        return Builtin('f%d' % k, f)
    it.call(cl['Translator'], ['E', 'A', 'B', func(2)], {})
    it.call(cl['Matcher'], ['E', 'A', 'F', 'C', func(3)], {})

    def boom(it_, a, k):
        raise RaiseSig('AttributeError', 'x', it_.where())
    it.call(cl['Matcher'], ['E', 'A', 'WET', 'EOS', Builtin('boom', boom)], {})
    a, b, scale = Poly.real('a'), Poly.real('b'), Poly.real('scale')

    def doc(eft, bs, vals, **kw):
        return ADict(dict({'eft': eft, 'basis': bs, 'scale': scale, 'values': ADict(vals)}, **kw))
    good = doc('E', 'A', {'C_1': a, 'C_2': D(Re=a, Im=b)})
    bad_name = doc('E', 'A', {'C_9': a})
    bad_eft = doc('Z', 'A', {'C_1': a})
    files = {
        '/in.json': T.new('json', good), '/in.yaml': T.new('yaml', good), '/badname.json': T.new('json', bad_name),
        '/badeft.json': T.new('json', bad_eft), '/garbage': 'neither json nor yaml',
        '/eft.json': T.new('json', ADict({'eft': 'N', 'sectors': ADict({'s': ADict({})})})),
        '/basis.json': T.new('json', ADict({'eft': 'E', 'basis': 'NB', 'sectors': ADict({'s': ADict({'x': D(tex='c')})})})),
        '/badbasis.json': T.new('json', ADict({'eft': 'E', 'basis': 'NC', 'sectors': ADict({'nosector': ADict({})})})),
        '/eos.json': T.new('json', doc('WET', 'EOS', {'b->s::c7': D(Re=a, Im=b)})),
        '/eosbad.json': T.new('json', doc('WET', 'EOS', {'b->s::cX': D(Re=a, Im=b)})),
        '/mass.json': T.new('json', doc('SMEFT', 'Warsaw mass', {'G': a, 'uB_12': D(Re=a, Im=b)})),
        '/massbad.json': T.new('json', doc('SMEFT', 'Warsaw mass', {'Gx': a})),
        '/warsaw.json': T.new('json', doc('SMEFT', 'Warsaw', {'G': a, 'uB_12': D(Re=a, Im=b), 'lq1_1112': D(Re=a, Im=b)})),
        '/warsawbad.json': T.new('json', doc('SMEFT', 'Warsaw', {'G_9': a})),
    }
    par = lambda v: ADict({n: ADict({'central': Poly.real(n + v), 'min': Poly.real(n + v), 'max': Poly.real(n + v)})   # noqa: E731
                           for n in ('b->s::Re{c7}', 'b->s::Im{c7}', 'b->s::Re{c9}')})
    for pre, v in (('/usr', 'u'), ('/opt/eos', 'o')):
        d = par(v)
        d.d['@metadata@'] = ADict({'wcxf-relevant': True})
        files[pre + '/share/eos/parameters/x.yaml'] = T.new('yaml', d)
    w.files = files
    for n in ('_testtex',):
        if isinstance(cl.get(n), AFunc):
            cl[n] = Builtin('_testtex', lambda it_, a_, k: ADict({'success': True, 'log': ''}))

    def go(prog, argv, stdin=None, keys=()):
        """-> (exit status or exception name, {path: chunks})"""
        fn = cli.get(eps[prog])
        if not isinstance(fn, AFunc):
            raise NoAnswer('entry point %s not found' % eps[prog])
        w.reset(argv, stdin, keys)
        # registries as at start-up
        snap = {}
        for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
            inst = cl[c].attrs.get('instances')
            if isinstance(inst, ADict):
                snap[c] = (inst, dict(inst.d))
        try:
            r = it.call(fn, [], {})
            st = 0 if r is None or r is False else norm(r)
            if isinstance(st, (Top, Alt)) or not isinstance(st, int):
                raise NoAnswer('exit status %r of %s %s: %s' % (r, prog, argv, it.issues[-3:]))
        except RaiseSig as e:
            st = (e.value if e.value is not None else 0) if e.etype == 'SystemExit' else e.etype
        for c, (inst, d) in snap.items():
            inst.d.clear()
            inst.d.update(d)
        return st, {p: e['chunks'] for p, e in w.out.items() if e['chunks']}

    def payload(x, fmt):
        return T.payload[x][1] if isinstance(x, str) and x in T.payload and T.payload[x][0] == fmt else None

    def expect(what, prog, argv, status, outs, stdin=None, keys=(), cmp=None, said=None, where=CLI):
        st, out = go(prog, argv, stdin, keys)
        fail = status == 'fail'
        ok = (st != 0) if fail else st == status
        ctx.obl('status', what, ok, 'exit status %r' % (st,), where, sample=what)
        if not ok:
            return
        out = {p: c for p, c in out.items() if p != '<stderr>'}
        if fail or outs is None:
            ctx.obl('no-output', what, not out, 'output %s is written' % sorted(out), where)
        else:
            ctx.obl('target', what, set(out) == set(outs), 'output is written to %s instead of %s' % (sorted(out), sorted(outs)), where)
            for p in outs:
                if p in out:
                    ctx.obl('output', '%s %s' % (what, p), cmp(out[p]), 'wrong content written to %s' % p, where, sample=what)
        prints = [e[1][0] for e in it.events if e[0] == 'print' and e[1]]
        if said is not None:
            ctx.obl('message', what, any('Validation successful' in str(x) for x in prints) == said, 'messages %s' % prints, where)

    def single(fmt, want):
        def f(chunks):
            v = payload(chunks[0], fmt) if len(chunks) == 1 else None
            return v is not None and wx.veq(it, v, want)
        return f
    ios = [('file', ['/in.%s'], None), ('dash', ['-'], True), ('stdin', [], True)]
    # -- convert
    for fmt, (lab, arg, use), out in itertools.product(('json', 'yaml', 'JSON', 'Yaml'), ios, (None, '/out', '-')):
        src = '/in.yaml' if fmt.lower() == 'json' else '/in.json'
        argv = ['convert', fmt] + [x if x == '-' else src for x in arg] + (['--output', out] if out else [])
        expect('wcxf %s %s' % (' '.join(argv), lab), 'wcxf', argv, 0, ['/out' if out == '/out' else '<stdout>'], stdin=files[src] if use else None,
               cmp=single(fmt.lower(), good))
    for fmt, src in (('json', '/garbage'), ('yaml', '/garbage'), ('yaml', '/in.yaml'), ('xml', '/in.json'), ('json', '/missing')):
        expect('wcxf convert %s %s' % (fmt, src), 'wcxf', ['convert', fmt, src], 'fail', None)
    # -- translate and match
    tr = doc('E', 'B', {'C_1': a * 2, 'C_2': D(Re=a * 2, Im=b * 2)})
    ma = doc('F', 'C', {'C_1': a * 3, 'C_2': D(Re=a * 3, Im=b * 3)})
    for (cmd, want), (lab, arg, use), out, fmt in itertools.product(((['translate', 'B'], tr), (['match', 'F', 'C'], ma)), ios, (None, '/out'),
                                                                    (None, 'json', 'yaml')):
        argv = cmd + [x if x == '-' else '/in.yaml' for x in arg] + (['--output', out] if out else []) + (['--format', fmt] if fmt else [])
        f = fmt or 'json'

        def cmp(chunks, want=want, f=f):
            v = payload(chunks[0], f) if len(chunks) == 1 else None
            return isinstance(v, ADict) and all(k in v.d and wx.veq(it, v.d[k], want.d[k]) for k in want.d)
        expect('wcxf %s %s' % (' '.join(argv), lab), 'wcxf', argv, 0, [out or '<stdout>'], stdin=files['/in.yaml'] if use else None, cmp=cmp)
    for argv in (['translate', 'X', '/in.json'], ['match', 'F', 'X', '/in.json'], ['match', 'X', 'C', '/in.json'], ['translate', 'B', '/garbage'],
                 ['match', 'F', 'C', '/garbage'], ['match', 'WET', 'EOS', '/in.json'], ['translate', 'B', '/in.json', '--format', 'xml'],
                 ['translate', '/in.json', '--format'], ['translate', 'B', '/missing']):
        expect('wcxf ' + ' '.join(argv), 'wcxf', argv, 'fail', None)
    # -- validate
    for ty, f, ok in (('eft', '/eft.json', True), ('basis', '/basis.json', True), ('wc', '/in.json', True), ('wc', '/in.yaml', True),
                      ('basis', '/badbasis.json', False), ('wc', '/badname.json', False), ('wc', '/badeft.json', False), ('wc', '/garbage', False),
                      ('eft', '/garbage', False), ('basis', '/garbage', False), ('foo', '/in.json', False), ('wcx', '/eft.json', False)):
        for use in (False, True):
            argv = ['validate', ty] + ([] if use else [f])
            expect('wcxf %s%s' % (' '.join(argv), ' < ' + f if use else ''), 'wcxf', argv, 0 if ok else 'fail', None, stdin=files[f] if use else None, said=ok)
    st, out = go('wcxf', [])
    ctx.obl('help', 'wcxf', st in (0, 1, 2) and not out and any(e[0] == 'help' for e in it.events) or st == 2, 'no help without subcommand', CLI)
    # -- EOS
    f_eos = mods['eos'].get('wcxf2eos')
    for pre, target, (lab, arg, use) in itertools.product((None, '/opt/eos', '/opt/eos/'), ('out', 'home', 'std'), ios):
        argv = [x if x == '-' else '/eos.json' for x in arg] + (['--eosprefix', pre] if pre else []) + \
            {'out': ['--output', '/out'], 'home': ['--eoshome', '/home'], 'std': []}[target]
        v = 'o' if pre else 'u'
        want = par(v)
        for q in ('central', 'min', 'max'):
            want.d['b->s::Re{c7}'].d[q] = Poly.real('b->s::Re{c7}' + v) + a
            want.d['b->s::Im{c7}'].d[q] = Poly.real('b->s::Im{c7}' + v) + b
        expect('wcxf2eos %s %s' % (' '.join(argv), lab), 'wcxf2eos', argv, 0,
               [{'out': '/out', 'home': '/home/parameters/wcxf.yaml', 'std': '<stdout>'}[target]], stdin=files['/eos.json'] if use else None,
               cmp=single('yaml', want))
    for argv in (['/eos.json', '--output', '/out', '--eoshome', '/home'], ['/eos.json', '--eoshome', '/nohome'], ['/eosbad.json'], ['/garbage'],
                 ['/badeft.json', '--output', '/out']):
        expect('wcxf2eos ' + ' '.join(argv), 'wcxf2eos', argv, 'fail', None)
    # -- SMEFTsim
    sim = mods['smeftsim']
    init, fill, text = (sim.get(n) for n in ('initialize_smeftsim_card', 'smeftsim_card_fill', 'smeftsim_card_text'))
    if not all(isinstance(x, AFunc) for x in (init, fill, text)):
        raise NoAnswer('SMEFTsim converter functions not found')
    it.models['numpy.angle'] = lambda it_, a_, k: Poly.real('arg %r' % (norm(a_[0]),)) if not Poly.lift(norm(a_[0])).is_zero() else 0
    it.load('wilson.wcxf.converters.smeftsim')
    combos = list(itertools.product((None, 'A', 'B'), (None, 'alpha', 'mw'), (None, '2000', '512.5'), (None, '/out')))
    combos = [c for i, c in enumerate(combos) if i % 5 == 0 or c[1:] == ('mw', '2000', '/out') or c == (None,) * 4] if not ctx.thorough else combos
    for ms, sch, cut, out in combos:
        argv = ['/mass.json'] + (['--model-set', ms] if ms else []) + (['--input-scheme', sch] if sch else []) + \
            (['--cutoff-scale', cut] if cut else []) + (['--output', out] if out else [])
        it.tok = {}
        wc = it.call(it.getattr_(cl['WC'], 'load'), [T.stream(files['/mass.json'])], {})
        m, s, L = ms or 'A', sch or 'alpha', Fraction(cut or 1000)
        card = it.call(fill, [it.call(init, [m], {}), wc, m, L, s], {})
        pre, post = it.iterate(it.call(text, [m, s], {}))
        num = lambda x: it.tok.get(x) if isinstance(x, str) and x in it.tok else x    # noqa: E731

        def plain(v):
            if isinstance(v, ADict):
                return ADict({k: plain(x) for k, x in v.d.items()})
            if isinstance(v, (AList, tuple)):
                return AList([plain(x) for x in it.iterate(v)])
            return num(v)
        want = plain(card)

        def cmp(chunks):
            txt = ''
            seen = []
            for c in chunks:
                c2 = payload(c, 'lha')
                if c2 is not None:
                    seen.append((len(txt), plain(c2)))
                else:
                    txt += c
            return len(seen) == 1 and txt == pre + post and seen[0][0] == len(pre) and wx.veq(it, seen[0][1], want)
        expect('wcxf2smeftsim ' + ' '.join(argv), 'wcxf2smeftsim', argv, 0, [out or 'wcxf2smeftsim_param_card.dat'], cmp=cmp)
    for argv in (['/massbad.json'], ['/garbage'], ['/badeft.json'], [], ['/mass.json', '--model-set', 'C'], ['/mass.json', '--input-scheme', 'gf'],
                 ['/mass.json', '--cutoff-scale', 'x']):
        expect('wcxf2smeftsim ' + ' '.join(argv), 'wcxf2smeftsim', argv, 'fail', None)
    for key in ('x', '', 'q', '1'):
        st, out = go('wcxf2smeftsim', ['/warsaw.json', '--output', '/out'], keys=[key])
        ctx.obl('guard', 'other basis, key %r' % key, not out, 'a card is written although the basis is wrong', CLI + ':smeftsim')
    for key in ('i', 'I'):
        it.tok = {}
        st, out = go('wcxf2smeftsim', ['/warsaw.json', '--output', '/out'], keys=[key])
        ctx.obl('guard', 'other basis, key %r' % key, st == 0 and '/out' in out, 'ignoring the warning has no effect (%r)' % (st,), CLI + ':smeftsim')
    it.tok = None
    # -- the text around the card
    for m in 'AB':
        tab = {}
        for s in ('alpha', 'mw'):
            pre, post = it.iterate(it.call(text, [m, s], {}))
            blocks, bad = {}, []
            cur = None
            for l in (pre + '\n' + post).split('\n'):
                c = l.split('#')[0].split()
                if not c:
                    continue
                if c[0].lower() == 'block':
                    cur = ' '.join(c[1:]).upper()
                    if cur in blocks:
                        bad.append(l)
                    blocks[cur] = {}
                elif c[0].lower() == 'decay' and len(c) == 3:
                    cur = 'DECAY'
                    blocks.setdefault(cur, {})[c[1]] = float(c[2])
                elif cur and len(c) == 2 and c[0] not in blocks[cur]:
                    blocks[cur][c[0]] = float(c[1])
                else:
                    bad.append(l)
            ctx.obl('text', '%s %s lines' % (m, s), not bad, 'malformed lines %s' % bad[:3], 'wilson/wcxf/converters/smeftsim.py:smeftsim_card_text')
            tab[s] = blocks
            ctx.obl('text', '%s %s order' % (m, s), 'SMINPUTS' in pre and 'MASS' in pre and 'QNUMBERS' in post and 'YUKAWA' in post, 'parts exchanged',
                    'wilson/wcxf/converters/smeftsim.py:smeftsim_card_text')
        al, mw = tab['alpha'], tab['mw']
        want = {k: dict(v) for k, v in al.items()}
        want.get('SMINPUTS', {}).pop('1', None)
        for k in ('24', '9000003', '9000004', '251'):
            if k in want.get('MASS', {}):
                want['MASS'][k] = 80.387
        for k in sorted(set(want) | set(mw)):
            x, y = want.get(k, {}), mw.get(k, {})
            diff = {i: (x.get(i), y.get(i)) for i in set(x) | set(y) if x.get(i) != y.get(i) and not (k == 'SMINPUTS' and i == '3')}
            ctx.obl('text', '%s mw block %s' % (m, k), not diff, 'the m_W scheme differs from the alpha scheme in %s' % diff,
                    'wilson/wcxf/converters/smeftsim.py:smeftsim_card_text', sample='%s %s' % (m, k))
    # -- DsixTools
    for out, (lab, arg, use) in itertools.product((None, '/out'), ios):
        argv = [x if x == '-' else '/warsaw.json' for x in arg] + (['--output', out] if out else [])

        def cmp(chunks):
            v = payload(chunks[0], 'lha') if len(chunks) == 1 else None
            if v is None:
                return False
            # read back
            io_ = it.call(mods['dsixtools']['SMEFTio'], [], {})
            C = it.call(mods['dsixtools']['wc_lha2dict'], [v], {})
            sc = it.call(mods['dsixtools']['lha2scale'], [v], {})
            s2 = scale * scale
            g = C.get('G')
            x = C.get('uB').vals()[1] if isinstance(C.get('uB'), Arr) else None
            return Poly.lift(norm(sc)) == scale and Poly.lift(norm(g)) == a * s2 and x is not None and \
                Poly.lift(norm(x)) == (a + Poly.const(0, 1) * b) * s2
        expect('wcxf2dsixtools %s %s' % (' '.join(argv), lab), 'wcxf2dsixtools', argv, 0, [out or '<stdout>'],
               stdin=files['/warsaw.json'] if use else None, cmp=cmp)
    for argv in (['/warsawbad.json'], ['/garbage'], ['/mass.json'], ['/eos.json', '--output', '/out']):
        expect('wcxf2dsixtools ' + ' '.join(argv), 'wcxf2dsixtools', argv, 'fail', None)
    io_ = it.call(mods['dsixtools']['SMEFTio'], [], {})
    Z = {n: Poly() for n in ('g', 'gp', 'gs', 'Lambda', 'm2', 'Theta', 'Thetap', 'Thetas')}
    for n in ('Gu', 'Gd', 'Ge'):
        Z[n] = Arr.new([Poly()] * 9, (3, 3))
    sm = it.call(mods['dsixtools']['sm_dict2lha'], [ADict(Z)], {})
    wcs = ADict({'BLOCK': ADict({'WC1': ADict({'values': AList([AList([1, a])])}), 'WCUB': ADict({'values': AList([AList([1, 2, b])])})})})
    opt = ADict({'BLOCK': ADict({'SCALES': ADict({'values': AList([AList([1, scale]), AList([2, Poly.real('other')])])})})})
    files.update({'/sm.dat': T.new('lha', sm), '/wcs.dat': T.new('lha', wcs), '/opt.dat': T.new('lha', opt), '/noblock.dat': T.new('lha', ADict({'x': 1}))})
    for out, order in itertools.product((None, '/out'), itertools.permutations(['/sm.dat', '/wcs.dat', '/opt.dat'])):
        argv = list(order) + (['--output', out] if out else [])

        def cmp(chunks):
            v = payload(chunks[0], 'yaml') if len(chunks) == 1 else None
            if v is None:
                return False
            g, u = v.get('values').get('G') if v.has('values') else None, v.get('values').get('uB_12')
            if isinstance(u, ADict):
                u = Poly.lift(norm(u.get('Re'))) if set(u.d) == {'Re'} else None
            inv = scale ** -2
            return v.get('eft') == 'SMEFT' and v.get('basis') == 'Warsaw' and Poly.lift(norm(v.get('scale'))) == scale and \
                set(v.get('values').d) == {'G', 'uB_12'} and is_num(norm(g)) and Poly.lift(norm(g)) == a * inv and u is not None and \
                Poly.lift(norm(u)) == b * inv
        expect('dsixtools2wcxf ' + ' '.join(argv), 'dsixtools2wcxf', argv, 0, [out or '<stdout>'], cmp=cmp)
    for argv in (['/sm.dat', '/wcs.dat', '/opt.dat', '/noblock.dat'], ['/sm.dat', '/garbage'], [], ['/missing'], ['/wcs.dat', '/opt.dat'],
                 ['/sm.dat', '/wcs.dat']):
        expect('dsixtools2wcxf ' + ' '.join(argv), 'dsixtools2wcxf', argv, 'fail', None)
