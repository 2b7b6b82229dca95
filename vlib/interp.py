"""Abstract interpreter for the Python subset used in the analysed package.

The analysed source is never imported or executed: modules are parsed with
``ast`` and evaluated over an abstract domain -- constants (propagated through
calls, loops over literal tables, string formatting, ...), exact polynomial
normal forms over opaque inputs (``num.Poly``), flavour tensors
(``tn.TN`` / element-wise ``Arr``), finite containers, closures and objects.
What cannot be represented becomes ``Top``.  A branch on an unknown condition
evaluates both arms and joins the states.
"""
import ast
import os
import sys
import builtins as _bi
from fractions import Fraction
from .num import Poly
from . import tn as T
from .tn import TN

sys.setrecursionlimit(20000)


class Top:
    """Unknown value."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class Alt:
    """One of finitely many values (join)."""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'Alt%r' % (self.vals,)


class Env:
    def __init__(self, parent=None, module=None):
        self.v = {}
        self.parent = parent
        self.module = module
        self.globals_decl = set()
        self.nonlocal_decl = set()

    def save(self):
        return dict(self.v)

    def restore(self, s):
        self.v = s


class ACont:
    own = None        # ownership label: set for containers the analysed call must not mutate
    site = None


class AList(ACont):
    def __init__(self, items=(), own=None):
        self.items = list(items)
        self.own = own

    def save(self):
        return list(self.items)

    def restore(self, s):
        self.items = s

    def __repr__(self):
        return 'AList%r' % (self.items,)


class ASet(ACont):
    def __init__(self, items=(), own=None, frozen=False):
        self.items = dict.fromkeys(items)
        self.own = own
        self.frozen = frozen

    def save(self):
        return dict(self.items)

    def restore(self, s):
        self.items = s

    def __repr__(self):
        return 'ASet%r' % (list(self.items),)


class AKeys(ASet):
    """keys or items of a dictionary"""


class AItems(AList):
    """items of a dictionary"""


class ADict(ACont):
    """d: known entries. lazy: optional fn(key)->value for entries of an input
    dict the analysis keeps opaque (None: closed dict)."""

    def __init__(self, d=None, own=None, lazy=None, name=None):
        self.d = dict(d or {})
        self.own = own
        self.lazy = lazy
        self.name = name
        self.factory = None

    def save(self):
        return (dict(self.d), self.lazy)

    def restore(self, s):
        self.d, self.lazy = s

    def get(self, k):
        if k in self.d:
            return self.d[k]
        if self.lazy is not None:
            v = self.lazy(k)
            if v is not None:
                self.d[k] = v
            return v
        return None

    def has(self, k):
        if k in self.d:
            return True
        if self.lazy is not None:
            return self.get(k) is not None
        return False

    def __repr__(self):
        return 'ADict<%s>%r' % (self.name, list(self.d)[:6])


class Arr(ACont):
    """numpy array with concrete shape and abstract elements (views share buf)."""
    __slots__ = ('buf', 'idx', 'shape', 'part', 'own')

    def __init__(self, buf, idx, shape, part=None, own=None):
        self.buf = buf       # list-like Buf
        self.idx = idx
        self.shape = tuple(shape)
        self.part = part     # None | 're' | 'im' (view on real / imaginary part)
        self.own = own

    @staticmethod
    def new(vals, shape):
        b = Buf(list(vals))
        return Arr(b, list(range(len(b.v))), shape)

    @staticmethod
    def full(shape, v):
        n = 1
        for s in shape:
            n *= s
        return Arr.new([v] * n, shape)

    @property
    def ndim(self):
        return len(self.shape)

    def vals(self):
        v = self.buf.v
        if self.part is None:
            return [v[i] for i in self.idx]
        if self.part == 're':
            return [p_re(v[i]) for i in self.idx]
        return [p_im(v[i]) for i in self.idx]

    def __repr__(self):
        return 'Arr%r' % (self.shape,)


class Buf(ACont):
    def __init__(self, v):
        self.v = v

    def save(self):
        return list(self.v)

    def restore(self, s):
        self.v = s


class AModule:
    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path

    def __repr__(self):
        return 'AModule(%s)' % self.name


class Ext:
    """External (non-analysed) object identified by its dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class AFunc:
    def __init__(self, node, env, module, name, defaults, kw_defaults, qual):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kw_defaults, self.qual = defaults, kw_defaults, qual
        self.decos = []
        self.cached = False
        self.attrs = {}

    def __repr__(self):
        return 'AFunc(%s)' % self.qual


class ABound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return 'ABound(%r)' % (self.func,)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Wrap:
    """staticmethod / classmethod / property wrapper."""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f


class NTuple(tuple):
    def __new__(cls, vals, fields):
        o = tuple.__new__(cls, vals)
        o.fields = list(fields)
        return o


class AClass(ACont):
    def __init__(self, name, bases, module, node):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.attrs = {}
        self.own = None

    def save(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, AClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n]
        return None

    def __repr__(self):
        return 'AClass(%s)' % self.name


class AObj(ACont):
    def __init__(self, cls, attrs=None, own=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.own = own

    def save(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __repr__(self):
        return 'AObj(%s)' % (self.cls.name if isinstance(self.cls, AClass) else self.cls)


class AIter:
    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class RaiseSig(Exception):
    def __init__(self, etype, value=None, loc=None):
        self.etype, self.value, self.loc = etype, value, loc

    def __str__(self):
        return 'raise %s(%r) at %s' % (self.etype, self.value, self.loc)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Unsupported(Exception):
    pass


NUM = (int, Fraction, Poly, float, complex)


def is_num(x):
    return isinstance(x, NUM)


def norm(x):
    """Poly constants back to int/Fraction when real."""
    if isinstance(x, Poly) and x.is_const():
        a, b = x.const_value()
        if b == 0:
            return int(a) if a.denominator == 1 else a
    return x


def p_re(x):
    if isinstance(x, Poly):
        return x.re()
    return x if not isinstance(x, (Top, Alt)) else Top('re')


def p_im(x):
    if isinstance(x, Poly):
        return x.im()
    return 0 if not isinstance(x, (Top, Alt)) else Top('im')


def p_conj(x):
    if isinstance(x, Poly):
        return x.conj()
    return x


EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
               'FileNotFoundError': ['OSError', 'IOError', 'Exception'],
               'NotImplementedError': ['RuntimeError', 'Exception'],
               'ModuleNotFoundError': ['ImportError', 'Exception'],
               'ZeroDivisionError': ['ArithmeticError', 'Exception'],
               'UnboundLocalError': ['NameError', 'Exception'],
               'JSONDecodeError': ['ValueError', 'Exception'], 'YAMLError': ['Exception']}


class Interp:
    def __init__(self, root='/repo', package='wilson', mode='arr', max_steps=30_000_000):
        self.root = root
        self.package = package
        self.mode = mode
        self.modules = {}
        self.trees = {}
        self.overrides = {}       # dotted name -> abstract value (module attribute stand-ins)
        self.call_hooks = {}      # qualified function name -> fn(interp, args, kwargs) or NotImplemented
        self.models = {}
        self.load_modes = {}
        self.stack = []           # (qual, module path, lineno)
        self.journal = []
        self.effects = []         # mutations of owned containers
        self.events = []          # free log used by checks
        self.raised_maybe = []
        self.tops = {}
        self.decide = None        # fn(interp, value, node) -> True/False/None
        self.steps = 0
        self.max_steps = max_steps
        self.loc = (None, 0)
        self.tn_consts = {}
        self.analysed = set()
        self.calls = 0
        self.issues = []
        self.unroll_limit = 100000
        from . import libmodel
        libmodel.install(self)

    # ------------------------------------------------------------- utilities
    def where(self):
        return '%s:%s' % (self.loc[0], self.loc[1])

    def issue(self, kind, msg):
        fn = self.stack[-1] if self.stack else '<module>'
        self.issues.append((kind, msg, self.loc[0], self.loc[1], fn))

    def top(self, why):
        key = (why, self.loc[0])
        self.tops.setdefault(key, self.loc[1])
        return Top(why)

    def touch(self, obj):
        """must be called before any mutation of obj"""
        if getattr(obj, 'own', None) is not None:
            self.effects.append((obj.own, self.loc[0], self.loc[1],
                                 self.stack[-1] if self.stack else '<module>'))
        for j in reversed(self.journal):
            if id(obj) in j:
                break
            j[id(obj)] = (obj, obj.save())
            break

    # journal: only innermost level records; on pop, merge into the parent
    def _push(self):
        self.journal.append({})

    def _pop(self):
        j = self.journal.pop()
        if self.journal:
            par = self.journal[-1]
            for k, (o, s) in j.items():
                if k not in par:
                    par[k] = (o, s)
        return j

    # ------------------------------------------------------------- modules
    def mod_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] != self.package:
            return None
        path, is_pkg = self.mod_path(name)
        if path is None:
            return None
        par = None
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        env = Env(None, None)
        rel = os.path.relpath(path, self.root)
        m = AModule(name, env, rel)
        m.is_pkg = is_pkg
        env.module = m
        env.v['__name__'] = name
        env.v['__file__'] = path
        self.modules[name] = m
        tree = self.parse(path)
        old = self.loc
        sv_stack = self.stack
        self.stack = ['<%s>' % name]
        sv_mode, self.mode = self.mode, self.load_modes.get(name, 'arr')
        try:
            self.exec_block(tree.body, env)
        finally:
            self.mode = sv_mode
            self.stack = sv_stack
            self.loc = old
        if '.' in name and par is not None:
            par.env.v.setdefault(name.rsplit('.', 1)[1], m)
        return m

    def parse(self, path):
        if path not in self.trees:
            with open(path, encoding='utf-8') as f:
                self.trees[path] = ast.parse(f.read(), path)
        return self.trees[path]

    def mod_getattr(self, m, name):
        ov = self.overrides.get(m.name + '.' + name)
        if ov is not None:
            return ov() if callable(ov) and not isinstance(ov, (AFunc, AClass)) and getattr(ov, '_thunk', False) else ov
        if name in m.env.v:
            return m.env.v[name]
        sub = self.load(m.name + '.' + name)
        if sub is not None:
            return sub
        raise RaiseSig('AttributeError', 'module %s has no attribute %s' % (m.name, name), self.where())

    def import_(self, dotted):
        ov = self.overrides.get(dotted)
        if ov is not None:
            return ov
        if dotted.split('.')[0] == self.package:
            m = self.load(dotted)
            if m is None:
                raise RaiseSig('ImportError', dotted, self.where())
            return m
        return Ext(dotted)

    def get(self, dotted):
        """Resolve 'wilson.mod.attr[.attr]'."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            p, _ = self.mod_path('.'.join(parts[:i]))
            if p:
                v = self.load('.'.join(parts[:i]))
                for a in parts[i:]:
                    v = self.getattr_(v, a)
                return v
        raise KeyError(dotted)

    # ------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, n, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget exhausted at ' + self.where())
        if env.module is not None:
            self.loc = (env.module.path, n.lineno)
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(n).__name__, self.where()))
        return m(n, env)

    def x_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, env)

    def x_Pass(self, n, env):
        pass

    def x_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, env), env)

    def x_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr_(o, t.attr)
        else:
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
        v = self.eval(n.value, env)
        # in-place on mutable containers
        if isinstance(cur, AList) and isinstance(n.op, ast.Add):
            self.touch(cur)
            it = self.iterate(v)
            if it is None:
                it = [self.top('iter')]
            cur.items.extend(it)
            new = cur
        elif isinstance(cur, ASet) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.binop(n.op, cur, v)
            if cur.frozen or not isinstance(r, ASet):
                new = r
            else:
                self.touch(cur)
                cur.items = dict(r.items)
                new = cur
        elif isinstance(cur, ADict) and isinstance(n.op, ast.BitOr):
            self.touch(cur)
            self.dict_update(cur, v)
            new = cur
        elif isinstance(cur, Arr) and not isinstance(v, (Top, Alt)):
            r = self.binop(n.op, cur, v)
            if isinstance(r, Arr) and r.shape == cur.shape:
                self.arr_write(cur, r.vals())
                new = cur
            else:
                new = r
        elif isinstance(cur, TN) and cur.rank and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            new = self.binop(n.op, cur, v)
            if isinstance(new, TN) and new.rank == cur.rank:
                # numpy updates the array in place: visible through every alias
                if cur.own is not None:
                    self.effects.append((cur.own, self.loc[0], self.loc[1], self.stack[-1] if self.stack else ''))
                cur.terms = new.terms
                new = cur
        else:
            new = self.binop(n.op, cur, v)
        if isinstance(t, ast.Name):
            self.setname(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(o, t.attr, new)
        else:
            self.setitem(o, k, new)

    def arr_write(self, a, vals):
        if a.own is not None:
            self.effects.append((a.own, self.loc[0], self.loc[1], self.stack[-1] if self.stack else ''))
        self.touch(a.buf)
        b = a.buf.v
        for i, v in zip(a.idx, vals):
            b[i] = self.part_write(b[i], v, a.part)

    def part_write(self, old, v, part):
        if part is None:
            return v
        if isinstance(old, (Top, Alt)) or isinstance(v, (Top, Alt)):
            return self.top('complex part write')
        if part == 're':
            return norm(Poly.lift(p_re(v)) + Poly.lift(p_im(old)) * Poly.const(0, 1))
        return norm(Poly.lift(p_re(old)) + Poly.lift(p_re(v)) * Poly.const(0, 1))

    def x_FunctionDef(self, n, env):
        self.setname(n.name, self.mkfunc(n, env), env)

    def mkfunc(self, n, env, cls=None):
        a = n.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {p.arg: self.eval(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(n, 'name', '<lambda>')
        cls = cls or getattr(env, 'is_class', None)
        q = (env.module.name if env.module else '?') + '.' + (cls.name + '.' if isinstance(cls, AClass) else '') + name
        f = AFunc(n, env, env.module, name, defaults, kwd, q)
        v = f
        for d in reversed(getattr(n, 'decorator_list', [])):
            dec = self.eval(d, env)
            f.decos.append(dec)
            v = self.decorate(dec, v, f)
        return v

    def decorate(self, dec, v, f):
        if isinstance(dec, Builtin) and dec.name in ('staticmethod', 'classmethod', 'property'):
            return Wrap(dec.name, v)
        if isinstance(dec, Ext):
            if dec.name == 'functools.cached_property':
                w = Wrap('property', v)
                w.cached = f.name
                return w
            if dec.name == 'contextlib.contextmanager' and isinstance(v, AFunc):
                return Builtin(v.name, lambda it, a, k, g=v: AObj('@manager', {'@manager': (g, a, k)}))
            if 'lru_cache' in dec.name or dec.name in ('functools.cache',):
                f.cached = True
                return v
            if dec.name in ('functools.wraps',):
                return v
        if isinstance(dec, AObj) and dec.cls == '@identity':
            if dec.attrs.get('cached'):
                f.cached = True
            return v
        return self.call(dec, [v], {})

    def x_AsyncFunctionDef(self, n, env):
        raise Unsupported('async')

    def x_ClassDef(self, n, env):
        bases = [self.eval(b, env) for b in n.bases]
        c = AClass(n.name, bases, env.module, n)
        e = Env(env, env.module)
        e.is_class = c
        for st in n.body:
            self.exec(st, e)
        c.attrs.update(e.v)
        v = c
        if any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in bases):
            self.fields_of(c)
            c.attrs['@ntuple'] = True
        for d in reversed(n.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.setname(n.name, v, env)

    def fields_of(self, c):
        fs = [x for b in reversed(c.mro()[1:]) for x in b.attrs.get('@fields', ())]
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                nm = st.target.id
                d = ()
                if st.value is not None:
                    v = c.attrs.get(nm)
                    if isinstance(v, AObj) and v.cls == '@field':
                        fac, v = v.attrs['fac'], v.attrs['default']
                        d = (lambda fac=fac: self.call(fac, [], {}),) if fac is not None else v
                    else:
                        d = (lambda v=v: v,)
                fs = [x for x in fs if x[0] != nm] + [(nm, d)]
        c.attrs['@fields'] = fs

    def x_Match(self, n, env):
        v = self.eval(n.subject, env)
        for c in n.cases:
            b = {}
            t = self.match(c.pattern, v, b, env)
            if t is None:
                raise Unsupported('match on an unknown value')
            if not t:
                continue
            for k, x in b.items():
                self.setname(k, x, env)
            if c.guard is not None:
                g = self.truth(self.eval(c.guard, env))
                if g is None:
                    raise Unsupported('match guard')
                if not g:
                    continue
            self.exec_block(c.body, env)
            return

    def match(self, p, v, b, env):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                t = self.match(p.pattern, v, b, env)
                if not t:
                    return t
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                t = self.match(q, v, b, env)
                if t is not False:
                    return t
            return False
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, ADict, ASet)) or v is None or is_num(v):
                return False
            xs = self.iterate(v)
            if xs is None:
                return None
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st and len(xs) != len(p.patterns) or st and len(xs) < len(p.patterns) - 1:
                return False
            if st:
                i, m = st[0], len(xs) - (len(p.patterns) - 1)
                if p.patterns[i].name:
                    b[p.patterns[i].name] = AList(xs[i:i + m])
                xs = xs[:i] + xs[i + m:]
            for q, x in zip([q for q in p.patterns if not isinstance(q, ast.MatchStar)], xs):
                t = self.match(q, x, b, env)
                if not t:
                    return t
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, ADict):
                return False if isinstance(v, (str, tuple, AList)) or v is None or is_num(v) else None
            for k, q in zip(p.keys, p.patterns):
                k = self.hashable(self.eval(k, env))
                if not v.has(k):
                    return False
                t = self.match(q, v.get(k), b, env)
                if not t:
                    return t
            return True if p.rest is None else None
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            t = self.call(BUILTINS['isinstance'], [v, self.eval(p.cls, env)], {})
            if t is not True:
                return t if t is False else None
            return self.match(p.patterns[0], v, b, env) if p.patterns else True
        return None

    def x_Return(self, n, env):
        raise ReturnSig(self.eval(n.value, env) if n.value is not None else None)

    def x_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.touch(env)
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, ADict):
                    self.touch(o)
                    k = self.hashable(k)
                    if k not in o.d:
                        raise RaiseSig('KeyError', k, self.where())
                    del o.d[k]
                elif isinstance(o, AList) and isinstance(k, int):
                    self.touch(o)
                    del o.items[k]

    def x_Global(self, n, env):
        env.globals_decl.update(n.names)

    def x_Nonlocal(self, n, env):
        env.nonlocal_decl.update(n.names)

    def x_Assert(self, n, env):
        try:
            c = self.truth(self.eval(n.test, env))
        except RaiseSig:
            raise
        if c is False:
            raise RaiseSig('AssertionError', None, self.where())

    def x_Import(self, n, env):
        for a in n.names:
            if a.asname:
                self.setname(a.asname, self.import_(a.name), env)
            else:
                top = a.name.split('.')[0]
                self.import_(a.name)
                self.setname(top, self.import_(top), env)

    def x_ImportFrom(self, n, env):
        mod = n.module or ''
        if n.level:
            pkg = env.module.name.split('.')
            if not env.module.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (n.level - 1)]
            mod = '.'.join(pkg + ([mod] if mod else []))
        for a in n.names:
            ov = self.overrides.get(mod + '.' + a.name)
            if ov is not None:
                self.setname(a.asname or a.name, ov, env)
                continue
            m = self.import_(mod)
            if a.name == '*':
                if isinstance(m, AModule):
                    for k, v in list(m.env.v.items()):
                        if not k.startswith('_'):
                            self.setname(k, v, env)
                continue
            if isinstance(m, AModule):
                try:
                    v = self.mod_getattr(m, a.name)
                except RaiseSig:
                    raise RaiseSig('ImportError', mod + '.' + a.name, self.where())
            else:
                v = Ext(mod + '.' + a.name)
                v = self.ext_value(v)
            self.setname(a.asname or a.name, v, env)

    def x_If(self, n, env):
        c = self.truth(self.eval(n.test, env), n.test)
        if c is True:
            self.exec_block(n.body, env)
        elif c is False:
            self.exec_block(n.orelse, env)
        else:
            self.branch(n, env, [lambda: self.exec_block(n.body, env),
                                 lambda: self.exec_block(n.orelse, env)])

    def branch(self, n, env, arms):
        """abstract join over several continuations of the same state"""
        outs = []
        for arm in arms:
            self._push()
            sig = None
            try:
                arm()
            except (ReturnSig, RaiseSig, BreakSig, ContinueSig) as e:
                sig = e
            j = self._pop()
            after = {}
            for k, (o, s) in j.items():
                after[k] = (o, o.save())
            # undo
            for k, (o, s) in j.items():
                o.restore(s)
            outs.append((sig, j, after))
        live = [(j, a) for s, j, a in outs if s is None]
        for s, j, a in outs:
            if isinstance(s, ReturnSig):
                self.frames[-1]['rets'].append(s.v)
            elif isinstance(s, RaiseSig):
                self.raised_maybe.append(s)
        if not live:
            sigs = [s for s, _, _ in outs]
            rets = [s for s in sigs if isinstance(s, ReturnSig)]
            if rets:
                # effects of the returning arms: join all
                self._merge([(j, a) for s, j, a in outs if isinstance(s, ReturnSig)])
                v = self.frames[-1]['rets']
                self.frames[-1]['rets'] = []
                raise ReturnSig(self.join(v))
            loops = [s for s in sigs if isinstance(s, (BreakSig, ContinueSig))]
            if loops:
                self._merge([(j, a) for s, j, a in outs if isinstance(s, (BreakSig, ContinueSig))])
                raise loops[0]
            raise sigs[0]
        # break/continue in one arm: join its state with the live arms (loop bodies
        # are over-approximated; see x_For)
        extra = [(j, a) for s, j, a in outs if isinstance(s, (BreakSig, ContinueSig))]
        self._merge(live + extra)

    def _merge(self, states):
        objs = {}
        for j, a in states:
            for k, (o, s) in j.items():
                objs[k] = o
        for k, o in objs.items():
            base = o.save()
            vals = [a[k][1] if k in a else base for j, a in states]
            if len(vals) == 1:
                self.touch_silent(o)
                o.restore(vals[0])
                continue
            self.touch_silent(o)
            o.restore(self.join_storage(o, vals))

    def touch_silent(self, obj):
        if self.journal:
            j = self.journal[-1]
            if id(obj) not in j:
                j[id(obj)] = (obj, obj.save())

    def join_storage(self, o, vals):
        if isinstance(o, (Env, AObj, AClass)):
            out = {}
            for k in {k: 0 for v in vals for k in v}:
                if isinstance(o, Env) and not all(k in v for v in vals):
                    vv = [v[k] for v in vals if k in v]
                    out[k] = self.join(vv)
                    continue
                out[k] = self.join([v[k] for v in vals if k in v])
            return out
        if isinstance(o, ADict):
            ds = [v[0] for v in vals]
            out = {}
            for k in {k: 0 for v in ds for k in v}:
                vv = [v[k] if k in v else MISSING for v in ds]
                out[k] = self.join(vv)
            return (out, vals[0][1])
        if isinstance(o, AList):
            if all(len(v) == len(vals[0]) for v in vals):
                return [self.join(list(x)) for x in zip(*vals)]
            m = max(vals, key=len)
            return [self.join([v[i] if i < len(v) else MISSING for v in vals]) for i in range(len(m))]
        if isinstance(o, ASet):
            out = {}
            for v in vals:
                out.update(v)
            return out
        if isinstance(o, Buf):
            return [self.join(list(x)) for x in zip(*vals)]
        return vals[0]

    def join(self, vals):
        flat = []
        for v in vals:
            if isinstance(v, Alt):
                flat.extend(v.vals)
            else:
                flat.append(v)
        out = []
        for v in flat:
            if isinstance(v, Top):
                return v
            if not any(same(v, w) for w in out):
                out.append(v)
        if len(out) == 1:
            return out[0]
        if not out:
            return None
        if len(out) > 16:
            return self.top('join')
        return Alt(out)

    def x_For(self, n, env):
        it = self.eval(n.iter, env)
        items = self.iterate(it)
        if items is None:
            # unknown iterable: body zero or more times (two abstract rounds)
            def once():
                self.assign(n.target, self.top('loop element'), env)
                try:
                    self.exec_block(n.body, env)
                except (BreakSig, ContinueSig):
                    pass
            for _ in range(2):
                self.branch(n, env, [once, lambda: None])
            return
        broke = False
        for x in items:
            self.assign(n.target, x, env)
            try:
                self.exec_block(n.body, env)
            except ContinueSig:
                continue
            except BreakSig:
                broke = True
                break
        if not broke:
            self.exec_block(n.orelse, env)

    def x_While(self, n, env):
        k = 0
        while True:
            c = self.truth(self.eval(n.test, env), n.test)
            if c is False:
                self.exec_block(n.orelse, env)
                return
            if c is None:
                def once():
                    try:
                        self.exec_block(n.body, env)
                    except (BreakSig, ContinueSig):
                        pass
                for _ in range(2):
                    self.branch(n, env, [once, lambda: None])
                return
            k += 1
            if k > 5000:
                raise Unsupported('while bound at ' + self.where())
            try:
                self.exec_block(n.body, env)
            except ContinueSig:
                continue
            except BreakSig:
                return

    def x_Break(self, n, env):
        raise BreakSig()

    def x_Continue(self, n, env):
        raise ContinueSig()

    def x_Raise(self, n, env):
        if n.exc is None:
            raise RaiseSig('<re-raise>', None, self.where())
        v = self.eval(n.exc, env)
        raise RaiseSig(exc_name(v), v, self.where())

    def x_Try(self, n, env):
        try:
            try:
                self.exec_block(n.body, env)
            except RaiseSig as e:
                for h in n.handlers:
                    if self.exc_match(h, e, env):
                        if h.name:
                            ev = e.value
                            if not (isinstance(ev, AObj) and (isinstance(ev.cls, AClass) or str(ev.cls).startswith('@exc:'))):
                                ev = AObj('@exc:' + e.etype, {'args': (e.value,)})
                            self.setname(h.name, ev, env)
                        try:
                            self.exec_block(h.body, env)
                        except RaiseSig as e2:
                            if e2.etype == '<re-raise>':
                                raise e
                            raise
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, env)
        finally:
            self.exec_block(n.finalbody, env)

    def exc_match(self, h, e, env):
        if h.type is None:
            return True
        t = self.eval(h.type, env)
        return self.exc_types(t if isinstance(t, tuple) else (t,), e)

    def exc_types(self, ts, e):
        for x in ts:
            nm = exc_name(x)
            if nm == e.etype or nm in ('Exception', 'BaseException') or nm in EXC_PARENTS.get(e.etype, ()):
                return True
            c = e.value.cls if isinstance(e.value, AObj) else e.value
            if isinstance(c, AClass):
                for y in c.mro():
                    for b in [y] + list(y.bases):
                        bn = exc_name(b)
                        if nm == bn or nm in EXC_PARENTS.get(bn, ()):
                            return True
        return False

    def x_With(self, n, env):
        self.with_items(n, 0, env)

    def with_items(self, n, i, env):
        if i == len(n.items):
            self.exec_block(n.body, env)
            return
        it = n.items[i]
        v = m = self.eval(it.context_expr, env)

        def bind(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
        if isinstance(v, AObj) and isinstance(v.cls, AClass) and v.cls.find('__enter__'):
            bind(self.call(self.getattr_(v, '__enter__'), [], {}))
            ex = self.getattr_(m, '__exit__')
            try:
                self.with_items(n, i + 1, env)
            except RaiseSig as e:
                if self.truth(self.call(ex, [Ext(e.etype), e.value, None], {})) is True:
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
        elif isinstance(v, AObj) and '@enter' in v.attrs:
            bind(v.attrs['@enter']())
            try:
                self.with_items(n, i + 1, env)
            finally:
                m.attrs['@exit']()
        elif isinstance(v, AObj) and '@suppress' in v.attrs:
            try:
                self.with_items(n, i + 1, env)
            except RaiseSig as e:
                if not self.exc_types(v.attrs['@suppress'], e):
                    raise
        elif isinstance(v, AObj) and '@manager' in v.attrs:
            # the generator runs with its yield replaced by the body
            f, args, kw = v.attrs['@manager']
            sig, ran = [], []

            def hook(x):
                if ran:
                    raise RaiseSig('RuntimeError', "generator didn't stop", self.where())
                ran.append(1)
                old, self.yield_hook = self.yield_hook, None
                try:
                    bind(x)
                    self.with_items(n, i + 1, env)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    sig.append(e)
                finally:
                    self.yield_hook = old
            old, self.yield_hook = self.yield_hook, (hook, f.qual)
            try:
                self.call(f, args, kw)
            finally:
                self.yield_hook = old
            if sig:
                raise sig[0]
        else:
            bind(v)
            self.with_items(n, i + 1, env)

    yield_hook = None

    # ------------------------------------------------------------- names
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.v and (first or not getattr(e, 'is_class', None)):
                v = e.v[name]
                return v
            first = False
            e = e.parent
        if name in BUILTINS:
            return BUILTINS[name]
        raise RaiseSig('NameError', name, self.where())

    def setname(self, name, v, env):
        if name in env.globals_decl:
            g = env.module.env
            self.touch_g(g, name, env)
            g.v[name] = v
            return
        if name in env.nonlocal_decl:
            e = env.parent
            while e is not None:
                if name in e.v:
                    self.touch_silent(e)
                    e.v[name] = v
                    return
                e = e.parent
        self.touch_silent(env)
        env.v[name] = v

    def touch_g(self, g, name, env):
        self.effects.append(('module global %s.%s' % (env.module.name, name), self.loc[0], self.loc[1],
                             self.stack[-1] if self.stack else ''))
        self.touch_silent(g)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Alt):
                seqs = [self.iterate(x) for x in v.vals]
                if all(s is not None and len(s) == len(t.elts) for s in seqs):
                    items = [self.join(list(x)) for x in zip(*seqs)]
                else:
                    items = None
            else:
                items = self.iterate(v)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.top('unpack'), env)
                return
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, AList(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise RaiseSig('ValueError', 'unpack', self.where())
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assign target')

    # ------------------------------------------------------------- expressions
    def eval(self, n, env):
        m = _EV.get(type(n))
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.where()))
        return m(self, n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and v not in (float('inf'), float('-inf')) else self.top('inf')
        if isinstance(v, complex):
            return Poly.const(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        return v

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.seq(n.elts, env))

    def e_List(self, n, env):
        return AList(self.seq(n.elts, env))

    def e_Set(self, n, env):
        return ASet([self.hashable(x) for x in self.seq(n.elts, env)])

    def seq(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.eval(e.value, env))
                if it is None:
                    out.append(self.top('star'))
                else:
                    out.extend(it)
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.eval(v, env))
            else:
                kk = self.hashable(self.eval(k, env))
                d.d[kk] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, Poly):
            k = norm(k)
        if isinstance(k, (Top, Alt)):
            return ('@top', id(k))
        if isinstance(k, ASet):
            return ('@fset',) + tuple(sorted(map(repr, k.items)))
        if isinstance(k, (AList, ADict)):
            raise RaiseSig('TypeError', 'unhashable', self.where())
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        return k

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v, n.operand)
            return self.top('not') if t is None else (not t)
        return self.unop(n.op, v)

    def unop(self, op, v):
        if isinstance(v, Alt):
            return self.join([self.unop(op, x) for x in v.vals])
        if isinstance(v, Top):
            return v
        if isinstance(op, ast.USub):
            if isinstance(v, Arr):
                return Arr.new([self.unop(op, x) for x in v.vals()], v.shape)
            if isinstance(v, (int, Fraction, Poly, TN)):
                return -v
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, AObj):
            return self.top('unary on object')
        return self.top('unary ' + type(op).__name__)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        res = []
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            t = self.truth(v, e)
            if i == len(n.values) - 1:
                res.append(v)
                break
            if t is None:
                res.append(v)
                continue
            if isand and t is False:
                res.append(v)
                break
            if not isand and t is True:
                res.append(v)
                break
        else:
            pass
        if len(res) == 1:
            return res[0]
        # some operand unknown: if every candidate is boolean-like unknown
        if isand and any(self.truth(r) is False for r in res) and all(
                isinstance(r, (Top, bool)) for r in res):
            if self.truth(res[-1]) is False:
                return False if True else None
        if not isand and self.truth(res[-1]) is True and all(isinstance(r, (Top, bool)) for r in res):
            return True
        return self.join(res) if not any(isinstance(r, Top) for r in res) else self.top('boolop')

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        out = True
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            r = self.compare(op, left, right)
            if r is False:
                return False
            if r is None:
                out = None
            elif isinstance(r, (Arr, Top, TN)):
                return r
            left = right
        return self.top('compare') if out is None else out

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if r is None:
                return None
            return r if isinstance(op, ast.In) else (not r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if r is None:
                return None
            return r if isinstance(op, ast.Is) else (not r)
        if isinstance(a, Alt) or isinstance(b, Alt):
            av = a.vals if isinstance(a, Alt) else [a]
            bv = b.vals if isinstance(b, Alt) else [b]
            rs = {repr(self.compare(op, x, y)) for x in av for y in bv}
            if rs == {'True'}:
                return True
            if rs == {'False'}:
                return False
            return None
        if isinstance(a, (Top, Ext)) or isinstance(b, (Top, Ext)):
            if isinstance(a, Ext) and isinstance(b, Ext) and isinstance(op, (ast.Eq, ast.NotEq)):
                return (a == b) == isinstance(op, ast.Eq)
            return None
        if isinstance(a, (TN,)) or isinstance(b, (TN,)):
            return None
        if isinstance(a, Arr) or isinstance(b, Arr):
            from . import libmodel
            try:
                x, y = (libmodel.to_arr(self, z) for z in (a, b))
                n = max(len(x.shape), len(y.shape))
                xs, ys = (1,) * (n - len(x.shape)) + x.shape, (1,) * (n - len(y.shape)) + y.shape
                sh = tuple(max(p, q) for p, q in zip(xs, ys))
                x, y = libmodel.bcast(x, sh), libmodel.bcast(y, sh)
                if x is None or y is None:
                    return False
            except Exception:
                return self.top('array comparison')
            out = []
            for p, q in zip(x, y):
                r = self.compare(op, p, q)
                if not isinstance(r, bool):
                    return self.top('array comparison')
                out.append(r)
            return Arr.new(out, sh)
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            nm = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.Gt: '__gt__',
                  ast.LtE: '__le__', ast.GtE: '__ge__'}.get(type(op))
            if nm and a.cls.find(nm):
                return self.truth(self.call(self.getattr_(a, nm), [b], {}))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if r is None:
                return None
            return r if isinstance(op, ast.Eq) else (not r)
        a, b = norm(a), norm(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) or \
                isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, ASet) and isinstance(b, ASet):
            A, B = set(a.items), set(b.items)
            return {ast.Lt: A < B, ast.Gt: A > B, ast.LtE: A <= B, ast.GtE: A >= B}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple):
            try:
                return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[type(op)]
            except TypeError:
                return None
        return None

    def equal(self, a, b):
        a, b = norm(a), norm(b)
        if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
            return None
        if isinstance(a, (int, Fraction, str, bool, type(None))) and \
                isinstance(b, (int, Fraction, str, bool, type(None))):
            return a == b
        if isinstance(a, Poly) and is_num(b) or isinstance(b, Poly) and is_num(a):
            p, q = Poly.lift(a), Poly.lift(b)
            if p == q:
                return True
            if p.is_const() and q.is_const():
                return False
            return None
        if isinstance(a, (AList, tuple)) and type(a) is type(b):
            x = a.items if isinstance(a, AList) else a
            y = b.items if isinstance(b, AList) else b
            if len(x) != len(y):
                return False
            rs = [self.equal(p, q) for p, q in zip(x, y)]
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return set(a.items) == set(b.items)
        if isinstance(a, ADict) and isinstance(b, ADict):
            if a.lazy or b.lazy:
                return True if a is b else None
            if set(a.d) != set(b.d):
                return False
            rs = [self.equal(a.d[k], b.d[k]) for k in a.d]
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if a is b:
            return True
        if isinstance(a, (AObj, AFunc, AClass, AModule)) or isinstance(b, (AObj, AFunc, AClass, AModule)):
            if isinstance(a, AObj) and isinstance(b, AObj) and not isinstance(a.cls, AClass) and \
                    not (a.cls == b.cls == '@stream'):
                return None
            return False
        if type(a) is not type(b):
            if isinstance(a, (Poly, TN, Arr)) and isinstance(b, (str, type(None), tuple)) or \
                    isinstance(b, (Poly, TN, Arr)) and isinstance(a, (str, type(None), tuple)):
                return False
            if isinstance(a, (str, type(None), int, Fraction)) or isinstance(b, (str, type(None), int, Fraction)):
                return False
        return None

    def is_(self, a, b):
        if isinstance(a, Alt):
            rs = {self.is_(x, b) for x in a.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a == b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, Alt):
            rs = {self.contains(y, x) for y in c.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(c, Top) or isinstance(x, Top):
            return None
        if isinstance(x, Alt):
            rs = {self.contains(c, y) for y in x.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(c, str):
            return x in c if isinstance(x, str) else None
        if isinstance(c, ADict):
            k = self.hashable(x)
            r = c.has(k)
            if r and isinstance(c.d.get(k), Alt) and any(v is MISSING for v in c.d[k].vals):
                return None
            if not r and any(isinstance(q, tuple) and q and q[0] == '@top' for q in c.d):
                return None
            return r
        if isinstance(c, ASet):
            return self.hashable(x) in c.items
        if isinstance(c, AObj):
            m = None
            if isinstance(c.cls, AClass):
                m = c.cls.find('__contains__')
            if m is not None:
                return self.truth(self.call(ABound(m, c), [x], {}))
            f = c.attrs.get('@contains')
            if f is not None:
                return f(x)
            return None
        it = self.iterate(c)
        if it is None:
            return None
        unk = False
        for y in it:
            r = self.equal(x, y)
            if r is True:
                return True
            if r is None:
                unk = True
        return None if unk else False

    def e_IfExp(self, n, env):
        c = self.truth(self.eval(n.test, env), n.test)
        if c is True:
            return self.eval(n.body, env)
        if c is False:
            return self.eval(n.orelse, env)
        return self.join([self.eval(n.body, env), self.eval(n.orelse, env)])

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.fmt(self.eval(v.value, env), v, env))
        if any(isinstance(p, Top) for p in parts):
            return self.top('fstring')
        return ''.join(parts)

    def fmt(self, x, v, env):
        if isinstance(x, Alt):
            return self.top('fmt')
        x = norm(x)
        spec = ''
        if v.format_spec is not None:
            spec = self.e_JoinedStr(v.format_spec, env)
            if isinstance(spec, Top):
                return spec
        if isinstance(x, Fraction) and spec and not spec.endswith('s'):
            return format(float(x), spec)
        if isinstance(x, (str, int, bool, type(None))):
            try:
                if v.conversion == ord('r'):
                    return format(repr(x), spec)
                if v.conversion == ord('s'):
                    return format(str(x), spec)
                return format(x, spec)
            except Exception:
                return self.top('fmt')
        t = self.num_text(x)
        return self.top('fmt') if t is None else t

    tok = None

    def num_text(self, x):
        """text of a symbolic number: a token that float() maps back"""
        if self.tok is None or not (is_num(x) or isinstance(x, (Poly, Fraction))):
            return None
        inv = self.tok.setdefault('', {})
        k = Poly.lift(x)
        if k not in inv:
            inv[k] = 'N@%d@' % len(self.tok)
            self.tok[inv[k]] = x
        return inv[k]

    def e_Attribute(self, n, env):
        return self.getattr_(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval(n.slice, env)
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else norm(self.eval(x, env))
        a, b, c = f(n.lower), f(n.upper), f(n.step)
        if any(isinstance(x, (Top, Alt, Poly)) for x in (a, b, c)):
            return self.top('slice')
        f2 = lambda x: None if x is None else int(x)
        return slice(f2(a), f2(b), f2(c))

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while getattr(e, 'is_comp', False):
            e = e.parent
        self.setname(n.target.id, v, e)
        return v

    def e_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value else None
        if self.yield_hook is not None and self.stack and self.stack[-1] == self.yield_hook[1]:
            self.yield_hook[0](v)
            return None
        self.frames[-1].setdefault('yield', []).append(v)
        return None

    def e_YieldFrom(self, n, env):
        it = self.iterate(self.eval(n.value, env))
        self.frames[-1].setdefault('yield', []).extend(it if it is not None else [self.top('yield from')])
        return None

    def e_Await(self, n, env):
        raise Unsupported('await')

    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, e))
            if it is None:
                e2 = Env(e, env.module)
                e2.is_comp = True
                self.assign(g.target, self.top('comp element'), e2)
                self.comp_unknown = True
                rec(i + 1, e2)
                return
            for x in it:
                e2 = Env(e, env.module)
                e2.is_comp = True
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, e2), c)
                    if t is False:
                        ok = False
                        break
                    if t is None:
                        e2.maybe = True
                if ok:
                    rec(i + 1, e2)
        old = getattr(self, 'comp_unknown', False)
        self.comp_unknown = False
        rec(0, env)
        unk = self.comp_unknown
        self.comp_unknown = old
        return unk

    def e_ListComp(self, n, env):
        out = []
        unk = self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        if unk:
            return self.top('list comprehension over unknown')
        return AList(out)

    def e_GeneratorExp(self, n, env):
        out = []
        unk = self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        if unk:
            return self.top('generator over unknown')
        return AIter(out)

    def e_SetComp(self, n, env):
        out = []
        unk = self.comp(n.generators, env, lambda e: out.append(self.hashable(self.eval(n.elt, e))))
        if unk:
            return self.top('set comprehension over unknown')
        return ASet(out)

    def e_DictComp(self, n, env):
        d = ADict()

        def emit(e):
            k = self.hashable(self.eval(n.key, e))
            d.d[k] = self.eval(n.value, e)
        unk = self.comp(n.generators, env, emit)
        if unk:
            return self.top('dict comprehension over unknown')
        return d

    # ------------------------------------------------------------- truth
    def truth(self, v, node=None):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, AList):
            return len(v.items) > 0
        if isinstance(v, ASet):
            return len(v.items) > 0
        if isinstance(v, ADict):
            if v.lazy:
                return True
            return len(v.d) > 0
        if isinstance(v, Poly):
            if v.is_const():
                return not v.is_zero()
        if isinstance(v, (AFunc, AClass, AModule, ABound, Builtin)):
            return True
        if isinstance(v, Alt):
            ts = {self.truth(x) for x in v.vals}
            if len(ts) == 1:
                return ts.pop()
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass):
                m = v.cls.find('__bool__')
                if m:
                    return self.truth(self.call(ABound(m, v), [], {}))
                m = v.cls.find('__len__')
                if m:
                    return self.truth(self.call(ABound(m, v), [], {}))
                return True
            if '@truth' in v.attrs:
                return v.attrs['@truth']
        if self.decide is not None:
            return self.decide(self, v, node)
        return None

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, (tuple,)):
            return list(v)
        if isinstance(v, AList):
            return list(v.items)
        if isinstance(v, ASet):
            return list(v.items)
        if isinstance(v, ADict):
            if v.lazy is not None and not getattr(v, 'enum', False):
                return None
            if any(isinstance(k, tuple) and k and k[0] == '@top' for k in v.d):
                return None
            return list(v.d)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            if len(v) > self.unroll_limit:
                return None
            return list(v)
        if isinstance(v, AIter):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, Arr):
            if not v.shape:
                return None
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass) and v.cls.find('__iter__'):
                return self.iterate(self.call(ABound(v.cls.find('__iter__'), v), [], {}))
            f = v.attrs.get('@iter')
            if f is not None:
                return f()
        if v is None:
            raise RaiseSig('TypeError', 'None is not iterable', self.where())
        return None

    # ------------------------------------------------------------- attributes
    def getattr_(self, o, name):
        if isinstance(o, Alt):
            return self.join([self.getattr_(x, name) for x in o.vals])
        if isinstance(o, Top):
            return self.top(o.why + '.' + name if len(o.why) < 80 else o.why)
        if isinstance(o, AModule):
            return self.mod_getattr(o, name)
        if isinstance(o, Ext):
            return self.ext_value(Ext(o.name + '.' + name))
        if isinstance(o, AObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return ADict({k: v for k, v in o.attrs.items() if not k.startswith('@')})
            if isinstance(o.cls, AClass):
                m = o.cls.find(name)
                if m is not None or any(name in c.attrs for c in o.cls.mro()):
                    return self.bind(m, o, o.cls)
                g = o.cls.find('__getattr__')
                if g is not None:
                    return self.call(ABound(g, o), [name], {})
                if all(isinstance(b, AClass) or (isinstance(b, Builtin) and b.name == 'object') for c in o.cls.mro() for b in c.bases):
                    raise RaiseSig('AttributeError', name, self.where())
            f = o.attrs.get('@getattr')
            if f is not None:
                return f(name)
            return self.top('attr %s' % name)
        if isinstance(o, AClass):
            if name == '__name__':
                return o.name
            m = o.find(name)
            if m is None and not any(name in c.attrs for c in o.mro()):
                if not name.startswith('__') and all(isinstance(b, AClass) or (isinstance(b, Builtin) and b.name == 'object')
                                                     for c in o.mro() for b in c.bases):
                    raise RaiseSig('AttributeError', name, self.where())
                return self.top('class attr %s' % name)
            if isinstance(m, Wrap):
                if m.kind == 'staticmethod':
                    return m.f
                if m.kind == 'classmethod':
                    return ABound(m.f, o)
            return m
        if isinstance(o, AFunc):
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if isinstance(o.node, ast.FunctionDef) else None
            if name in o.attrs:
                return o.attrs[name]
            if name in ('cache_clear', 'cache_info'):
                return Builtin(name, lambda it, a, k: None)
            return self.top('function attr ' + name)
        from . import libmodel
        return libmodel.value_attr(self, o, name)

    def bind(self, m, o, cls):
        if isinstance(m, Wrap):
            if m.kind == 'staticmethod':
                return m.f
            if m.kind == 'classmethod':
                return ABound(m.f, cls)
            if m.kind == 'property':
                c = getattr(m, 'cached', None)
                if c is None:
                    return self.call(m.f, [o], {})
                if '@cached_' + c not in o.attrs:
                    o.attrs['@cached_' + c] = self.call(m.f, [o], {})
                return o.attrs['@cached_' + c]
        if isinstance(m, AFunc):
            return ABound(m, o)
        return m

    def setattr_(self, o, name, v):
        if isinstance(o, AObj) and isinstance(o.cls, AClass):
            p = o.cls.find(name)
            if isinstance(p, Wrap) and p.kind == 'property' and not hasattr(p, 'cached'):
                if getattr(p, 'fset', None) is None:
                    raise RaiseSig('AttributeError', "can't set attribute " + name, self.where())
                self.call(p.fset, [o, v], {})
                return
        if isinstance(o, (AObj, AClass)):
            self.touch(o)
            o.attrs[name] = v
        elif isinstance(o, AModule):
            self.effects.append(('module attribute %s.%s' % (o.name, name), self.loc[0], self.loc[1],
                                 self.stack[-1] if self.stack else ''))
            self.touch_silent(o.env)
            o.env.v[name] = v
        elif isinstance(o, AFunc):
            o.attrs[name] = v
        elif isinstance(o, Arr) and name in ('real', 'imag'):
            w = Arr(o.buf, o.idx, o.shape, 're' if name == 'real' else 'im', o.own)
            vals = self.broadcast_vals(v, o.shape)
            self.arr_write(w, vals)
        elif isinstance(o, Arr) and name == 'shape':
            pass
        elif isinstance(o, Alt):
            for x in o.vals:
                self.setattr_(x, name, self.join([self.getattr_(x, name), v]))
        # attributes of unknown objects: ignored (object is outside the analysis)

    def ext_value(self, e):
        from . import libmodel
        return libmodel.ext_const(self, e)

    # ------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if isinstance(o, Alt):
            return self.join([self.getitem(x, k) for x in o.vals])
        if isinstance(o, Top):
            return self.top('item of ' + o.why if len(o.why) < 60 else o.why)
        if isinstance(k, Alt) and isinstance(o, (ADict, AList, tuple, str)):
            return self.join([self.getitem(o, x) for x in k.vals])
        if isinstance(o, ADict):
            if isinstance(k, Top):
                return self.top('dict[?]')
            kk = self.hashable(k)
            if not o.has(kk):
                if o.factory is not None:
                    self.touch(o)
                    o.d[kk] = self.call(o.factory, [], {})
                    return o.d[kk]
                if any(isinstance(q, tuple) and q and q[0] == '@top' for q in o.d):
                    return self.top('dict with unknown keys')
                raise RaiseSig('KeyError', kk, self.where())
            v = o.get(kk)
            if isinstance(v, Alt) and any(x is MISSING for x in v.vals):
                v = self.join([x for x in v.vals if x is not MISSING])
            return v
        k = norm(k) if not isinstance(k, tuple) else tuple(norm(x) for x in k)
        if isinstance(o, (AList, tuple, str)):
            seq = o.items if isinstance(o, AList) else o
            if isinstance(k, slice):
                r = seq[k]
                return AList(r) if isinstance(o, AList) else r
            if isinstance(k, Fraction) and k.denominator == 1:
                k = int(k)
            if isinstance(k, int):
                try:
                    return seq[k]
                except IndexError:
                    raise RaiseSig('IndexError', k, self.where())
            if isinstance(k, str):
                raise RaiseSig('TypeError', 'list indices', self.where())
            return self.top('seq[?]')
        if isinstance(o, range) and isinstance(k, (int, slice)):
            try:
                return o[k]
            except IndexError:
                raise RaiseSig('IndexError', k, self.where())
        if isinstance(o, Arr):
            from . import libmodel
            return libmodel.arr_index(self, o, k)
        if isinstance(o, TN):
            from . import libmodel
            return libmodel.tn_index(self, o, k)
        if isinstance(o, AObj):
            if isinstance(o.cls, AClass):
                m = o.cls.find('__getitem__')
                if m:
                    return self.call(ABound(m, o), [k], {})
            f = o.attrs.get('@getitem')
            if f is not None:
                return f(k)
            return self.top('object[..]')
        if isinstance(o, AClass):
            f = o.attrs.get('@getitem')
            if f is not None:
                return f(k)
            if o.attrs.get('__class_getitem__'):
                return self.call(ABound(o.attrs['__class_getitem__'], o), [k], {})
            # metaclass __getitem__
            for kw in (o.node.keywords if o.node is not None else []):
                if kw.arg == 'metaclass':
                    mc = self.eval(kw.value, o.module.env)
                    if isinstance(mc, AClass) and mc.find('__getitem__'):
                        return self.call(ABound(mc.find('__getitem__'), o), [k], {})
            for b in o.mro()[1:]:
                if b.node is not None:
                    for kw in b.node.keywords:
                        if kw.arg == 'metaclass':
                            mc = self.eval(kw.value, b.module.env)
                            if isinstance(mc, AClass) and mc.find('__getitem__'):
                                return self.call(ABound(mc.find('__getitem__'), o), [k], {})
            return self.top('class[..]')
        if isinstance(o, Ext):
            return self.top(o.name + '[..]')
        return self.top('subscript of %s' % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, ADict):
            self.touch(o)
            if isinstance(k, (Alt,)):
                for x in k.vals:
                    kk = self.hashable(x)
                    old = o.get(kk) if o.has(kk) else MISSING
                    o.d[kk] = self.join([old, v])
                return
            o.d[self.hashable(k)] = v
        elif isinstance(o, AList):
            self.touch(o)
            k = norm(k)
            if isinstance(k, int) and -len(o.items) <= k < len(o.items):
                o.items[k] = v
            elif isinstance(k, slice):
                it = self.iterate(v)
                if it is not None:
                    o.items[k] = it
            elif isinstance(k, int):
                raise RaiseSig('IndexError', k, self.where())
            else:
                o.items[:] = [self.join([x, v]) for x in o.items]
        elif isinstance(o, Arr):
            from . import libmodel
            libmodel.arr_setindex(self, o, k, v)
        elif isinstance(o, AObj):
            self.touch(o)
            if isinstance(o.cls, AClass):
                m = o.cls.find('__setitem__')
                if m:
                    return self.call(ABound(m, o), [k, v], {})
            f = o.attrs.get('@setitem')
            if f is not None:
                f(k, v)
        elif isinstance(o, TN):
            self.issue('tn-setitem', 'element assignment into a flavour tensor')
        elif isinstance(o, Alt):
            for x in o.vals:
                self.setitem(x, k, v)

    def dict_update(self, d, v):
        if isinstance(v, ADict):
            for k in list(v.d):
                d.d[k] = v.d[k]
            if v.lazy is not None:
                old, new = d.lazy, v.lazy
                known = {k: x for k, x in d.d.items()}
                srcd = v
                # entries of an opaque dict override everything it defines
                for k in list(d.d):
                    if k not in v.d:
                        x = srcd.get(k)
                        if x is not None:
                            d.d[k] = x
                d.lazy = (lambda k: (new(k) if new(k) is not None else (old(k) if old else None)))
        elif isinstance(v, AObj) and v.attrs.get('@update'):
            v.attrs['@update'](d)
        elif isinstance(v, Alt):
            outs = []
            for x in v.vals:
                c = ADict(dict(d.d), lazy=d.lazy)
                self.dict_update(c, x)
                outs.append(c)
            for k in {k: 0 for c in outs for k in c.d}:
                d.d[k] = self.join([c.d.get(k, MISSING) for c in outs])
        elif v is None or isinstance(v, (bool, int, Fraction)):
            raise RaiseSig('TypeError', 'update with %s' % type(v).__name__, self.where())
        else:
            it = self.iterate(v) if not isinstance(v, Top) else None
            if it is not None:
                for pair in it:
                    p = self.iterate(pair)
                    if p is not None and len(p) == 2:
                        d.d[self.hashable(p[0])] = p[1]
            else:
                d.d[('@top', id(v))] = v

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            av = a.vals if isinstance(a, Alt) else [a]
            bv = b.vals if isinstance(b, Alt) else [b]
            return self.join([self.binop(op, x, y) for x in av for y in bv])
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        t = type(op)
        if isinstance(a, (TN,)) or isinstance(b, TN):
            return self.tn_binop(t, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            from . import libmodel
            return libmodel.arr_binop(self, op, a, b)
        if is_num(a) and is_num(b):
            return self.num_binop(t, a, b)
        if isinstance(a, str):
            if t is ast.Add:
                if isinstance(b, str):
                    return a + b
                if isinstance(b, AObj):
                    return self.top('str+')
                raise RaiseSig('TypeError', 'str +', self.where())
            if t is ast.Mod:
                return self.str_mod(a, b)
            if t is ast.Mult and isinstance(b, int):
                return a * b
            if not isinstance(b, AObj):
                raise RaiseSig('TypeError', 'unsupported operand: str %s %s' % (t.__name__, type(b).__name__), self.where())
        if isinstance(b, str) and t is ast.Mult and isinstance(a, int):
            return a * b
        if isinstance(a, AList) and isinstance(b, AList) and t is ast.Add:
            return AList(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, AList) and isinstance(b, int) and t is ast.Mult:
            return AList(a.items * b)
        if isinstance(a, int) and isinstance(b, AList) and t is ast.Mult:
            return AList(b.items * a)
        if isinstance(a, tuple) and isinstance(b, int) and t is ast.Mult:
            return a * b
        if isinstance(a, (ASet, )) or isinstance(b, ASet):
            if t in (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor) and not isinstance(a, (AKeys, AItems)) and \
                    not isinstance(b, (AKeys, AItems)) and isinstance(a, (ASet, AList, tuple, str)) and \
                    isinstance(b, (ASet, AList, tuple, str)) and not (isinstance(a, ASet) and isinstance(b, ASet)):
                raise RaiseSig('TypeError', 'set operation with a %s' % ('sequence' if isinstance(a, ASet) else 'set'), self.where())
            A = self.iterate(a)
            B = self.iterate(b)
            if A is not None and B is not None:
                A = [self.hashable(x) for x in A]
                B = [self.hashable(x) for x in B]
                if t is ast.BitOr:
                    return ASet(A + B)
                if t is ast.Sub:
                    bs = set(B)
                    return ASet([x for x in A if x not in bs])
                if t is ast.BitAnd:
                    bs = set(B)
                    return ASet([x for x in A if x in bs])
                if t is ast.BitXor:
                    return ASet([x for x in A if x not in set(B)] + [x for x in B if x not in set(A)])
        if isinstance(a, ADict) and isinstance(b, ADict) and t is ast.BitOr:
            d = ADict(dict(a.d), lazy=a.lazy)
            self.dict_update(d, b)
            return d
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(t)
            if nm and a.cls.find(nm):
                return self.call(self.getattr_(a, nm), [b], {})
        if (isinstance(a, tuple) and is_num(b)) or (is_num(a) and isinstance(b, tuple)) or \
                (isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)) and t is not ast.Add):
            self.issue('type-error', 'arithmetic %s on a sequence' % t.__name__)
            raise RaiseSig('TypeError', 'seq arithmetic', self.where())
        return self.top('binop %s %s %s' % (type(a).__name__, t.__name__, type(b).__name__))

    def num_binop(self, t, a, b):
        try:
            if isinstance(a, Poly) or isinstance(b, Poly):
                if t is ast.Add:
                    return norm(Poly.lift(a) + b)
                if t is ast.Sub:
                    return norm(Poly.lift(a) - b)
                if t is ast.Mult:
                    return norm(Poly.lift(a) * b)
                if t is ast.Div:
                    return norm(Poly.lift(a) / b)
                if t is ast.Pow:
                    return norm(Poly.lift(a) ** (b if not isinstance(b, Poly) else b))
                return self.top('poly %s' % t.__name__)
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                return Fraction(a) / Fraction(b)
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            if t is ast.Pow:
                b_ = Fraction(b)
                if b_.denominator == 1:
                    if b_ >= 0:
                        return a ** int(b_)
                    return Fraction(a) ** int(b_)
                return norm(Poly.lift(a) ** b_)
            if isinstance(a, int) and isinstance(b, int):
                if t is ast.BitOr:
                    return a | b
                if t is ast.BitAnd:
                    return a & b
                if t is ast.BitXor:
                    return a ^ b
                if t is ast.LShift:
                    return a << b
                if t is ast.RShift:
                    return a >> b
        except ZeroDivisionError:
            raise RaiseSig('ZeroDivisionError', None, self.where())
        return self.top('num %s' % t.__name__)

    def to_tn(self, x):
        if isinstance(x, TN):
            return x
        if is_num(x):
            return TN.scalar(x)
        if isinstance(x, Arr):
            vals = [norm(v) for v in x.vals()]
            if all(isinstance(v, (int, Fraction)) and v == 0 for v in vals):
                return TN.zeros(x.ndim)
            if any(isinstance(v, (Top, Alt)) for v in vals):
                return None
            n = x.shape[0]
            if x.ndim == 2 and x.shape == (n, n) and all(
                    same(vals[i * n + j], 1 if i == j else 0) for i in range(n) for j in range(n)):
                return TN.eye()
            key = (x.shape, tuple(repr(v) for v in vals))
            if key not in self.tn_consts:
                self.tn_consts[key] = ('κ%d' % len(self.tn_consts), x)
            return TN.sym(self.tn_consts[key][0], x.ndim)
        return None

    def tn_binop(self, t, a, b):
        if t in (ast.Add, ast.Sub):         # sum() starts from the number 0
            if isinstance(a, (int, Fraction)) and a == 0 and isinstance(b, TN):
                return b if t is ast.Add else -b
            if isinstance(b, (int, Fraction)) and b == 0 and isinstance(a, TN):
                return a
        A, B = self.to_tn(a), self.to_tn(b)
        if A is None or B is None:
            return self.top('tensor op %s' % t.__name__)
        try:
            if t in (ast.Add, ast.Sub):
                if t is ast.Sub:
                    B = -B
                if A.rank != B.rank:
                    if not A.terms:
                        return B
                    if not B.terms:
                        return A
                    self.issue('rank', 'sum of rank-%d and rank-%d flavour tensors' % (A.rank, B.rank))
                    return self.top('rank mismatch')
                return A.add(B)
            if t is ast.Mult:
                if A.rank == 0 or B.rank == 0:
                    return self.tn_scalar(T.mul(A, B))
                return T.mul(A, B)
            if t is ast.Div:
                if B.rank == 0:
                    p = self.tn_to_poly(B)
                    if p is None:
                        return self.top('division by tensor')
                    return A.scale(Poly.lift(1) / p)
                self.issue('div', 'division by a flavour tensor')
                return self.top('division by tensor')
            if t is ast.MatMult:
                return self.tn_scalar(T.matmul(A, B))
            if t is ast.Pow:
                if A.rank == 0:
                    p = self.tn_to_poly(A)
                    if p is not None and isinstance(norm(b), (int, Fraction)):
                        return norm(p ** norm(b))
                    if isinstance(norm(b), int) and 0 <= norm(b) < 6:
                        r = TN.scalar(1)
                        for _ in range(norm(b)):
                            r = T.mul(r, A)
                        return r
                elif isinstance(norm(b), int) and 0 < norm(b) < 5:
                    r = A
                    for _ in range(norm(b) - 1):
                        r = T.mul(r, A)
                    return r
                return self.top('tensor power')
        except T.RankError as e:
            self.issue('rank', str(e))
            return self.top('rank error')
        return self.top('tensor op')

    def tn_scalar(self, x):
        if x.rank == 0:
            p = self.tn_to_poly(x)
            if p is not None:
                return norm(p)
        return x

    def tn_to_poly(self, x):
        if isinstance(x, TN):
            if x.rank != 0:
                return None
            p = Poly()
            for c, f, o in x.terms:
                if f:
                    return None
                p = p + c
            return p
        return Poly.lift(x)

    def str_mod(self, a, b):
        if isinstance(b, ADict) and b.lazy is None and '%(' in a:
            d = {k: norm(v) for k, v in b.d.items()}
            if all(isinstance(x, (str, int, bool, type(None))) for x in d.values()):
                try:
                    return a % d
                except KeyError as e:
                    raise RaiseSig('KeyError', e.args[0], self.where())
                except (TypeError, ValueError):
                    raise RaiseSig('TypeError', 'format', self.where())
        args = b if isinstance(b, tuple) else (b,)
        args = tuple(norm(x) for x in args)
        if all(isinstance(x, (str, int, bool, type(None))) for x in args):
            try:
                return a % args
            except Exception:
                raise RaiseSig('TypeError', 'format', self.where())
        if self.tok is not None:
            import re
            pat = re.compile(r'%[-+ 0#]*[0-9.]*[a-zA-Z]|%%')
            ps = [p for p in pat.findall(a) if p != '%%']
            if len(ps) == len(args):
                new, i, conv = a, [0], []

                def rep(m):
                    if m.group(0) == '%%':
                        return '%%'
                    x = args[i[0]]
                    i[0] += 1
                    if isinstance(x, (str, int, bool, type(None))):
                        conv.append(x)
                        return m.group(0)
                    t = self.num_text(x)
                    conv.append(t)
                    return '%s'
                new = pat.sub(rep, a)
                if None not in conv:
                    return new % tuple(conv)
        return self.top('str %')

    def broadcast_vals(self, v, shape):
        from . import libmodel
        return libmodel.broadcast_to(self, v, shape)

    # ------------------------------------------------------------- calls
    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and not hasattr(e, 'is_func'):
                e = e.parent
            self_ = e.is_func['self'] if e is not None else None
            cls = e.is_func['cls'] if e is not None else None
            return AObj('@super', {'@getattr': lambda name: self.super_attr(cls, self_, name)})
        f = self.eval(n.func, env)
        args = self.seq(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, ADict):
                    for kk in (d.d if d.lazy is None or True else ()):
                        kw[kk] = d.d[kk]
                    if d.lazy is not None:
                        kw['**'] = d
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.loc = (env.module.path, n.lineno) if env.module else self.loc
        self.call_node = n
        return self.call(f, args, kw)

    def super_attr(self, cls, self_, name):
        if isinstance(cls, AClass):
            for c in cls.mro()[1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], self_, self_.cls if isinstance(self_, AObj) else self_)
        if name == '__init__':
            return Builtin('object.__init__', lambda it, a, k: None)
        return self.top('super().' + name)

    frames = [{'rets': []}]

    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, Alt):
            return self.join([self.call(x, args, kw) for x in f.vals])
        if isinstance(f, Top):
            return self.top('call ' + f.why)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, ABound):
            if isinstance(f.func, (AFunc, Builtin, ABound)):
                return self.call(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, list(args), kw)
        if isinstance(f, Wrap):
            return self.call(f.f, args, kw)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            m = self.models.get(f.name)
            if m is not None:
                return m(self, args, kw)
            return self.top('external ' + f.name)
        if isinstance(f, AObj):
            if '@call' in f.attrs:
                return f.attrs['@call'](self, args, kw)
            if isinstance(f.cls, AClass) and f.cls.find('__call__'):
                return self.call(ABound(f.cls.find('__call__'), f), args, kw)
        return self.top('call of %s' % type(f).__name__)

    def instantiate(self, c, args, kw):
        h = self.call_hooks.get((c.module.name + '.' if c.module else '') + c.name)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        o = AObj(c)
        for b in c.mro():
            for x in b.bases:
                if isinstance(x, Builtin) and x.name == 'dict' or isinstance(x, Ext) and x.name.endswith('OrderedDict'):
                    pass
        init = c.find('__init__')
        new = c.find('__new__')
        fs = c.find('@fields')
        if fs is not None and not isinstance(init, AFunc):
            vals = dict(zip([x[0] for x in fs], args))
            for x, v in kw.items():
                if x in vals or x not in [y[0] for y in fs]:
                    raise RaiseSig('TypeError', 'argument %s of %s' % (x, c.name), self.where())
                vals[x] = v
            for x, dflt in fs:
                if x not in vals:
                    if not dflt:
                        raise RaiseSig('TypeError', 'missing argument %s of %s' % (x, c.name), self.where())
                    vals[x] = dflt[0]()
            if c.find('@ntuple'):
                return NTuple([vals[x[0]] for x in fs], [x[0] for x in fs])
            o.attrs.update(vals)
            if c.find('__post_init__'):
                self.call(ABound(c.find('__post_init__'), o), [], {})
            return o
        if isinstance(new, AFunc):
            o = self.call(new, [c] + list(args), kw)
            if not isinstance(o, AObj):
                return o
        if isinstance(init, AFunc):
            self.call(ABound(init, o), args, kw)
        elif args or any(isinstance(b, Builtin) and b.name != 'object' for x in c.mro() for b in x.bases):
            o.attrs['args'] = tuple(args)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        star = kw.pop('**', None)
        for i, nme in enumerate(names):
            if i < len(args):
                out[nme] = args[i]
                if nme in kw:
                    raise RaiseSig('TypeError', 'multiple values for %s in %s' % (nme, f.qual), self.where())
            elif nme in kw:
                out[nme] = kw.pop(nme)
            else:
                j = i - (len(names) - len(f.defaults))
                if star is not None and isinstance(star, ADict) and star.lazy is not None and star.has(nme):
                    out[nme] = star.get(nme)
                elif j >= 0:
                    out[nme] = f.defaults[j]
                elif star is not None:
                    out[nme] = self.top('**kwargs')
                else:
                    raise RaiseSig('TypeError', 'missing argument %s in call of %s' % (nme, f.qual), self.where())
        rest = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            raise RaiseSig('TypeError', 'too many arguments in call of %s' % f.qual, self.where())
        for p in a.kwonlyargs:
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kw_defaults:
                out[p.arg] = f.kw_defaults[p.arg]
            else:
                raise RaiseSig('TypeError', 'missing keyword %s in call of %s' % (p.arg, f.qual), self.where())
        if a.kwarg:
            d = ADict(kw)
            if isinstance(star, ADict):
                d.lazy = star.lazy
            out[a.kwarg.arg] = d
        elif kw:
            raise RaiseSig('TypeError', 'unexpected keyword %s in call of %s' % (list(kw)[0], f.qual), self.where())
        return out

    def call_func(self, f, args, kw):
        h = self.call_hooks.get(f.qual)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 150:
            return self.top('recursion depth')
        bound = self.bind_args(f, args, kw)
        env = Env(f.env, f.module)
        env.v.update(bound)
        first = list(bound.values())[0] if bound else None
        owner = getattr(f.env, 'is_class', None)
        env.is_func = {'self': first, 'cls': owner}
        if owner is not None:
            # methods do not see class scope names
            env.parent = f.env.parent
        self.analysed.add(f.qual)
        oldloc = self.loc
        self.stack.append(f.qual)
        self.frames = self.frames + [{'rets': []}]
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
                ret = None
            except ReturnSig as r:
                ret = r.v
            fr = self.frames[-1]
            if 'yield' in fr:
                return AIter(fr['yield'])
            if fr['rets']:
                ret = self.join(fr['rets'] + [ret])
            if f.cached and isinstance(ret, (TN, Arr, ADict, AList)):
                if isinstance(ret, TN):
                    ret = ret.copy()
                ret.own = 'the cached result of %s' % f.qual
            return ret
        finally:
            self.frames = self.frames[:-1]
            self.stack.pop()
            self.loc = oldloc


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


def same(a, b):
    if a is b:
        return True
    if type(a) is bool or type(b) is bool:
        return a is b
    if is_num(a) and is_num(b):
        return Poly.lift(a) == Poly.lift(b)
    if isinstance(a, (AList, ADict, ASet, AObj, AFunc, Arr, TN, AClass)) or \
            isinstance(b, (AList, ADict, ASet, AObj, AFunc, Arr, TN, AClass)):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
            return all(same(x, y) for x, y in zip(a.vals(), b.vals()))
        if isinstance(a, AList) and isinstance(b, AList) and len(a.items) == len(b.items):
            return all(same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, ADict) and isinstance(b, ADict) and not a.lazy and not b.lazy and set(a.d) == set(b.d):
            return all(same(a.d[k], b.d[k]) for k in a.d)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def exc_name(v):
    if isinstance(v, Builtin):
        return v.name
    if isinstance(v, AObj):
        if isinstance(v.cls, str) and v.cls.startswith('@exc:'):
            return v.cls[5:]
        if isinstance(v.cls, AClass):
            return v.cls.name
    if isinstance(v, AClass):
        return v.name
    if isinstance(v, Ext):
        return v.name.split('.')[-1]
    return 'Exception'


_EV = {getattr(ast, k[2:]): getattr(Interp, k) for k in dir(Interp) if k.startswith('e_') and hasattr(ast, k[2:])}
BUILTINS = {}
