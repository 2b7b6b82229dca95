"""Models of the Python builtins / numpy / stdlib used by the analysed code."""
import json as _json
import os
import ast
import string as _string
import math as math_
import itertools
from fractions import Fraction
from .num import Poly, _factor
from . import tn as T
from .tn import TN
from . import interp as I

RaiseSig = None
PI = Poly.real('pi')


def _imp():
    g = globals()
    for n in ('Top', 'Alt', 'AList', 'ADict', 'ASet', 'Arr', 'Buf', 'AModule', 'Ext', 'AFunc', 'ABound',
              'Builtin', 'Wrap', 'AClass', 'AObj', 'AIter', 'RaiseSig', 'Unsupported', 'is_num', 'norm',
              'p_re', 'p_im', 'p_conj', 'MISSING', 'same', 'exc_name', 'Env'):
        g[n] = getattr(I, n)


# ------------------------------------------------------------------ arrays
def strides(shape):
    st, n = [], 1
    for s in reversed(shape):
        st.insert(0, n)
        n *= s
    return st


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def to_arr(it, x):
    """AList / tuple / Arr / number -> Arr (None when not representable)"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, (AList, tuple)):
        items = x.items if isinstance(x, AList) else list(x)
        subs = [to_arr(it, y) for y in items]
        if any(s is None for s in subs):
            return None
        if not subs:
            return Arr.new([], (0,))
        sh = subs[0].shape
        if any(s.shape != sh for s in subs):
            return None
        vals = []
        for s in subs:
            vals.extend(s.vals())
        return Arr.new(vals, (len(subs),) + sh)
    if isinstance(x, TN):
        return None
    if isinstance(x, (range, AIter)):
        return to_arr(it, AList(it.iterate(x)))
    return Arr.new([x], ())


def unwrap(a):
    """0-d array -> scalar"""
    if isinstance(a, Arr) and a.shape == ():
        return a.vals()[0]
    return a


def norm_index(it, o, k):
    """-> (list of per-axis selectors) or None"""
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    n_real = sum(1 for x in k if x is not None and x is not Ellipsis)
    if Ellipsis in [x if x is Ellipsis else 0 for x in k]:
        i = [x is Ellipsis for x in k].index(True)
        k[i:i + 1] = [slice(None)] * (o.ndim - n_real)
    return k


def arr_select(it, o, k):
    """returns (idx list, shape) of the selected elements or None"""
    k = norm_index(it, o, k)
    sel = []
    shape = []
    ax = 0
    for x in k:
        if x is None:
            shape.append(('new',))
            continue
        if ax >= len(o.shape):
            raise RaiseSig('IndexError', 'too many indices', it.where())
        n = o.shape[ax]
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        if isinstance(x, bool):
            return None
        if isinstance(x, int):
            if not -n <= x < n:
                raise RaiseSig('IndexError', 'index %d out of bounds' % x, it.where())
            sel.append([x % n])
            shape.append(None)
        elif isinstance(x, slice):
            r = list(range(*x.indices(n)))
            sel.append(r)
            shape.append(len(r))
        elif isinstance(x, (AList, Arr, tuple, range)):
            xs = to_arr(it, x)
            if xs is None or xs.ndim != 1:
                return None
            vs = [norm(v) for v in xs.vals()]
            if not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                return None
            sel.append([v % n for v in vs])
            shape.append(('fancy', len(vs)))
        else:
            return None
        ax += 1
    while ax < len(o.shape):
        sel.append(list(range(o.shape[ax])))
        shape.append(o.shape[ax])
        ax += 1
    nf = sum(1 for s in shape if isinstance(s, tuple) and s[0] == 'fancy')
    if nf > 1:
        return None
    st = strides(o.shape)
    idx = []
    for combo in itertools.product(*sel):
        idx.append(o.idx[sum(a * b for a, b in zip(combo, st))])
    sh = tuple((1 if s == ('new',) else s[1]) if isinstance(s, tuple) else s for s in shape if s is not None)
    return idx, sh, nf > 0


def bool_mask(o, k):
    return isinstance(k, Arr) and k.shape == o.shape and k.shape and all(isinstance(v, bool) for v in k.vals())


def arr_index(it, o, k):
    if isinstance(k, (Top, Alt)):
        return it.top('array index')
    if bool_mask(o, k):
        v = [x for x, m in zip(o.vals(), k.vals()) if m]
        return Arr.new(v, (len(v),))
    r = arr_select(it, o, k)
    if r is None:
        return it.top('array index')
    idx, sh, fancy = r
    a = Arr(o.buf, idx, sh, o.part, o.own)
    if sh == ():
        return a.vals()[0]
    if fancy:
        return Arr.new(a.vals(), sh)
    return a


def arr_setindex(it, o, k, v):
    if bool_mask(o, k):
        idx = [x for x, m in zip(o.idx, k.vals()) if m]
        it.arr_write(Arr(o.buf, idx, (len(idx),), o.part, o.own), broadcast_to(it, v, (len(idx),)))
        return
    r = arr_select(it, o, k) if not isinstance(k, (Top, Alt)) else None
    if r is None:
        if isinstance(k, Arr) or isinstance(k, Top):
            it.arr_write(o, [it.top('masked array write')] * len(o.idx))
        return
    idx, sh, _ = r
    a = Arr(o.buf, idx, sh, o.part, o.own)
    if sh == ():
        v = unwrap(v)
        if isinstance(v, (AList, tuple)):
            x = to_arr(it, v)
            v = x.vals()[0] if x is not None and len(x.idx) == 1 else it.top('setting an element with a sequence')
        it.arr_write(a, [v])
        return
    it.arr_write(a, broadcast_to(it, v, sh))


def broadcast_to(it, v, shape):
    n = size(shape)
    if isinstance(v, (Top, Alt)) or is_num(v) or isinstance(v, (str, TN)) or v is None:
        return [v] * n
    a = to_arr(it, v)
    if a is None:
        return [it.top('broadcast')] * n
    b = bcast(a, shape)
    if b is None:
        raise RaiseSig('ValueError', 'could not broadcast %s to %s' % (a.shape, shape), it.where())
    return b


def bcast(a, shape):
    sh = (1,) * (len(shape) - len(a.shape)) + a.shape
    if len(sh) != len(shape) or any(x != 1 and x != y for x, y in zip(sh, shape)):
        return None
    vals = a.vals()
    if sh == tuple(shape):
        return vals
    st = strides(sh)
    out = []
    for combo in itertools.product(*[range(s) for s in shape]):
        out.append(vals[sum((0 if s == 1 else c) * t for c, s, t in zip(combo, sh, st))])
    return out


def arr_binop(it, op, a, b):
    if isinstance(op, ast.MatMult):
        return np_dot(it, a, b)
    A, B = to_arr(it, a), to_arr(it, b)
    if A is None or B is None or isinstance(a, (str, ADict)) or isinstance(b, (str, ADict)):
        return it.top('array op')
    n = max(A.ndim, B.ndim)
    s1 = (1,) * (n - A.ndim) + A.shape
    s2 = (1,) * (n - B.ndim) + B.shape
    sh = []
    for x, y in zip(s1, s2):
        if x != y and 1 not in (x, y):
            it.issue('broadcast', 'shapes %s and %s' % (A.shape, B.shape))
            raise RaiseSig('ValueError', 'broadcast', it.where())
        sh.append(max(x, y) if 0 not in (x, y) else 0)
    av, bv = bcast(A, sh), bcast(B, sh)
    return Arr.new([it.binop(op, x, y) for x, y in zip(av, bv)], sh)


def add(it, x, y):
    return it.binop(ast.Add(), x, y)


def mul(it, x, y):
    if (not isinstance(x, (Top, Alt, Poly, TN)) and x == 0) or (not isinstance(y, (Top, Alt, Poly, TN)) and y == 0):
        return 0
    return it.binop(ast.Mult(), x, y)


def esum(it, vals):
    s = 0
    for v in vals:
        s = add(it, s, v)
    return s


def arr_einsum(it, spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        let = ins.replace(',', '')
        out = ''.join(sorted(x for x in set(let) if let.count(x) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise RaiseSig('ValueError', 'einsum operands', it.where())
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            it.issue('rank', 'einsum %r on shape %s' % (spec, o.shape))
            raise RaiseSig('ValueError', 'einsum subscripts', it.where())
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise RaiseSig('ValueError', 'einsum dims', it.where())
    # sequential sparse contraction
    acc = {(): 1}
    labs = ()
    for n, (s, o) in enumerate(zip(ins, ops)):
        vals = o.vals()
        sp = {}
        for combo, v in zip(itertools.product(*[range(d) for d in o.shape]), vals):
            if not isinstance(v, (Top, Alt, Poly, TN)) and v == 0:
                continue
            m = {}
            if all(m.setdefault(c, i) == i for c, i in zip(s, combo)):
                sp[tuple(m[c] for c in m)] = v
        sl = tuple(dict.fromkeys(s))
        common = [c for c in sl if c in labs]
        rest = set(out) | set(''.join(ins[n + 1:]))
        alll = tuple(labs) + tuple(c for c in sl if c not in labs)
        keep = tuple(c for c in alll if c in rest)
        idx = {}
        for k, v in sp.items():
            kk = dict(zip(sl, k))
            idx.setdefault(tuple(kk[c] for c in common), []).append((kk, v))
        new = {}
        for k, v in acc.items():
            kk = dict(zip(labs, k))
            for kk2, v2 in idx.get(tuple(kk[c] for c in common), ()):
                full = dict(kk)
                full.update(kk2)
                key = tuple(full[c] for c in keep)
                w = v2 if v == 1 and not isinstance(v, (Top, Alt, Poly, TN)) else mul(it, v, v2)
                if key in new:
                    new[key] = add(it, new[key], w)
                else:
                    new[key] = w
        acc, labs = new, keep
    pos = [labs.index(c) for c in out]
    shape = tuple(dims[c] for c in out)
    res = [0] * size(shape)
    st = strides(shape)
    for k, v in acc.items():
        res[sum(k[p] * t for p, t in zip(pos, st))] = v
    if shape == ():
        return res[0]
    return Arr.new(res, shape)


def tn_ok(it, ops):
    return it.mode == 'tn' and any(isinstance(o, TN) for o in ops)


def np_einsum(it, a, k):
    spec, ops = a[0], list(a[1:])
    if isinstance(spec, (Top, Alt)):
        return it.top('einsum spec')
    if any(isinstance(o, (Top, Alt)) for o in ops):
        for o in ops:
            if isinstance(o, Alt) and all(not isinstance(p, Alt) for p in ops if p is not o):
                return it.join([np_einsum(it, [spec] + [v if p is o else p for p in ops], k) for v in o.vals])
        return it.top('einsum operand')
    if any(isinstance(o, TN) for o in ops):
        tns = [it.to_tn(o) for o in ops]
        if any(t is None for t in tns):
            return it.top('einsum operand')
        try:
            return it.tn_scalar(T.einsum(spec, tns))
        except T.RankError as e:
            it.issue('rank', str(e))
            raise RaiseSig('ValueError', str(e), it.where())
    arrs = [to_arr(it, o) for o in ops]
    if any(x is None for x in arrs):
        return it.top('einsum operand')
    return arr_einsum(it, spec, arrs)


def np_dot(it, a, b):
    if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
        return it.top('matmul')
    if isinstance(a, TN) or isinstance(b, TN):
        A, B = it.to_tn(a), it.to_tn(b)
        if A is None or B is None:
            return it.top('matmul')
        try:
            if A.rank == 0 or B.rank == 0:
                return it.tn_scalar(T.mul(A, B))
            return it.tn_scalar(T.matmul(A, B))
        except T.RankError as e:
            it.issue('rank', str(e))
            return it.top('matmul rank')
    A, B = to_arr(it, a), to_arr(it, b)
    if A is None or B is None:
        return it.top('matmul')
    if A.ndim == 0 or B.ndim == 0:
        return unwrap(arr_binop(it, ast.Mult(), A, B))
    L = 'abcdefghij'
    la = L[:A.ndim]
    if B.ndim == 1:
        lb = la[-1]
    else:
        lb = ''.join('z' if i == B.ndim - 2 else 'uvwxy'[i] for i in range(B.ndim))
        lb = lb.replace('z', la[-1])
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise RaiseSig('ValueError', 'matmul shapes %s %s' % (A.shape, B.shape), it.where())
    out = la[:-1] + lb.replace(la[-1], '')
    return arr_einsum(it, la + ',' + lb + '->' + out, [A, B])


def transpose(it, a, perm=None):
    if isinstance(a, TN):
        return a.transpose(perm or tuple(range(a.rank))[::-1])
    if isinstance(a, Arr):
        n = a.ndim
        perm = tuple(perm) if perm else tuple(range(n))[::-1]
        sh = tuple(a.shape[p] for p in perm)
        st = strides(a.shape)
        idx = []
        for combo in itertools.product(*[range(s) for s in sh]):
            idx.append(a.idx[sum(c * st[p] for c, p in zip(combo, perm))])
        return Arr(a.buf, idx, sh, a.part, a.own)
    return a


def amap(it, f, x):
    if isinstance(x, Arr):
        return Arr.new([amap(it, f, v) for v in x.vals()], x.shape)
    if isinstance(x, Alt):
        return it.join([amap(it, f, v) for v in x.vals])
    if isinstance(x, Top):
        return x
    if isinstance(x, (AList, tuple)):
        a = to_arr(it, x)
        return amap(it, f, a) if a is not None else it.top('array function')
    return f(x)


def c_conj(it, x):
    def f(v):
        if isinstance(v, TN):
            return v.conj()
        return p_conj(v) if is_num(v) else it.top('conj')
    return amap(it, f, x)


def c_re(it, x):
    def f(v):
        if isinstance(v, TN):
            return v.add(v.conj()).scale(Fraction(1, 2))
        return norm(p_re(v)) if is_num(v) else it.top('real')
    return amap(it, f, x)


def c_im(it, x):
    def f(v):
        if isinstance(v, TN):
            return v.add(-v.conj()).scale(Poly.const(0, Fraction(-1, 2)))
        return norm(p_im(v)) if is_num(v) else it.top('imag')
    return amap(it, f, x)


def s_abs(it, v):
    v = norm(v)
    if isinstance(v, (int, Fraction)):
        return abs(v)
    if isinstance(v, Poly) and getattr(it, 'sign_of', None) is not None:
        sg = it.sign_of(v)
        if sg:
            return v if sg > 0 else norm(-v)
    if isinstance(v, Poly):
        if all(a[0] in 'rps' for a in v.atoms(False)) and len(v.t) == 1:
            (m, (a, b)), = v.t.items()
            if b == 0:
                return norm(Poly({m: (abs(a), b)}))
        return norm((v * v.conj()) ** Fraction(1, 2))
    return it.top('abs')


def s_log(it, v):
    v = norm(v)
    if isinstance(v, (int, Fraction)):
        if v <= 0:
            return it.top('log of non-positive')
        r = Poly()
        v = Fraction(v)
        for n, s in ((v.numerator, 1), (v.denominator, -1)):
            for p, e in _factor(n).items():
                r = r + Poly.atom(('f', 'log', Poly.const(p).key())) * (s * e)
        return norm(r)
    if isinstance(v, Poly):
        if len(v.t) == 1:
            (m, (a, b)), = v.t.items()
            if b == 0 and a > 0 and all(x[0] in 'rps' for x, e in m):
                r = Poly.lift(s_log(it, a))
                for x, e in m:
                    r = r + Poly.atom(('f', 'log', Poly.atom(x).key())) * e
                return norm(r)
        return Poly.atom(('f', 'log', v.key()))
    return it.top('log')


def s_sqrt(it, v):
    v = norm(v)
    if isinstance(v, TN):
        if v.rank == 0:
            return Poly.atom(('f', 'sqrt_tn', tnkey(v)))
        return it.top('sqrt')
    if isinstance(v, (int, Fraction)):
        if v < 0:
            return it.top('sqrt of negative')
        return norm(Poly.lift(v) ** Fraction(1, 2))
    if isinstance(v, Poly):
        return norm(v ** Fraction(1, 2))
    return it.top('sqrt')


def tnkey(v):
    return tuple(sorted(repr(x) for x in T.canon(v.terms).items()))


def ufn(name):
    def f(it, v):
        v = norm(v)
        if v == 0 and name in ('sin', 'tan', 'arctan', 'sinh', 'arcsin') and not isinstance(v, (Poly, TN)):
            return 0
        if v == 0 and name in ('cos', 'exp', 'cosh') and not isinstance(v, (Poly, TN)):
            return 1
        if is_num(v):
            return Poly.atom(('f', name, Poly.lift(v).key()))
        return it.top(name)
    return f


def lift1(fn):
    def g(it, a, k):
        return amap(it, lambda v: fn(it, v), a[0])
    return g


def get_shape(it, s):
    s = norm(s)
    if isinstance(s, int):
        return (s,)
    if isinstance(s, (tuple, AList)):
        v = [norm(x) for x in it.iterate(s)]
        if all(isinstance(x, int) for x in v):
            return tuple(v)
    return None


def np_full(val):
    def f(it, a, k):
        sh = get_shape(it, a[0] if a else k.get('shape'))
        if sh is None:
            return it.top('array of unknown shape')
        if it.mode == 'tn' and val == 0 and sh and all(s == 3 for s in sh):
            return TN.zeros(len(sh))
        return Arr.full(sh, val)
    return f


def np_like(val):
    def f(it, a, k):
        x = a[0]
        if isinstance(x, TN):
            return TN.zeros(x.rank) if val == 0 else it.top('ones_like')
        y = to_arr(it, x) if not isinstance(x, (Top, Alt)) else None
        return Arr.full(y.shape, val) if y is not None else it.top('like')
    return f


def np_array(it, a, k):
    x = a[0] if a else k.get('object')
    if isinstance(x, (Top, TN)):
        return x
    if isinstance(x, Alt):
        return it.join([np_array(it, [v], k) for v in x.vals])
    if isinstance(x, Arr):
        return Arr.new(x.vals(), x.shape)
    if isinstance(x, (AList, tuple)) and it.mode == 'tn' and has_tn(x):
        if len(it.iterate(x)) == 0:
            return it.top('array')
        return it.top('array of tensors')
    r = to_arr(it, x)
    if r is None:
        if isinstance(x, (AList, tuple)) and all(isinstance(y, TN) for y in it.iterate(x)):
            return Arr.new(it.iterate(x), (len(it.iterate(x)),))
        return it.top('ragged array')
    if it.mode == 'tn' and r.shape and all(s == 3 for s in r.shape):
        t = it.to_tn(r)
        if t is not None:
            return t
    return Arr.new(r.vals(), r.shape)


def has_tn(x):
    its = x.items if isinstance(x, AList) else x
    return any(isinstance(y, TN) and y.rank > 0 or isinstance(y, (AList, tuple)) and has_tn(y) for y in its)


def np_asarray(it, a, k):
    if isinstance(a[0], (Arr, TN)):
        return a[0]
    return np_array(it, a, k)


def np_eye(it, a, k):
    n = norm(a[0])
    if not isinstance(n, int):
        return it.top('eye')
    if it.mode == 'tn' and n == 3:
        return TN.eye()
    return Arr.new([1 if i == j else 0 for i in range(n) for j in range(n)], (n, n))


def np_diag(it, a, k):
    x = a[0]
    if isinstance(x, TN):
        if x.rank == 1:
            return TN(2, [(c, f, (o[0], o[0])) for c, f, o in x.terms])
        if x.rank == 2:
            try:
                return T.einsum('aa->a', [x])
            except T.RankError:
                pass
        return it.top('diag')
    if isinstance(x, (Top, Alt)):
        return it.top('diag')
    r = to_arr(it, x)
    if r is None:
        if isinstance(x, (AList, tuple)):
            return it.top('diag')
        return it.top('diag')
    v = r.vals()
    if r.ndim == 1:
        n = len(v)
        R = Arr.new([v[i] if i == j else 0 for i in range(n) for j in range(n)], (n, n))
        if it.mode == 'tn' and n == 3:
            return it.to_tn(R) or R
        return R
    if r.ndim == 2:
        n = min(r.shape)
        return Arr.new([v[i * r.shape[1] + i] for i in range(n)], (n,))
    return it.top('diag')


def np_trace(it, a, k):
    x = a[0]
    if isinstance(x, TN):
        if x.rank != 2:
            it.issue('rank', 'trace of rank-%d tensor' % x.rank)
            return it.top('trace')
        return it.tn_scalar(T.einsum('aa->', [x]))
    if isinstance(x, (Top, Alt)):
        return it.top('trace')
    r = to_arr(it, x)
    if r is None or r.ndim != 2:
        return it.top('trace')
    return esum(it, [r.vals()[i * r.shape[1] + i] for i in range(min(r.shape))])


def np_max(fn):
    def f(it, a, k):
        x = to_arr(it, a[0]) if not isinstance(a[0], (Top, Alt, TN)) else None
        if x is None:
            return it.top('max')
        v = [norm(y) for y in x.vals()]
        if not all(isinstance(y, (int, Fraction)) for y in v):
            if len(a) == 1 and not k and v and all(is_num(y) for y in v):
                i = pick(it, fn, v)
                if i is not None:
                    return v[i]
            return it.top('max')
        ax = norm(a[1] if len(a) > 1 else k.get('axis'))
        if ax is None:
            return fn(v)
        if ax == 0 and x.ndim == 2:
            n, m = x.shape
            return Arr.new([fn(v[i * m + j] for i in range(n)) for j in range(m)], (m,))
        return it.top('max')
    return f


def np_sum(it, a, k):
    x = a[0]
    if 'axis' in k or len(a) > 1:
        return it.top('sum axis')
    if isinstance(x, TN):
        return it.top('sum of tensor elements')
    r = to_arr(it, x) if not isinstance(x, (Top, Alt)) else None
    return esum(it, r.vals()) if r is not None else it.top('sum')


def np_concat(axis):
    def f(it, a, k):
        xs = it.iterate(a[0])
        if xs is None:
            return it.top('stack')
        rs = [to_arr(it, x) if not isinstance(x, (Top, Alt)) else None for x in xs]
        if any(r is None for r in rs) or any(r.ndim > 1 for r in rs):
            return it.top('stack')
        v = [x for r in rs for x in r.vals()]
        return Arr.new(v, (len(v),))
    return f


def np_vectorize(it, a, k):
    f = a[0]

    def call(it2, args, kw):
        x = args[0]
        if isinstance(x, TN):
            return it.top('vectorized function')
        r = to_arr(it, x) if not isinstance(x, (Top, Alt)) else None
        if r is None or len(args) > 1:
            return it.top('vectorized function')
        return Arr.new([it.call(f, [v], {}) for v in r.vals()], r.shape)
    return AObj('@vectorized', {'@call': call})


def np_inv(it, a, k):
    x = a[0]
    if isinstance(x, Arr) and x.ndim == 2 and x.shape[0] == x.shape[1]:
        v = [norm(y) for y in x.vals()]
        n = x.shape[0]
        if any(isinstance(y, (Top, Alt)) for y in v):
            return it.top('inv')
        if all(isinstance(y, (int, Fraction)) for y in v):
            M = [[Fraction(v[i * n + j]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
            for c in range(n):
                p = next((r for r in range(c, n) if M[r][c] != 0), None)
                if p is None:
                    raise RaiseSig('LinAlgError', 'singular', it.where())
                M[c], M[p] = M[p], M[c]
                d = M[c][c]
                M[c] = [y / d for y in M[c]]
                for r in range(n):
                    if r != c and M[r][c] != 0:
                        f = M[r][c]
                        M[r] = [y - f * z for y, z in zip(M[r], M[c])]
            return Arr.new([norm(Poly.lift(M[i][n + j])) for i in range(n) for j in range(n)], (n, n))
        if n == 1:
            return Arr.new([it.binop(ast.Div(), 1, v[0])], (1, 1))
        # block-diagonal / general: uninterpreted but functional
        key = tuple(repr(y) for y in v)
        return Arr.new([Poly.atom(('f', 'inv', ('k',) + key, i)) for i in range(n * n)], (n, n))
    return it.top('inv')


# ------------------------------------------------------------------ builtins
def b_len(it, a, k):
    x = a[0]
    if isinstance(x, (str, tuple)):
        return len(x)
    if isinstance(x, AList):
        if any(v is MISSING or isinstance(v, Alt) and any(w is MISSING for w in v.vals) for v in x.items):
            return it.top('len')
        return len(x.items)
    if isinstance(x, ASet):
        return len(x.items)
    if isinstance(x, ADict):
        if x.lazy is not None and not getattr(x, 'enum', False):
            return it.top('len')
        return len(x.d)
    if isinstance(x, range):
        return len(x)
    if isinstance(x, Arr):
        if not x.shape:
            raise RaiseSig('TypeError', 'len of unsized', it.where())
        return x.shape[0]
    if isinstance(x, TN):
        return 3
    if isinstance(x, AObj) and isinstance(x.cls, AClass) and x.cls.find('__len__'):
        return it.call(ABound(x.cls.find('__len__'), x), [], {})
    if isinstance(x, Alt):
        return it.join([b_len(it, [v], k) for v in x.vals])
    if is_num(x):
        raise RaiseSig('TypeError', 'len', it.where())
    return it.top('len')


def b_range(it, a, k):
    v = [norm(x) for x in a]
    if all(isinstance(x, int) for x in v):
        return range(*v)
    return it.top('range')


def b_dict(it, a, k):
    d = ADict()
    if a:
        if isinstance(a[0], Top):
            return a[0]
        it.dict_update(d, a[0])
        if isinstance(a[0], ADict):
            d.name = a[0].name
            if getattr(a[0], 'enum', False):
                d.enum = True
    star = k.get('**')
    for kk, v in k.items():
        if kk != '**':
            d.d[kk] = v
    if isinstance(star, ADict):
        it.dict_update(d, star)
    elif star is not None:
        d.d[('@top', id(star))] = star
    return d


def b_list(it, a, k):
    if not a:
        return AList()
    if isinstance(a[0], Alt):
        return it.join([b_list(it, [v], k) for v in a[0].vals])
    x = it.iterate(a[0])
    return AList(x) if x is not None else it.top('list')


def b_tuple(it, a, k):
    if not a:
        return ()
    x = it.iterate(a[0])
    return tuple(x) if x is not None else it.top('tuple')


def b_set(it, a, k, frozen=False):
    if not a:
        return ASet(frozen=frozen)
    if isinstance(a[0], AObj) and a[0].cls == '@universal':
        return a[0]
    if isinstance(a[0], Alt):
        return it.join([b_set(it, [v], k, frozen) for v in a[0].vals])
    x = it.iterate(a[0])
    if x is None:
        return it.top('set')
    if any(isinstance(y, (Top, Alt)) for y in x):
        return it.top('set')
    return ASet([it.hashable(y) for y in x], frozen=frozen)


def b_str(it, a, k):
    if not a:
        return ''
    x = norm(a[0])
    if isinstance(x, Alt):
        return it.join([b_str(it, [v], k) for v in x.vals])
    if isinstance(x, (str, bool, int)) or x is None:
        return str(x)
    if it.num_text(x) is not None:
        return it.num_text(x)
    if isinstance(x, AObj) and isinstance(x.cls, AClass) and x.cls.find('__str__'):
        return it.call(ABound(x.cls.find('__str__'), x), [], {})
    if isinstance(x, AObj) and (str(x.cls).startswith('@exc:') or isinstance(x.cls, AClass) and any(
            isinstance(b, Builtin) for c in x.cls.mro() for b in c.bases)) and isinstance(x.attrs.get('args'), tuple):
        ar = x.attrs['args']
        if not ar:
            return ''
        if len(ar) == 1:
            return repr(ar[0]) if x.cls == '@exc:KeyError' and isinstance(ar[0], str) else b_str(it, [ar[0]], {})
    return it.top('str')


def b_int(it, a, k):
    if not a:
        return 0
    x = norm(a[0])
    if isinstance(x, Alt):
        return it.join([b_int(it, [v], k) for v in x.vals])
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x, norm(a[1]) if len(a) > 1 else 10)
        except ValueError:
            raise RaiseSig('ValueError', 'int', it.where())
    if isinstance(x, (AList, ADict, ASet, tuple)) or x is None:
        raise RaiseSig('TypeError', 'int', it.where())
    return it.top('int')


def b_float(it, a, k):
    if not a:
        return 0
    x = norm(unwrap(a[0]))
    if isinstance(x, Alt):
        return it.join([b_float(it, [v], k) for v in x.vals])
    if isinstance(x, str):
        if it.tok is not None and x.strip() in it.tok:
            return it.tok[x.strip()]
        try:
            return Fraction(x) if 'inf' not in x and 'nan' not in x else it.top('inf')
        except ValueError:
            raise RaiseSig('ValueError', 'float', it.where())
    if isinstance(x, (AList, ADict, ASet, tuple)) or x is None:
        raise RaiseSig('TypeError', 'float', it.where())
    if is_num(x):
        return int(x) if isinstance(x, bool) else x
    return it.top('float')


def b_complex(it, a, k):
    if len(a) == 2 or k:
        r = a[0] if a else k.get('real', 0)
        im = a[1] if len(a) > 1 else k.get('imag', 0)
        if is_num(r) and is_num(im):
            return norm(Poly.lift(r) + Poly.lift(im) * Poly.const(0, 1))
        return it.top('complex')
    if not a:
        return 0
    x = unwrap(a[0])
    if is_num(x):
        return x
    if isinstance(x, (TN, Alt)):
        return x
    if isinstance(x, (AList, ADict, ASet, tuple)) or x is None:
        raise RaiseSig('TypeError', 'complex', it.where())
    return it.top('complex')


TYPES = {}


def isinst(it, x, t):
    if isinstance(t, tuple):
        rs = [isinst(it, x, y) for y in t]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    if isinstance(x, Alt):
        rs = {isinst(it, v, t) for v in x.vals}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(x, Top):
        return None
    if isinstance(t, Builtin):
        n = t.name
        if n == 'object':
            return True
        x = norm(x)
        if n in ('str',):
            return isinstance(x, str)
        if n == 'dict':
            return isinstance(x, ADict)
        if n == 'list':
            return isinstance(x, AList)
        if n == 'tuple':
            return isinstance(x, tuple)
        if n in ('set', 'frozenset'):
            return isinstance(x, ASet) and (x.frozen == (n == 'frozenset'))
        if n == 'bool':
            return isinstance(x, bool)
        if n == 'int':
            return isinstance(x, int) if not isinstance(x, Poly) else (None if False else False)
        if n == 'float':
            if isinstance(x, Poly):
                return all(a[0] != 'c' for a in x.atoms()) and x.conj() == x
            return isinstance(x, Fraction)
        if n == 'complex':
            return isinstance(x, Poly) and x.conj() != x
        if isinstance(x, AObj) and isinstance(x.cls, str) and x.cls.startswith('@exc:'):
            en = x.cls[5:]
            return en == n or n in I.EXC_PARENTS.get(en, ()) or n == 'Exception'
        return False
    if isinstance(t, AClass):
        if isinstance(x, AObj) and isinstance(x.cls, AClass):
            return t in x.cls.mro()
        return False
    if isinstance(t, Ext):
        if t.name == 'numbers.Number':
            return is_num(x) if not isinstance(x, TN) else None
        if t.name == 'numpy.ndarray':
            return isinstance(x, (Arr, TN))
        if t.name.split('.')[-1] in ('OrderedDict', 'Mapping', 'MutableMapping'):
            return isinstance(x, ADict)
        if t.name.split('.')[-1] in ('Iterable', 'Sequence'):
            return isinstance(x, (AList, tuple, str, ADict, ASet, Arr))
        if t.name in ('numpy.number', 'numpy.floating', 'numbers.Real', 'numbers.Complex'):
            return is_num(x)
        if isinstance(x, AObj) and isinstance(x.cls, str) and x.cls.startswith('@'):
            return None
        return None if isinstance(x, AObj) else False
    return None


def b_isinstance(it, a, k):
    r = isinst(it, a[0], a[1])
    return it.top('isinstance') if r is None else r


def sort_key(v):
    v = norm(v) if is_num(v) else v
    return v


def b_sorted(it, a, k):
    x = it.iterate(a[0])
    if x is None:
        return it.top('sorted')
    keyf = k.get('key')
    ks = [it.call(keyf, [v], {}) for v in x] if keyf is not None else list(x)

    def conc(v):
        v = norm(v)
        if isinstance(v, (str, int, Fraction)):
            return v
        if isinstance(v, tuple):
            return tuple(conc(y) for y in v)
        if isinstance(v, AList):
            return [conc(y) for y in v.items]
        raise ValueError
    try:
        dec = [(conc(kk), v) for kk, v in zip(ks, x)]
        dec.sort(key=lambda p: p[0], reverse=bool(k.get('reverse', False)))
        return AList([v for _, v in dec])
    except (ValueError, TypeError):
        if len(x) <= 1:
            return AList(x)
        return it.top('sorted')


def b_zip(it, a, k):
    xs = [it.iterate(x) for x in a]
    if any(x is None for x in xs):
        return it.top('zip')
    return AIter(list(zip(*xs)))


def b_enumerate(it, a, k):
    x = it.iterate(a[0])
    s = norm(a[1] if len(a) > 1 else k.get('start', 0))
    if x is None:
        return it.top('enumerate')
    return AIter([(i + s, v) for i, v in enumerate(x)])


def b_map(it, a, k):
    xs = [it.iterate(x) for x in a[1:]]
    if any(x is None for x in xs):
        return it.top('map')
    return AIter([it.call(a[0], list(z), {}) for z in zip(*xs)])


def b_filter(it, a, k):
    x = it.iterate(a[1])
    if x is None:
        return it.top('filter')
    out = []
    for v in x:
        t = it.truth(it.call(a[0], [v], {}) if a[0] is not None else v)
        if t is None:
            return it.top('filter')
        if t:
            out.append(v)
    return AIter(out)


def b_any(it, a, k):
    x = it.iterate(a[0])
    if x is None:
        return it.top('any')
    rs = [it.truth(v) for v in x]
    if any(r is True for r in rs):
        return True
    return it.top('any') if any(r is None for r in rs) else False


def b_all(it, a, k):
    x = it.iterate(a[0])
    if x is None:
        return it.top('all')
    rs = [it.truth(v) for v in x]
    if any(r is False for r in rs):
        return False
    return it.top('all') if any(r is None for r in rs) else True


def b_sum(it, a, k):
    x = it.iterate(a[0])
    if x is None:
        return it.top('sum')
    s = a[1] if len(a) > 1 else k.get('start', 0)
    for v in x:
        s = it.binop(ast.Add(), s, v)
    return s


def b_minmax(fn):
    def f(it, a, k):
        x = it.iterate(a[0]) if len(a) == 1 else list(a)
        if x is None:
            return it.top('min/max')
        ks = [it.call(k['key'], [v], {}) for v in x] if 'key' in k else x
        ks = [norm(v) for v in ks]
        if all(isinstance(v, (int, Fraction)) for v in ks) or all(isinstance(v, str) for v in ks):
            if not ks:
                if 'default' in k:
                    return k['default']
                raise RaiseSig('ValueError', 'empty', it.where())
            i = ks.index(fn(ks))
            return x[i]
        if all(is_num(v) for v in ks):
            i = pick(it, fn, ks)
            return it.join(x) if i is None else x[i]
        return it.top('min/max')
    return f


def pick(it, fn, ks):
    """index of the first extremal element, if the comparisons are decided"""
    i = 0
    for j in range(1, len(ks)):
        r = it.compare(ast.Gt() if fn is max else ast.Lt(), ks[j], ks[i])
        if r is None:
            return None
        if r:
            i = j
    return i


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        return it.top('getattr')
    if len(a) > 2:
        try:
            return it.getattr_(a[0], a[1])
        except RaiseSig as e:
            if e.etype == 'AttributeError':
                return a[2]
            raise
    return it.getattr_(a[0], a[1])


def b_hasattr(it, a, k):
    o, n = a
    if not isinstance(n, str) or isinstance(o, (Top, Alt)):
        return it.top('hasattr')
    if isinstance(o, AObj) and not isinstance(o.cls, AClass) and o.cls != '@namespace':
        return it.top('hasattr')
    try:
        v = it.getattr_(o, n)
    except RaiseSig:
        return False
    if isinstance(v, Top):
        return False if isinstance(o, (str, int, AList, ADict, tuple, ASet)) or o is None else it.top('hasattr')
    return True


def b_setattr(it, a, k):
    if isinstance(a[1], str):
        it.setattr_(a[0], a[1], a[2])
    return None


def b_type(it, a, k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, AObj):
            return x.cls if isinstance(x.cls, AClass) else it.top('type')
        for n, c in (('str', str), ('bool', bool), ('int', int), ('dict', I.ADict), ('list', I.AList),
                     ('tuple', tuple), ('set', I.ASet), ('float', Fraction)):
            if type(x) is c:
                return I.BUILTINS[n]
    return it.top('type')


def b_print(it, a, k):
    it.events.append(('print', tuple(a), it.loc, it.stack[-1] if it.stack else ''))
    return None


def b_super(it, a, k):
    if len(a) == 2:
        cls, o = a
        return AObj('@super', {'@getattr': lambda name: it.super_attr(cls, o, name)})
    return it.top('super')


def b_abs(it, a, k):
    return amap(it, lambda v: s_abs(it, v), a[0])


def b_reversed(it, a, k):
    x = it.iterate(a[0])
    return AIter(x[::-1]) if x is not None else it.top('reversed')


def b_iter(it, a, k):
    x = it.iterate(a[0])
    return AIter(x) if x is not None else it.top('iter')


def b_next(it, a, k):
    x = a[0]
    if isinstance(x, AIter):
        if x.pos < len(x.items):
            x.pos += 1
            return x.items[x.pos - 1]
        if len(a) > 1:
            return a[1]
        raise RaiseSig('StopIteration', None, it.where())
    return it.top('next')


def b_open(it, a, k):
    p = a[0]
    if isinstance(p, str):
        q = p if os.path.isabs(p) else None
        if q and os.path.realpath(q).startswith(os.path.realpath(it.root) + os.sep) and os.path.isfile(q):
            try:
                return AObj('@file', {'text': open(q, encoding='utf-8').read(), '@getattr': None})
            except Exception:
                pass
    it.events.append(('open', tuple(a), it.loc, it.stack[-1] if it.stack else ''))
    return it.top('open')


def b_round(it, a, k):
    x = norm(a[0])
    if isinstance(x, (int, Fraction)):
        return round(x, *[norm(y) for y in a[1:]])
    return it.top('round')


def b_id(it, a, k):
    return it.top('id')


def b_hash(it, a, k):
    return AObj('@hash', {'of': a[0]})


def b_divmod(it, a, k):
    x, y = norm(a[0]), norm(a[1])
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and y:
        return divmod(x, y)
    return it.top('divmod')


def b_callable(it, a, k):
    if isinstance(a[0], (AFunc, ABound, Builtin, AClass)):
        return True
    if isinstance(a[0], (str, int, AList, ADict, tuple)) or a[0] is None:
        return False
    return it.top('callable')


def b_chr(it, a, k):
    x = norm(a[0])
    return chr(x) if isinstance(x, int) else it.top('chr')


def b_ord(it, a, k):
    return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else it.top('ord')


def b_pow(it, a, k):
    return it.binop(ast.Pow(), a[0], a[1])


def b_format(it, a, k):
    x = norm(a[0])
    spec = a[1] if len(a) > 1 else ''
    if isinstance(spec, str):
        if isinstance(x, (str, int, bool, type(None))) and not (it.tok is not None and isinstance(x, int) and spec[-1:] in 'efgEG'):
            try:
                return format(x, spec)
            except (ValueError, TypeError):
                raise RaiseSig('ValueError', 'format', it.where())
        t = it.num_text(x)
        if t is not None:
            return t
    return it.top('format')


def b_repr(it, a, k):
    x = norm(a[0])
    return repr(x) if isinstance(x, (str, int)) else it.top('repr')


def b_issubclass(it, a, k):
    if isinstance(a[0], AClass) and isinstance(a[1], AClass):
        return a[1] in a[0].mro()
    return it.top('issubclass')


def b_globals(it, a, k):
    return it.top('globals')


def b_property(it, a, k):
    w = Wrap('property', a[0] if a else k.get('fget'))
    w.fset = a[1] if len(a) > 1 else k.get('fset')
    return w


def b_vars(it, a, k):
    if a and isinstance(a[0], AObj):
        return ADict({n: v for n, v in a[0].attrs.items() if not n.startswith('@') and n != 'args'})
    return b_globals(it, a, k)


def fill_builtins():
    B = I.BUILTINS
    if B:
        return

    def reg(n, f):
        B[n] = Builtin(n, f)
    for n, f in dict(len=b_len, range=b_range, dict=b_dict, list=b_list, tuple=b_tuple, set=b_set,
                     frozenset=lambda it, a, k: b_set(it, a, k, True), str=b_str, int=b_int, float=b_float,
                     complex=b_complex, bool=lambda it, a, k: (False if not a else (lambda t: it.top('bool') if t is None else t)(it.truth(a[0]))),
                     isinstance=b_isinstance, issubclass=b_issubclass, sorted=b_sorted, zip=b_zip,
                     enumerate=b_enumerate, map=b_map, filter=b_filter, any=b_any, all=b_all, sum=b_sum,
                     min=b_minmax(min), max=b_minmax(max), abs=b_abs, getattr=b_getattr, hasattr=b_hasattr,
                     setattr=b_setattr, print=b_print, open=b_open, super=b_super, type=b_type, hash=b_hash,
                     id=b_id, reversed=b_reversed, iter=b_iter, next=b_next, round=b_round, divmod=b_divmod,
                     callable=b_callable, chr=b_chr, ord=b_ord, pow=b_pow, format=b_format, repr=b_repr,
                     globals=b_globals, locals=b_globals, vars=b_vars,
                     object=lambda it, a, k: AObj('@object'), property=b_property,
                     staticmethod=lambda it, a, k: Wrap('staticmethod', a[0]),
                     classmethod=lambda it, a, k: Wrap('classmethod', a[0]),
                     slice=lambda it, a, k: slice(*[norm(x) for x in a]),
                     __import__=lambda it, a, k: it.import_(norm(a[0]).split('.')[0]),
                     bytes=lambda it, a, k: it.top('bytes'), exit=lambda it, a, k: _exit(it, a)).items():
        reg(n, f)
    for n in ('Exception', 'BaseException', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'RuntimeError',
              'NotImplementedError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'OSError', 'IOError',
              'FileNotFoundError', 'AssertionError', 'StopIteration', 'ZeroDivisionError', 'ArithmeticError',
              'LookupError', 'NameError', 'UnboundLocalError', 'Warning', 'UserWarning', 'DeprecationWarning',
              'FutureWarning', 'RuntimeWarning', 'SystemExit', 'KeyboardInterrupt', 'OverflowError', 'PermissionError'):
        def mk(nm):
            def f(it, a, k):
                it.events.append(('exc', nm, it.loc, it.stack[-1] if it.stack else ''))
                return AObj('@exc:' + nm, {'args': tuple(a)})
            return f
        reg(n, mk(n))
    B['NotImplemented'] = Ext('NotImplemented')
    B['Ellipsis'] = Ellipsis
    B['__name__'] = 'module'


def _exit(it, a):
    raise RaiseSig('SystemExit', a[0] if a else None, it.where())


# ------------------------------------------------------------------ attributes
def bi(name, fn):
    return Builtin(name, fn)


def value_attr(it, o, name):
    if isinstance(o, str):
        return str_attr(it, o, name)
    if isinstance(o, ADict):
        return dict_attr(it, o, name)
    if isinstance(o, AList):
        return list_attr(it, o, name)
    if isinstance(o, ASet):
        return set_attr(it, o, name)
    if isinstance(o, Arr):
        return arr_attr(it, o, name)
    if isinstance(o, TN):
        return tn_attr(it, o, name)
    if is_num(o) or isinstance(o, bool):
        return num_attr(it, o, name)
    if isinstance(o, I.NTuple):
        if name in o.fields:
            return o[o.fields.index(name)]
        if name == '_fields':
            return tuple(o.fields)
        if name == '_asdict':
            return bi('_asdict', lambda it, a, k: ADict(dict(zip(o.fields, o))))
        if name == '_replace':
            return bi('_replace', lambda it, a, k: I.NTuple([k.get(f, v) for f, v in zip(o.fields, o)], o.fields))
    if isinstance(o, Wrap) and o.kind == 'property' and name in ('setter', 'deleter', 'getter'):
        def deco(it, a, k):
            w = Wrap('property', a[0] if name == 'getter' else o.f)
            w.fset = a[0] if name == 'setter' else getattr(o, 'fset', None)
            return w
        return bi('property.' + name, deco)
    if isinstance(o, tuple):
        if name == 'index':
            return bi('index', lambda it, a, k: seq_index(it, list(o), a))
        if name == 'count':
            return bi('count', lambda it, a, k: sum(1 for x in o if same(x, a[0])))
    if o is None:
        raise RaiseSig('AttributeError', 'None.' + name, it.where())
    if isinstance(o, ABound):
        return it.getattr_(o.func, name)
    if isinstance(o, Builtin):
        if o.name == 'dict' and name == 'fromkeys':
            return bi('fromkeys', d_fromkeys)
        if name == '__name__':
            return o.name
        if o.name == 'str':
            return bi('str.' + name, lambda it, a, k: it.call(it.getattr_(a[0], name), list(a[1:]), k))
        if o.name in ('dict', 'list', 'set'):
            return bi(o.name + '.' + name, lambda it, a, k: it.call(it.getattr_(a[0], name), list(a[1:]), k) if a and not isinstance(a[0], AObj) else None)
    return it.top('attribute %s of %s' % (name, type(o).__name__))


def seq_index(it, items, a):
    for i, x in enumerate(items):
        r = it.equal(x, a[0])
        if r is True:
            return i
        if r is None:
            return it.top('index')
    raise RaiseSig('ValueError', 'not in list', it.where())


def conc_args(it, a):
    out = []
    for x in a:
        x = norm(x)
        if isinstance(x, (str, int, type(None))):
            out.append(x)
        elif isinstance(x, tuple):
            out.append(tuple(conc_args(it, x)))
        elif it.tok is not None and it.num_text(x) is not None:
            out.append(NumText(it.num_text(x)))
        else:
            raise ValueError
    return out


class NumText(str):
    def __format__(self, spec):
        return str(self)


def str_attr(it, s, name):
    if not hasattr(str, name):
        raise RaiseSig('AttributeError', name, it.where())

    def f(it, a, k):
        if name == 'join':
            xs = it.iterate(a[0])
            if xs is None or not all(isinstance(x, str) for x in xs):
                if xs is not None and any(isinstance(x, int) for x in xs):
                    raise RaiseSig('TypeError', 'join', it.where())
                return it.top('join')
            return s.join(xs)
        if name == 'format':
            try:
                a2 = conc_args(it, a)
                k2 = {}
                for kk, v in k.items():
                    if kk == '**':
                        if isinstance(v, ADict):
                            for q, w in v.d.items():
                                k2[q] = conc_args(it, [w])[0]
                        continue
                    k2[kk] = conc_args(it, [v])[0]
                return s.format(*a2, **k2)
            except ValueError:
                return it.top('format')
            except (KeyError, IndexError) as e:
                raise RaiseSig(type(e).__name__, str(e), it.where())
        if name == 'encode':
            return AObj('@bytes', {'text': s, '@getattr': lambda n: bi(n, lambda it, a, k: s) if n == 'decode' else it.top('bytes')})
        if any(isinstance(x, Alt) for x in a):
            return it.top('str method')
        try:
            a2 = conc_args(it, a)
            k2 = {kk: conc_args(it, [v])[0] for kk, v in k.items()}
        except ValueError:
            return it.top('str.' + name)
        try:
            r = getattr(s, name)(*a2, **k2)
        except ValueError:
            raise RaiseSig('ValueError', name, it.where())
        if isinstance(r, list):
            return AList(r)
        return r
    return bi('str.' + name, f)


def d_fromkeys(it, a, k):
    x = it.iterate(a[0])
    if x is None:
        return it.top('fromkeys')
    return ADict({it.hashable(y): (a[1] if len(a) > 1 else None) for y in x})


def has_missing(v):
    return v is MISSING or isinstance(v, Alt) and any(x is MISSING for x in v.vals)


def drop_missing(it, v):
    if isinstance(v, Alt):
        return it.join([x for x in v.vals if x is not MISSING])
    return v


def opaque(d):
    return (d.lazy is not None and not getattr(d, 'enum', False)) or \
        any(isinstance(q, tuple) and q and q[0] == '@top' for q in d.d)


def dict_attr(it, d, name):
    def m(f):
        return bi('dict.' + name, f)

    def get(it, a, k):
        key = a[0]
        dflt = a[1] if len(a) > 1 else k.get('default')
        if isinstance(key, (Top,)):
            return it.top('dict.get(?)')
        if isinstance(key, Alt):
            return it.join([get(it, [x] + list(a[1:]), k) for x in key.vals])
        kk = it.hashable(key)
        if d.has(kk):
            v = d.get(kk)
            if has_missing(v):
                return it.join([drop_missing(it, v), dflt])
            return v
        if any(isinstance(q, tuple) and q and q[0] == '@top' for q in d.d):
            return it.top('dict with unknown keys')
        return dflt

    def pop(it, a, k):
        kk = it.hashable(a[0])
        it.touch(d)
        if d.has(kk):
            v = d.get(kk)
            d.d.pop(kk, None)
            if d.lazy is not None:
                old = d.lazy
                d.lazy = lambda q: None if q == kk else old(q)
            return v
        if len(a) > 1:
            return a[1]
        if opaque(d):
            return it.top('dict.pop')
        raise RaiseSig('KeyError', kk, it.where())

    def setdefault(it, a, k):
        kk = it.hashable(a[0])
        if d.has(kk):
            return d.get(kk)
        it.touch(d)
        d.d[kk] = a[1] if len(a) > 1 else None
        return d.d[kk]

    def update(it, a, k):
        it.touch(d)
        if a:
            it.dict_update(d, a[0])
        for kk, v in k.items():
            if kk == '**':
                it.dict_update(d, v)
            else:
                d.d[kk] = v

    def copy(it, a, k):
        c = ADict(dict(d.d), lazy=d.lazy, name=d.name)
        c.factory = d.factory
        if getattr(d, 'enum', False):
            c.enum = True
        return c
    if name == 'get':
        return m(get)
    if name == 'pop':
        return m(pop)
    if name == 'setdefault':
        return m(setdefault)
    if name == 'update':
        return m(update)
    if name == 'copy':
        return m(copy)
    if name == 'items':
        return m(lambda it, a, k: it.top('items of opaque dict') if opaque(d) else
                 I.AItems([(kk, drop_missing(it, d.d[kk])) for kk in d.d]))
    if name in ('keys', '__iter__'):
        return m(lambda it, a, k: it.top('keys of opaque dict') if opaque(d) else I.AKeys(list(d.d)))
    if name == 'values':
        return m(lambda it, a, k: it.top('values of opaque dict') if opaque(d) else
                 AList([drop_missing(it, d.d[kk]) for kk in d.d]))
    if name == 'clear':
        def clear(it, a, k):
            it.touch(d)
            d.d = {}
            d.lazy = None
        return m(clear)
    if name == 'fromkeys':
        return m(d_fromkeys)
    if name in ('move_to_end',):
        return m(lambda it, a, k: None)
    if name == 'popitem':
        return m(lambda it, a, k: it.top('popitem'))
    if name == '__getitem__':
        return m(lambda it, a, k: it.getitem(d, a[0]))
    if name == '__setitem__':
        return m(lambda it, a, k: it.setitem(d, a[0], a[1]))
    if name == '__contains__':
        return m(lambda it, a, k: it.contains(d, a[0]))
    raise RaiseSig('AttributeError', 'dict.' + name, it.where())


def list_attr(it, l, name):
    def m(f):
        return bi('list.' + name, f)

    def mut(f):
        def g(it, a, k):
            it.touch(l)
            return f(it, a, k)
        return m(g)

    def extend(it, a, k):
        x = it.iterate(a[0])
        l.items.extend(x if x is not None else [it.top('extend')])

    def insert(it, a, k):
        i = norm(a[0])
        l.items.insert(i if isinstance(i, int) else 0, a[1])

    def pop(it, a, k):
        if not l.items:
            raise RaiseSig('IndexError', 'pop', it.where())
        i = norm(a[0]) if a else -1
        return l.items.pop(i) if isinstance(i, int) else it.top('pop')

    def remove(it, a, k):
        i = seq_index(it, l.items, a)
        if isinstance(i, int):
            del l.items[i]

    def sort(it, a, k):
        r = b_sorted(it, [l], k)
        if isinstance(r, AList):
            l.items = r.items

    def reverse(it, a, k):
        l.items.reverse()

    def clear(it, a, k):
        l.items = []
    if name == 'append':
        return mut(lambda it, a, k: l.items.append(a[0]))
    if name in ('extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
        return mut(locals()[name])
    if name == 'index':
        return m(lambda it, a, k: seq_index(it, l.items, a))
    if name == 'count':
        return m(lambda it, a, k: sum(1 for x in l.items if it.equal(x, a[0])))
    if name == 'copy':
        return m(lambda it, a, k: AList(l.items))
    if name == '__iter__':
        return m(lambda it, a, k: AIter(l.items))
    raise RaiseSig('AttributeError', 'list.' + name, it.where())


def set_attr(it, s, name):
    def m(f):
        return bi('set.' + name, f)

    def others(it, a):
        out = []
        for x in a:
            y = it.iterate(x)
            if y is None:
                return None
            out.append([it.hashable(z) for z in y])
        return out

    def op(fn, inplace=False):
        def f(it, a, k):
            o = others(it, a)
            if o is None:
                return it.top('set op')
            r = dict(s.items)
            for x in o:
                r = fn(r, dict.fromkeys(x))
            if inplace:
                it.touch(s)
                s.items = r
                return None
            return ASet(r)
        return m(f)
    U = lambda a, b: {**a, **b}
    D = lambda a, b: {k: 0 for k in a if k not in b}
    N = lambda a, b: {k: 0 for k in a if k in b}
    S = lambda a, b: {**D(a, b), **D(b, a)}
    if name == 'union':
        return op(U)
    if name == 'difference':
        return op(D)
    if name == 'intersection':
        return op(N)
    if name == 'symmetric_difference':
        return op(S)
    if name == 'update':
        return op(U, True)
    if name == 'difference_update':
        return op(D, True)
    if name == 'intersection_update':
        return op(N, True)

    def rel(fn):
        def f(it, a, k):
            o = others(it, a)
            if o is None:
                return it.top('set relation')
            return fn(set(s.items), set(o[0]))
        return m(f)
    if name == 'issubset':
        return rel(lambda a, b: a <= b)
    if name == 'issuperset':
        return rel(lambda a, b: a >= b)
    if name == 'isdisjoint':
        return rel(lambda a, b: not (a & b))

    def mut(fn):
        def f(it, a, k):
            it.touch(s)
            return fn(it, a)
        return m(f)
    if name == 'add':
        return mut(lambda it, a: s.items.__setitem__(it.hashable(a[0]), None))
    if name in ('discard', 'remove'):
        return mut(lambda it, a: s.items.pop(it.hashable(a[0]), None))
    if name == 'clear':
        return mut(lambda it, a: s.items.clear())
    if name == 'pop':
        return mut(lambda it, a: it.top('set.pop'))
    if name == 'copy':
        return m(lambda it, a, k: ASet(s.items))
    raise RaiseSig('AttributeError', 'set.' + name, it.where())


def num_attr(it, x, name):
    if name in ('conj', 'conjugate'):
        return bi(name, lambda it, a, k: norm(p_conj(x)))
    if name == 'real':
        return norm(p_re(x))
    if name == 'imag':
        return norm(p_im(x))
    if name in ('T', 'transpose'):
        return x
    if name == 'copy':
        return bi(name, lambda it, a, k: x)
    if name == 'shape':
        return ()
    if name == 'ndim':
        return 0
    if name == 'is_integer':
        return bi(name, lambda it, a, k: isinstance(norm(x), int))
    if name in ('item', '__float__', '__complex__', '__int__'):
        return bi(name, lambda it, a, k: x)
    if name in ('dtype',):
        return AObj('@dtype', {'of': x})
    if name in ('flatten', 'ravel'):
        return bi(name, lambda it, a, k: Arr.new([x], (1,)))
    if isinstance(x, (int, Fraction)) and name in ('items', 'keys', 'get', 'append', 'split', 'format', 'join'):
        raise RaiseSig('AttributeError', name, it.where())
    return it.top('number.' + name)


def tn_attr(it, x, name):
    if name in ('conj', 'conjugate'):
        return bi(name, lambda it, a, k: x.conj())
    if name == 'T':
        return x.transpose(tuple(range(x.rank))[::-1])
    if name == 'transpose':
        def tr(it, a, k):
            p = a[0] if len(a) == 1 and isinstance(a[0], (tuple, AList)) else a
            p = [norm(v) for v in it.iterate(p if not isinstance(p, list) else AList(p))]
            return x.transpose(tuple(p) if p else tuple(range(x.rank))[::-1])
        return bi(name, tr)
    if name in ('swapaxes',):
        def sw(it, a, k):
            i, j = norm(a[0]), norm(a[1])
            p = list(range(x.rank))
            p[i], p[j] = p[j], p[i]
            return x.transpose(tuple(p))
        return bi(name, sw)
    if name == 'real':
        return c_re(it, x)
    if name == 'imag':
        return c_im(it, x)
    if name == 'copy':
        return bi(name, lambda it, a, k: x.copy())
    if name in ('astype', 'view'):
        return bi(name, lambda it, a, k: x)
    if name == 'shape':
        return (3,) * x.rank
    if name == 'ndim':
        return x.rank
    if name == 'dot':
        return bi(name, lambda it, a, k: np_dot(it, x, a[0]))
    if name == 'trace':
        return bi(name, lambda it, a, k: np_trace(it, [x], {}))
    if name == 'diagonal':
        return bi(name, lambda it, a, k: np_diag(it, [x], {}))
    if name == 'dtype':
        return AObj('@dtype', {})
    return it.top('tensor.' + name)


def tn_index(it, x, k):
    """component / slice of a flavour tensor.  A component of a single linear
    symbol becomes a scalar atom."""
    if not isinstance(k, tuple):
        k = (k,)
    k = [norm(v) for v in k]
    if len(k) == x.rank and all(isinstance(v, int) and -3 <= v < 3 for v in k):
        p = Poly()
        for c, f, o in x.terms:
            env = {}
            ok = True
            for l, v in zip(o, k):
                if env.setdefault(l, v % 3) != v % 3:
                    ok = False
            if not ok:
                continue
            inner = []
            for s, j, ls in f:
                for l in ls:
                    if l not in env and l not in inner:
                        inner.append(l)
            for combo in itertools.product(range(3), repeat=len(inner)):
                e = dict(env)
                e.update(zip(inner, combo))
                q = c
                for s, j, ls in f:
                    q = q * component(it, s, j, tuple(e[l] for l in ls))
                p = p + q
        return norm(p)
    if all(isinstance(v, int) or v == slice(None) for v in k):
        k = k + [slice(None)] * (x.rank - len(k))
        return it.top('tensor slice')
    return it.top('tensor index')


def component(it, s, j, idx):
    if s == 'δ':
        return Poly.const(1 if idx[0] == idx[1] else 0)
    for key, (nm, arr) in it.tn_consts.items():
        if nm == s:
            st = strides(arr.shape)
            v = Poly.lift(arr.vals()[sum(a * b for a, b in zip(idx, st))])
            return v.conj() if j else v
    return Poly.atom(('c', '%s[%s]' % (s, ','.join(map(str, idx))), j))


def arr_attr(it, x, name):
    if name in ('conj', 'conjugate'):
        return bi(name, lambda it, a, k: c_conj(it, x))
    if name == 'T':
        return transpose(it, x)
    if name == 'transpose':
        def tr(it, a, k):
            p = list(a)
            if len(p) == 1 and isinstance(p[0], (tuple, AList)):
                p = it.iterate(p[0])
            p = [norm(v) for v in p]
            return transpose(it, x, p or None)
        return bi(name, tr)
    if name == 'swapaxes':
        def sw(it, a, k):
            i, j = norm(a[0]), norm(a[1])
            p = list(range(x.ndim))
            p[i], p[j] = p[j], p[i]
            return transpose(it, x, p)
        return bi(name, sw)
    if name == 'real':
        return Arr(x.buf, x.idx, x.shape, 're', x.own)
    if name == 'imag':
        return Arr(x.buf, x.idx, x.shape, 'im', x.own)
    if name == 'copy':
        return bi(name, lambda it, a, k: Arr.new(x.vals(), x.shape))
    if name == 'astype':
        return bi(name, lambda it, a, k: Arr.new(x.vals(), x.shape))
    if name == 'shape':
        return x.shape
    if name == 'ndim':
        return x.ndim
    if name == 'size':
        return len(x.idx)
    if name == 'tolist':
        def tl(it, a, k):
            def rec(y):
                if not isinstance(y, Arr):
                    return y
                return AList([rec(it.getitem(y, i)) for i in range(y.shape[0])])
            return rec(x)
        return bi(name, tl)
    if name in ('ravel', 'flatten'):
        return bi(name, lambda it, a, k: Arr.new(x.vals(), (len(x.idx),)) if name == 'flatten' else
                  Arr(x.buf, list(x.idx), (len(x.idx),), x.part, x.own))
    if name == 'reshape':
        def rs(it, a, k):
            s = a[0] if len(a) == 1 else tuple(a)
            s = get_shape(it, s)
            if s is None:
                return it.top('reshape')
            if -1 in s:
                r = 1
                for q in s:
                    if q != -1:
                        r *= q
                if r == 0 or len(x.idx) % r:
                    raise RaiseSig('ValueError', 'reshape', it.where())
                s = tuple(len(x.idx) // r if q == -1 else q for q in s)
            if size(s) != len(x.idx):
                raise RaiseSig('ValueError', 'reshape', it.where())
            return Arr(x.buf, list(x.idx), s, x.part, x.own)
        return bi(name, rs)
    if name == 'dot':
        return bi(name, lambda it, a, k: np_dot(it, x, a[0]))
    if name == 'trace':
        return bi(name, lambda it, a, k: np_trace(it, [x], {}))
    if name == 'sum':
        return bi(name, lambda it, a, k: np_sum(it, [x] + list(a), k))
    if name == 'diagonal':
        return bi(name, lambda it, a, k: np_diag(it, [x], {}))
    if name == 'fill':
        return bi(name, lambda it, a, k: it.arr_write(x, [a[0]] * len(x.idx)))
    if name == 'item':
        return bi(name, lambda it, a, k: x.vals()[0] if len(x.idx) == 1 else it.top('item'))
    if name == 'view':
        def view(it, a, k):
            t = a[0] if a else k.get('dtype')
            t = getattr(t, 'name', t)
            flt = getattr(x.buf, 'dt', None) == 'f'
            if t in ('float', 'numpy.float64') and not flt:
                if x.ndim != 1:
                    return it.top('view')
                r = Arr.new([y for v in x.vals() for y in (c_re(it, v), c_im(it, v))], (2 * len(x.idx),))
                r.buf.dt = 'f'
                return r
            if t in ('complex', 'numpy.complex128') and flt:
                if x.ndim != 1:
                    return it.top('view')
                v = x.vals()
                if len(v) % 2:
                    raise RaiseSig('ValueError', 'view', it.where())
                return Arr.new([it.binop(ast.Add(), v[i], it.binop(ast.Mult(), Poly.const(0, 1), v[i + 1]))
                                for i in range(0, len(v), 2)], (len(v) // 2,))
            return x
        return bi(name, view)
    if name in ('dtype', 'flags', 'data'):
        return AObj('@' + name, {'of': x, '@getattr': lambda n: it.top('dtype.' + n), '@setitem': lambda k, v: None})
    if name in ('tobytes', 'tostring'):
        return bi(name, lambda it, a, k: AObj('@bytes', {'of': x}))
    if name == 'setflags':
        return bi(name, lambda it, a, k: None)
    return it.top('array.' + name)


# ------------------------------------------------------------------ externals
CONSTS = {'math.pi': PI, 'numpy.pi': PI, 'math.e': Poly.real('euler'), 'numpy.e': Poly.real('euler'),
          **{'string.' + n: getattr(_string, n) for n in ('ascii_lowercase', 'ascii_uppercase', 'ascii_letters', 'digits')},
          'numpy.newaxis': None, 'numpy.nan': Poly.real('nan'), 'math.nan': Poly.real('nan')}


def ext_const(it, e):
    if e.name in CONSTS:
        return CONSTS[e.name]
    if e.name in it.ext_values:
        return it.ext_values[e.name]
    return e


def conv_json(it, x):
    if isinstance(x, dict):
        return ADict({k: conv_json(it, v) for k, v in x.items()})
    if isinstance(x, list):
        return AList([conv_json(it, v) for v in x])
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


def text_of(x):
    if isinstance(x, str):
        return x
    if isinstance(x, AObj) and 'text' in x.attrs:
        return x.attrs['text']
    return None


def m_get_data(it, a, k):
    pkg, rel = a[0], a[1]
    if isinstance(pkg, str) and isinstance(rel, str):
        p = os.path.join(it.root, *pkg.split('.'), rel)
        if os.path.isfile(p):
            with open(p, encoding='utf-8') as f:
                t = f.read()
            return AObj('@bytes', {'text': t, 'path': p,
                                   '@getattr': lambda n: bi(n, lambda it, a, k: t) if n == 'decode' else it.top('bytes.' + n)})
        return it.top('package data %s' % rel)
    return it.top('package data')


def m_json_loads(it, a, k):
    t = text_of(a[0])
    if t is None:
        return it.top('json')
    try:
        return conv_json(it, _json.loads(t))
    except Exception:
        raise RaiseSig('JSONDecodeError', None, it.where())


def m_yaml_load(it, a, k):
    t = text_of(a[0])
    if t is None:
        return it.top('yaml')
    try:
        return conv_json(it, _json.loads(t))
    except Exception:
        return it.top('yaml')


def m_defaultdict(it, a, k):
    d = ADict()
    if a:
        d.factory = a[0]
    if len(a) > 1:
        it.dict_update(d, a[1])
    return d


def m_deepcopy(it, a, k):
    def rec(x):
        if isinstance(x, ADict):
            c = ADict({q: rec(v) for q, v in x.d.items()}, name=x.name)
            if x.lazy is not None:
                lz = x.lazy
                c.lazy = lambda q: (lambda v: rec(v) if v is not None else None)(lz(q))
            c.factory = x.factory
            if getattr(x, 'enum', False):
                c.enum = True
            return c
        if isinstance(x, AList):
            return AList([rec(v) for v in x.items])
        if isinstance(x, ASet):
            return ASet(x.items)
        if isinstance(x, Arr):
            return Arr.new(x.vals(), x.shape)
        if isinstance(x, tuple):
            return tuple(rec(v) for v in x)
        if isinstance(x, AObj):
            return AObj(x.cls, {q: rec(v) for q, v in x.attrs.items()})
        return x
    return rec(a[0])


def m_copy(it, a, k):
    x = a[0]
    if isinstance(x, ADict):
        return it.call(dict_attr(it, x, 'copy'), [], {})
    if isinstance(x, AList):
        return AList(x.items)
    if isinstance(x, AObj):
        return AObj(x.cls, x.attrs)
    if isinstance(x, Arr):
        return Arr.new(x.vals(), x.shape)
    return x


def m_partial(it, a, k):
    f, args, kw = a[0], list(a[1:]), dict(k)

    def call(it2, a2, k2):
        return it.call(f, args + list(a2), {**kw, **k2})
    return AObj('@partial', {'@call': call, 'func': f, 'args': tuple(args)})


def m_reduce(it, a, k):
    x = it.iterate(a[1])
    if x is None:
        return it.top('reduce')
    if len(a) > 2:
        acc = a[2]
    else:
        if not x:
            raise RaiseSig('TypeError', 'reduce', it.where())
        acc, x = x[0], x[1:]
    for v in x:
        acc = it.call(a[0], [acc, v], {})
    return acc


def m_lru(it, a, k):
    if len(a) == 1 and isinstance(a[0], (AFunc, Wrap)):
        if isinstance(a[0], AFunc):
            a[0].cached = True
        return a[0]
    return AObj('@identity', {'cached': True})


def m_wraps(it, a, k):
    return AObj('@identity', {})


def m_chain(it, a, k):
    xs = [it.iterate(x) for x in a]
    if any(x is None for x in xs):
        return it.top('chain')
    return AIter([y for x in xs for y in x])


def m_chain_fi(it, a, k):
    xs = it.iterate(a[0])
    if xs is None:
        return it.top('chain')
    return m_chain(it, xs, {})


def m_product(it, a, k):
    xs = [it.iterate(x) for x in a]
    r = norm(k.get('repeat', 1))
    if any(x is None for x in xs):
        return it.top('product')
    return AIter(list(itertools.product(*xs, repeat=r)))


def m_iter2(fn):
    def f(it, a, k):
        x = it.iterate(a[0])
        if x is None:
            return it.top('itertools')
        return AIter(list(fn(x, *[norm(v) for v in a[1:]])))
    return f


def lazy_iter(fn, nseq=1):
    def f(it, a, k):
        a = list(a)
        for i in range(min(nseq, len(a)) if nseq else len(a)):
            a[i] = it.iterate(a[i])
            if a[i] is None:
                return it.top('itertools')
        return AIter(list(fn(it, *[x if isinstance(x, list) else norm(x) for x in a], **k)))
    return f


def m_groupby(it, a, k):
    xs = it.iterate(a[0])
    key = a[1] if len(a) > 1 else k.get('key')
    if xs is None:
        return it.top('groupby')
    out = []
    for x in xs:
        q = it.call(key, [x], {}) if key is not None else x
        t = it.truth(it.compare(ast.Eq(), q, out[-1][0])) if out else False
        if t is None:
            return it.top('groupby')
        if t:
            out[-1][1].append(x)
        else:
            out.append((q, [x]))
    return AIter([(q, AIter(v)) for q, v in out])


def m_accumulate(it, a, k):
    xs = it.iterate(a[0])
    fn = a[1] if len(a) > 1 else k.get('func')
    if xs is None:
        return it.top('accumulate')
    out = [k['initial']] if 'initial' in k else []
    for x in xs:
        out.append(x if not out else it.call(fn, [out[-1], x], {}) if fn is not None else it.binop(ast.Add(), out[-1], x))
    return AIter(out)


def m_prod(it, a, k):
    xs = it.iterate(a[0])
    if xs is None:
        return it.top('prod')
    s = k.get('start', 1)
    for x in xs:
        s = it.binop(ast.Mult(), s, x)
    return s


def m_namedtuple(it, a, k):
    fields = a[1].replace(',', ' ').split() if isinstance(a[1], str) else it.iterate(a[1])
    dfl = it.iterate(k['defaults']) if 'defaults' in k else []

    def make(it, aa, kk):
        vals = dict(zip(fields, aa))
        if len(aa) > len(fields) or any(x in vals or x not in fields for x in kk):
            raise RaiseSig('TypeError', 'arguments of %s' % a[0], it.where())
        vals.update(kk)
        for f, v in zip(reversed(fields), reversed(dfl)):
            vals.setdefault(f, v)
        if len(vals) != len(fields):
            raise RaiseSig('TypeError', 'missing arguments of %s' % a[0], it.where())
        return I.NTuple([vals[f] for f in fields], fields)
    return bi('namedtuple ' + str(a[0]), make)


def m_dataclass(it, a, k):
    if not a:
        return bi('dataclass', lambda it, aa, kk: m_dataclass(it, aa, {}))
    if not isinstance(a[0], AClass):
        return it.top('dataclass')
    it.fields_of(a[0])
    return a[0]


def m_field(it, a, k):
    fac = k.get('default_factory')
    return AObj('@field', {'fac': fac, 'default': (lambda v=k['default']: v,) if 'default' in k else ()})


def m_chainmap(it, a, k):
    d = ADict()
    for x in reversed(a):
        if not isinstance(x, ADict) or x.lazy is not None:
            return it.top('ChainMap')
        d.d.update(x.d)
    return d


def m_attrgetter(it, a, k):
    def get(o, n):
        for p in n.split('.'):
            o = it.getattr_(o, p)
        return o
    return bi('attrgetter', lambda it, aa, kk: get(aa[0], a[0]) if len(a) == 1 else tuple(get(aa[0], n) for n in a))


def m_re_compile(it, a, k):
    pat = a[0]

    def ga(n):
        if n == 'pattern':
            return pat
        if n == 'sub':
            return bi('re.sub', lambda it, aa, kk: m_re_sub(it, [pat] + list(aa), kk))
        return bi('re.' + n, lambda it, aa, kk: m_re(n)(it, [pat] + list(aa), kk))
    if not isinstance(pat, str) or len(a) > 1 or k:
        return it.top('re.compile')
    return AObj('@pattern', {'@getattr': ga})


def m_round(fn):
    def f(it, a, k):
        x = norm(a[0])
        return getattr(math_, fn)(x) if isinstance(x, (int, Fraction)) else it.top('math.' + fn)
    return f


def m_counter(it, a, k):
    if not a:
        d = ADict()
        d.factory = I.BUILTINS['int']
        return d
    x = it.iterate(a[0])
    if x is None or any(isinstance(y, (Top, Alt)) for y in x):
        return it.top('Counter')
    d = ADict()
    for y in x:
        y = it.hashable(y)
        d.d[y] = d.d.get(y, 0) + 1
    d.factory = I.BUILTINS['int']
    return d


def m_re_sub(it, a, k):
    import re
    if all(isinstance(x, str) for x in a[:3]) and len(a) == 3:
        return re.sub(a[0], a[1], a[2])
    if isinstance(a[0], str) and isinstance(a[2], str) and isinstance(a[1], AFunc):
        def rep(m):
            o = AObj('@match', {'@getattr': lambda n: bi(n, lambda it, aa, kk: m.group(*[norm(z) for z in aa])) if n == 'group' else it.top('match')})
            o.attrs['@getitem'] = lambda k2: m.group(norm(k2))
            r = it.call(a[1], [o], {})
            if not isinstance(r, str):
                raise ValueError
            return r
        try:
            return re.sub(a[0], rep, a[2])
        except ValueError:
            return it.top('re.sub')
    return it.top('re.sub')


def m_re(fname):
    def f(it, a, k):
        import re
        if all(isinstance(x, str) for x in a[:2]):
            m = getattr(re, fname)(*a[:2])
            if fname in ('findall', 'split'):
                return AList(m)
            if m is None:
                return None

            def ga(n):
                def call(it, aa, kk):
                    r = getattr(m, n)(*[norm(z) for z in aa])
                    return conv_json(it, r) if not isinstance(r, tuple) else r
                return bi('match.' + n, call)
            return AObj('@match', {'@getattr': ga, '@getitem': lambda q: m.group(norm(q)), '@truth': True})
        return it.top('re')
    return f


def m_path_join(it, a, k):
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    return it.top('path')


def m_path1(fn):
    def f(it, a, k):
        if isinstance(a[0], str):
            return fn(a[0])
        return it.top('path')
    return f


def np_isclose(it, a, k):
    return it.top('isclose')


def np_real(fn):
    return lambda it, a, k: fn(it, a[0])


def np_transpose(it, a, k):
    p = a[1] if len(a) > 1 else k.get('axes')
    x = a[0]
    if isinstance(x, (AList, tuple)):
        x = to_arr(it, x)
    return transpose(it, x, [norm(v) for v in it.iterate(p)] if p is not None else None)


def np_shape(it, a, k):
    x = a[0]
    if isinstance(x, (Top, Alt)):
        return it.top('shape')
    if isinstance(x, TN):
        return (3,) * x.rank
    y = to_arr(it, x)
    return y.shape if y is not None else it.top('shape')


def np_fill(it, a, k):
    sh = get_shape(it, a[0])
    v = a[1] if len(a) > 1 else k.get('fill_value')
    return Arr.full(sh, v) if sh is not None else it.top('full')


def np_unop(op):
    return lambda it, a, k: it.unop(op, a[0])


def np_bin(op):
    return lambda it, a, k: it.binop(op, a[0], a[1])


def np_indices(it, a, k):
    sh = get_shape(it, a[0])
    if sh is None:
        return it.top('indices')
    outs = []
    for ax in range(len(sh)):
        outs.extend(c[ax] for c in itertools.product(*[range(s) for s in sh]))
    return Arr.new(outs, (len(sh),) + sh)


def np_any(it, a, k):
    x = a[0]
    if isinstance(x, (bool, AList, tuple, Arr)) and not isinstance(x, (Top, Alt)):
        return b_any(it, [AList(to_arr(it, x).vals())], {})
    return it.top('np.any')


def np_array_equal(it, a, k):
    x, y = to_arr(it, a[0]), to_arr(it, a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and tuple(x.shape) != tuple(y.shape):
        return False
    return np_all(it, [it.compare(ast.Eq(), a[0], a[1])], {})


def nd_eq(it, a, k):
    return it.compare(ast.Eq(), a[0], a[1])


def np_all(it, a, k):
    x = a[0]
    if isinstance(x, (bool, str, AList, tuple, Arr)) and not isinstance(x, (Top, Alt)):
        return b_all(it, [AList(to_arr(it, x).vals())], {})
    return it.top('np.all')


NAN = Poly.real('nan')


def np_isnan(it, a, k):
    x = a[0]
    if isinstance(x, Arr) and not any(isinstance(v, (Top, Alt)) for v in x.vals()):
        return Arr.new([isinstance(v, Poly) and v == NAN for v in x.vals()], x.shape)
    if isinstance(x, Poly):
        return x == NAN
    return it.top('isnan') if isinstance(a[0], (Top, Alt)) else (False if is_num(a[0]) else it.top('isnan'))


def np_outer(it, a, k):
    if any(isinstance(x, TN) for x in a):
        return np_einsum(it, ['a,b->ab'] + list(a), {})
    x, y = to_arr(it, a[0]), to_arr(it, a[1])
    return arr_einsum(it, 'a,b->ab', [x, y]) if x is not None and y is not None else it.top('outer')


def np_tensordot(it, a, k):
    x, y = a[0], a[1]
    ax = norm(a[2]) if len(a) > 2 else norm(k.get('axes', 2))
    rx = x.rank if isinstance(x, TN) else getattr(x, 'ndim', None)
    ry = y.rank if isinstance(y, TN) else getattr(y, 'ndim', None)
    if rx is None or ry is None:
        return it.top('tensordot')
    if isinstance(ax, int):
        axx, axy = list(range(rx - ax, rx)), list(range(ax))
    else:
        p = it.iterate(ax)
        f = lambda q: [norm(v) for v in it.iterate(q)] if not isinstance(norm(q), int) else [norm(q)]
        axx, axy = f(p[0]), f(p[1])
    axx = [v % rx for v in axx]
    axy = [v % ry for v in axy]
    L = 'abcdefghijklmnop'
    lx = list(L[:rx])
    ly = list(L[rx:rx + ry])
    for i, j in zip(axx, axy):
        ly[j] = lx[i]
    con = {lx[i] for i in axx}
    out = [c for c in lx if c not in con] + [c for c in ly if c not in con]
    return np_einsum(it, [''.join(lx) + ',' + ''.join(ly) + '->' + ''.join(out), x, y], {})


def ident(it, a, k):
    return a[0]


def none(it, a, k):
    return None


def install(it):
    _imp()
    fill_builtins()
    it.ext_values = {}
    M = it.models
    M.update({
        'numpy.einsum': np_einsum, 'numpy.dot': lambda it, a, k: np_dot(it, a[0], a[1]),
        'numpy.matmul': lambda it, a, k: np_dot(it, a[0], a[1]),
        'numpy.linalg.multi_dot': lambda it, a, k: m_reduce(it, [bi('dot', lambda it, a, k: np_dot(it, a[0], a[1])), a[0]], {}),
        'numpy.eye': np_eye, 'numpy.identity': np_eye, 'numpy.zeros': np_full(0), 'numpy.ones': np_full(1),
        'numpy.empty': np_full(0), 'numpy.full': np_fill, 'numpy.zeros_like': np_like(0),
        'numpy.ones_like': np_like(1), 'numpy.empty_like': np_like(0),
        'numpy.array': np_array, 'numpy.asarray': np_asarray, 'numpy.ascontiguousarray': np_asarray,
        'numpy.conj': np_real(c_conj), 'numpy.conjugate': np_real(c_conj), 'numpy.real': np_real(c_re),
        'numpy.imag': np_real(c_im), 'numpy.trace': np_trace, 'numpy.diag': np_diag,
        'numpy.transpose': np_transpose, 'numpy.abs': b_abs, 'numpy.absolute': b_abs, 'numpy.sqrt': lift1(s_sqrt),
        'numpy.log': lift1(s_log), 'math.log': lift1(s_log), 'math.sqrt': lift1(s_sqrt), 'cmath.sqrt': lift1(s_sqrt),
        'numpy.hstack': np_concat(0), 'numpy.concatenate': np_concat(0), 'numpy.vectorize': np_vectorize,
        'numpy.linalg.inv': np_inv, 'numpy.sum': np_sum, 'numpy.max': np_max(max), 'numpy.min': np_max(min), 'numpy.amax': np_max(max), 'numpy.amin': np_max(min), 'numpy.isclose': np_isclose, 'numpy.allclose': np_isclose,
        'numpy.shape': np_shape, 'numpy.indices': np_indices, 'numpy.all': np_all, 'numpy.any': np_any, 'numpy.array_equal': np_array_equal, 'numpy.ndarray.__eq__': nd_eq, 'numpy.equal': nd_eq, 'numpy.isnan': np_isnan,
        'numpy.outer': np_outer, 'numpy.tensordot': np_tensordot,
        'numpy.add': np_bin(ast.Add()), 'numpy.subtract': np_bin(ast.Sub()), 'numpy.multiply': np_bin(ast.Mult()),
        'numpy.divide': np_bin(ast.Div()), 'numpy.power': np_bin(ast.Pow()), 'math.pow': np_bin(ast.Pow()),
        'numpy.negative': np_unop(ast.USub()), 'numpy.copy': m_copy, 'math.fabs': b_abs,
        'numpy.swapaxes': lambda it, a, k: it.call(it.getattr_(a[0], 'swapaxes'), list(a[1:]), {}),
        'numpy.ravel': lambda it, a, k: it.call(it.getattr_(a[0], 'ravel'), [], {}),
        'numpy.reshape': lambda it, a, k: it.call(it.getattr_(a[0], 'reshape'), list(a[1:]), {}),
        'numpy.complex128': b_complex, 'numpy.float64': b_float,
        'collections.OrderedDict': b_dict, 'collections.defaultdict': m_defaultdict, 'collections.Counter': m_counter,
        'itertools.islice': lazy_iter(lambda it, x, *r: itertools.islice(x, *r)),
        'itertools.groupby': m_groupby, 'itertools.accumulate': m_accumulate,
        'itertools.zip_longest': lazy_iter(lambda it, *x, fillvalue=None: itertools.zip_longest(*x, fillvalue=fillvalue), None),
        'itertools.starmap': lambda it, a, k: lazy_iter(lambda it, x: [it.call(a[0], it.iterate(y), {}) for y in x])(it, a[1:], k),
        'itertools.count': lambda it, a, k: AIter([norm(a[0] if a else 0) + i * (norm(a[1]) if len(a) > 1 else 1) for i in range(5000)]),
        'itertools.cycle': lazy_iter(lambda it, x: x * (1 + 5000 // max(1, len(x)))),
        'itertools.repeat': lambda it, a, k: AIter([a[0]] * (norm(a[1]) if len(a) > 1 else 5000)),
        'itertools.takewhile': lambda it, a, k: lazy_iter(lambda it, x: itertools.takewhile(lambda y: it.truth(it.call(a[0], [y], {})), x))(it, a[1:], k),
        'itertools.filterfalse': lambda it, a, k: lazy_iter(lambda it, x: itertools.filterfalse(lambda y: it.truth(it.call(a[0], [y], {})), x))(it, a[1:], k),
        'collections.namedtuple': m_namedtuple, 'collections.ChainMap': m_chainmap, 'operator.attrgetter': m_attrgetter,
        'dataclasses.dataclass': m_dataclass, 'dataclasses.field': m_field, 'math.prod': m_prod,
        're.compile': m_re_compile, 'math.floor': m_round('floor'), 'math.ceil': m_round('ceil'),
        'contextlib.suppress': lambda it, a, k: AObj('@suppress', {'@suppress': tuple(a)}),
        'types.SimpleNamespace': lambda it, a, k: AObj('@namespace', dict(k)),
        'types.MappingProxyType': lambda it, a, k: a[0],
        'os.path.splitext': lambda it, a, k: os.path.splitext(a[0]) if isinstance(a[0], str) else it.top('splitext'),
        'fractions.Fraction': lambda it, a, k: Fraction(*[norm(x) for x in a]) if all(isinstance(norm(x), (int, Fraction)) for x in a) else it.top('Fraction'),
        'copy.deepcopy': m_deepcopy, 'copy.copy': m_copy, 'functools.partial': m_partial,
        'functools.reduce': m_reduce, 'functools.lru_cache': m_lru, 'functools.cache': m_lru,
        'functools.wraps': m_wraps, 'itertools.chain': m_chain, 'itertools.chain.from_iterable': m_chain_fi,
        'itertools.product': m_product, 'itertools.permutations': m_iter2(itertools.permutations),
        'itertools.combinations': m_iter2(itertools.combinations),
        'itertools.combinations_with_replacement': m_iter2(itertools.combinations_with_replacement),
        'operator.mul': np_bin(ast.Mult()), 'operator.add': np_bin(ast.Add()),
        'operator.itemgetter': lambda it, a, k: bi('itemgetter', lambda it, b, kk: it.getitem(b[0], a[0]) if len(a) == 1 else tuple(it.getitem(b[0], x) for x in a)),
        'pkgutil.get_data': m_get_data, 'json.loads': m_json_loads, 'json.load': m_json_loads,
        'yaml.safe_load': m_yaml_load, 'yaml.load': m_yaml_load,
        're.sub': m_re_sub, 're.match': m_re('match'), 're.search': m_re('search'), 're.findall': m_re('findall'),
        're.fullmatch': m_re('fullmatch'), 're.split': m_re('split'),
        'os.path.join': m_path_join, 'os.path.dirname': m_path1(os.path.dirname),
        'os.path.abspath': m_path1(lambda p: p), 'os.path.realpath': m_path1(lambda p: p),
        'os.path.basename': m_path1(os.path.basename),
        'warnings.warn': none, 'logging.warn': none, 'logging.warning': none, 'logging.error': none,
        'logging.info': none, 'logging.debug': none,
        'sys.exit': lambda it, a, k: _exit(it, a),
    })
    for f in ('sin', 'cos', 'tan', 'exp', 'arctan', 'arcsin', 'arccos', 'arctan2', 'sinh', 'cosh', 'angle'):
        M['numpy.' + f] = lift1(ufn(f))
    for f in ('sin', 'cos', 'tan', 'exp', 'atan', 'asin', 'acos'):
        M['math.' + f] = M['cmath.' + f] = lift1(ufn(f if f[0] != 'a' else 'arc' + f[1:]))
    M['cmath.phase'] = lift1(ufn('angle'))
