"""Exact scalar domain of the abstract interpreter.

A ``Poly`` is a polynomial normal form over *atoms* (program inputs the
analysis keeps opaque) with Gaussian-rational coefficients.  Exponents may be
fractional/negative (atoms are generic, so x**(1/2) is again a monomial).

Atoms are tuples:
  ('r', name)            a real input quantity
  ('c', name, 0|1)       a complex input quantity / its complex conjugate
  ('p', n)               a prime number (only ever with fractional exponent)
  ('s', key)             an opaque sum (argument of a root / of a reciprocal)
  ('f', fname, key...)   an uninterpreted function application
"""
from fractions import Fraction
import itertools

F0, F1 = Fraction(0), Fraction(1)


def _factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._k = None

    # ---- constructors
    @staticmethod
    def const(re, im=0):
        re, im = Fraction(re), Fraction(im)
        if re == 0 and im == 0:
            return Poly()
        return Poly({(): (re, im)})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): (F1, F0)})

    @staticmethod
    def real(name):
        return Poly.atom(('r', name))

    @staticmethod
    def cplx(name):
        return Poly.atom(('c', name, 0))

    @staticmethod
    def lift(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            return Poly.const(int(x))
        if isinstance(x, (int, Fraction)):
            return Poly.const(x)
        if isinstance(x, float):
            return Poly.const(Fraction(repr(x)))
        if isinstance(x, complex):
            return Poly.const(Fraction(repr(x.real)), Fraction(repr(x.imag)))
        raise TypeError(type(x))

    # ---- predicates
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), (F0, F0))

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=repr))
        return self._k

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __eq__(self, o):
        if not isinstance(o, Poly):
            try:
                o = Poly.lift(o)
            except TypeError:
                return False
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    # ---- arithmetic
    def __add__(self, o):
        o = Poly.lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, (a, b) in o.t.items():
            x = r.get(m)
            if x is None:
                r[m] = (a, b)
            else:
                s = (x[0] + a, x[1] + b)
                if s[0] == 0 and s[1] == 0:
                    del r[m]
                else:
                    r[m] = s
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-a, -b) for m, (a, b) in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.lift(o))

    def __rsub__(self, o):
        return Poly.lift(o) + (-self)

    def __mul__(self, o):
        o = Poly.lift(o)
        r = {}
        for m1, (a1, b1) in self.t.items():
            for m2, (a2, b2) in o.t.items():
                if b1 == 0 and b2 == 0:
                    c = (a1 * a2, F0)
                else:
                    c = (a1 * a2 - b1 * b2, a1 * b2 + b1 * a2)
                m, f = _mono_mul(m1, m2)
                if f != 1:
                    c = (c[0] * f, c[1] * f)
                x = r.get(m)
                if x is None:
                    r[m] = c
                else:
                    s = (x[0] + c[0], x[1] + c[1])
                    if s[0] == 0 and s[1] == 0:
                        del r[m]
                    else:
                        r[m] = s
        return Poly(r)
    __rmul__ = __mul__

    def conj(self):
        r = {}
        for m, (a, b) in self.t.items():
            m2 = tuple(sorted(((_conj_atom(x), e) for x, e in m), key=_akey))
            r[m2] = (a, -b)
        return Poly(r)

    def re(self):
        return (self + self.conj()) * Fraction(1, 2)

    def im(self):
        return (self - self.conj()) * Poly.const(0, Fraction(-1, 2))

    def inv(self):
        if not self.t:
            raise ZeroDivisionError
        if len(self.t) == 1:
            (m, (a, b)), = self.t.items()
            d = a * a + b * b
            m2 = tuple((x, -e) for x, e in m)
            if all(x[0] != 'p' for x, e in m):
                return Poly({m2: (a / d, -b / d)})
            p = Poly({(): (a / d, -b / d)})
            return p * _mono_poly(m2)
        c, q = _normalize_sum(self)
        return Poly.const(*c).inv() * Poly.atom(('s', q.key()), -1)

    def __truediv__(self, o):
        return self * Poly.lift(o).inv()

    def __rtruediv__(self, o):
        return Poly.lift(o) * self.inv()

    def __pow__(self, n):
        if isinstance(n, Poly):
            if not n.is_const() or n.const_value()[1] != 0:
                return Poly.atom(('f', 'pow', self.key(), n.key()))
            n = n.const_value()[0]
        n = Fraction(n)
        if n.denominator == 1 and n >= 0:
            n = int(n)
            if n > 12 and len(self.t) > 1:
                c, q = _normalize_sum(self)
                return Poly.const(*c) ** n * Poly.atom(('s', q.key()), n)
            r = Poly.const(1)
            for _ in range(n):
                r = r * self
            return r
        if not self.t:
            return Poly()
        if n.denominator == 1:
            return self.inv() ** (-n)
        if len(self.t) == 1:
            (m, (a, b)), = self.t.items()
            if b == 0 and a > 0:
                r = _mono_poly(tuple((x, e * n) for x, e in m))
                return r * _rat_pow(a, n)
            return Poly.atom(('f', 'pow', self.key(), Poly.const(n).key()))
        c, q = _normalize_sum(self)
        if c[1] == 0 and c[0] > 0:
            return _rat_pow(c[0], n) * Poly.atom(('s', q.key()), n)
        return Poly.atom(('s', self.key()), n)

    # ---- traversal
    def atoms(self, deep=True):
        out = set()
        for m in self.t:
            for x, e in m:
                out.add(x)
                if deep:
                    if x[0] == 's':
                        out |= Poly(dict(x[1])).atoms()
                    elif x[0] == 'f':
                        for k in x[2:]:
                            if isinstance(k, tuple):
                                try:
                                    out |= Poly(dict(k)).atoms()
                                except Exception:
                                    pass
        return out

    def subs(self, fn):
        """Replace atoms: fn(atom) -> Poly/number or None (keep)."""
        r = Poly()
        for m, c in self.t.items():
            p = Poly({(): c})
            keep = []
            for x, e in m:
                v = fn(x)
                if v is None and x[0] == 's':
                    q = Poly(dict(x[1]))
                    q2 = q.subs(fn)
                    if q2 != q:
                        v = q2
                if v is None:
                    keep.append((x, e))
                else:
                    p = p * Poly.lift(v) ** e
            r = r + p * Poly({tuple(keep): (F1, F0)})
        return r

    def expand(self):
        """Expand opaque sums that occur with non-negative integer power."""
        r = Poly()
        for m, c in self.t.items():
            p = Poly({(): c})
            keep = []
            for x, e in m:
                if x[0] == 's' and e >= 1:
                    k = int(e)
                    p = p * Poly(dict(x[1])).expand() ** k
                    if e - k:
                        keep.append((x, e - k))
                else:
                    keep.append((x, e))
            r = r + p * Poly({tuple(keep): (F1, F0)})
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=repr)[:12]:
            cs = cstr(c)
            ms = '*'.join(atom_str(x) + ('' if e == 1 else '^%s' % e) for x, e in m)
            out.append(cs if not ms else (ms if cs == '1' else cs + '*' + ms))
        s = ' + '.join(out)
        if len(self.t) > 12:
            s += ' + ...(%d terms)' % len(self.t)
        return s


def cstr(c):
    a, b = c
    if b == 0:
        return str(a)
    if a == 0:
        return '%si' % b
    return '(%s%+si)' % (a, b) if False else '(%s + %si)' % (a, b)


def atom_str(x):
    if x[0] == 'c':
        return x[1] + ('^*' if x[2] else '')
    if x[0] == 'p':
        return str(x[1])
    if x[0] == 's':
        return '(' + repr(Poly(dict(x[1]))) + ')'
    if x[0] == 'f':
        return x[1] + '(..)'
    return str(x[1])


def _akey(t):
    return repr(t)


_MM = {}


def _mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    k = (m1, m2)
    r = _MM.get(k)
    if r is not None:
        return r
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    f = Fraction(1)
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x[0] == 'p':
            k_ = e.numerator // e.denominator
            if k_:
                f *= Fraction(x[1]) ** k_
                e = e - k_
                if e == 0:
                    continue
        out.append((x, e))
    out.sort(key=_akey)
    r = (tuple(out), f)
    if len(_MM) < 2000000:
        _MM[k] = r
    return r


def _mono_poly(m):
    p = Poly({(): (F1, F0)})
    for x, e in m:
        mm, f = _mono_mul(((x, e),), (('_', 0), ) if False else ())
        if x[0] == 'p':
            k_ = e.numerator // e.denominator
            ff = Fraction(x[1]) ** k_
            e2 = e - k_
            q = Poly({(((x, e2),) if e2 else ()): (ff, F0)})
        else:
            q = Poly({((x, e),): (F1, F0)})
        p = p * q
    return p


def _rat_pow(a, n):
    r = Poly.const(1)
    for num, s in ((a.numerator, 1), (a.denominator, -1)):
        for p, k in _factor(num).items():
            e = Fraction(k) * n * s
            r = r * _mono_poly(((('p', p), e),))
    return r


def _normalize_sum(p):
    """p = c*q with q having leading coefficient 1 (sign kept positive for
    real leading coefficients)."""
    k = p.key()
    c = k[0][1]
    if c[1] == 0:
        c = (abs(c[0]), F0)
        return c, p * Poly.const(1 / c[0])
    return (F1, F0), p


def _conj_atom(x):
    if x[0] == 'c':
        return ('c', x[1], 1 - x[2])
    if x[0] == 's':
        return ('s', Poly(dict(x[1])).conj().key())
    if x[0] == 'f' and x[1] in ('abs', 'real', 'imag', 'norm'):
        return x
    if x[0] == 'f':
        ks = []
        for k in x[2:]:
            try:
                ks.append(Poly(dict(k)).conj().key())
            except Exception:
                ks.append(k)
        return ('f', x[1]) + tuple(ks)
    return x


# ------------------------------------------------------------------ identity testing
def _rnd(name, seed):
    import hashlib
    h = hashlib.sha256(('%s|%s' % (seed, name)).encode()).digest()
    return 0.3 + 1.4 * int.from_bytes(h[:7], 'big') / float(1 << 56)


def evalf(p, env=None, seed=0, _memo=None):
    """value of p at a point: env gives atoms by name, the others are generic
    (deterministic pseudo-random); constants when p has no atoms"""
    import math
    import cmath
    p = Poly.lift(p)
    memo = {} if _memo is None else _memo
    env = env or {}

    def atom(x):
        if x in memo:
            return memo[x]
        if x[0] == 'p':
            v = float(x[1])
        elif x[0] == 'r':
            v = env[x[1]] if x[1] in env else math.pi if x[1] == 'pi' else math.e if x[1] == 'euler' else _rnd(x[1], seed)
        elif x[0] == 'c':
            v = env[x[1]] if x[1] in env else complex(_rnd('re' + x[1], seed), _rnd('im' + x[1], seed) - 1)
            if x[2]:
                v = complex(v).conjugate()
        elif x[0] == 's':
            v = evalf(Poly(dict(x[1])), env, seed, memo)
        elif x[0] == 'f':
            args = []
            for k in x[2:]:
                try:
                    args.append(evalf(Poly(dict(k)), env, seed, memo))
                except (TypeError, ValueError):
                    args.append(k)
            fs = {'log': cmath.log, 'exp': cmath.exp, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan,
                  'arctan': cmath.atan, 'arcsin': cmath.asin, 'arccos': cmath.acos, 'sqrt': cmath.sqrt}
            if x[1] == 'pow' and len(args) == 2:
                v = complex(args[0]) ** args[1]
            elif x[1] in fs and all(isinstance(a, (int, float, complex)) for a in args):
                v = fs[x[1]](*args)
            else:
                v = complex(_rnd('re' + repr(x), seed), _rnd('im' + repr(x), seed))
        else:
            v = _rnd(repr(x), seed)
        memo[x] = v
        return v
    tot = 0
    for m, (a, b) in p.t.items():
        t = complex(float(a), float(b)) if b else float(a)
        for x, e in m:
            v = atom(x)
            t = t * (v ** int(e) if e.denominator == 1 else complex(v) ** float(e))
        tot = tot + t
    return complex(tot)


def magnitude(p, seed=0):
    tot = 0.0
    for m, c in Poly.lift(p).t.items():
        tot += abs(evalf(Poly({m: c}), seed=seed))
    return tot


def equal(a, b, points=3, tol=1e-9, env=None):
    """identity of two expressions: equal normal forms, or equal values at
    generic points (rational functions whose normal forms differ)"""
    a, b = Poly.lift(a), Poly.lift(b)
    if a == b:
        return True
    for s in range(points):
        x, y = evalf(a, env, seed=s), evalf(b, env, seed=s)
        if abs(x - y) > tol * (abs(x) + abs(y) + 1e-3 * (magnitude(a, s) + magnitude(b, s)) + 1e-300):
            return False
    return True
