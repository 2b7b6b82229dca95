"""Reference tables: exact formulas (Poly) in a diffable form under /verif/ref.

A table maps a construct to an abstract scalar.  `same` decides equality of two
formulas: first structurally, then by polynomial identity testing (the two
*formulas* are evaluated at generic complex points; nothing of the package runs)."""
import cmath
import gzip
import json
import math
import os
import random
from fractions import Fraction
from .num import Poly

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')


def enc(x):
    if isinstance(x, Poly):
        return ['P', [[enc(m), str(c[0]), str(c[1])] for m, c in sorted(x.t.items(), key=repr)]]
    if isinstance(x, Fraction):
        return ['F', str(x)]
    if isinstance(x, tuple):
        return ['T'] + [enc(y) for y in x]
    return x


def dec(x):
    if isinstance(x, list):
        if x[0] == 'P':
            return Poly({dec(m): (Fraction(a), Fraction(b)) for m, a, b in x[1]})
        if x[0] == 'F':
            return Fraction(x[1])
        if x[0] == 'T':
            return tuple(dec(y) for y in x[1:])
    return x


def save(name, table):
    os.makedirs(DIR, exist_ok=True)
    s = json.dumps({k: enc(v) for k, v in table.items()}, indent=0, sort_keys=True, ensure_ascii=False)
    with open(os.path.join(DIR, name + '.json.gz'), 'wb') as fh:
        with gzip.GzipFile(fileobj=fh, mode='wb', mtime=0) as g:
            g.write(s.encode())


def load(name):
    with gzip.open(os.path.join(DIR, name + '.json.gz'), 'rt', encoding='utf-8') as fh:
        return {k: dec(v) for k, v in json.load(fh).items()}


# ------------------------------------------------------------ identity testing
class Undefined(Exception):
    pass


def _val(atom, pt):
    v = pt.get(atom)
    if v is not None:
        return v
    r = random.Random(repr(atom[:2]))
    k = pt['seed']
    for _ in range(k):
        r.random()
    if atom[0] == 'c':
        z = complex(r.uniform(0.4, 1.6), r.uniform(-1.2, 1.2))
        v = z.conjugate() if atom[2] else z
    elif atom[0] == 'p':
        v = float(atom[1])
    elif atom[0] == 's':
        v = ev(Poly(dict(atom[1])), pt)
    elif atom[0] == 'f':
        v = _func(atom, pt)
    elif atom[0] == 'r':
        v = {'pi': math.pi, 'π': math.pi}.get(atom[1], r.uniform(0.3, 2.3))
    else:
        v = r.uniform(0.3, 2.3)
    pt[atom] = v
    return v


def _func(atom, pt):
    args = []
    for k in atom[2:]:
        if isinstance(k, tuple):
            try:
                args.append(ev(Poly(dict(k)), pt))
                continue
            except (TypeError, ValueError):
                pass
        args.append(k)
    f = {'log': cmath.log, 'sqrt': cmath.sqrt, 'exp': cmath.exp, 'sin': cmath.sin, 'cos': cmath.cos,
         'abs': abs, 'tan': cmath.tan, 'atan': cmath.atan, 'acos': cmath.acos, 'asin': cmath.asin}.get(atom[1])
    if f and len(args) == 1 and isinstance(args[0], (int, float, complex)):
        try:
            return f(args[0])
        except (ValueError, ZeroDivisionError):
            raise Undefined()
    if atom[1] == 'real' and isinstance(args[0], complex):
        return args[0].real
    if atom[1] == 'imag' and isinstance(args[0], complex):
        return args[0].imag
    # an opaque function: a value that depends on the values of its arguments
    h = ','.join('%.9g%+.9gj' % (complex(a).real, complex(a).imag) if isinstance(a, (int, float, complex)) else repr(a)
                 for a in args)
    return random.Random(atom[1] + h).uniform(0.3, 2.3)


def ev(p, pt):
    s = 0
    for m, c in p.t.items():
        v = complex(float(c[0]), float(c[1]))
        for x, e in m:
            b = _val(x, pt)
            try:
                v *= b ** (int(e) if Fraction(e).denominator == 1 else float(e))
            except ZeroDivisionError:
                raise Undefined()
        s += v
    return s


def _mag(p, pt):
    s = 0
    for m, c in p.t.items():
        v = abs(complex(float(c[0]), float(c[1])))
        for x, e in m:
            v *= abs(_val(x, pt)) ** float(e)
        s += v
    return s


def same(a, b, points=3):
    a, b = Poly.lift(a), Poly.lift(b)
    if a == b:
        return True
    pure = all(x[0] in ('r', 'c', 'p') for p in (a, b) for m in p.t for x, e in m)
    if pure and not any(x[0] == 'p' for p in (a, b) for m in p.t for x, e in m):
        # normal forms differ; only rounding of decimal literals may be forgiven
        d = a - b
        for m, c in d.t.items():
            ref = max([abs(complex(float(x[0]), float(x[1]))) for x in (a.t.get(m), b.t.get(m)) if x] or [0])
            if abs(complex(float(c[0]), float(c[1]))) > 1e-12 * ref:
                return False
        return True
    good = 0
    for k in range(points + 6):
        pt = {'seed': k}
        try:
            va, vb = ev(a, pt), ev(b, pt)
            m = max(_mag(a, pt), _mag(b, pt), 1e-300)
        except (Undefined, ZeroDivisionError, OverflowError):
            continue
        if abs(va - vb) > 1e-9 * m:
            return False
        good += 1
        if good == points:
            return True
    return good > 0


def compare(ctx, rule, name, got, where, cap=400):
    """every entry of the extracted table equals the reference formula"""
    want = load(name)
    for k in sorted(set(want) | set(got)):
        g, w = got.get(k), want.get(k)
        if g is None or w is None:
            ok = Poly.lift(g if w is None else w).is_zero()
        else:
            ok = same(g, w)
        ctx.obl(rule, k, ok, '%s: the code gives %s, the reference formula is %s' % (
            k, '0' if g is None else repr(Poly.lift(g))[:cap], '0' if w is None else repr(w)[:cap]), where(k),
            sample='%s = %s' % (k, repr(Poly.lift(g if g is not None else 0))[:120]))
