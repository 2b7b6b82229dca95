"""Static analysis of the SMEFT beta function: the tensor-network normal form of
every returned entry, and the tables of its contraction types."""
from fractions import Fraction
from itertools import permutations
from .interp import *
from . import base, spec, tn
from .tn import TN
from .num import Poly

KEYS = list(spec.SMEFT_DIM4) + list(spec.SMEFT)


def fields(sym):
    if sym in spec.SMEFT_YUK:
        return spec.SMEFT_YUK[sym]
    if sym == 'X_qqql':
        return spec.SMEFT['qqql'][0]
    return spec.SMEFT[sym][0] if sym in spec.SMEFT else ()


def bar(f):
    return f[:-1] if f.endswith('~') else f + '~'


def cls(sym):
    if sym in spec.SMEFT_YUK:
        return 1
    if sym in spec.SMEFT_DIM4:
        return 0
    return 3 if sym == 'X_qqql' else spec.SMEFT[sym][1]


def syms(sym):
    if sym == 'δ':
        return [((0, 1), 0, 1), ((1, 0), 0, 1), ((0, 1), 1, 1), ((1, 0), 1, 1)]
    return spec.group(cls(sym), len(fields(sym)))


# ---- qqql: C = P X with X generic (P: projector on C_prst + C_rpst = C_sprt + C_srpt)
def _perm_mul(a, b):
    return tuple(a[i] for i in b)


def _qqql_projector():
    """element {perm: coef} of the S3 group algebra; image = kernel of the
    WCxf relation C_prs + C_rps - C_spr - C_srp = 0 (place action)."""
    import itertools
    G = list(permutations(range(3)))
    n = len(G)
    # T'[i] = sum_g c_g T[i[g]];  relation operator
    R = {(0, 1, 2): 1, (1, 0, 2): 1, (2, 0, 1): -1, (2, 1, 0): -1}

    def left(c):       # matrix of x -> c*x where (T[g])[h]...
        M = [[Fraction(0)] * n for _ in range(n)]
        for j, h in enumerate(G):
            for g, v in c.items():
                # (c.(h.T))[i] = sum c_g (h.T)[i∘g] = sum c_g T[i∘g∘h]
                k = tuple(g[x] for x in h)
                M[G.index(k)][j] += v
        return M
    A = left(R)
    # orthogonal projector on the kernel of A (acting on the group algebra),
    # applied to the identity element
    ker = _kernel(A)
    # Gram-Schmidt
    basis = []
    for v in ker:
        for b in basis:
            d = sum(x * y for x, y in zip(v, b)) / sum(y * y for y in b)
            v = [x - d * y for x, y in zip(v, b)]
        if any(v):
            basis.append(v)
    e = [Fraction(int(g == (0, 1, 2))) for g in G]
    out = [Fraction(0)] * n
    for b in basis:
        d = sum(x * y for x, y in zip(e, b)) / sum(y * y for y in b)
        out = [x + d * y for x, y in zip(out, b)]
    return {g: c for g, c in zip(G, out) if c}, R


def _kernel(A):
    A = [r[:] for r in A]
    n = len(A[0])
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        A[r] = [x / A[r][c] for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)] * n
        v[c] = Fraction(1)
        for i, p in enumerate(piv):
            v[p] = -A[i][c]
        out.append(v)
    return out


QQQL_P, QQQL_R = _qqql_projector()


def expand_qqql(terms):
    out = []
    todo = list(terms)
    while todo:
        c, f, o = todo.pop()
        for i, (s, j, l) in enumerate(f):
            if s == 'qqql':
                for g, v in QQQL_P.items():
                    todo.append((c * v, f[:i] + (('X_qqql', j, tuple(l[x] for x in g) + (l[3],)),) + f[i + 1:], o))
                break
        else:
            out.append((c, f, o))
    return out


def canon(terms):
    return tn.canon(expand_qqql(terms), syms)


def sym_inputs(keys=None):
    d = {}
    for k, (f, c) in spec.SMEFT.items():
        d[k] = Poly.real(k) if not f else TN.sym(k, len(f))
    for k in spec.SMEFT_DIM4:
        d[k] = TN.sym(k, 2) if k in spec.SMEFT_YUK else Poly.real(k)
    for k, v in d.items():
        if isinstance(v, TN):
            v.own = 'the input array C[%r]' % k
    D = ADict(d, own='the caller\'s Wilson coefficient dictionary')
    D.enum = True
    return D


class Beta:
    """beta() evaluated over the tensor-network domain"""

    def __init__(self, root='/repo', newphys=True):
        it = base.make(root, mode='tn')
        it.load('wilson')
        f = it.get('wilson.run.smeft.beta.beta')
        n0 = len(it.issues), len(it.effects)
        self.it = it
        C = sym_inputs()
        kw = {} if newphys else {'newphys': False}
        r = it.call(f, [C], kw)
        self.func = f
        self.path = f.module.path if hasattr(f.module, 'path') else 'wilson/run/smeft/beta.py'
        self.issues = it.issues[n0[0]:]
        self.effects = it.effects[n0[1]:]
        self.res = r
        self.out = {}
        self.bad = {}
        for k, v in r.d.items():
            if isinstance(v, TN):
                self.out[k] = v
            elif is_num(v):
                self.out[k] = TN.scalar(norm(v) if not isinstance(v, Poly) else v)
            elif isinstance(v, Arr) and k in KEYS and tuple(v.shape) == (3,) * len(fields(k)) and \
                    all(is_num(x) and Poly.lift(norm(x)).is_zero() for x in v.vals()):
                self.out[k] = TN.zeros(len(v.shape)) if v.shape else TN.scalar(Poly())
            else:
                self.bad[k] = v
        self.canon = {}

    def can(self, k):
        if k not in self.canon:
            self.canon[k] = canon(self.out[k].terms)
        return self.canon[k]
