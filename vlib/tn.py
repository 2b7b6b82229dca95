"""Tensor-network domain: flavour tensors as sums of index-contracted products
of named tensors.  The elements of the tensors stay opaque; what the analysis
tracks is which index of which tensor is contracted with which."""
from fractions import Fraction
import itertools
from .num import Poly

_ctr = itertools.count(1)


def fresh():
    return next(_ctr)


class TN:
    """rank-r tensor = sum of terms (coef Poly, factors, outs);
    factor = (symbol, conj 0|1, labels); outs = tuple of labels."""
    __slots__ = ('rank', 'terms', 'pos', 'own')

    def __init__(self, rank, terms):
        self.rank = rank
        self.terms = terms
        self.pos = None
        self.own = None

    @staticmethod
    def sym(name, rank):
        ls = tuple(fresh() for _ in range(rank))
        return TN(rank, [(Poly.const(1), ((name, 0, ls),), ls)])

    @staticmethod
    def zeros(rank):
        return TN(rank, [])

    @staticmethod
    def eye():
        a, b = fresh(), fresh()
        return TN(2, [(Poly.const(1), (('δ', 0, (a, b)),), (a, b))])

    @staticmethod
    def scalar(p):
        return TN(0, [(Poly.lift(p), (), ())])

    def copy(self):
        return TN(self.rank, list(self.terms))

    def conj(self):
        return TN(self.rank, [(c.conj(), tuple((s, 1 - j, l) for s, j, l in f), o)
                              for c, f, o in self.terms])

    def scale(self, p):
        p = Poly.lift(p)
        if p.is_zero():
            return TN(self.rank, [])
        return TN(self.rank, [(c * p, f, o) for c, f, o in self.terms])

    def __neg__(self):
        return self.scale(-1)

    def transpose(self, perm):
        return TN(self.rank, [(c, f, tuple(o[i] for i in perm)) for c, f, o in self.terms])

    def add(self, other):
        if self.rank != other.rank:
            raise RankError('sum of rank-%d and rank-%d tensors' % (self.rank, other.rank))
        return TN(self.rank, self.terms + other.terms)

    def relabel(self):
        """fresh copy of labels per term"""
        out = []
        for c, f, o in self.terms:
            m = {}
            def g(l):
                if l not in m:
                    m[l] = fresh()
                return m[l]
            out.append((c, tuple((s, j, tuple(g(x) for x in l)) for s, j, l in f),
                        tuple(g(x) for x in o)))
        return out

    def is_zero(self):
        return not self.terms


class RankError(Exception):
    pass


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(x for x in set(letters) if letters.count(x) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise RankError('einsum %r has %d subscripts for %d operands' % (spec, len(ins), len(ops)))
    for s, o in zip(ins, ops):
        if len(s) != o.rank:
            raise RankError('einsum subscript %r for rank-%d tensor' % (s, o.rank))
    if any(x not in ''.join(ins) for x in out):
        raise RankError('einsum %r: output label not in input' % spec)
    acc = [(Poly.const(1), (), {})]
    for s, o in zip(ins, ops):
        new = []
        for c0, f0, lm in acc:
            for c, f, outs in o.relabel():
                lm2 = dict(lm)
                ren = {}
                for ch, lab in zip(s, outs):
                    lab = _res(ren, lab)
                    if ch in lm2:
                        tgt = _res(ren, lm2[ch])
                        if tgt != lab:
                            ren[lab] = tgt
                    else:
                        lm2[ch] = lab
                lm2 = {k: _res(ren, v) for k, v in lm2.items()}
                ff = f0 + f
                if ren:
                    ff = tuple((a, j, tuple(_res(ren, x) for x in l)) for a, j, l in ff)
                new.append((c0 * c, ff, lm2))
        acc = new
    terms = []
    for c, f, lm in acc:
        if c.is_zero():
            continue
        terms.append((c, f, tuple(lm[x] for x in out)))
    return TN(len(out), terms)


def _res(ren, x):
    while x in ren:
        x = ren[x]
    return x


_L = 'abcdefghijklmnopqrstuvwxyz'


def matmul(a, b):
    if a.rank == 2 and b.rank == 2:
        return einsum('ab,bc->ac', [a, b])
    if a.rank == 2 and b.rank == 1:
        return einsum('ab,b->a', [a, b])
    if a.rank == 1 and b.rank == 2:
        return einsum('a,ab->b', [a, b])
    if a.rank == 1 and b.rank == 1:
        return einsum('a,a->', [a, b])
    raise RankError('matmul of ranks %d,%d' % (a.rank, b.rank))


def mul(a, b):
    """numpy elementwise product"""
    if a.rank == 0 or b.rank == 0:
        la, lb = _L[:a.rank], _L[:b.rank]
        return einsum('%s,%s->%s' % (la, lb, la + lb), [a, b])
    r = max(a.rank, b.rank)
    la = _L[r - a.rank:r]
    lb = _L[r - b.rank:r]
    return einsum('%s,%s->%s' % (la, lb, _L[:r]), [a, b])


# ------------------------------------------------------------------ analysis
def simplify_deltas(terms):
    """contract δ factors that have an internal label"""
    out = []
    for c, f, o in terms:
        f = list(f)
        changed = True
        while changed:
            changed = False
            for i, (s, j, l) in enumerate(f):
                if s != 'δ':
                    continue
                a, b = l
                if a == b:
                    if a not in o and not any(a in g[2] for k, g in enumerate(f) if k != i):
                        del f[i]
                        c = c * 3
                        changed = True
                        break
                    continue
                # replace an internal label
                for x, y in ((a, b), (b, a)):
                    if x not in o:
                        del f[i]
                        f = [(s2, j2, tuple(y if q == x else q for q in l2)) for s2, j2, l2 in f]
                        changed = True
                        break
                if changed:
                    break
        out.append((c, tuple(f), o))
    return out


def canon(terms, syms=None):
    """Canonical form: dict {(outs, factors): Poly}.
    ``syms(symbol)`` yields the symmetry group of a symbol: list of
    (perm, conjflag, sign) meaning T[conj^c][labels] == sign*T[conj^(c^flag)][perm(labels)]
    (must contain the identity)."""
    res = {}
    for c, f, o in simplify_deltas(terms):
        if c.is_zero():
            continue
        key, sign = canon_term(f, o, syms)
        p = c * sign
        if key in res:
            q = res[key] + p
            if q.is_zero():
                del res[key]
            else:
                res[key] = q
        elif not p.is_zero():
            res[key] = p
    return res


_CT = {}


def canon_term(f, o, syms):
    # normalise labels first so that memoisation works
    m = {}
    for x in o:
        m.setdefault(x, len(m))
    f = sorted(f, key=lambda t: (t[0], t[1]))
    for s, j, l in f:
        for x in l:
            m.setdefault(x, len(m))
    f = tuple((s, j, tuple(m[x] for x in l)) for s, j, l in f)
    o = tuple(m[x] for x in o)
    k = (f, o, id(syms))
    r = _CT.get(k)
    if r is None:
        r = _canon_term(f, o, syms)
        _CT[k] = r
    return r


def _canon_term(f, o, syms):
    groups = []
    for s, j, l in f:
        alts = []
        for perm, fl, sg in (syms(s) if syms else [(tuple(range(len(l))), 0, 1)]):
            alts.append(((s, j ^ fl, tuple(l[i] for i in perm)), sg))
        groups.append(alts)
    best = None
    nout = len(set(o))
    # choose for each factor an alternative and an order: search with pruning by
    # building the canonical sequence greedily over all orders (few factors).
    import sys
    n = len(f)

    def rec(seq, sign, used, lab, nxt):
        nonlocal best
        if best is not None:
            pre = best[0][:len(seq)]
            if tuple(seq) > pre:
                return
        if len(seq) == n:
            t = tuple(seq)
            if best is None or t < best[0]:
                best = (t, sign)
            return
        cands = []
        for i in range(n):
            if used & (1 << i):
                continue
            for fac, sg in groups[i]:
                l2 = dict(lab)
                nx = nxt
                ls = []
                for x in fac[2]:
                    if x not in l2:
                        l2[x] = nx
                        nx += 1
                    ls.append(l2[x])
                cands.append(((tuple(ls), fac[0], fac[1]), i, sg, l2, nx))
        mn = min(c[0] for c in cands)
        for c in cands:
            if c[0] == mn:
                rec(seq + [c[0]], sign * c[2], used | (1 << c[1]), c[3], c[4])

    lab = {}
    for x in o:
        if x not in lab:
            lab[x] = len(lab)
    rec([], 1, 0, lab, len(lab))
    t, sign = best if best is not None else ((), 1)
    return (tuple(lab[x] for x in o), t), sign


def term_str(key):
    outs, fac = key
    L = 'rstpqvwxyzabcdefgh'
    g = lambda ls: ''.join(L[i % len(L)] for i in ls)
    return ' '.join('%s%s[%s]' % (s, '*' if j else '', g(l)) for l, s, j in fac) + ' ->' + g(outs)
