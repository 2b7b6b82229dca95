"""Lagrangian bookkeeping: what an array of coefficients with redundant entries
means in terms of the non-redundant operators."""
import itertools
from fractions import Fraction
from . import spec
from .num import Poly

DIM = {'u': 2, 'd': 3, 'e': 3, 'n': 3, 'q': 3, 'l': 3}


def ops(eft, root):
    """operator -> (dims, class)"""
    out = {}
    if eft == 'SMEFT':
        for k, (f, c) in spec.SMEFT.items():
            out[k] = ((3,) * len(f), c)
        return out
    for s, d in spec.jms_sectors(root).items():
        for n in d:
            op = n.split('_')[0]
            if op in out:
                continue
            f = spec.jms_fields(op)
            if op in spec.BNV_LEPTON:
                f = f + (spec.BNV_LEPTON[op],)
            out[op] = (tuple(DIM[x.rstrip('~')] for x in f), spec.jms_class(op))
    return out


def orbits(dims, cls):
    """list of (members {idx: set of (conj, sign)}, rep, real, zero)"""
    g = spec.group(cls, len(dims))
    seen = set()
    out = []
    for idx in itertools.product(*[range(d) for d in dims]):
        if idx in seen:
            continue
        orb = {}
        for p, c, s in g:
            t = tuple(idx[k] for k in p)
            orb.setdefault(t, set()).add((c, s))
        seen |= set(orb)
        zero = any({(0, 1), (0, -1)} <= v for v in orb.values())
        out.append((orb, idx, (1, 1) in orb[idx], zero))
    return out


def relation8():
    """Q_prs + Q_rps = Q_spr + Q_srp: express every Q_prs through the 19 representatives"""
    idx = list(itertools.product(range(3), repeat=3))
    reps = spec.qqql_reps()
    others = [i for i in idx if i not in reps]
    # unknowns: others; equations
    rows = []
    for p, r, s in idx:
        row = {}
        for t, c in (((p, r, s), 1), ((r, p, s), 1), ((s, p, r), -1), ((s, r, p), -1)):
            row[t] = row.get(t, 0) + c
        row = {k: Fraction(v) for k, v in row.items() if v}
        if row:
            rows.append(row)
    sol = {}
    for o in others:
        piv = next((r for r in rows if r.get(o)), None)
        if piv is None:
            raise AssertionError(o)
        rows.remove(piv)
        f = piv[o]
        piv = {k: v / f for k, v in piv.items()}
        new = []
        for r in rows:
            if r.get(o):
                h = r[o]
                r = dict(r)
                for k, v in piv.items():
                    r[k] = r.get(k, 0) - h * v
                r = {k: v for k, v in r.items() if v}
            if r:
                new.append(r)
        rows = new
        for k in list(sol):
            if sol[k].get(o):
                h = sol[k][o]
                q = dict(sol[k])
                for kk, v in piv.items():
                    q[kk] = q.get(kk, 0) - h * v
                sol[k] = {a: b for a, b in q.items() if b}
        sol[o] = piv
    out = {}
    for i in reps:
        out[i] = {i: Fraction(1)}
    for o in others:
        out[o] = {k: -v for k, v in sol[o].items() if k != o}
        assert all(k in reps for k in out[o])
    return out


REL8 = relation8()
