"""Independent specification data: operator content of the Warsaw and JMS bases.

wilson/wcxf/bases is an (empty) git submodule, so the basis files are not part
of the tree; the operator lists below restate the WCxf definitions: operator
name -> (field content of its flavour indices, symmetry class).

Flavour index field letters: q u d l e (SMEFT weak eigenstates); a trailing
'~' marks an index that transforms like the barred field (bra).
"""
import itertools
import json
import os

# name: (index fields, class); class ids are the documented ones of EFTutil
SMEFT_0F_CPEVEN = ['G', 'W', 'phi', 'phiBox', 'phiD', 'phiG', 'phiW', 'phiB', 'phiWB']
SMEFT_0F_CPODD = ['Gtilde', 'Wtilde', 'phiGtilde', 'phiWtilde', 'phiBtilde', 'phiWtildeB']
_S2 = {
    'uphi': ('q~', 'u'), 'dphi': ('q~', 'd'), 'ephi': ('l~', 'e'),
    'uG': ('q~', 'u'), 'uW': ('q~', 'u'), 'uB': ('q~', 'u'),
    'dG': ('q~', 'd'), 'dW': ('q~', 'd'), 'dB': ('q~', 'd'),
    'eW': ('l~', 'e'), 'eB': ('l~', 'e'), 'phiud': ('u~', 'd'),
}
_S2H = {'phil1': 'l', 'phil3': 'l', 'phie': 'e', 'phiq1': 'q', 'phiq3': 'q', 'phiu': 'u', 'phid': 'd'}
_S4 = {'ll': 'l', 'qq1': 'q', 'qq3': 'q', 'uu': 'u', 'dd': 'd'}
_S6 = {'ee': 'e'}
_S5 = {'lq1': 'lq', 'lq3': 'lq', 'eu': 'eu', 'ed': 'ed', 'ud1': 'ud', 'ud8': 'ud', 'le': 'le', 'lu': 'lu',
       'ld': 'ld', 'qe': 'qe', 'qu1': 'qu', 'qu8': 'qu', 'qd1': 'qd', 'qd8': 'qd'}
_S3 = {'ledq': ('l~', 'e', 'd~', 'q'), 'lequ1': ('l~', 'e', 'q~', 'u'), 'lequ3': ('l~', 'e', 'q~', 'u'),
       'quqd1': ('q~', 'u', 'q~', 'd'), 'quqd8': ('q~', 'u', 'q~', 'd'),
       'duql': ('d', 'u', 'q', 'l'), 'duue': ('d', 'u', 'u', 'e')}
SMEFT = {}
for _k in SMEFT_0F_CPEVEN + SMEFT_0F_CPODD:
    SMEFT[_k] = ((), 0)
for _k, _v in _S2.items():
    SMEFT[_k] = (_v, 1)
for _k, _f in _S2H.items():
    SMEFT[_k] = ((_f + '~', _f), 2)
for _k, _f in _S4.items():
    SMEFT[_k] = ((_f + '~', _f, _f + '~', _f), 4)
for _k, _f in _S6.items():
    SMEFT[_k] = ((_f + '~', _f, _f + '~', _f), 6)
for _k, _f in _S5.items():
    SMEFT[_k] = ((_f[0] + '~', _f[0], _f[1] + '~', _f[1]), 5)
for _k, _v in _S3.items():
    SMEFT[_k] = (_v, 3)
SMEFT['qque'] = (('q', 'q', 'u', 'e'), 7)
SMEFT['qqql'] = (('q', 'q', 'q', 'l'), 8)
SMEFT['llphiphi'] = (('l', 'l'), 9)
# the order in which the WCxf basis file lists the operators
_ORDER = '''G Gtilde W Wtilde phi phiBox phiD phiG phiB phiW phiWB phiGtilde phiBtilde phiWtilde phiWtildeB
uphi dphi ephi eW eB uG uW uB dG dW dB phil1 phil3 phie phiq1 phiq3 phiu phid phiud llphiphi
ll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8 ledq quqd1 quqd8 lequ1 lequ3
duql qque qqql duue'''.split()
assert sorted(_ORDER) == sorted(SMEFT)
SMEFT = {k: SMEFT[k] for k in _ORDER}
# dimension-4 parameters: mass dimension and index structure
SMEFT_DIM4 = {'g': 0, 'gp': 0, 'gs': 0, 'Lambda': 0, 'm2': 2, 'Gu': 0, 'Gd': 0, 'Ge': 0}
SMEFT_YUK = {'Gu': ('q~', 'u'), 'Gd': ('q~', 'd'), 'Ge': ('l~', 'e')}


def group(cls, rank):
    """symmetry group of a class: list of (perm, conj flag, sign) with
    T[i] == sign * conj^flag(T[perm(i)])   (classes with non-trivial linear
    relations -- 8 -- are not expressible this way)."""
    I2, I4 = (0, 1), (0, 1, 2, 3)
    return {0: [((), 0, 1)], 1: [(I2, 0, 1)], 2: [(I2, 0, 1), ((1, 0), 1, 1)], 9: [(I2, 0, 1), ((1, 0), 0, 1)],
            3: [(I4, 0, 1)],
            4: [(I4, 0, 1), ((2, 3, 0, 1), 0, 1), ((1, 0, 3, 2), 1, 1), ((3, 2, 1, 0), 1, 1)],
            41: [(I4, 0, 1), ((2, 3, 0, 1), 0, 1)],
            5: [(I4, 0, 1), ((1, 0, 3, 2), 1, 1)],
            6: [(I4, 0, 1), ((2, 3, 0, 1), 0, 1), ((2, 1, 0, 3), 0, 1), ((0, 3, 2, 1), 0, 1),
                ((1, 0, 3, 2), 1, 1), ((3, 2, 1, 0), 1, 1), ((1, 2, 3, 0), 1, 1), ((3, 0, 1, 2), 1, 1)],
            7: [(I4, 0, 1), ((1, 0, 2, 3), 0, 1)],
            71: [(I4, 0, 1), ((1, 0, 2, 3), 0, -1)],
            8: [(I4, 0, 1)]}[cls]


def qqql_reps(n=3):
    out = []
    for i in range(n):
        out.append((i, i, i))
    for i in range(n):
        for j in range(i + 1, n):
            out += [(i, i, j), (i, j, i), (i, j, j), (j, i, j)]
    out += [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0)]
    return out


def nonredundant(cls, dims):
    """list of (index tuple 0-based, is_real) of the WCxf-style basis"""
    r = len(dims)
    if cls == 8:
        return [(t + (l,), False) for t in qqql_reps() for l in range(dims[3])]
    out = []
    g = group(cls, r)
    for idx in itertools.product(*[range(d) for d in dims]):
        orb = {}
        zero = False
        for p, c, s in g:
            t = tuple(idx[k] for k in p)
            orb.setdefault(t, set()).add((c, s))
        if any({(0, 1), (0, -1)} <= v for v in orb.values()):
            zero = True
        if zero or idx != min(orb):
            continue
        real = (1, 1) in orb[idx]
        out.append((idx, real))
    return out


def wcname(k, idx):
    return k if not idx else k + '_' + ''.join(str(i + 1) for i in idx)


def smeft_basis(dim=3):
    d = {}
    for k, (f, c) in SMEFT.items():
        if c == 0:
            d[k] = {'real': True}
            continue
        for idx, real in nonredundant(c, (3,) * len(f)):
            d[wcname(k, idx)] = {'real': True} if real else {}
    return d


# ---------------------------------------------------------------- WET / JMS
JMS_CLASS = {}


def jms_class(name):
    base = name
    if base in ('G', 'Gtilde'):
        return 0
    if base in ('egamma', 'uG', 'dG', 'ugamma', 'dgamma'):
        return 1
    if base in ('S1udRR', 'S1udduRR', 'S8udRR', 'S8udduRR', 'SedRL', 'SedRR', 'SeuRL', 'SeuRR', 'SnueduRL',
                'SnueduRR', 'TedRR', 'TeuRR', 'TnueduRR', 'V1udduLR', 'V8udduLR', 'VnueduLL', 'VnueduLR',
                'SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR'):
        return 3
    if base in ('VuuRR', 'VddRR', 'VuuLL', 'VddLL'):
        return 4
    if base in ('S1ddRR', 'S1uuRR', 'S8uuRR', 'SeeRR', 'S8ddRR'):
        return 41
    if base in ('VeeLL', 'VeeRR', 'VnunuLL'):
        return 6
    if base in ('SuudLR', 'SuudRL', 'SdduRL'):
        return 71
    return 5


def jms_fields(name):
    """flavour index letters (u d e n) of a JMS operator, conj marks '~' on barred fields"""
    b = name
    if b in ('G', 'Gtilde'):
        return ()
    if b in ('egamma', 'uG', 'dG', 'ugamma', 'dgamma'):
        return (b[0] + '~', b[0])
    core = b
    for p in ('S1', 'S8', 'V1', 'V8', 'S', 'V', 'T'):
        if core.startswith(p):
            core = core[len(p):]
            break
    core = core[:-2]
    bnv = b in ('SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR', 'SuudLR', 'SuudRL', 'SdduRL')
    f = []
    while core:
        if core.startswith('nu'):
            f.append('n')
            core = core[2:]
        else:
            f.append(core[0])
            core = core[1:]
    if bnv:
        return tuple(f)          # three quarks; lepton index added by the caller
    if len(f) == 2:
        return (f[0] + '~', f[0], f[1] + '~', f[1])
    return (f[0] + '~', f[1], f[2] + '~', f[3])


BNV_LEPTON = {'SuddLL': 'n', 'SdudRL': 'n', 'SdduRL': 'n', 'SduuLL': 'e', 'SduuLR': 'e', 'SduuRL': 'e',
              'SduuRR': 'e', 'SuudLR': 'e', 'SuudRL': 'e'}


def jms_real(name):
    op, _, ind = name.partition('_')
    c = jms_class(op)
    if c == 0:
        return True
    if not ind:
        return False
    i = tuple(int(x) for x in ind)
    if len(i) != 4:
        return False
    for p, cf, s in group(c, 4):
        if cf and tuple(i[k] for k in p) == i and s == 1:
            return True
    return False


def load_coeffs(root=None):
    """sectors of the WET and their operators in the JMS basis (specification)"""
    import gzip
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'wet_sectors.json.gz')
    with gzip.open(p, 'rt', encoding='utf-8') as f:
        return json.load(f)


def quark_ok(name, f):
    """operator component exists in the f-flavour WET"""
    op, _, ind = name.partition('_')
    if not ind:
        return True
    fl = jms_fields(op)
    if op in BNV_LEPTON:
        fl = fl + (BNV_LEPTON[op],)
    for x, i in zip(fl, ind):
        x = x.rstrip('~')
        if x == 'd' and i == '3' and f < 5:
            return False
        if x == 'u' and i == '2' and f < 4:
            return False
        if x == 'd' and i == '2' and f < 3:
            return False
        if x == 'u' and i == '1' and f < 1:
            return False
    return True


def jms_sectors(root, f=5):
    out = {}
    for s, l in load_coeffs(root).items():
        out[s] = {n: ({'real': True} if jms_real(n) else {}) for n in l if quark_ok(n, f)}
        if not out[s]:
            del out[s]
    return out
