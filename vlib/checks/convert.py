"""I-series: converters to and from the formats of other codes."""
import itertools
import json
import re
from ..core import prop, NoAnswer, REPO
from ..interp import *
from .. import base, libmodel, spec, lagr
from ..num import Poly
from . import wcxf as wx

I_ = Poly.const(0, 1)
EOS = 'wilson/wcxf/converters/eos.py'


def load(ctx, mod, file, positive=('scale', 'lambda')):
    it = base.make(REPO, mode='arr')
    base.generic_position(it, positive=positive)
    m = it.load(mod)
    ctx.use(file)
    return it, m.env.v


def wcobj(it, eft, basis, scale, d):
    """a WC object whose cached dictionary is d"""
    W = it.load('wilson.wcxf.classes').env.v['WC']
    w = it.call(W, [eft, basis, scale, ADict({})], {})
    vals = {}
    for k, v in d.items():
        v = Poly.lift(v)
        vals[k] = ADict({'Re': norm(v.re()), 'Im': norm(v.im())}) if not (v.conj() == v) else norm(v)
    w.attrs['values'] = ADict(vals)
    return w


def num(v):
    v = norm(v)
    return Poly.lift(v) if is_num(v) else None


@prop('I01', 'proof', 'abstract interpretation of the EOS conversion with symbolic coefficients for every kind of parameter name')
def i01(ctx):
    it, ns = load(ctx, 'wilson.wcxf.converters.eos', EOS)
    T = wx.Texts()
    T.install(it)
    f = ns.get('wcxf2eos')
    if not isinstance(f, AFunc):
        raise NoAnswer('wcxf2eos not found')
    W = EOS + ':wcxf2eos'
    z = Poly.cplx('z')
    y = Poly.cplx('y')
    o = Poly.cplx('other')
    a, b = Poly.real('a'), Poly.real('b')

    def conv(names, d):
        """-> dict or exception name"""
        sm = ADict({n: ADict({'central': Poly.real('sm' + n), 'min': Poly.real('lo' + n), 'max': Poly.real('hi' + n)}) for n in names},
                   own='the SM values')
        w = wcobj(it, 'WET', 'EOS', Poly.real('scale'), d)
        w.attrs['values'].own = 'the input coefficients'
        it.effects.clear()
        try:
            out = it.call(f, [w, sm], {})
        except RaiseSig as e:
            return e.etype
        ctx.obl('input-unchanged', '%s' % (sorted(d),), not it.effects, '%s modified' % [e[0] for e in it.effects], W)
        return out

    def check(what, names, d, want):
        out = conv(names, d)
        ok = isinstance(out, ADict) and list(out.d) == list(names)
        ctx.obl('keys', what, ok, 'the result is %r' % (out,), W)
        if not ok:
            return
        for n in names:
            x = out.get(n)
            for q in ('central', 'min', 'max'):
                got = num(x.get(q)) if isinstance(x, ADict) else None
                exp = Poly.real('sm' + n) + Poly.lift(want[n])
                ctx.obl('value', '%s %s %s' % (what, n, q), got is not None and got == exp,
                        '%s of %s is %r instead of %r' % (q, n, got, exp), W, sample='%s %s' % (what, n))
    names = ['b->s::c5', 'b->s::Re{c7}', 'b->s::Im{c7}', "b->smumu::Re{c9'}", "b->smumu::Im{c9'}", 'b->ulnu::Re{cVL}',
             'b->ulnu::Im{cVL}', 'b->clnu::Re{cT}', 'b->clnu::Im{cT}', "sbsb::Re{c1'}", 'x::c12']
    zero = dict.fromkeys(names, 0)
    check('no coefficients', names, {}, zero)
    check('unrelated', names, {'b->s::c8': z, 'b->d::c7': y}, zero)
    check('SM only', [], {'b->s::c7': z}, {})
    for part in (a, a + I_ * b, I_ * b, -a - I_ * b, z):
        check('real name %r' % part, names, {'b->s::c5': part}, dict(zero, **{'b->s::c5': part.re()}))
        check('complex name %r' % part, names, {'b->s::c7': part},
              dict(zero, **{'b->s::Re{c7}': part.re(), 'b->s::Im{c7}': part.im()}))
        check('primed name %r' % part, names, {"b->smumu::c9'": part, 'b->smumu::c9': o},
              dict(zero, **{"b->smumu::Re{c9'}": part.re(), "b->smumu::Im{c9'}": part.im()}))
        for x in ('u', 'c'):
            op = 'cVL' if x == 'u' else 'cT'
            check('universal %s %r' % (x, part), names, {'b->%senue::%s' % (x, op): part, 'b->%smunumu::%s' % (x, op): part,
                                                         'b->%senue::cXX' % x: o},
                  dict(zero, **{'b->%slnu::Re{%s}' % (x, op): part.re(), 'b->%slnu::Im{%s}' % (x, op): part.im()}))
            check('universal named %s %r' % (x, part), names, {'b->%slnu::%s' % (x, op): part},
                  dict(zero, **{'b->%slnu::Re{%s}' % (x, op): part.re(), 'b->%slnu::Im{%s}' % (x, op): part.im()}))
    check('all', names, {'b->s::c5': a, 'b->s::c7': z, "b->smumu::c9'": y, 'b->uenue::cVL': o, 'b->umunumu::cVL': o, 'x::c12': b},
          dict(zero, **{'b->s::c5': a, 'b->s::Re{c7}': z.re(), 'b->s::Im{c7}': z.im(), "b->smumu::Re{c9'}": y.re(),
                        "b->smumu::Im{c9'}": y.im(), 'b->ulnu::Re{cVL}': o.re(), 'b->ulnu::Im{cVL}': o.im(), 'x::c12': b}))
    # a coefficient stored with the value zero is the same as one left out
    check('zero for electrons', names, {'b->uenue::cVL': Poly(), 'b->s::c7': z},
          dict(zero, **{'b->s::Re{c7}': z.re(), 'b->s::Im{c7}': z.im()}))
    check('zero for muons', names, {'b->umunumu::cVL': Poly(), 'b->s::c7': z},
          dict(zero, **{'b->s::Re{c7}': z.re(), 'b->s::Im{c7}': z.im()}))
    # non-universal input is refused for the real and for the imaginary part
    for lab, p, q in (('different', z, y), ('only electrons', z, None), ('only muons', None, z), ('different imaginary part', a + I_ * b, a - I_ * b),
                      ('different real part', a + I_ * b, -a + I_ * b), ('only imaginary', I_ * b, None), ('real and zero', a, Poly()),
                      ('zero and imaginary', Poly(), I_ * a)):
        for n in ('b->ulnu::Re{cVL}', 'b->ulnu::Im{cVL}'):
            d = {}
            if p is not None:
                d['b->uenue::cVL'] = p
            if q is not None:
                d['b->umunumu::cVL'] = q
            out = conv([n], d)
            ctx.obl('universality', '%s %s' % (lab, n), out == 'ValueError', 'non-universal coefficients (%s) are converted: %r' % (lab, out), W,
                    sample=lab)
    # reading of the SM files
    g = ns.get('get_sm_wcs')
    if not isinstance(g, AFunc):
        raise NoAnswer('get_sm_wcs not found')
    W = EOS + ':get_sm_wcs'

    def entry(n):
        return ADict({'central': Poly.real(n), 'min': Poly.real(n), 'max': Poly.real(n)})
    docs = {
        '/eos/a.yaml': ADict({'@metadata@': ADict({'wcxf-relevant': True}), 'k1': entry('k1'), 'k2': entry('k2')}),
        '/eos/b.yaml': ADict({'@metadata@': ADict({'wcxf-relevant': False}), 'k3': entry('k3')}),
        '/eos/c.yaml': ADict({'@metadata@': ADict({}), 'k4': entry('k4')}),
        '/eos/d.yaml': ADict({'k5': entry('k5')}),
        '/eos/e.yaml': ADict({'k7': entry('k7'), '@metadata@': ADict({'wcxf-relevant': True, 'x': 1}), 'k6': entry('k6')}),
    }
    texts = {p: T.new('yaml', v) for p, v in docs.items()}
    sopen = libmodel.I.BUILTINS['open']

    def op(it_, aa, k):
        if aa[0] not in texts:
            raise NoAnswer('open %r' % (aa[0],))
        return T.stream(texts[aa[0]])
    libmodel.I.BUILTINS['open'] = Builtin('open', op)

    def gl(it_, aa, k):
        import fnmatch
        if not isinstance(aa[0], str):
            raise NoAnswer('glob')
        return AList([p for p in sorted(texts) if fnmatch.fnmatch(p, aa[0])])
    it.models['glob.glob'] = gl
    it.models['os.listdir'] = lambda it_, aa, k: AList([p[5:] for p in sorted(texts)] if aa[0].rstrip('/') == '/eos' else [])
    try:
        for d in ('/eos', '/eos/'):
            try:
                out = it.call(g, [d], {})
            except RaiseSig as e:
                out = e.etype
            ok = isinstance(out, ADict)
            ctx.obl('files', d, ok and set(out.d) == {'k1', 'k2', 'k6', 'k7'} and all(wx.veq(it, out.get(k), entry(k)) for k in out.d),
                    'the SM coefficients read are %s instead of those of the relevant files' % (list(out.d) if ok else out,), W, sample=d)
        try:
            out = it.call(g, ['/none'], {})
        except RaiseSig as e:
            out = e.etype
        ctx.obl('files', 'no files', isinstance(out, ADict) and not out.d, '%r' % (out,), W)
    finally:
        libmodel.I.BUILTINS['open'] = sopen


SIM = 'wilson/wcxf/converters/smeftsim.py'
SIMNAME = {
    'h': 'phi', 'hbox': 'phiBox', 'hdd': 'phiD', 'g': 'G', 'gtil': 'Gtilde', 'w': 'W', 'wtil': 'Wtilde', 'hg': 'phiG', 'hb': 'phiB',
    'hw': 'phiW', 'hwb': 'phiWB', 'hgtil': 'phiGtilde', 'hbtil': 'phiBtilde', 'hwtil': 'phiWtilde', 'hwbtil': 'phiWtildeB',
    'hl1': 'phil1', 'hl3': 'phil3', 'he': 'phie', 'hq1': 'phiq1', 'hq3': 'phiq3', 'hu': 'phiu', 'hd': 'phid', 'hud': 'phiud',
    'uh': 'uphi', 'dh': 'dphi', 'eh': 'ephi'}
for _n in 'ew eb ug uw ub dg dw db'.split():
    SIMNAME[_n] = _n[0] + _n[1].upper()
for _n in 'll qq1 qq3 ee uu dd le lu ld qe qu1 qu8 qd1 qd8 ud1 ud8 ed eu lq1 lq3 ledq lequ1 lequ3 quqd1 quqd8'.split():
    SIMNAME[_n] = _n


def sim_label(text):
    """(coefficient, kind) of a card label, or None"""
    m = re.match(r'^#\s*c([A-Za-z]+?[138]?)(Abs|Ph)?((?:\\d|\\dx)*)$'.replace('\\\\', '\\'), text.strip())
    if not m:
        return None
    name, kind, idx = m.group(1).lower(), m.group(2), m.group(3).replace('x', '')
    if name not in SIMNAME:
        return None
    w = SIMNAME[name]
    return (w + ('_' + idx if idx else ''), kind)


@prop('I04', 'proof', 'abstract interpretation of the card filling with symbolic coefficients: every entry is compared with the '
      'coefficient its label names')
def i04(ctx):
    it, ns = load(ctx, 'wilson.wcxf.converters.smeftsim', SIM)
    ctx.use('wilson/wcxf/converters/SMEFTsim_param_card_elements.py')
    L = Poly.real('lambda')
    base_ = spec.smeft_basis()
    coef = {}
    for k, v in base_.items():
        real = bool(v and v.get('real'))
        # negative real coefficients show a lost sign
        coef[k] = -Poly.real(k) if real else Poly.cplx(k)

    def angle(it_, aa, k):
        x = norm(aa[0])
        if not is_num(x):
            raise NoAnswer('angle of %r' % (x,))
        x = Poly.lift(x)
        if x.is_zero():
            return 0
        if x.conj() == x and len(x.t) == 1:
            (m, c), = x.t.items()
            return 0 if c[0] > 0 else Poly.real('pi')
        if len(x.t) != 1:
            raise NoAnswer('angle of a sum')
        (m, c), = x.t.items()
        m2 = tuple(q for q in m if q[0][0] != 'r')
        if c[1] or len(m2) != 1 or m2[0][1] != 1:
            raise NoAnswer('angle of %r' % x)
        return Poly.real('arg ' + m2[0][0][1]) if c[0] > 0 else Poly.real('arg ' + m2[0][0][1]) + Poly.real('pi')
    it.models['numpy.angle'] = angle
    it.load('wilson.wcxf.converters.smeftsim')
    # independent symmetry factors: the number of equivalent elements of the non-redundant coefficient
    fac = {k: mult(k) for k in coef}
    for ms, scheme, full in itertools.product('AB', ('alpha', 'mw'), (True, False)):
        it.tok = {}
        init, fill = ns.get('initialize_smeftsim_card'), ns.get('smeftsim_card_fill')
        if not isinstance(init, AFunc) or not isinstance(fill, AFunc):
            raise NoAnswer('card functions not found')
        W = SIM + ':smeftsim_card_fill'
        present = dict(coef) if full else {k: coef[k] for k in sorted(coef)[::7]}
        w = wcobj(it, 'SMEFT', 'Warsaw mass', Poly.real('scale'), present)
        what = 'set %s scheme %s %s' % (ms, scheme, 'full' if full else 'partial')
        try:
            card = it.call(init, [ms], {})
            blocks0 = set(card.get('Block').d) if isinstance(card, ADict) else set()
            card = it.call(fill, [card, w, ms, L, scheme], {})
        except RaiseSig as e:
            ctx.obl('card', what, False, 'raises %s' % e.etype, W)
            continue
        blocks = card.get('Block').d
        ctx.obl('blocks', what, set(blocks) == blocks0, 'blocks %s' % sorted(set(blocks) ^ blocks0), W)
        seen = {}
        for bn, blk in blocks.items():
            vals = list(it.iterate(blk.get('values'))) if isinstance(blk, ADict) and blk.get('values') is not None else None
            if vals is None:
                ctx.obl('blocks', what + ' ' + bn, False, 'the block has no values', W)
                continue
            idxs = []
            for ent in vals:
                e = [norm(x) for x in it.iterate(ent)]
                idx, val, label = tuple(e[:-2]), e[-2], e[-1]
                idxs.append(idx)
                v = it.tok.get(val) if isinstance(val, str) and val in it.tok else None
                if v is None and isinstance(val, str):
                    try:
                        v = Poly.const(Fraction(val))
                    except ValueError:
                        v = None
                where = '%s %s%s %s' % (what, bn, list(idx), label)
                if label.strip() in ('# Lambda', '# LambdaSMEFT'):
                    ctx.obl('entry', where, v is not None and Poly.lift(v) == L, 'the cutoff is %r' % (v,), W)
                    continue
                if label.strip() == '# MW0':
                    ctx.obl('entry', where, scheme == 'mw' and v is not None, '%r' % v, W)
                    continue
                lab = sim_label(label)
                if lab is not None:
                    lab = (canonical(lab[0]), lab[1])
                ctx.obl('label', where, lab is not None and lab[0] in coef, 'no coefficient %s' % (lab,), W)
                if lab is None or lab[0] not in coef:
                    continue
                key, kind = lab
                seen.setdefault(key, set()).add(kind)
                if len(idx) > 1:
                    ctx.obl('index', where, idx == tuple(map(int, re.sub('[^0-9]', '', label.split('Abs')[-1].split('Ph')[-1]))),
                            'indices %s of %s' % (idx, key), W)
                c = (coef[key] / fac[key]) if key in present else Poly()
                if kind == 'Ph':
                    want = Poly.lift(angle(it, [c], {}))
                elif kind == 'Abs' and not (c.conj() == c):
                    want = (c * c.conj()) ** Fraction(1, 2) * L * L
                else:
                    want = c * L * L
                if c.conj() == c and not c.is_zero() and v is not None and Poly.lift(v) == -want:
                    ctx.obl('sign', '%s %s' % ('set ' + ms, label), False, 'the sign of the real coefficient %s is lost' % key, W)
                    continue
                ctx.obl('entry', where, v is not None and Poly.lift(v) == want, 'the entry %s is %r instead of %r' % (label, v, want), W,
                        sample=where)
            ctx.obl('index', '%s %s unique' % (what, bn), len(set(idxs)) == len(idxs), 'repeated entries', W)
            if all(len(i) == 1 for i in idxs) and bn == 'FRBlock':
                n0 = [i[0] for i in idxs]
                ctx.obl('index', '%s %s order' % (what, bn), n0 == list(range(1, len(n0) + 1)), 'the entries are not numbered in sequence', W)
        for k in coef:
            real = coef[k].conj() == coef[k]
            if k.split('_')[0] in ('llphiphi', 'duql', 'qque', 'qqql', 'duue'):
                continue
            want = [{None}, {'Abs'}] if real else [{'Abs', 'Ph'}]
            ctx.obl('coverage', what + ' ' + k, seen.get(k) in want, 'coefficient %s has entries %s' % (k, seen.get(k)), W)
    it.tok = None


def canonical(k):
    op, idx = (k.split('_') + [''])[:2]
    f, cls = spec.SMEFT[op]
    if not idx or cls in (8, 9):
        return k
    idx = tuple(int(x) - 1 for x in idx)
    for orb, rep, real, zero in lagr.orbits((3,) * len(f), cls):
        if idx in orb and any(c == 0 for c, s in orb[idx]):
            return spec.wcname(op, rep)
    return k


def mult(k):
    """number of equal tensor elements the coefficient k stands for"""
    op, idx = (k.split('_') + [''])[:2]
    f, cls = spec.SMEFT[op]
    if not idx or cls in (8, 9):
        return 1
    dims = (3,) * len(f)
    idx = tuple(int(x) - 1 for x in idx)
    for orb, rep, real, zero in lagr.orbits(dims, cls):
        if idx in orb:
            return sum(1 for how in orb.values() if real or sorted(how)[0][0] == 0)
    raise NoAnswer(k)


DSX = 'wilson/wcxf/converters/dsixtools.py'


def symmetric(op):
    """array with the symmetry of the operator and generic independent entries"""
    f, cls = spec.SMEFT[op]
    dims = (3,) * len(f)
    if not dims:
        return Poly.real(op)
    out = {}
    if cls == 8:
        # generic element of the subspace: C_prst = A_prst with A from the representatives through the code's own relation
        return None
    for orb, rep, real, zero in lagr.orbits(dims, cls):
        n = spec.wcname(op, rep)
        x = Poly() if zero else (Poly.real(n) if real else Poly.cplx(n))
        for i, how in orb.items():
            c, s = sorted(how)[0]
            out[i] = (x.conj() if c else x) * s
    return Arr.new([out[i] for i in itertools.product(range(3), repeat=len(f))], dims)


def smeft_C(it):
    """generic symmetric coefficients; the class-8 operator comes from the package's own symmetrisation of generic representatives"""
    C = {}
    for op in spec.SMEFT:
        C[op] = symmetric(op)
    q = [op for op in C if C[op] is None]
    u = it.load('wilson.util').env.v['smeftutil']
    for op in q:
        g = Arr.new([Poly.cplx(spec.wcname(op, i)) if i[:3] in spec.qqql_reps() else Poly() for i in itertools.product(range(3), repeat=4)], (3,) * 4)
        D = ADict({k: (v if v is not None else g) for k, v in C.items()})
        r = it.call(it.getattr_(u, 'symmetrize'), [D], {})
        C[op] = r.get(op)
    return C


def cells(v):
    if isinstance(v, Arr):
        return [num(x) for x in v.vals()]
    return [num(v)]


def aeq(a, b):
    x, y = cells(a), cells(b)
    return len(x) == len(y) and all(p is not None and q is not None and p == q for p, q in zip(x, y)) and \
        (getattr(a, 'shape', ()) or ()) == (getattr(b, 'shape', ()) or ())


def dsx_files(ctx, it, ns, sm, coef, C, rows):
    """the files: what dump writes and load_initial reads"""
    T = wx.Texts()
    T.install(it)
    fmts = []

    def pdump(it_, a, k):
        fmt = k.get('fmt', a[1] if len(a) > 1 else 'lha')
        stream = k.get('stream', a[2] if len(a) > 2 else None)
        t = T.new(fmt, a[0])
        if stream is None:
            return t
        stream.attrs['text'] = t

    def pload(it_, a, k):
        t = T.src(a[0])
        if t not in T.payload or T.payload[t][0] != 'lha':
            raise RaiseSig('ValueError', t, it_.where())
        return T.copy(T.payload[t][1])
    it.models['pylha.dump'] = pdump
    it.models['pylha.load'] = pload
    S = ns['SMEFTio']
    W = DSX + ':SMEFTio.dump'
    scale, hs, out = Poly.real('scale'), Poly.real('high'), Poly.real('outscale')

    def blocks(t, fmt):
        p = T.payload.get(t)
        v = p[1] if p and p[0] == fmt else None
        return v.get('BLOCK') if isinstance(v, ADict) else None
    for fmt, so, to_stream, sr in ((None, None, False, None), (None, out, True, True), ('lha', out, False, False), ('lha', None, True, None),
                                   ('json', None, True, False), ('json', out, False, True), ('yaml', out, True, None),
                                   ('yaml', None, False, True)):
        what = 'format %s, scale_out %s, stream %s, skip_redundant %s' % (fmt, so, to_stream, sr)
        io = it.call(S, [], {})
        k = {}
        if fmt:
            k['fmt'] = fmt
        if so is not None:
            k['scale_out'] = so
        if sr is not None:
            k['skip_redundant'] = sr
        st = T.stream()
        if to_stream:
            k['stream'] = st
        try:
            it.call(it.getattr_(io, 'set_initial'), [None, scale, hs], {})
            # a few coefficients are enough here: the blocks are those of wc_dict2lha
            small = {op: (Arr.new([Poly()] * len(v.vals()), v.shape) if isinstance(v, Arr) else Poly()) for op, v in C.items()}
            for op in ('phiG', 'uphi', 'phil1', 'llphiphi', 'll'):
                small[op] = C[op]
            d = ADict(small, own='the coefficients')
            it.effects.clear()
            t = it.call(it.getattr_(io, 'dump'), [d], k)
            ref = it.call(ns['wc_dict2lha'], [ADict(dict(small))], {'skip_redundant': sr is not False}).get('BLOCK')
        except RaiseSig as e:
            ctx.obl('evaluates', 'dump ' + what, False, 'raises %s' % e, W)
            continue
        if to_stream:
            t = st.attrs['text']
        B = blocks(t, fmt or 'lha')
        ctx.obl('file', what, isinstance(B, ADict), 'nothing is written in this format', W)
        if not isinstance(B, ADict):
            continue
        want = {(1,): hs}
        if so is not None:
            want[(2,)] = out
        ctx.obl('file', what + ' scales', rows(B, 'SCALES') == want, 'block SCALES is %r' % (rows(B, 'SCALES'),), W)
        ctx.obl('file', what + ' blocks', set(B.d) == set(ref.d) | {'SCALES'} and all(rows(B, n) == rows(ref, n) for n in ref.d),
                'blocks %s' % sorted(set(B.d) ^ set(ref.d)), W, sample=what)
        ctx.obl('input-unchanged', 'dump ' + what, not it.effects, 'input modified', W)
    # wcxf -> file -> wcxf; SM parameters and coefficients in one or several files, in any order
    W = DSX + ':dsixtools2wcxf'
    w = wcobj(it, 'SMEFT', 'Warsaw', scale, coef)
    smB = it.call(ns['sm_dict2lha'], [ADict(dict(sm))], {}).get('BLOCK')
    for lab in ('two files', 'two files, parameters last', 'one file', 'scales in the options file'):
        st = T.stream()
        try:
            t = it.call(ns['wcxf2dsixtools'], [w], {})
            B = blocks(t, 'lha')
            if not isinstance(B, ADict):
                ctx.obl('file', lab, False, 'wcxf2dsixtools writes no file', DSX + ':wcxf2dsixtools')
                continue
            new = lambda d: T.new('lha', ADict({'BLOCK': ADict(d)}))
            wcs = {n: v for n, v in B.d.items() if n != 'SCALES'}
            files = {'two files': (new(dict(smB.d)), t), 'two files, parameters last': (t, new(dict(smB.d))),
                     'one file': (new(dict(B.d, **smB.d)),),
                     'scales in the options file': (new({'SCALES': B.get('SCALES')}), new(dict(smB.d)), new(wcs))}[lab]
            r = it.call(ns['dsixtools2wcxf'], [tuple(T.stream(x) for x in files)], {'stream': st})
        except RaiseSig as e:
            ctx.obl('evaluates', lab, False, 'raises %s' % e, W)
            continue
        p = T.payload.get(st.attrs['text'])
        v = p[1] if p and p[0] in ('yaml', 'json') else None
        ok = isinstance(v, ADict) and v.has('values')
        ctx.obl('file', lab, ok, 'no WCxf file is written', W)
        if not ok:
            continue
        ctx.obl('file', lab + ' labels', v.get('eft') == 'SMEFT' and v.get('basis') == 'Warsaw' and num(v.get('scale')) == scale,
                'labels %r %r %r' % (v.get('eft'), v.get('basis'), v.get('scale')), W)
        got = {}
        for n, x in v.get('values').d.items():
            got[n] = num(x.get('Re')) + I_ * num(x.get('Im')) if isinstance(x, ADict) else num(x)
        ctx.obl('file', lab + ' names', set(got) == set(coef), 'coefficients %s' % sorted(set(got) ^ set(coef))[:5], W)
        for n in coef:
            ctx.obl('file', '%s %s' % (lab, n), n in got and got[n] == coef[n], '%s becomes %r' % (n, got.get(n)), W, sample=n)
    # load in all formats, from streams and from strings
    doc = ADict({'BLOCK': ADict({'GAUGE': ADict({'values': AList([AList([1, 2])])})})})
    for fmt in ('lha', 'json', 'yaml', None):
        for kind in ('stream', 'string'):
            t = T.new(fmt or 'lha', doc)
            try:
                r = it.call(ns['load'], [t if kind == 'string' else T.stream(t)], {'fmt': fmt} if fmt else {})
            except RaiseSig as e:
                r = e.etype
            ctx.obl('load', '%s from %s' % (fmt, kind), wx.veq(it, r, doc), 'a %s in format %s is read as %r' % (kind, fmt, r), DSX + ':load',
                    sample=fmt)
    # a file without blocks is refused
    io = it.call(S, [], {})
    try:
        it.call(it.getattr_(io, 'load_initial'), [(T.stream(T.new('lha', ADict({'WC1': ADict({})}))),)], {})
        ok = False
    except RaiseSig as e:
        ok = e.etype == 'ValueError'
    ctx.obl('guard', 'file without blocks', ok, 'a file without blocks is accepted', DSX + ':SMEFTio.load_initial')


# numbering of the DsixTools format (SLHA-like)
DSX_0F = {'G': ('WC1', 1), 'Gtilde': ('WC1', 2), 'W': ('WC1', 3), 'Wtilde': ('WC1', 4), 'phi': ('WC2', 1), 'phiBox': ('WC3', 1),
          'phiD': ('WC3', 2), 'phiG': ('WC4', 1), 'phiB': ('WC4', 2), 'phiW': ('WC4', 3), 'phiWB': ('WC4', 4), 'phiGtilde': ('WC4', 5),
          'phiBtilde': ('WC4', 6), 'phiWtilde': ('WC4', 7), 'phiWtildeB': ('WC4', 8)}
DSX_SM = {'GAUGE': ('g', 'gp', 'gs'), 'SCALAR': ('Lambda', 'm2'), 'THETA': ('Theta', 'Thetap', 'Thetas')}


@prop('I03', 'proof', 'abstract interpretation of writer and reader with generic symmetric coefficients: their composition is the identity')
def i03(ctx):
    it, ns = load(ctx, 'wilson.wcxf.converters.dsixtools', DSX)
    ctx.use('wilson/wcxf/converters/dsixtools_definitions.py', 'wilson/util/common.py')
    u = it.load('wilson.util').env.v['smeftutil']

    def call(name, *a, **k):
        f = ns.get(name)
        if not isinstance(f, AFunc):
            raise NoAnswer('%s not found' % name)
        try:
            return it.call(f, list(a), k)
        except RaiseSig as e:
            ctx.obl('evaluates', name, False, '%s raises %s' % (name, e), DSX + ':' + name)
            return None
    # -- tensors
    for dims in ((2, 3), (3, 3), (2, 2, 3, 2)):
        idx = list(itertools.product(*[range(d) for d in dims]))
        M = Arr.new([Poly.real('m' + ''.join(map(str, i))) for i in idx], dims)
        l = call('matrix2lha', M)
        if l is None:
            continue
        rows = [[norm(x) for x in it.iterate(e)] for e in it.iterate(l)]
        got = {tuple(int(x) - 1 for x in e[:-1]): num(e[-1]) for e in rows}
        ctx.obl('matrix2lha', str(dims), len(rows) == len(idx) and got == {i: Poly.real('m' + ''.join(map(str, i))) for i in idx},
                'wrong list', DSX + ':matrix2lha')
        B = call('lha2matrix', l, dims)
        ctx.obl('lha2matrix', str(dims), isinstance(B, Arr) and aeq(B, M), 'matrix -> list -> matrix changes the matrix', DSX + ':lha2matrix',
                sample=str(dims))
        B = call('lha2matrix', AList([AList([1, 2] + [1] * (len(dims) - 2) + [Poly.real('x')])]), dims)
        ok = isinstance(B, Arr) and [c for c in cells(B) if not c.is_zero()] == [Poly.real('x')] and \
            not cells(B)[idx.index((0, 1) + (0,) * (len(dims) - 2))].is_zero()
        ctx.obl('lha2matrix', 'partial %s' % (dims,), ok, 'missing elements are not zero', DSX + ':lha2matrix')
    # -- SM parameters
    sm = {k: Poly.real(k) for k in ('g', 'gp', 'gs', 'Lambda', 'm2', 'Theta', 'Thetap', 'Thetas')}
    for k in ('Gu', 'Gd', 'Ge'):
        sm[k] = Arr.new([Poly.cplx('%s%d%d' % (k, i, j)) for i in range(3) for j in range(3)], (3, 3))
    lha = call('sm_dict2lha', ADict(dict(sm)))
    W = DSX + ':sm_lha2dict'
    if lha is not None:
        b = call('sm_lha2dict', lha)
        ctx.obl('sm', 'keys', isinstance(b, ADict) and set(b.d) == set(sm), 'keys differ', W)
        for k in sm:
            ctx.obl('sm', k, isinstance(b, ADict) and b.has(k) and aeq(b.get(k), sm[k]), '%s is not restored' % k, W, sample=k)
        B = lha.get('BLOCK')
        for drop, kk in (('IMGU', 'Gu'), ('IMGD', 'Gd'), ('IMGE', 'Ge'), ('THETA', 'Theta')):
            part = ADict({'BLOCK': ADict({x: v for x, v in B.d.items() if x != drop})})
            b = call('sm_lha2dict', part)
            for k in sm:
                want = sm[k]
                if k == kk and isinstance(want, Arr):
                    want = Arr.new([Poly.lift(v).re() for v in want.vals()], (3, 3))
                elif drop == 'THETA' and k.startswith('Theta'):
                    want = Poly()
                ctx.obl('sm', 'without %s %s' % (drop, k), isinstance(b, ADict) and b.has(k) and aeq(b.get(k), want),
                        '%s wrong without block %s' % (k, drop), W)
    # -- coefficients
    C = smeft_C(it)
    W = DSX + ':wc_lha2dict'

    def back(lha, what, want, exact):
        d = call('wc_lha2dict', lha)
        if d is None:
            return
        if not exact:
            d = it.call(it.getattr_(u, 'symmetrize'), [d], {})
        for op in want:
            ctx.obl('coefficients', '%s %s' % (what, op), isinstance(d, ADict) and d.has(op) and aeq(d.get(op), want[op]),
                    '%s is not restored (%s)' % (op, what), W, sample=op)
    for sr, sz in itertools.product((True, False), repeat=2):
        lha = call('wc_dict2lha', ADict(dict(C)), skip_redundant=sr, skip_zero=sz)
        if lha is None:
            continue
        what = 'skip_redundant=%s skip_zero=%s' % (sr, sz)
        back(lha, what, C, not sr)
        if sr:
            for op, (f, cls) in spec.SMEFT.items():
                if not f:
                    continue
                B = lha.get('BLOCK')
                nre = B.get('WC' + op.upper())
                n = len(list(it.iterate(nre.get('values')))) if isinstance(nre, ADict) else 0
                if cls == 8:
                    want = len(spec.qqql_reps()) * 3
                else:
                    want = sum(1 for o in lagr.orbits((3,) * len(f), cls) if not o[3])
                if sz:
                    ctx.obl('non-redundant', '%s %s' % (what, op), n == want, '%d elements are written, %d are independent' % (n, want),
                            DSX + ':wc_dict2lha')
    # every element stands in the block and under the number the format defines
    WW = DSX + ':wc_dict2lha'
    lha = call('wc_dict2lha', ADict(dict(C)), skip_redundant=False)

    def rows(B, name):
        b = B.get(name) if isinstance(B, ADict) and B.has(name) else None
        if not isinstance(b, ADict):
            return {}
        return {tuple(norm(x) for x in it.iterate(e))[:-1]: num(list(it.iterate(e))[-1]) for e in it.iterate(b.get('values'))}
    if lha is not None:
        B = lha.get('BLOCK')
        known = set()
        for op, (f, cls) in spec.SMEFT.items():
            if not f:
                blk, n = DSX_0F[op]
                known.add(blk)
                ctx.obl('block', op, rows(B, blk).get((n,)) == Poly.lift(C[op]), '%s is not entry %d of block %s' % (op, n, blk), WW, sample=op)
                continue
            for blk, part in (('WC', lambda x: x.re()), ('IMWC', lambda x: x.im())):
                want = {}
                for i, x in zip(itertools.product(range(3), repeat=len(f)), C[op].vals()):
                    y = part(Poly.lift(x))
                    if not y.is_zero():
                        want[tuple(j + 1 for j in i)] = y
                if want:
                    known.add(blk + op.upper())
                got = rows(B, blk + op.upper())
                ctx.obl('block', '%s%s' % (blk, op.upper()), {k: v for k, v in got.items() if v is None or not v.is_zero()} == want,
                        'the elements of %s are not those of block %s%s' % (op, blk, op.upper()), WW, sample=blk + op)
        ctx.obl('block', 'names', set(B.d) == known, 'blocks %s' % sorted(set(B.d) ^ known)[:5], WW)
    lha = call('sm_dict2lha', ADict(dict(sm)))
    if lha is not None:
        B = lha.get('BLOCK')
        for blk, names in DSX_SM.items():
            for n, k in enumerate(names, 1):
                ctx.obl('block', '%s %s' % (blk, k), rows(B, blk).get((n,)) == sm[k], '%s is not entry %d of block %s' % (k, n, blk),
                        DSX + ':sm_dict2lha', sample=k)
        for k in ('Gu', 'Gd', 'Ge'):
            for blk, part in (('', lambda x: x.re()), ('IM', lambda x: x.im())):
                want = {(i + 1, j + 1): part(Poly.lift(x)) for (i, j), x in zip(itertools.product(range(3), repeat=2), sm[k].vals())}
                ctx.obl('block', blk + k.upper(), rows(B, blk + k.upper()) == want, 'the elements of %s are not those of the block' % k,
                        DSX + ':sm_dict2lha', sample=blk + k)
    # purely real and purely imaginary elements
    for lab, part in (('real', lambda x: x.re()), ('imaginary', lambda x: I_ * x.im())):
        P = {}
        for op, v in C.items():
            P[op] = Arr.new([part(Poly.lift(x)) for x in v.vals()], v.shape) if isinstance(v, Arr) else part(Poly.lift(v))
        lha = call('wc_dict2lha', ADict(dict(P)))
        if lha is not None:
            back(lha, lab, P, False)
    Z = {op: (Poly() if not spec.SMEFT[op][0] else Arr.new([Poly()] * 3 ** len(spec.SMEFT[op][0]), (3,) * len(spec.SMEFT[op][0])))
         for op in C}
    lha = call('wc_dict2lha', ADict(dict(Z)))
    if lha is not None:
        ctx.obl('coefficients', 'zero', isinstance(lha.get('BLOCK'), ADict) and not lha.get('BLOCK').d, 'empty blocks are written',
                DSX + ':wc_dict2lha')
        back(lha, 'zero', Z, True)
    # -- WCxf in and out
    S = ns.get('SMEFTio')
    if not isinstance(S, AClass):
        raise NoAnswer('SMEFTio not found')
    coef = {}
    for k, v in spec.smeft_basis().items():
        coef[k] = Poly.real(k) if v and v.get('real') else Poly.cplx(k)
    W = DSX + ':SMEFTio'
    for sub, high in itertools.product(('all', 'some', 'none'), ('default', 'argument', 'stored')):
        d = coef if sub == 'all' else {k: coef[k] for k in sorted(coef)[::5]} if sub == 'some' else {}
        what = 'wcxf %s coefficients, %s high scale' % (sub, high)
        io = it.call(S, [], {})
        scale, hs = Poly.real('scale'), Poly.real('high')
        w = wcobj(it, 'SMEFT', 'Warsaw', scale, d)
        w.attrs['values'].own = 'the input coefficients'
        it.effects.clear()
        try:
            if high == 'stored':
                it.call(it.getattr_(io, 'set_initial'), [None, scale, hs], {})
            it.call(it.getattr_(io, 'set_initial_wcxf'), [w] + ([hs] if high == 'argument' else []), {})
            C_in = it.getattr_(io, 'C_in')
            h = scale if high == 'default' else hs
            ctx.obl('scale', what, num(it.getattr_(io, 'scale_in')) == scale and num(it.getattr_(io, 'scale_high')) == h, 'scales wrong', W)
            ctx.obl('input-unchanged', what, not it.effects, 'input modified', W)
            for op, (f, cls) in spec.SMEFT.items():
                ok = isinstance(C_in, ADict) and C_in.has(op)
                ctx.obl('complete', '%s %s' % (what, op), ok and len(cells(C_in.get(op))) == 3 ** len(f), '%s missing' % op, W)
            w2 = it.call(it.getattr_(io, 'get_wcxf'), [C_in, Poly.real('out')], {})
            dd = it.getattr_(w2, 'dict')
        except RaiseSig as e:
            ctx.obl('evaluates', what, False, 'raises %s' % e, W)
            continue
        ctx.obl('scale', what + ' out', num(it.getattr_(w2, 'scale')) == Poly.real('out'), 'output scale wrong', W)
        ctx.obl('labels', what, it.getattr_(w2, 'eft') == 'SMEFT' and it.getattr_(w2, 'basis') == 'Warsaw', 'labels wrong', W)
        ctx.obl('round-trip', what + ' keys', set(dd.d) == set(d), 'coefficients %s' % sorted(set(dd.d) ^ set(d))[:5], W)
        for k in d:
            ctx.obl('round-trip', '%s %s' % (what, k), dd.has(k) and num(dd.get(k)) == d[k], '%s becomes %r' % (k, dd.get(k) if dd.has(k) else None),
                    W, sample=k)
        # dimension: one power of the scale for the Weinberg operator, two otherwise
        if sub == 'all':
            for op, (f, cls) in spec.SMEFT.items():
                rep = {'phil1': (0, 1)}.get(op)
                v = C_in.get(op)
                nz = [c for c in cells(v) if c is not None and not c.is_zero()]
                p = 1 if op == 'llphiphi' else 2
                hp = h ** p
                ok = bool(nz) and all(all(dict(m).get(list(h.t)[0][0][0]) == p for m in c.t) for c in nz)
                ctx.obl('dimension', '%s %s' % (what, op), ok, '%s is not multiplied by the %d. power of the high scale' % (op, p), W)
    dsx_files(ctx, it, ns, sm, coef, C, rows)
    for e, b in (('WET', 'Warsaw'), ('SMEFT', 'Warsaw up')):
        io = it.call(S, [], {})
        try:
            it.call(it.getattr_(io, 'set_initial_wcxf'), [wcobj(it, e, b, Poly.real('scale'), {})], {})
            ok = False
        except RaiseSig as x:
            ok = x.etype == 'ValueError'
        ctx.obl('guard', '%s %s' % (e, b), ok, 'coefficients of %s/%s are accepted' % (e, b), W)
