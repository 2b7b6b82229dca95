"""Interpreter factory: the package as seen by the analysis, with the WCxf
basis files (absent submodule) supplied from the specification."""
import json
import ast
import os
from fractions import Fraction
from .interp import *
from .num import Poly
from .tn import TN
from . import libmodel, spec

_VF = {}


def virtual_files(root):
    """WCxf EFT and basis files presented to the loader of wilson.wcxf"""
    if root in _VF:
        return _VF[root]
    vf = {}
    sm = spec.smeft_basis()
    jms = spec.jms_sectors(root)
    vf['SMEFT.eft.json'] = {'eft': 'SMEFT', 'sectors': {'all': {}}}
    vf['SMEFT.Warsaw.basis.json'] = {'eft': 'SMEFT', 'basis': 'Warsaw', 'sectors': {'all': sm}}
    vf['SMEFT.Warsaw up.basis.json'] = {'eft': 'SMEFT', 'basis': 'Warsaw up', 'sectors': {'all': sm}}
    for f, e in ((5, 'WET'), (4, 'WET-4'), (3, 'WET-3'), (2, 'WET-2'), (5, 'WET-5')):
        j = spec.jms_sectors(root, f)
        vf[e + '.eft.json'] = {'eft': e, 'sectors': {s: {} for s in j}}
        vf[e + '.JMS.basis.json'] = {'eft': e, 'basis': 'JMS', 'sectors': j}
    vf = {'/virtual/bases/' + k: json.dumps(v) for k, v in vf.items()}
    _VF[root] = vf
    return vf


def universal():
    """an opaque set of names that contains every name asked for"""
    o = AObj('@universal', {})
    o.attrs.update({'@contains': lambda x: True, '@getattr': lambda n: o if n in ('all_wcs', 'keys') else (
        Builtin('keys', lambda it, a, k: o)), '@getitem': lambda k: o, '@truth': True,
        '@call': lambda it, a, k: o})
    return o


def make(root='/repo', mode='arr', **kw):
    it = Interp(root, 'wilson', mode=mode, **kw)
    vf = virtual_files(root)

    def m_glob(it, a, k):
        import fnmatch
        p = a[0]
        if isinstance(p, str) and ('bases' in p):
            pat = os.path.basename(p)
            if 'child' in p:
                return AList()
            return AList(sorted(f for f in vf if fnmatch.fnmatch(os.path.basename(f), pat)))
        return it.top('glob')
    it.models['glob.glob'] = m_glob
    old_open = libmodel.b_open

    def m_open(it, a, k):
        if isinstance(a[0], str) and a[0] in vf:
            t = vf[a[0]]
            return AObj('@file', {'text': t, '@getattr': lambda n: Builtin(n, lambda it, a, k: t)})
        return old_open(it, a, k)
    libmodel.I.BUILTINS['open'] = Builtin('open', m_open)
    orig_getitem = it.getitem

    def gi(o, k):
        if isinstance(o, AClass) and o.name == 'Basis' and isinstance(k, tuple) and it.universal_bases:
            inst = o.find('instances')
            if isinstance(inst, ADict) and k not in inst.d and all(isinstance(x, str) for x in k):
                return universal()
        return orig_getitem(o, k)
    it.universal_bases = True
    it.getitem = gi
    return it


def generic_position(it, positive=('scale', 'scale_in', 'scale_out', 'mref', 'loop')):
    """decide comparisons of distinct symbolic numbers as unequal (generic
    inputs); order relations only for symbols known to be positive"""
    old = it.compare

    def sgn(v):
        v = norm(v)
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return (v > 0) - (v < 0)
        if isinstance(v, Poly) and len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and c[1] == 0 and m[0][0][0] == 'r' and m[0][0][1] in positive:
                return 1 if c[0] > 0 else -1
        return None

    def compare(op, a, b):
        r = old(op, a, b)
        if r is not None:
            return r
        a, b = norm(a), norm(b)
        if isinstance(op, (ast.Eq, ast.NotEq)) and is_num(a) and is_num(b) and not isinstance(a, TN) and \
                not isinstance(b, TN) and (isinstance(a, Poly) or isinstance(b, Poly)):
            return isinstance(op, ast.NotEq)
        x, y = sgn(a), sgn(b)
        if x is None or y is None:
            return None
        if x == y and x:
            return None
        if x > y:
            return isinstance(op, (ast.Gt, ast.GtE))
        if x < y:
            return isinstance(op, (ast.Lt, ast.LtE))
        return None
    it.compare = compare
    old_truth = it.truth

    def truth(v, node=None):
        if isinstance(v, Poly) and not v.is_const() and not isinstance(v, TN):
            return True
        return old_truth(v, node)
    it.truth = truth
    return it
