"""Faster, value-preserving stand-ins for two library routines.

The generators of shgpy.fformgen spend their time multiplying symbolic zeros
(numpy.tensordot of mostly zero object arrays) and substituting into the same
few expressions again and again (Basic.subs).  Here products with exact zeros
are skipped and repeated substitutions are remembered.  Only the libraries are
patched; the code under test is not.  The thorough tier of C13 also runs
without this.
"""
import numpy as np
import sympy as sp
from sympy.core.basic import Basic

_tensordot = np.tensordot
_subs = Basic.subs
_memo = {}


def tensordot(a, b, axes=2):
    if isinstance(axes, int) and axes == 0:
        A, B = np.asarray(a), np.asarray(b)
        if A.dtype == object or B.dtype == object:
            out = np.empty((A.size, B.size), dtype=object)
            out.fill(sp.Integer(0))
            nb = [(j, y) for j, y in enumerate(B.ravel().tolist())
                  if not (y == 0)]
            for i, x in enumerate(A.ravel().tolist()):
                if not (x == 0):
                    row = out[i]
                    for j, y in nb:
                        row[j] = x*y
            return out.reshape(A.shape + B.shape)
    return _tensordot(a, b, axes)


def subs(self, *args, **kw):
    if kw or len(args) != 1 or not isinstance(args[0], tuple):
        return _subs(self, *args, **kw)
    try:
        key = (self, args[0], tuple(type(x) for p in args[0] for x in p))
        r = _memo.get(key)
    except TypeError:
        return _subs(self, *args, **kw)
    if r is None:
        r = _memo[key] = _subs(self, *args, **kw)
    return r


def install():
    np.tensordot = tensordot
    Basic.subs = subs


def uninstall():
    np.tensordot = _tensordot
    Basic.subs = _subs
    _memo.clear()
