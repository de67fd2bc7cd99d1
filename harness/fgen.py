"""Generators shared by the checks of generated code and fits."""
import ctypes
import mmap
import os
import stat

import numpy as np
import sympy as sp
from shgpy import fDataContainer, fFormContainer
import gen


ODD_KEYS = ['A[1]', 'a b', "p'q", 'P*', '?', '$x', 'x;y', 'P', 'PPP', 
            'PP-2', 'é', '[!a]', 'p&q', 'a.b', '#', '~']


def keys(rng, n=None):
    """Names of polarization combinations, now and then unusual ones."""
    pcs = gen.subset_pcs(rng)[:n]
    if rng.random() < .25:
        odd = list(ODD_KEYS)
        rng.shuffle(odd)
        for i in range(len(pcs)):
            if rng.random() < .7:
                pcs[i] = odd[i]
    return pcs


def cexpr(rng, syms, depth=2):
    """A complex coefficient that is finite for all real parameter values."""
    if depth == 0 or not syms:
        return gen.coeff(rng, syms, True, 1)
    x = syms[rng.integers(len(syms))]
    y = syms[rng.integers(len(syms))]
    k = int(rng.integers(16))
    sub = lambda: cexpr(rng, syms, depth-1)
    return [
        lambda: gen.coeff(rng, syms, True),
        lambda: gen.coeff(rng, syms, True),
        lambda: sub()*sub(),
        lambda: sub() + sub(),
        lambda: sp.exp(sp.I*x)*sub(),
        lambda: sp.sin(x*y + 1),
        lambda: sp.sqrt(x**2 + 1),
        lambda: (x**2 + sp.Rational(1, 2))**sp.Rational(1, 3),
        lambda: (x + sp.I*y)**2,
        lambda: 1/(2 + y**2),
        lambda: sp.conjugate(x + sp.I*y*gen.num(rng)),
        lambda: sp.sqrt(x + sp.I*(1 + y**2)),
        lambda: sp.cos(x + sp.I*sp.Rational(1, 2)),
        lambda: sp.pi*x - sp.I*y,
        lambda: x**3*y - x/3,
        lambda: sub() - sp.I*sub(),
    ][k]()


def random_fform(rng, syms, M=None, npc=None, density=None, make=cexpr):
    if M is None:
        M = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 16]))
    pcs = keys(rng, npc)
    if density is None:
        density = {1: .9, 2: .8, 3: .6, 4: .5, 5: .4, 16: .08}.get(M, .5)
    d = {}
    for pc in pcs:
        a = np.array([make(rng, syms) if rng.random() < density else
                      sp.Integer(0) for _ in range(2*M+1)] + [None],
                     dtype=object)[:-1]
        d[pc] = a
    if rng.random() < .25:      # the same coefficient in several places
        pool = [e for a in d.values() for e in a if e != 0][:2]
        for a in d.values():
            for i in range(2*M+1):
                if pool and rng.random() < .5:
                    a[i] = pool[rng.integers(len(pool))]
    return fFormContainer(d, M=M)


def random_fdat(rng, fform, zero=False):
    M = fform.get_M()
    keys = list(fform.get_keys())
    rng.shuffle(keys)
    typ = [complex, np.complex64][rng.integers(2)]
    vals = {k: (rng.normal(size=2*M+1) + 1j*rng.normal(size=2*M+1))
            * (0 if zero else 1) for k in keys}
    if rng.random() < .3:       # the same number in many places
        for v in vals.values():
            v[rng.random(2*M+1) < .8] = [0, 1, 1j][rng.integers(3)]
    return fDataContainer({k: v.astype(typ) for k, v in vals.items()}, M=M)


def fform_values(fform, env):
    """key -> complex coefficients, by the independent evaluator."""
    memo = {}
    return {k: np.array([complex(gen.ev(e, env, memo)) if e != 0 else 0j
                         for e in fform.get_pc(k)])
            for k in fform.get_keys()}


def cost(fform, fdat, env):
    """Sum of squared deviations and the magnitude against which it rounds."""
    tot, mag = 0., 0.
    for k, f in fform_values(fform, env).items():
        d = np.asarray(fdat.get_pc(k), dtype=complex)
        tot += float(np.sum(np.abs(f-d)**2))
        mag += float(np.sum((np.abs(f)+np.abs(d))**2))
    return tot, mag


def layout(rng, x, mon=None):
    """The vector x as one of many kinds of array; returns (name, array)."""
    n = len(x)
    k = int(rng.integers(9))
    if k == 0:
        r = 'plain', np.array(x)
    elif k == 1:
        b = rng.normal(size=3*n+1)*1e3
        b[::3][:n] = x
        r = 'strided', b[::3][:n]
    elif k == 2:
        b = np.array(x)[::-1].copy()
        r = 'reversed', b[::-1]
    elif k == 3:
        b = np.array(x)
        b.flags.writeable = False
        r = 'readonly', b
    elif k == 4:
        b = rng.normal(size=(n, 2))*1e3
        b[:, 1] = x
        r = 'column', b[:, 1]
    elif k == 5:
        raw = np.zeros(8*n + 3, dtype=np.uint8)
        b = raw[3:].view(float) if False else np.frombuffer(
            raw.data, dtype=float, count=n, offset=3)
        b[:] = x
        r = 'unaligned', b
    elif k == 6:
        r = 'big endian', np.array(x, dtype='>f8')
    elif k == 7:
        r = 'long double', np.array(x, dtype=np.longdouble)
    else:
        b = np.full(n+4, 1e6)
        b[2:n+2] = x
        r = 'slice', b[2:n+2]
    if mon is not None:
        mon.count('layout ' + r[0])
    return r


_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = mmap.PAGESIZE


class Guarded:
    """A vector of n doubles between inaccessible pages, itself read-only."""

    def __init__(self, n, end=True):
        self.n = n
        self.map = mmap.mmap(-1, 3*PAGE)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        self.off = PAGE + (PAGE - 8*n if end else 0)
        self.arr = np.frombuffer(self.map, dtype=float, count=n,
                                 offset=self.off)
        self._prot(self.base, 0)
        self._prot(self.base + 2*PAGE, 0)

    def _prot(self, addr, how):
        if _libc.mprotect(addr, PAGE, how):
            raise OSError(ctypes.get_errno(), 'mprotect')

    def set(self, x):
        self._prot(self.base + PAGE, 3)
        self.arr[:] = x
        self._prot(self.base + PAGE, 1)
        return self.arr

    def free(self):
        for i in range(3):
            self._prot(self.base + i*PAGE, 3)


def script(path, text):
    with open(path, 'w') as f:
        f.write(text)
    os.chmod(path, stat.S_IRWXU)
    return path
