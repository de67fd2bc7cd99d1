"""Generators and independent numeric evaluation shared by the checks."""
import numpy as np
import sympy as sp
from shgpy import shg_symbols as S

PHI = S.phi
PCS = ['PP', 'PS', 'SP', 'SS']


# ---------------------------------------------------------------- evaluation
def ev(expr, env, memo=None):
    """Evaluate a sympy expression numerically by walking its tree.

    env maps symbols to numbers or numpy arrays (all of one shape).
    """
    if memo is None:
        memo = {}
    return _ev(sp.sympify(expr), env, memo)


_FUN = {
    sp.sin: np.sin, sp.cos: np.cos, sp.exp: np.exp, sp.conjugate: np.conj,
    sp.re: np.real, sp.im: np.imag, sp.Abs: np.abs, sp.tan: np.tan,
    sp.sign: lambda z: np.sign(np.real(z)),
}


def _ev(e, env, memo):
    if e in memo:
        return memo[e]
    if e.is_Symbol:
        if e not in env:
            raise KeyError(f'no value for symbol {e!r} ({e.assumptions0})')
        r = env[e]
    elif e.is_Number:
        r = float(e)
    elif e is sp.I:
        r = 1j
    elif e.is_NumberSymbol:
        r = float(e)
    elif e.is_Add:
        r = 0
        for a in e.args:
            r = r + _ev(a, env, memo)
    elif e.is_Mul:
        r = 1
        for a in e.args:
            r = r * _ev(a, env, memo)
    elif e.is_Pow:
        b = _ev(e.base, env, memo)
        if e.exp.is_Integer:
            n = int(e.exp)
            r = b ** n if n >= 0 else 1 / (b + 0.0) ** (-n)
        else:
            x = _ev(e.exp, env, memo)
            r = (np.asarray(b) + 0j) ** x
    elif e.func in _FUN:
        r = _FUN[e.func](_ev(e.args[0], env, memo))
    elif e.is_Function and len(e.args) == 1:
        r = complex(sp.N(e.subs(env)))
    else:
        r = complex(sp.N(e.subs(env)))
    memo[e] = r
    return r


def evc(expr, env):
    """One complex number (or array)."""
    return np.asarray(ev(expr, env), dtype=complex)


def ev_array(arr, env):
    """Evaluate an object array entry by entry into a complex array."""
    arr = np.asarray(arr, dtype=object)
    memo = {}
    return np.array([complex(ev(x, env, memo)) for x in arr.ravel()],
                    dtype=complex).reshape(arr.shape)


# ------------------------------------------------------------------- symbols
NAMES = ['a', 'b', 'c0', 'xyx', 'zzz', 'x', 'alpha', 'beta', 'k', 'y1',
         'real_zx', 'Delta', 'w', 'u', 'v_2']
ODD_NAMES = ['lamda', 'Q', 'S', 'N', 'E', 'O', 'C', 'beta', 'gamma', 'zeta',
             'I_0', 'pi_', 'test', 'Symbol', 'xx_y', 'a b']
ASSUME = [dict(), dict(real=True), dict(positive=True),
          dict(real=True, nonzero=True), dict(integer=True)]


def symbols(rng, n, real=None, names=None):
    names = list(names or NAMES)
    rng.shuffle(names)
    out = []
    for nm in names[:n]:
        if real is True:
            out.append(sp.Symbol(nm, real=True))
        elif real is False:
            out.append(sp.Symbol(nm))
        else:
            out.append(sp.Symbol(nm, **ASSUME[rng.integers(len(ASSUME))]))
    return out


def num(rng, complex_ok=False, simple=False):
    k = rng.integers(5)
    if k == 0:
        r = sp.Integer(int(rng.integers(-4, 5)))
    elif k == 1:
        r = sp.Rational(int(rng.integers(-7, 8)), int(rng.integers(1, 7)))
    elif k == 2 and not simple:
        r = sp.sqrt(int(rng.choice([2, 3, 5])))
    else:
        r = sp.Float(float(np.round(rng.normal() * 2, 4)))
    if r == 0:
        r = sp.Integer(1)
    if complex_ok and rng.random() < .3:
        r = r + sp.I * sp.Float(float(np.round(rng.normal(), 3)))
    return r


def coeff(rng, syms, complex_ok=True, depth=2):
    """A phi-free coefficient."""
    if not syms or depth == 0:
        if syms and rng.random() < .6:
            return syms[rng.integers(len(syms))]
        return num(rng, complex_ok)
    k = rng.integers(7)
    if k == 0:
        return num(rng, complex_ok)
    if k == 1:
        return syms[rng.integers(len(syms))]
    if k == 2:
        return syms[rng.integers(len(syms))] ** int(rng.integers(1, 4))
    if k == 3:
        return coeff(rng, syms, complex_ok, depth-1) * coeff(
            rng, syms, complex_ok, depth-1)
    if k == 4:
        return coeff(rng, syms, complex_ok, depth-1) + coeff(
            rng, syms, complex_ok, depth-1)
    if k == 5:
        return sp.cos(syms[rng.integers(len(syms))])
    return num(rng, complex_ok) * syms[rng.integers(len(syms))]


def trig_poly(rng, syms, deg=8, nterms=None, complex_ok=True, phi=PHI):
    """Sum of coefficient*cos^a*sin^b with a+b<=deg."""
    if nterms is None:
        nterms = int(rng.integers(1, 6))
    e = sp.Integer(0)
    for _ in range(nterms):
        d = int(rng.integers(0, deg+1))
        a = int(rng.integers(0, d+1))
        e += (coeff(rng, syms, complex_ok) * sp.cos(phi)**a
              * sp.sin(phi)**(d-a))
    return e


def formula(rng, syms, deg=8, complex_ok=True):
    """A trigonometric polynomial in phi in one of several shapes."""
    k = rng.integers(9)
    c = lambda: coeff(rng, syms, complex_ok)
    C, Sn = sp.cos(PHI), sp.sin(PHI)
    if k == 0:
        return trig_poly(rng, syms, deg, complex_ok=complex_ok)
    if k == 1:          # factored powers
        n = int(rng.integers(1, deg+1))
        m = max(1, n // 2)
        return (c()*C + c()*Sn + c())**m * (1 + num(rng, complex_ok)*C
                                            )**min(n-m, 2)
    if k == 2:          # multiple angles with a phase
        n = int(rng.integers(1, min(deg, 8)+1))
        return c() * sp.cos(n*PHI + (c() if rng.random() < .5 else 0)) + c()
    if k == 3:          # constant
        return sp.sympify(c())
    if k == 4:          # a single product
        a = int(rng.integers(0, deg+1))
        b = int(rng.integers(0, deg-a+1))
        return c() * C**a * Sn**b
    if k == 5:
        return num(rng, complex_ok) * C**int(rng.integers(0, deg+1))
    if k == 6:          # squared magnitude
        d = max(1, deg // 2)
        return (trig_poly(rng, syms, d, 2, False)**2
                + trig_poly(rng, syms, d, 2, False)**2)
    if k == 7:
        return (c()*(C**2 if deg >= 2 else C) + c())*(c()*Sn + c()) \
            if deg >= 3 else c()*C + c()*Sn
    n = int(rng.integers(1, min(deg, 6)+1))
    return c()*sp.sin(n*PHI) + sp.I*c()*sp.cos(PHI) if complex_ok else \
        c()*sp.sin(n*PHI) + c()*sp.cos(PHI)


def values(rng, syms, complex_ok=True, special=True):
    """Random numeric values for symbols compatible with their assumptions."""
    out = {}
    for s in syms:
        if s.is_integer:
            v = float(rng.integers(1, 4))
        elif s.is_positive:
            v = float(rng.uniform(.2, 2))
        elif s.is_real or not complex_ok:
            v = float(rng.normal()) or .5
        else:
            v = complex(rng.normal(), rng.normal())
        if special and rng.random() < .05:      # numbers with a meaning of their own
            v = 1. if s.is_positive or s.is_integer or s.is_nonzero else [
                0., 0., 1., -1.][rng.integers(4)]
        out[s] = v
    return out


def dft(f, M, N=64):
    """Fourier coefficients n=-M..M of the samples f(phi_j), phi_j=2 pi j/N.

    Exact for trigonometric polynomials of degree < N-M.
    """
    f = np.asarray(f, dtype=complex) * np.ones(N)
    n = np.arange(-M, M+1)
    j = np.arange(N)
    W = np.exp(-2j*np.pi*np.outer(n, j)/N)
    return W @ f / N


def grid(N=64):
    return 2*np.pi*np.arange(N)/N


def subset_pcs(rng, lo=1):
    n = int(rng.integers(lo, 5))
    p = list(PCS)
    rng.shuffle(p)
    return p[:n]
