"""C09 - the symbolic Fourier transform of a formula is exact."""
import numpy as np
import sympy as sp
from shgpy import FormContainer, form_to_fform
import gen

PROPERTY = 'C09'
RULE = ('grammar-generated trigonometric polynomials up to degree 8 with '
        'symbolic coefficients plus every product cos^a sin^b (a+b<=8), '
        'transformed for M in 0..20 and compared at random symbol values with '
        'a 64-point DFT (exact for these degrees); formulas outside the class '
        'must raise; distinct by formula and M')
ASSUMPTIONS = ['identity in the symbols is decided at random points']
MIN_EVENTS = {'coefficients compared': 10000, 'table entries': 45,
              'transforms': 300, 'unsupported rejected': 30,
              'symbolic coefficients': 150}
PHI = gen.PHI
NPT = 64
TABLE = [(a, b) for a in range(9) for b in range(9) if a + b <= 8]


def plan(tier):
    k = 5 if tier == 'quick' else 25
    return [('table', len(TABLE)), ('formula', 320*k), ('unsupported', 60*k)]


def one(exprs, M, rng, mon, default=False):
    form = FormContainer(exprs)
    f = form_to_fform(form) if default else form_to_fform(form, M=M)
    M = 16 if default else M
    mon.count('transforms')
    mon.check(f.get_M() == M, 'M', f.get_M)
    mon.check(f.get_keys() == list(exprs), 'keys', f.get_keys)
    for k, e in exprs.items():
        v = f.get_pc(k)
        mon.check(v.shape == (2*M+1,), 'shape', v.shape)
        fs = sp.sympify(e).free_symbols - {PHI}
        got = set().union(*[x.free_symbols for x in v])
        mon.check(got <= fs, 'only symbols of the formula',
                  lambda: f'{got - fs} in the transform of {e}')
        for _ in range(2):
            env = gen.values(rng, fs, special=False)
            w = gen.dft(gen.ev(e, {**env, PHI: gen.grid(NPT)}), M, NPT)
            g = gen.ev_array(v, env)
            mag = np.abs(gen.ev(e, {**env, PHI: gen.grid(NPT)})).max()
            err = np.abs(g - w)
            mon.count('coefficients compared', 2*M+1)
            mon.check(np.all(err <= 1e-9*mag + 1e-11), 'Fourier coefficient',
                      lambda: f'{e} M={M} n={int(np.argmax(err))-M}: '
                              f'{g[np.argmax(err)]} want {w[np.argmax(err)]} '
                              f'at {env}')


def run(kind, idx, rng, mon, tier):
    if kind == 'table':
        a, b = TABLE[idx]
        e = sp.cos(PHI)**a*sp.sin(PHI)**b
        x = sp.Symbol('x')
        one({'PP': e, 'SS': x*e, 'b': 3*e + sp.I*x**2}, 16, rng, mon, True)
        one({'PP': e}, 8, rng, mon)
        one({'PP': e}, 18, rng, mon)
        mon.count('table entries')
        mon.sig('table', a, b)
        mon.note_sample(str(e))
        return
    if kind == 'unsupported':
        x, p = sp.symbols('x p')
        C, Sn = sp.cos(PHI), sp.sin(PHI)
        pool = [C**9, Sn**10, C**5*Sn**5, x*C**12, PHI, PHI*C, x + PHI**2,
                1/(2+C), 1/C, sp.sqrt(C), sp.sqrt(1+Sn), C**x, 2**C,
                sp.exp(sp.I*PHI), sp.exp(C), sp.Abs(C), sp.cos(PHI/2),
                sp.cos(x*PHI), sp.cos(C), sp.tan(PHI), sp.cos(PHI**2),
                sp.log(2+C), x*C + p*C**9, sp.cos(10*PHI), sp.sin(9*PHI+x),
                C*sp.exp(-PHI), sp.sign(C), 1/Sn**2, C/PHI,
                (1+C)**9]
        e = pool[idx % len(pool)]
        if rng.random() < .5:
            e = e + gen.trig_poly(rng, [x, p], 3, 2)
        M = int(rng.choice([3, 8, 16]))
        mon.sig('unsupported', str(pool[idx % len(pool)]), M)
        mon.note_sample(str(e))
        # raising is right; so is an exact answer
        try:
            f = form_to_fform(FormContainer({'PP': e}), M=M)
        except Exception:
            mon.count('unsupported rejected')
            mon.check(True, 'unsupported formula raises')
            return
        fs = e.free_symbols - {PHI}
        env = gen.values(rng, fs, False, False)
        try:
            ref = {}
            for N in (1024, 2048):
                with np.errstate(all='ignore'):
                    ref[N] = gen.dft(gen.ev(
                        e, {**env, PHI: gen.grid(N) + 0j}), M, N)
            g = gen.ev_array(f.get_pc('PP'), env)
        except KeyError as err:
            mon.check(False, 'unsupported formula raises',
                      f'{e}: transform depends on {err}')
        ok = np.all(np.isfinite(ref[2048])) and np.abs(
            ref[1024]-ref[2048]).max() < 1e-6 and np.abs(
            g - ref[2048]).max() < 1e-6*(1+np.abs(ref[2048]).max())
        mon.check(ok, 'unsupported formula raises',
                  lambda: f'{e}: returned {f.get_pc("PP")}')
        return
    syms = gen.symbols(rng, int(rng.integers(0, 5)))
    M = int(rng.choice([0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 17, 20]))
    exprs = {}
    for k in gen.subset_pcs(rng):
        if rng.random() < .1:
            exprs[k] = sp.sympify([0, 1, sp.I, 2.5, sp.pi][rng.integers(5)])
        elif rng.random() < .12 and syms:
            d = 1/syms[0] if rng.random() < .5 else sp.sqrt(2)/(syms[0]+3)
            exprs[k] = d*gen.trig_poly(rng, syms, 6) + d**2
        elif rng.random() < .12:
            m, n = int(rng.integers(1, 5)), int(rng.integers(1, 4))
            a = gen.coeff(rng, syms, False, 1)
            exprs[k] = (sp.cos(m*PHI + a)*sp.sin(n*PHI)
                        + gen.coeff(rng, syms)*sp.cos(PHI - a))
        else:
            exprs[k] = gen.formula(rng, syms, int(rng.integers(1, 9)))
    if syms:
        mon.count('symbolic coefficients')
    default = M == 16 and rng.random() < .5
    one(exprs, M, rng, mon, default)
    mon.sig(kind, M, [str(e) for e in exprs.values()])
    mon.note_sample(f'M={M} {exprs}')
