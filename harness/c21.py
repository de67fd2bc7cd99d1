"""C21 - fits return consistent, bounded, no-worse-than-guess results."""
import os
import warnings
from pathlib import Path

import numpy as np
import sympy as sp
from scipy.optimize import (OptimizeResult, basinhopping, dual_annealing,
                            least_squares)
from shgpy import fDataContainer, fFormContainer
from shgpy import fformfit as ff_
import fgen
import gen

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('all seven fit functions on random formulas, data, guesses, bounds '
        'and options; the result is compared with an independent evaluation '
        'of the sum of squares; the objective and gradient given to the '
        'optimizer are intercepted (as a custom scipy method) and evaluated '
        'at many points; distinct by function, options and formula structure')
ASSUMPTIONS = [
    'the guess lies within the bounds; methods which never return a worse '
    'point than their start',
    'exact fits from guesses within a few percent, in well-conditioned '
    'problems']
MIN_EVENTS = {'fits': 150, 'objectives intercepted': 60,
              'gradients compared': 100, 'bounded fits': 50,
              'exact fits': 30, 'degenerate formulas': 14, 'saved': 10,
              'loaded': 10, 'chunked': 15, 'seeded twice': 4,
              'results compared with scipy': 80,
              'options given': 100, 'guess on a bound': 8, 'annealing callbacks': 2, 'perfect guesses': 7}
SOFT_S = {'quick': 300, 'thorough': 3000}
FITS = ['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da']


def plan(tier):
    q = tier == 'quick'
    return [('consistent', 126 if q else 1750), ('intercept', 40 if q else 600),
            ('exact', 42 if q else 560), ('perfect', 14 if q else 140),
            ('rounding', 24 if q else 400),
            ('reference', 56 if q else 840),
            ('degenerate', 14 if q else 98), ('options', 28 if q else 350)]


def call(fit, ff, fd, guess, bounds, kw, n=2, opts=None):
    """Call one of the seven functions with its own spelling of the options."""
    kw = dict(kw)
    if fit == 'ls':
        return ff_.least_squares_fit(ff, fd, guess,
                                     least_sq_kwargs=opts or {}, **kw)
    if fit == 'lsb':
        return ff_.least_squares_fit_with_bounds(
            ff, fd, guess, bounds, least_sq_kwargs=opts or {}, **kw)
    if fit == 'da':
        return ff_.dual_annealing_fit_with_bounds(
            ff, fd, guess, bounds, maxiter=20*n, **kw)
    if opts:
        kw['basinhopping_kwargs'] = opts
    f = {'bh': ff_.basinhopping_fit, 'bhb': ff_.basinhopping_fit_with_bounds,
         'bhj': ff_.basinhopping_fit_jac,
         'bhjb': ff_.basinhopping_fit_jac_with_bounds}[fit]
    if fit in ('bh', 'bhj'):
        return f(ff, fd, guess, n, **kw)
    return f(ff, fd, guess, bounds, n, **kw)


BOUNDED = ('lsb', 'bhb', 'bhjb', 'da')
JAC = ('bhj', 'bhjb')


def simple(rng, syms):
    """A coefficient of moderate growth."""
    x = syms[rng.integers(len(syms))]
    y = syms[rng.integers(len(syms))]
    c = sp.Float(float(np.round(rng.normal(), 2)))
    k = int(rng.integers(10))
    return [lambda: sp.Abs(x)*c + sp.sqrt(x**2)*y, lambda: c*x, lambda: x*y, lambda: c + sp.I*x, lambda: x**2 - c*y,
            lambda: sp.sin(x) + y, lambda: sp.I*c*x*y - y, lambda: c,
            lambda: sp.exp(-x**2) + c*y,
            lambda: (x + sp.I*y)*sp.conjugate(x - c*sp.I*y)][k]()


def problem(rng, fit, n=None, names=None):
    many = n is None and rng.random() < .12
    if n is None:
        n = int(rng.integers(10, 14) if many else rng.integers(1, 4))
    # names whose order by length, by case and by definition all differ
    pool = ['b', 'a', 'c10', 'c9', 'B', 'zz', 'x_1', 'lamda', 'aa', 'Z']
    if many:        # and some whose order by number differs
        pool = ['a%d' % i for i in range(1, 13)] + ['A', 'a']
    rng.shuffle(pool)
    real = [True, None][rng.integers(2)]
    if real is None:
        syms = [sp.Symbol(s, **[dict(), dict(real=True)][rng.integers(2)])
                for s in pool[:n]]
    else:
        syms = [sp.Symbol(s, real=True) for s in pool[:n]]
    M = int(rng.integers(3, 6) if many else rng.integers(1, 3))
    while True:
        ff = fgen.random_fform(rng, syms, M, npc=2, make=simple,
                               density=.95 if many else None)
        if set(ff.get_free_symbols()) == set(syms):
            break
    return syms, ff, fgen.random_fdat(rng, ff)


def number(rng, v):
    k = int(rng.integers(4))
    return [float, np.float64, lambda x: float(x), np.float32][k](v)


def guess_bounds(rng, mon, syms, centre=None, width=None):
    guess, bounds = {}, {}
    edge = rng.random() < .25
    for s in syms:
        c = float(rng.normal()) if centre is None else centre[s]
        if centre is None and rng.random() < .15:
            c = int(rng.integers(-2, 3))
        # wide, narrow, one-sided about the guess, very different per symbol
        lo = c - float(rng.uniform(.05, 3))
        hi = c + float(rng.uniform(.05, 3))
        if edge:
            if rng.random() < .5:
                lo = float(c)
            else:
                hi = float(c)
        guess[s] = c
        b = [lo, hi]
        bounds[s] = [tuple(b), b, np.array(b)][rng.integers(3)]
    if edge:
        mon.count('guess on a bound')
    extra = [sp.Symbol('unused_1'), sp.Symbol('AA', real=True)]
    for e in extra[:int(rng.integers(3))]:
        guess[e] = 1e6
        bounds[e] = (1e6-1, 1e6+1)

    def shuffled(d):
        items = list(d.items())
        rng.shuffle(items)
        return {k: v for k, v in [(i[0], d[i[0]]) for i in items]}
    return shuffled(guess), shuffled(bounds)


def objective(fit, ret):
    return 2*float(ret.cost) if fit in ('ls', 'lsb') else float(
        np.asarray(ret.fun).reshape(-1)[0])


def judge(mon, fit, ret, ff, fd, guess, bounds, what='', slack=0.):
    """Everything a result must satisfy; returns the objective at it."""
    order = ff.get_free_symbols()
    x = np.asarray(ret.x, dtype=float)
    mon.check(isinstance(ret, OptimizeResult) or hasattr(ret, 'x'),
              'the kind of result')
    mon.check(x.shape == (len(order),), 'one value per free symbol',
              lambda: (x, order))
    mon.check(list(ret.xdict) == list(order),
              'the symbols are paired in sorted order',
              lambda: (list(ret.xdict), order))
    mon.check(all(float(ret.xdict[s]) == x[i] for i, s in enumerate(order)),
              'the dictionary holds the raw vector',
              lambda: (ret.xdict, x))
    env = dict(zip(order, map(float, x)))
    want, mag = fgen.cost(ff, fd, env)
    got = objective(fit, ret)
    mon.check(abs(got-want) <= 1e-8*mag + slack, 'the reported objective is the sum '
              'of squared deviations', lambda: f'{fit} {what}: {got} want '
              f'{want} at {env} for {dict(ff.get_items())}')
    start, smag = fgen.cost(ff, fd, {s: float(guess[s]) for s in order})
    mon.check(got <= start + 1e-9*smag + 1e-9*mag + slack,
              'no worse than the guess',
              lambda: f'{fit} {what}: {got} from {start}')
    if fit in BOUNDED and bounds is not None:
        for s in order:
            lo, hi = map(float, bounds[s])
            mon.check(lo - 1e-12*(1+abs(lo)) <= env[s]
                      <= hi + 1e-12*(1+abs(hi)), 'within the bounds',
                      lambda: f'{fit} {what}: {s}={env[s]} not in {(lo, hi)}')
        mon.count('bounded fits')
    mon.check(isinstance(float(ret.time), float) and ret.time >= 0,
              'the time is reported')
    mon.count('fits')
    mon.count('fit ' + fit)
    return got


def route(rng, mon, fit):
    """Options which must not matter."""
    kw = {}
    p = os.path.join(mon.dir, 'cost.so')
    g = os.path.join(mon.dir, 'grad')
    k = int(rng.integers(3))
    if k == 1 and fit not in JAC:
        kw['chunk_cost_func'] = True
        mon.count('chunked')
    load = None
    if rng.random() < .35:
        kw['save_cost_func_filename'] = p if rng.random() < .5 else Path(p)
        load = dict(load_cost_func_filename=p)
        if fit in JAC:
            kw['grad_save_cost_func_filename_prefix'] = g
            load['load_grad_cost_func_filename_prefix'] = g
        mon.count('saved')
    return kw, load


def methods(rng, fit):
    if fit in ('ls', 'lsb'):
        return {}
    if fit == 'bh':
        return [{}, dict(method='Nelder-Mead'), dict(method='L-BFGS-B'),
                dict(method='CG'), dict(method='Powell')][rng.integers(5)]
    if fit == 'bhj':
        return [{}, dict(method='L-BFGS-B'), dict(method='CG')][
            rng.integers(3)]
    if fit == 'bhb':
        return [{}, dict(method='Nelder-Mead'), dict(method='L-BFGS-B')][
            rng.integers(3)]
    if fit == 'da':
        return [{}, dict(no_local_search=False)][rng.integers(2)]
    return {}


def consistent(idx, rng, mon):
    fit = FITS[idx % 7]
    syms, ff, fd = problem(rng, fit)
    if rng.random() < .1:
        # nothing but phases and no data: the objective is a constant
        syms = [sp.Symbol(s, real=True) for s in 'ba']
        phases = [sp.exp(sp.I*syms[0]), 2*sp.exp(-sp.I*syms[1]), sp.Integer(1)]
        ff = fFormContainer({'PP': np.array(phases, dtype=object)}, M=1)
        fd = fDataContainer({'PP': np.zeros(3, complex)}, M=1)
        mon.count('constant objectives')
    guess, bounds = guess_bounds(rng, mon, syms)
    if fit in BOUNDED and fit != 'da' and rng.random() < .3:
        for s in list(bounds):
            b = [float(v) for v in bounds[s]]
            for i in (0, 1):
                if rng.random() < .5:
                    b[i] = [-np.inf, np.inf][i]
            bounds[s] = tuple(b)
        mon.count('infinite bounds')
    if fit in ('bhb', 'bhjb') and rng.random() < .15:
        bounds = None
        mon.count('no bounds')
    kw, load = route(rng, mon, fit)
    kw.update(methods(rng, fit))
    if rng.random() < .3:
        for d in (guess, bounds or {}):
            for s in list(d):
                if s in syms:
                    d[s] = np.float64(d[s]) if d is guess else d[s]
    mon.sig(fit, ff.get_M(), len(syms), tuple(sorted(kw)))
    mon.note_sample(f'{fit} {kw} guess {guess} bounds {bounds}')
    ret = call(fit, ff, fd, guess, bounds, kw, int(rng.integers(1, 4)))
    judge(mon, fit, ret, ff, fd, guess, bounds, kw)
    if load:
        kw2 = dict(methods(rng, fit), **load)
        ret = call(fit, ff, fd, guess, bounds, kw2, 1)
        judge(mon, fit, ret, ff, fd, guess, bounds, kw2)
        mon.count('loaded')


def derivative(ff, fd, env, order):
    """The gradient of the sum of squares, by the chain rule."""
    out = []
    vals = fgen.fform_values(ff, env)
    # parameters take real values, whatever is known of their symbols
    real = {s: sp.Symbol('r_%d' % i, real=True) for i, s in enumerate(order)}
    renv = {real[s]: env[s] for s in order}
    for s in order:
        t = 0.
        mag = 0.
        for k in ff.get_keys():
            d = np.asarray(fd.get_pc(k), dtype=complex)
            for i, e in enumerate(ff.get_pc(k)):
                h = complex(gen.ev(
                    sp.diff(e.xreplace(real), real[s]).doit(), renv))
                t += 2*(np.conj(vals[k][i]-d[i])*h).real
                mag += 2*(abs(vals[k][i])+abs(d[i]))*abs(h)
        out.append((t, mag))
    return out


class Interceptor:
    """A scipy minimization method which records what it is given."""

    def __init__(self, mon, ff, fd, grad, rng, bounds=None):
        self.mon, self.ff, self.fd, self.rng = mon, ff, fd, rng
        self.grad = grad
        self.order = ff.get_free_symbols()
        self.bounds = bounds
        self.starts = []

    def __call__(self, fun, x0, args=(), **kw):
        mon = self.mon
        self.starts.append(np.array(x0, dtype=float))
        jac = kw.get('jac')
        pts = [np.array(x0, dtype=float)] + [
            self.rng.normal(size=len(self.order)) for _ in range(3)]
        for x in pts:
            env = dict(zip(self.order, map(float, x)))
            want, mag = fgen.cost(self.ff, self.fd, env)
            got = fun(x.copy(), *args)
            mon.check(np.ndim(got) == 0, 'the objective is a number',
                      lambda: got)
            mon.check(abs(got-want) <= 1e-9*mag,
                      'the objective given to the optimizer',
                      lambda: (got, want, env))
            mon.count('objectives intercepted')
            if self.grad:
                mon.check(callable(jac), 'a gradient is given', jac)
                g = np.asarray(jac(x.copy(), *args), dtype=float)
                mon.check(g.shape == (len(self.order),),
                          'one derivative per parameter', lambda: g)
                for i, (w, m) in enumerate(derivative(
                        self.ff, self.fd, env, self.order)):
                    mon.check(abs(g[i]-w) <= 1e-8*m + 1e-12,
                              'the gradient is the derivative',
                              lambda: (self.order[i], g[i], w, env,
                                       dict(self.ff.get_items())))
                    mon.count('gradients compared')
                    if not self.order[i].is_real:
                        mon.count('gradients in symbols not known to be real')
        if self.bounds is not None:
            b = kw.get('bounds')
            lo = np.array([float(self.bounds[s][0]) for s in self.order])
            hi = np.array([float(self.bounds[s][1]) for s in self.order])
            if hasattr(b, 'lb'):
                got = np.array([b.lb, b.ub], dtype=float)
            else:
                got = np.array(b, dtype=float).T
            mon.check(got.shape == (2, len(lo)) and
                      np.array_equal(got[0], lo) and
                      np.array_equal(got[1], hi),
                      'bounds are paired with their symbols',
                      lambda: (b, self.bounds))
        return OptimizeResult(x=np.array(x0, dtype=float), fun=fun(x0, *args),
                              success=True, nfev=1, nit=1, njev=1,
                              status=0, message='intercepted')


def intercept(idx, rng, mon):
    fit = ['bh', 'bhb', 'bhj', 'bhjb', 'bhj'][idx % 5]
    syms, ff, fd = problem(rng, fit)
    guess, bounds = guess_bounds(rng, mon, syms)
    kw, load = route(rng, mon, fit)
    inter = Interceptor(mon, ff, fd, fit in JAC, rng,
                        bounds if fit in BOUNDED else None)
    kw['method'] = inter
    for k in [kw] + ([dict(load, method=inter)] if load else []):
        inter.starts = []
        ret = call(fit, ff, fd, guess, bounds, k, 2)
        mon.check(len(inter.starts) == 3, 'one minimization per iteration '
                  'after the first', lambda: len(inter.starts))
        mon.check(np.array_equal(inter.starts[0], [
            float(guess[s]) for s in ff.get_free_symbols()]),
            'the optimizer starts at the guess',
            lambda: (inter.starts[0], guess))
        mon.check([float(ret.xdict[s]) for s in ff.get_free_symbols()]
                  == [float(v) for v in ret.x],
                  'the dictionary holds the raw vector')
    if load:
        mon.count('loaded')
    mon.sig('intercept', fit, ff.get_M(), len(syms), bool(load))


def conditioned(rng, n, real=True):
    """A formula whose parameters each dominate coefficients of their own."""
    pool = ['b', 'a', 'c10', 'c9', 'B']
    rng.shuffle(pool)
    syms = [sp.Symbol(s, real=True) for s in pool[:n]]
    row = [sp.Integer(0)]*5
    for j, s in enumerate(syms):
        row[j] += s*(1 + .2*sp.I*j) + sp.Rational(1, 10)*s**2
    row[4] += sp.Rational(1, 5)*syms[0]*syms[-1]
    row2 = [sp.I*e for e in row[::-1]]
    ff = fFormContainer({'PS': np.array(row, dtype=object),
                         'PP': np.array(row2, dtype=object)}, M=2)
    return syms, ff


def exact(idx, rng, mon):
    fit = FITS[idx % 7]
    syms, ff = conditioned(rng, int(rng.integers(1, 4)))
    truth = {s: float(rng.uniform(.5, 2)*rng.choice([-1, 1])) for s in syms}
    vals = fgen.fform_values(ff, truth)
    fd = fDataContainer({k: v.astype(complex) for k, v in vals.items()},
                        M=ff.get_M())
    near = {s: v*(1 + float(rng.uniform(-.05, .05)))
            for s, v in truth.items()}
    guess, bounds = guess_bounds(rng, mon, syms, near)
    for s in syms:      # the truth lies well within
        lo, hi = map(float, bounds[s])
        bounds[s] = (min(lo, truth[s] - .1), max(hi, truth[s] + .1))
    kw, load = route(rng, mon, fit)
    if fit == 'da':
        kw['no_local_search'] = False
    ret = call(fit, ff, fd, guess, bounds, kw, 2)
    got = judge(mon, fit, ret, ff, fd, guess, bounds, kw)
    tol = {'ls': 2e-3, 'lsb': 2e-3}.get(fit, 2e-3)
    err = max(abs(float(ret.xdict[s]) - truth[s]) for s in syms)
    mon.check(err <= tol, 'generated data are fitted exactly',
              lambda: f'{fit}: {ret.xdict} want {truth} from {guess} '
                      f'objective {got} {ret.get("message")}')
    mon.check(ret.success if fit in ('ls', 'lsb') else True,
              'the fit succeeds')
    mon.count('exact fits')
    mon.sig('exact', fit, len(syms))


def perfect(idx, rng, mon):
    """The guess is the truth; the objective there is zero or rounding."""
    fit = FITS[idx % 7]
    syms, ff, _ = problem(rng, fit)
    guess, bounds = guess_bounds(rng, mon, syms)
    vals = fgen.fform_values(ff, {s: float(guess[s])
                                  for s in ff.get_free_symbols()})
    fd = fDataContainer({k: v.astype(complex) for k, v in vals.items()},
                        M=ff.get_M())
    kw, load = route(rng, mon, fit)
    ret = call(fit, ff, fd, guess, bounds, kw, 1)
    got = judge(mon, fit, ret, ff, fd, guess, bounds, kw)
    mag = sum(float(np.sum(np.abs(v)**2)) for v in vals.values())
    mon.check(got <= 1e-9*(mag + 1), 'a perfect guess is kept',
              lambda: (fit, got))
    mon.count('perfect guesses')
    mon.sig('perfect', fit)


def rounding(idx, rng, mon):
    """The objective at the guess is zero and rounds to less than zero."""
    fit = ['ls', 'lsb'][idx % 2]
    x, y = sp.Symbol('x'), sp.Symbol('y', **[dict(), dict(real=True)][
        rng.integers(2)])
    c = sp.Float(float(np.round(rng.normal(), 2)))
    e = [c*x + sp.exp(-x**2), sp.exp(sp.I*x)*sp.exp(-x**2/3),
         sp.sin(x)*c + x/3, c*sp.sqrt(x**2 + 1) + sp.exp(-x**2)*x][
        rng.integers(4)]
    row = [e - y, sp.Integer(0), sp.Integer(0)]
    rng.shuffle(row)
    ff = fFormContainer({'PP': np.array(row, dtype=object)}, M=1)
    order = ff.get_free_symbols()
    fd = fDataContainer({'PP': np.zeros(3, complex)}, M=1)
    cost = ff_.gen_cost_func(ff, fd)
    for _ in range(400):
        u = float(rng.normal())
        v = float(gen.evc(e, {x: u}).real)
        v *= 1 + int(rng.integers(-1, 2))*2.**-53
        p = np.array([{x: u, y: v}[s] for s in order])
        if cost(p) < 0:
            mon.count('objectives below zero')
            break
    guess, bounds = guess_bounds(rng, mon, order, {x: u, y: v})
    ret = call(fit, ff, fd, guess, bounds, {}, 1)
    judge(mon, fit, ret, ff, fd, guess, bounds, slack=1e-15)
    mon.sig('rounding', fit)


def degenerate(idx, rng, mon):
    fit = FITS[idx % 7]
    M = int(rng.integers(1, 3))
    d = {}
    for k in gen.subset_pcs(rng):
        v = np.empty(2*M+1, dtype=object)
        for i in range(2*M+1):
            v[i] = [sp.Integer(0), sp.Float(1.5), 2, sp.pi*sp.I][
                rng.integers(4)] if idx % 2 else sp.Integer(0)
        d[k] = v
    ff = fFormContainer(d, M=M)
    fd = fgen.random_fdat(rng, ff)
    guess = [{}, {sp.Symbol('a'): 1.}][rng.integers(2)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ret = call(fit, ff, fd, guess, {sp.Symbol('a'): (0, 2)}, {}, 1)
    mon.check(len(w) >= 1, 'a formula without symbols gives a warning')
    mon.check(not ret.success, 'and no success')
    mon.check(np.size(ret.x) == 0 and dict(ret.xdict) == {},
              'and an empty result', lambda: ret)
    mon.count('degenerate formulas')
    mon.sig('degenerate', fit, idx % 2)


def options(idx, rng, mon):
    """Options reach the optimizer; equal seeds give equal results."""
    fit = FITS[idx % 7]
    syms, ff, fd = problem(rng, fit)
    guess, bounds = guess_bounds(rng, mon, syms)
    if fit in ('ls', 'lsb'):
        n = int(rng.integers(1, 3))
        opts = dict(max_nfev=n)
        ret = call(fit, ff, fd, guess, bounds, {}, opts=opts)
        judge(mon, fit, ret, ff, fd, guess, bounds, opts)
        mon.check(ret.nfev <= n, 'max_nfev is honoured', lambda: ret.nfev)
        mon.check(opts == dict(max_nfev=n), 'the options are left alone')
        seen = []
        fixed = dict(jac=lambda x: (seen.append(1), np.zeros((1, len(x))))[1])
        call(fit, ff, fd, guess, bounds, {}, opts=fixed)
        mon.check(len(seen) > 0, 'a given Jacobian is used')
    elif fit == 'da':
        seen = []
        seed = int(rng.integers(1000))
        # no further arguments: call sets maxiter
        cb = lambda x, f, c: (seen.append(float(f)), None)[1]
        r = [ff_.dual_annealing_fit_with_bounds(
            ff, fd, guess, bounds, maxiter=15, seed=seed, callback=cb)
            for _ in range(2)]
        for ret in r:
            judge(mon, fit, ret, ff, fd, guess, bounds, 'seeded')
            mon.check(ret.nit <= 15, 'maxiter is honoured', lambda: ret.nit)
        mon.check(np.array_equal(r[0].x, r[1].x), 'a seed fixes the result',
                  lambda: (r[0].x, r[1].x))
        # it is called for every new minimum found
        mon.count('annealing callbacks', len(seen))
        mon.count('seeded twice')
        r = ff_.dual_annealing_fit_with_bounds(
            ff, fd, guess, bounds, maxiter=1000, maxfun=50)
        mon.check(r.nfev <= 50 + 10*len(syms) + 50, 'maxfun is honoured',
                  lambda: r.nfev)
        judge(mon, fit, r, ff, fd, guess, bounds, 'maxfun')
    else:
        n = int(rng.integers(1, 5))
        steps, calls = [], []
        seed = int(rng.integers(1000))

        def step(x):
            steps.append(x.copy())
            return x + .01
        opts = dict(seed=seed, callback=lambda x, f, a: calls.append(1))
        minim = dict(options=dict(maxiter=2), tol=1e-3)
        if rng.random() < .7:
            opts['minimizer_kwargs'] = minim
        kept = dict(opts)
        r = [call(fit, ff, fd, guess, bounds, {}, n, opts=opts)
             for _ in range(2)]
        for ret in r:
            judge(mon, fit, ret, ff, fd, guess, bounds, 'seeded')
            mon.check(ret.nit == n, 'the number of iterations is honoured',
                      lambda: (ret.nit, n))
        mon.check(np.array_equal(r[0].x, r[1].x), 'a seed fixes the result',
                  lambda: (r[0].x, r[1].x))
        mon.check(opts == kept and minim == dict(
            options=dict(maxiter=2), tol=1e-3), 'the options are left alone')
        mon.check(len(calls) >= 2*n, 'the callback is called')
        mon.count('seeded twice')
        ret = call(fit, ff, fd, guess, bounds, {}, n,
                   opts=dict(take_step=step))
        mon.check(len(steps) == n, 'take_step is used', lambda: len(steps))
        judge(mon, fit, ret, ff, fd, guess, bounds, 'take_step')
        if fit in JAC:      # refused, or else right
            ret = outcome(call, fit, ff, fd, guess, bounds,
                          dict(chunk_cost_func=True), n)
            if not isinstance(ret, NotImplementedError):
                judge(mon, fit, ret, ff, fd, guess, bounds, 'chunked')
        # a step size of zero stays at the first minimum
        kw = dict(stepsize=0.)
        ret = call(fit, ff, fd, guess, bounds, kw, n)
        judge(mon, fit, ret, ff, fd, guess, bounds, kw)
    mon.sig('options', fit, len(syms))


def some(rng, choices, p=.35):
    """A random part of the options; each value is a list of choices."""
    return {k: v[rng.integers(len(v))] for k, v in choices.items()
            if rng.random() < p}


def outcome(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:      # what scipy refuses is refused
        return e


def same_minimum(mon, ret, ref, what):
    if isinstance(ref, Exception) or isinstance(ret, Exception):
        mon.check(type(ret) is type(ref), 'the optimizer is asked the same',
                  lambda: f'{what}: {ret!r} want {ref!r}')
        mon.count('refused by scipy')
        return
    x, y = np.asarray(ret.x, float), np.asarray(ref.x, float)
    mon.check(x.shape == y.shape and np.allclose(
        x, y, rtol=1e-6, atol=1e-9, equal_nan=True),
        'the result is that of the optimizer with the documented options',
        lambda: f'{what}: {x} want {y}')
    mon.check(ret.nit == ref.nit if 'nit' in ref else True,
              'as many iterations', lambda: (what, ret.nit, ref.nit))
    mon.check([float(v) for v in ret.xdict.values()] == [float(v) for v in x],
              'the dictionary holds the raw vector')
    mon.count('results compared with scipy')


def reference(idx, rng, mon):
    """The same optimizer, called directly on the same saved functions."""
    fit = FITS[idx % 7]
    syms, ff, fd = problem(rng, fit, n=int(rng.integers(1, 4)))
    guess, bounds = guess_bounds(rng, mon, syms)
    order = ff.get_free_symbols()
    x0 = [float(guess[s]) for s in order]
    box = [(float(bounds[s][0]), float(bounds[s][1])) for s in order]
    cname = os.path.join(mon.dir, 'c.so')
    gname = os.path.join(mon.dir, 'g')
    where = dict(load_cost_func_filename=cname)
    if fit in JAC:
        ff_.basinhopping_fit_jac(
            ff, fd, guess, 0, save_cost_func_filename=cname,
            grad_save_cost_func_filename_prefix=gname,
            basinhopping_kwargs=dict(minimizer_kwargs=dict(
                options=dict(maxiter=1))))
        where['load_grad_cost_func_filename_prefix'] = gname
        parts = [ff_.load_func(gname + '%d.so' % i)
                 for i in range(len(order))]
        jac = lambda x, *a: np.array([p(x) for p in parts])
    else:
        ff_.gen_cost_func(ff, fd, save_filename=cname)
    energy = ff_.load_func(cname)
    seed = int(rng.integers(10**6))*(rng.random() < .75)
    if fit in ('bhb', 'bhjb') and rng.random() < .25:
        guess = {s: v*30 for s, v in guess.items()}
        x0 = [float(guess[s]) for s in order]
        bounds = box = None
        mon.count('no bounds')
    for turn in range(2):
        if fit in ('ls', 'lsb'):
            f = lambda x: np.sqrt(max(energy(x), 0))
            opts = some(rng, dict(
                method=['trf', 'dogbox'], loss=['soft_l1', 'huber', 'cauchy'],
                x_scale=[2., 'jac'], ftol=[1e-3, 1e-6], xtol=[1e-3, 1e-12],
                gtol=[1e-3], diff_step=[1e-3], max_nfev=[2, 5],
                f_scale=[.3, 2.], jac=['3-point']))
            if fit == 'ls':
                ref = outcome(least_squares, f, x0, **opts)
                ret = outcome(
                    ff_.least_squares_fit, ff, fd, guess, least_sq_kwargs=dict(opts), **where)
            else:
                ref = outcome(least_squares, f, x0, bounds=list(zip(*box)), **opts)
                ret = outcome(
                    ff_.least_squares_fit_with_bounds, ff, fd, guess, bounds, least_sq_kwargs=dict(opts),
                    **where)
        elif fit == 'da':
            opts = some(rng, dict(
                initial_temp=[10, 20000.], restart_temp_ratio=[.5, .01],
                visit=[1.5, 2.9], accept=[-1e-3, -1e2], maxfun=[30, 200],
                no_local_search=[True, False], maxiter=[3, 60]), .5)
            if opts.get('no_local_search') is False:
                opts['local_search_options'] = [
                    dict(method='Nelder-Mead', options=dict(maxiter=2)),
                    dict(method='Powell', bounds=box), {}][rng.integers(3)]
            if 'maxiter' not in opts and rng.random() < .7:
                opts['maxiter'] = 30
            # the documented values of what is left out
            full = dict(maxiter=1000, initial_temp=5230,
                        restart_temp_ratio=2e-5, visit=2.62, accept=-5.,
                        maxfun=1e7, no_local_search=True,
                        local_search_options={})
            full.update(opts)
            full['minimizer_kwargs'] = dict(full.pop('local_search_options'))
            ref = outcome(dual_annealing, energy, box, seed=seed, x0=x0, **full)
            ret = outcome(
                ff_.dual_annealing_fit_with_bounds, ff, fd, guess, bounds, seed=seed, **opts, **where)
        else:
            opts = some(rng, dict(T=[.01, 50.], interval=[1, 2],
                                  niter_success=[1, 2]), .5)
            minim = some(rng, dict(tol=[1e-2], options=[
                dict(maxiter=1), dict(maxiter=3)]), .5)
            if rng.random() < .3:
                minim['method'] = ['SLSQP', 'L-BFGS-B'][rng.integers(2)]
            kw = some(rng, dict(stepsize=[.05, 3.],
                                method=['L-BFGS-B', 'TNC']), .5)
            n = int(rng.integers(1, 6))
            local = dict(method='L-BFGS-B' if fit in BOUNDED else 'BFGS')
            local.update({k: v for k, v in kw.items() if k == 'method'})
            if fit in BOUNDED:
                local['bounds'] = box
            if fit in JAC:
                local['jac'] = jac
            local.update(minim)
            given = dict(opts, seed=seed)
            if minim:
                given['minimizer_kwargs'] = dict(minim)
            ref = outcome(basinhopping, energy, x0, niter=n, minimizer_kwargs=local,
                               stepsize=kw.get('stepsize', .5), seed=seed,
                               **opts)
            ret = outcome(call, fit, ff, fd, guess, bounds, dict(kw, **where), n,
                       opts=given)
            opts = {**opts, **minim, **kw}
        same_minimum(mon, ret, ref, (fit, opts, seed))
        mon.count('options given', len(opts))
        mon.sig('reference', fit, len(syms), tuple(sorted(opts)))


def run(kind, idx, rng, mon, tier):
    globals()[kind](idx, rng, mon)
