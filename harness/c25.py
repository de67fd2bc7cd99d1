"""C25 - the whole analysis recovers the physics the data come from."""
import os

import numpy as np
import sympy as sp
import shgpy
from shgpy import fformfit as ff_
from shgpy import formgen as fo
from shgpy import tensor_definitions as td
import c12
import fgen
import gen

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('experiments simulated with an independent numeric model (point group, '
        'susceptibilities, multipoles, orientation, azimuth, gain, dark, '
        'units, row order, sampling, normal incidence), written to files, '
        'then loaded, transformed, modelled and fitted with the package only; '
        'distinct by point groups, options and number of parameters')
ASSUMPTIONS = [
    'geometry as in C12; samples at equally spaced angles which include 0 '
    '(others densely sampled, to the accuracy of the interpolation)',
    'Fourier data are held in single precision: residuals to 1e-5',
    'fits start within 3 percent of the parameters, which are only required '
    'to be recovered when the simulated data determine them']
MIN_EVENTS = {'experiments': 45, 'residuals at the truth': 35,
              'predictions compared': 150, 'fits': 35, 'with dark': 15,
              'with azimuth': 15, 'with gain': 12, 'normal incidence': 5,
              'rotated crystals': 12, 'several multipoles': 8,
              'parameters recovered': 5, 'complex susceptibilities': 6,
              'wrong models told apart': 25}
WATCHDOG_S = 400


def plan(tier):
    return [('experiment', 60 if tier == 'quick' else 900)]


def fewer(rng, t, n):
    """At most n parameters of a tensor, the others zero."""
    fs = sorted({s for e in t.ravel() for s in sp.sympify(e).free_symbols},
                key=str)
    rng.shuffle(fs)
    t = np.array([sp.sympify(e).subs({s: 0 for s in fs[n:]})
                  for e in t.ravel()], dtype=object).reshape(t.shape)
    return t


def sample(rng, mon):
    """Tensors (eee, mee, qee) with real parameters and how to describe them"""
    names = [n for n, t in td.dipole.items() if any(e != 0 for e in t.ravel())]
    n = names[rng.integers(len(names))]
    kinds = [['eee'], ['eee'], ['eee', 'qee'], ['mee'], ['eee', 'mee'],
             ['qee'], ['eee']][rng.integers(7)]
    if len(kinds) > 1:
        mon.count('several multipoles')
    R = None
    if rng.random() < .4:
        mon.count('rotated crystals')
        # about an axis, or a face normal brought to the z axis
        if rng.random() < .5:
            R = shgpy.rotation_matrix3(
                np.array([[1, 0, 0], [0, 1, 0], [1, 1, 0]][rng.integers(3)]),
                float([np.pi/2, np.pi, .4][rng.integers(3)]))
        else:
            R = shgpy.rotation_matrix_from_two_vectors(
                np.array([[1., 1, 1], [1., 1, 0], [0., 1, 0]][
                    rng.integers(3)]), np.array([0., 0, 1]))
    out, used = {}, []
    for k in kinds:
        if k == 'qee':
            qn = list(td.quadrupole)
            q = qn[rng.integers(len(qn))]
            t, m = td.quadrupole[q], 2
        else:
            t, m = td.dipole[n], int(rng.integers(1, 4 if len(kinds) < 2 else 3))
        t = fewer(rng, np.array(t, dtype=object), m)
        if len(kinds) > 1:      # parameters of each multipole are its own
            ren = {s: sp.Symbol(k[0] + '_' + s.name) for e in t.ravel()
                   for s in sp.sympify(e).free_symbols}
            t = np.array([sp.sympify(e).subs(ren) for e in t.ravel()],
                         dtype=object).reshape(t.shape)
        if k == 'eee' and rng.random() < .3:
            t = shgpy.particularize(t)
        if rng.random() < .25 and (k != 'qee' or len(kinds) > 1):
            t = shgpy.make_tensor_complex(
                fewer(rng, t, 2 if len(kinds) < 2 else 1))
            mon.count('complex susceptibilities')
        else:
            t = shgpy.make_tensor_real(t)
        if R is not None:
            t = shgpy.transform(t, R)
        out[k] = t
        used.append((k, n if k != 'qee' else q))
    return out, used, R is not None


def numeric(tens, truth):
    return {k: gen.ev_array(t, truth) for k, t in tens.items()}


def run(kind, idx, rng, mon, tier):
    normal = rng.random() < .2
    for _ in range(50):
        tens, used, rotated = sample(rng, mon)
        theta = 0. if normal else float(rng.uniform(.1, 1.2))
        fs = sorted({s for t in tens.values() for e in t.ravel()
                     for s in sp.sympify(e).free_symbols}, key=str)
        if not fs:
            continue
        truth = {s: float(rng.uniform(.5, 2)*rng.choice([-1, 1])) for s in fs}
        grid = gen.grid(64)
        sim = lambda tr, x: [c12.intensities(
            theta, p, **numeric(tens, tr)) for p in x]
        clean = {pc: np.array([v[pc] for v in sim(truth, grid)])
                 for pc in gen.PCS}
        big = max(v.max() for v in clean.values())
        if big > 1e-3:      # intensities are quadratic in the tensors
            f = np.sqrt(rng.uniform(1, 20)/big)
            truth = {s: v*f for s, v in truth.items()}
            big *= f*f
            break
    else:
        return
    # -------------------------------------------------------- the experiment
    azimuth = 0.
    if rng.random() < .4:
        azimuth = float(rng.uniform(-3, 3))
        mon.count('with azimuth')
    gain = 1.
    if rng.random() < .4:
        gain = float(10**rng.uniform(-2, 3))
        mon.count('with gain')
    unit = ['degrees', 'radians'][rng.integers(2)]
    N = int(rng.choice([40, 64, 72, 90, 120]))
    offset = 0.
    tol = 1e-5
    if normal and N == 90:      # 90 degrees are a number of steps
        N = 40
    if rng.random() < .2:
        N = 360
        offset = float(rng.uniform(0, 2*np.pi/N))
        tol = 2e-3
    x = np.arange(N)*2*np.pi/N + offset
    pcs = list(gen.PCS)
    if normal:
        mon.count('normal incidence')
        pcs = [['PP', 'PS'], ['PP', 'SP'], ['SS', 'PS'], ['SS', 'SP']][
            rng.integers(4)]
    rng.shuffle(pcs)
    truth_x = sim(truth, x + azimuth)
    dark = rng.random() < .5
    files, darks = {}, {}
    lev = float(rng.uniform(0, big*gain))
    for pc in pcs:
        y = gain*np.array([v[pc] for v in truth_x])
        d = lev*(1 + .3*rng.random(N)) if dark else 0*y
        files[pc] = os.path.join(mon.dir, pc + '.csv')
        write(rng, files[pc], x, y + d, unit)
        if dark:
            du = ['degrees', 'radians'][idx % 2]
            darks[pc] = os.path.join(mon.dir, pc + '_dark.csv')
            write(rng, darks[pc], x, d, du)
    if dark:
        mon.count('with dark')
    # ---------------------------------------------------------- the analysis
    M = int(rng.choice([8, 9, 16]))
    kw = dict(M=M, scale=1/gain, normal_to_oblique=bool(normal))
    if dark:
        kw.update(dark_filenames_dict=darks, dark_angle_units=du)
    dat, fdat = shgpy.load_data_and_fourier_transform(files, unit, **kw)
    th = theta
    if theta == 0 and rng.random() < .5:
        th = sp.Integer(0)
    form = fo.formgen(th, **{'t_' + k: t for k, t in tens.items()})
    fform = shgpy.form_to_fform(form, M=M)
    psi = sp.Symbol('psi', real=True)
    full = dict(truth)
    if azimuth:
        if rng.random() < .5:
            fform.apply_phase_shift(psi)
        else:
            form.apply_phase_shift(psi, gen.PHI)
            fform = shgpy.form_to_fform(form, M=M)
        full[psi] = azimuth
    amp = sp.Symbol('A', positive=True)
    if rng.random() < .25:      # only the product with the tensors matters
        fform.apply_arbitrary_scale(amp)
        full[amp] = 1.
    mon.note_sample(f'{used} theta {theta:.3f} azimuth {azimuth:.2f} '
                    f'gain {gain:.3g} {unit} N {N} M {M} dark {dark} {pcs}')
    order = fform.get_free_symbols()
    full = {s: full[s] for s in order}
    what = lambda: f'{used} theta {theta} azimuth {azimuth} gain {gain} ' \
                   f'{unit} N={N} M={M} {full}'
    mon.check(sorted(dat.get_keys()) == sorted(gen.PCS) ==
              sorted(fdat.get_keys()), 'four polarizations', dat.get_keys)
    # -------------------------------------------------- data meet the formula
    amount = sum(np.sum(np.abs(fdat.get_pc(k))**2) for k in fdat.get_keys())
    pred = shgpy.fform_to_fdat(fform, full)
    for k in gen.PCS:
        mon.close(pred.get_pc(k), fdat.get_pc(k), 'predicted Fourier data',
                  tol*10, tol*big, detail=lambda: k + ' ' + what())
        mon.count('predictions compared')
    grown = shgpy.fform_to_dat(fform, full, N)
    if not offset:
        for k in gen.PCS:
            gx, gy = grown.get_pc(k, 'degrees')
            dx, dy = dat.get_pc(k, 'degrees')
            dd = dict(zip(np.round(dx*N/360).astype(int) % N, dy))
            want = [dd[int(j) % N] for j in np.round(gx*N/360)] \
                if len(dd) == N else None
            if want is not None:
                mon.close(gy, want, 'predicted data', 1e-4, 1e-5*big,
                          detail=lambda: k + ' ' + what())
    mon.count('experiments')
    mon.sig(str(used), rotated, normal, unit, dark, bool(azimuth),
            gain != 1, len(order), M, N)
    if sum(e.count_ops() for k in gen.PCS for e in fform.get_pc(k)) > 12000:
        return      # takes minutes to compile
    cost = ff_.gen_cost_func(fform, fdat, chunk=bool(rng.integers(2)))
    vec = np.array([full[s] for s in order])
    c0 = cost(vec)
    # single precision of gain*data, differences with the dark
    small = (tol**2*10 + 1e-10)*amount
    mon.check(abs(c0) <= small, 'no residual at the truth',
              lambda: (c0, amount, what()))
    mon.count('residuals at the truth')
    # ------------------------------------------------------ telling apart
    J = jacobian(fform, full, order)
    sv = np.linalg.svd(J*vec, compute_uv=False)
    i = int(np.argmax(np.linalg.norm(J, axis=0)))
    other = vec.copy()
    other[i] *= 1.3
    m = model_cost(fform, fdat, dict(zip(order, other)))
    if m > 100*small:
        mon.check(abs(cost(other)-m) <= 1e-3*m, 'the residual of a wrong model',
                  lambda: (cost(other), m, what()))
        mon.count('wrong models told apart')
    # ------------------------------------------------------------------ fit
    guess = {s: v*(1 + float(rng.uniform(-.03, .03)))
             for s, v in full.items()}
    items = list(guess.items())
    rng.shuffle(items)
    guess = dict(items)
    bounds = {s: (min(v*.8, v*1.2), max(v*.8, v*1.2))
              for s, v in full.items()}
    k = int(rng.integers(4))
    if k == 0:
        ret = ff_.least_squares_fit(fform, fdat, guess)
    elif k == 1:
        ret = ff_.least_squares_fit_with_bounds(fform, fdat, guess, bounds)
    elif k == 2:
        ret = ff_.basinhopping_fit(fform, fdat, guess, 0)
    else:
        ret = ff_.basinhopping_fit_jac_with_bounds(
            fform, fdat, guess, bounds, 0)
    mon.count('fits')
    got = {s: float(ret.xdict[s]) for s in order}
    c1 = cost(np.array([got[s] for s in order]))
    cg = cost(np.array([guess[s] for s in order]))
    mon.check(c1 <= max(.05*cg, 10*small, 1e-6*amount),
              'the fit describes the data',
              lambda: (k, c1, cg, amount, got, what()))
    if sv[-1] > .05*sv[0] and tol < 1e-4:
        mon.count('parameters recovered')
        err = max(abs(got[s]/full[s] - 1) for s in order)
        mon.check(err < .02, 'the parameters are recovered',
                  lambda: (k, err, got, what()))

def write(rng, fn, x, y, unit):
    x = np.degrees(x) if unit == 'degrees' else x
    i = rng.permutation(len(x)) if rng.random() < .5 else np.arange(len(x))
    with open(fn, 'w') as f:
        for a, b in zip(x[i], y[i]):
            f.write('%r,%r\n' % (float(a), float(b)))


def model_cost(fform, fdat, env):
    return fgen.cost(fform, fdat, env)[0]


def jacobian(fform, full, order):
    def flat(env):
        v = fgen.fform_values(fform, env)
        z = np.concatenate([v[k] for k in sorted(v)])
        return np.concatenate([z.real, z.imag])
    cols = []
    for s in order:
        h = 1e-5
        a, b = dict(full), dict(full)
        a[s] += h
        b[s] -= h
        cols.append((flat(a) - flat(b))/2/h)
    return np.array(cols).T
