"""C13 - contracted Fourier formulas reproduce the same physics."""
import json
import os
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

import numpy as np
import sympy as sp
from sympy.core.cache import clear_cache
import shgpy
from shgpy import fformgen as fg
from shgpy import shg_symbols as S
from shgpy import tensor_definitions as td
import accel
import c12
import gen
from lib import Violation

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('uncontracted transforms generated afresh (several angles, symbolic '
        'angle, several M), contracted with random and tabulated dipole and '
        'quadrupole tensors with and without rounding, saved, loaded and '
        'compared coefficient by coefficient with the discrete Fourier '
        'transform of numerically computed intensities; distinct by '
        'generation, tensors and rounding')
ASSUMPTIONS = [
    'M of at least 8; stored transforms for smaller M raise or are not claimed',
    'the geometry of C12 with phi advanced by pi',
    'sympy and numpy routines which multiply by zero or repeat a substitution '
    'are replaced by faster equivalents (one generation of the thorough tier '
    'runs without)']
MIN_EVENTS = {'generations': 3, 'contractions': 6, 'coefficients compared': 500,
              'symbolic angle': 1, 'numeric angle': 3, 'rounded': 1,
              'rejected': 4}
WATCHDOG_S = 700
SOFT_S = {'quick': 600, 'thorough': 5400}
GEN_LIMIT = {'quick': 420, 'thorough': 3600}
TEMP = {}
FIRST = ('contract',)


def jobs(tier, seed):
    """name, kind, angle, M, accelerated"""
    rng = np.random.default_rng([seed, 13])
    a = [float(rng.uniform(.05, .7)), float(rng.uniform(.7, 1.5))]
    j = [('n0', 'num', a[0], 8, True), ('s8', 'symb', None, 8, True),
         ('n1', 'num', [0.1745, 0., a[1]][seed % 3], 8, True)]
    if tier == 'thorough':
        j += [('n2', 'num', a[1], 16, True), ('s16', 'symb', None, 16, True),
              ('n3', 'num', 0., 9, True), ('n4', 'num', 0.1745, 12, True),
              ('plain', 'num', float(rng.uniform(.05, 1.4)), 8, False)]
    return j


def plan(tier):
    n = len(jobs(tier, 0))
    per = 3 if tier == 'quick' else 12
    return [('contract', n*per), ('reject', 3 if tier == 'quick' else 12)]


def generate(job, d):
    name, kind, angle, M, fast = job
    if fast:
        accel.install()
    else:
        accel.uninstall()
    os.chdir(d)
    prefix = os.path.join(d, name)
    if kind == 'num':
        fg.generate_uncontracted_fourier_transforms(angle, prefix, M=M)
    else:
        fg.generate_uncontracted_fourier_transforms_symb(prefix, M=M)


def prepare(tier, seed, scratch):
    """Generate the uncontracted transforms, all at once, in own processes."""
    TEMP['dir'] = d = os.path.join(scratch, 'uncontracted')
    TEMP['jobs'] = jobs(tier, seed)
    os.mkdir(d)
    pids = {}
    for job in TEMP['jobs']:
        pid = os.fork()
        if pid == 0:
            status = os.path.join(d, job[0] + '.status')
            try:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    generate(job, d)
                msg = 'ok'
            except BaseException:
                msg = traceback.format_exc()
            with open(status, 'w') as f:
                f.write(msg)
            os._exit(0)
        pids[pid] = job
    end = time.time() + GEN_LIMIT[tier]
    while pids and time.time() < end:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(.2)
            continue
        pids.pop(pid, None)
    for pid in pids:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def random_tensor(rng, rank, syms, n):
    t = np.zeros((3,)*rank, dtype=object)
    for _ in range(n):
        k = int(rng.integers(6))
        a, b = (syms[rng.integers(len(syms))] for _ in range(2))
        c = sp.Float(float(np.round(rng.normal(), 3)))
        t[tuple(rng.integers(3, size=rank))] = [
            a, a + c*b, c*a, a + sp.I*b, c, sp.I*a - b][k]
    return t


def tensors(idx, rng, mon, kind):
    syms = gen.symbols(rng, int(rng.integers(1, 4)), real=True)
    zero3 = np.zeros((3, 3, 3), dtype=object)
    zero4 = np.zeros((3, 3, 3, 3), dtype=object)
    k = idx % 5
    if k == 0:
        r = random_tensor(rng, 3, syms, 3), random_tensor(rng, 4, syms, 2)
    elif k == 1:
        name = sorted(td.dipole)[int(rng.integers(len(td.dipole)))]
        t = np.array(td.dipole[name], dtype=object)
        few = sorted({s for e in t.ravel()
                      for s in sp.sympify(e).free_symbols}, key=str)[3:]
        t = np.array([sp.sympify(e).subs({s: 0 for s in few})
                      for e in t.ravel()], dtype=object).reshape(t.shape)
        mk = shgpy.make_tensor_complex if rng.random() < .5 else \
            shgpy.make_tensor_real
        r = mk(shgpy.particularize(t)), zero4
        if not any(x != 0 for x in t.ravel()):
            r = random_tensor(rng, 3, syms, 4), zero4
    elif k == 2:
        r = zero3, random_tensor(rng, 4, syms, 4)
    elif k == 3:
        r = random_tensor(rng, 3, syms, 5), random_tensor(rng, 4, syms, 1)
    else:
        # every entry of the dipole tensor set, no symmetry at all
        t = np.array([sp.Float(float(np.round(rng.normal(), 2)))
                      for _ in range(27 if kind == 'num' else 9)]
                     + [0]*(0 if kind == 'num' else 18), dtype=object).reshape(3, 3, 3)
        rng.shuffle(t.reshape(-1))
        t[tuple(rng.integers(3, size=3))] = syms[0]
        r = t, random_tensor(rng, 4, syms, 2)
    if rng.random() < .15:      # no parameters at all
        env = {s: sp.Float(float(np.round(rng.normal(), 3)))
               for t in r for e in t.ravel()
               for s in sp.sympify(e).free_symbols}
        for t in r:
            for i in np.ndindex(*t.shape):
                t[i] = sp.sympify(t[i]).subs(env)
        mon.count('numeric tensors')
        if rng.random() < .6:
            r = tuple(np.array([complex(e) for e in t.ravel()])
                      .reshape(t.shape) for t in r)
            if rng.random() < .5:
                r = tuple(np.real(t).copy() for t in r)
            mon.count('numeric arrays')
    return r


def monomials(expr):
    """Monomial -> complex coefficient of the expanded expression."""
    out = {}
    for term in sp.Add.make_args(sp.expand(sp.sympify(expr))):
        num, rest = [], []
        for f in sp.Mul.make_args(term):
            (num if f.is_number else rest).append(f)
        key = sp.Mul(*rest)
        out[key] = out.get(key, 0) + complex(sp.N(sp.Mul(*num)))
    return out


def rounded(ff, fr, nd, mon):
    """Every numeric factor is the unrounded one, rounded.

    sympy keeps rounded numbers with a few bits only, so that they are off the
    decimal grid by up to an eighth of a unit.
    """
    for k in gen.PCS:
        for i, (e, r) in enumerate(zip(ff.get_pc(k), fr.get_pc(k))):
            a, b = monomials(e), monomials(r)
            for m in set(a) | set(b):
                x, y = a.get(m, 0), b.get(m, 0)
                d = complex(x - y)
                mon.check(max(abs(d.real), abs(d.imag)) <= .65*10.**-nd
                          + 1e-13*abs(x), 'rounding',
                          lambda: f'{k} entry {i} {m}: {x} became {y} for '
                                  f'{nd} digits')
                z = np.array([complex(y).real, complex(y).imag])*10.**nd
                mon.check(np.all(np.abs(z - np.round(z)) < .15),
                          'rounded to the digits asked for',
                          lambda: f'{k} entry {i} {m}: {y} for {nd} digits')
                mon.count('rounded factors')


def regenerated(idx, rng, mon, job, t1, t2, fn):
    """New transforms under the name of those used before."""
    others = [j for j in TEMP['jobs'] if j[0] != job[0] and j[1] == 'num'
              and j[3] <= job[3] and os.path.exists(
                  os.path.join(TEMP['dir'], j[0] + '.status'))]
    if not others:
        return
    prefix = os.path.join(mon.dir, 'current')
    g3 = np.zeros((3,)*3, dtype=object)
    g4 = np.zeros((3,)*4, dtype=object)
    g3[tuple(rng.integers(3, size=3))] = sp.Symbol('a', real=True)
    for j in (others[int(rng.integers(len(others)))], job):
        n = 0
        for f in os.listdir(TEMP['dir']):
            if f.startswith(j[0]) and not f.endswith('.status'):
                new = prefix + f[len(j[0]):]
                if os.path.lexists(new):
                    os.unlink(new)
                os.symlink(os.path.join(TEMP['dir'], f), new)
                n += 1
        mon.check(n, 'the transforms were saved')
        f = fg.generate_contracted_fourier_transforms
        if j is job:
            first = shgpy.load_fform(fn)
            f(fn, prefix, t1, t2, M=j[3])
        else:
            f(os.path.join(mon.dir, 'other.p'), prefix, g3, g4, M=j[3])
    now = shgpy.load_fform(fn)
    mon.check(now.get_M() == first.get_M() and all(
        np.array_equal(now.get_pc(k), first.get_pc(k)) for k in gen.PCS),
        'the transforms are used as they are now')
    mon.count('transforms generated again')


def contract(idx, rng, mon):
    job = TEMP['jobs'][idx % len(TEMP['jobs'])]
    name, kind, angle, M, fast = job
    st = os.path.join(TEMP['dir'], name + '.status')
    if not os.path.exists(st):
        raise MemoryError(f'generation {name} did not finish in time')
    msg = open(st).read()
    mon.check(msg == 'ok', 'generation succeeds', f'{job}: {msg[-2500:]}')
    if idx < len(TEMP['jobs']):
        mon.count('generations')
    if fast:
        accel.install()
    else:
        accel.uninstall()
    t1, t2 = tensors(idx // len(TEMP['jobs']) + idx, rng, mon, kind)
    prefix = os.path.join(TEMP['dir'], name)
    fn = os.path.join(mon.dir, 'fform.p')
    b1, b2 = t1.copy(), t2.copy()
    f = fg.generate_contracted_fourier_transforms
    if M == 16 and rng.random() < .5:
        f(fn, prefix, t1, t2)
    else:
        f(fn, prefix, t1, t2, M=M)
    mon.check(np.array_equal(b1, t1) and np.array_equal(b2, t2),
              'tensors left alone')
    if idx % 3 == 2:
        regenerated(idx, rng, mon, job, t1, t2, fn)
    nd = None
    if kind == 'num' and idx // len(TEMP['jobs']) % 2 == 1 or \
            kind == 'symb' and idx // len(TEMP['jobs']) % 6 == 5:
        nd = 0 if idx % len(TEMP['jobs']) == 0 else int(rng.integers(1, 7))
    mon.count('contractions')
    mon.count('symbolic angle' if kind == 'symb' else 'numeric angle')
    mon.sig(name, M, nd, str(np.argwhere(t1 != 0).tolist()),
            str(np.argwhere(t2 != 0).tolist()))
    mon.note_sample(f'{job} ndigits {nd} dipole {t1[t1 != 0]} '
                    f'quadrupole {t2[t2 != 0]}')
    ff = shgpy.load_fform(fn)
    mon.check(ff.get_M() == M, 'order of the loaded formula', ff.get_M)
    mon.check(sorted(ff.get_keys()) == sorted(gen.PCS), 'keys', ff.get_keys)
    used = {s for t in (t1, t2) for e in t.ravel()
            for s in sp.sympify(e).free_symbols}
    syms = sorted(used, key=str)
    extra = set(ff.get_free_symbols()) - used - {S.theta}
    mon.check(not extra and (kind == 'symb' or
                             S.theta not in ff.get_free_symbols()),
              'parameters of the formula', lambda: ff.get_free_symbols())
    grid = gen.grid(40)
    nums = {k: ff.get_pc(k) for k in ff.get_keys()}
    for rep in range(2):
        env = gen.values(rng, syms, complex_ok=False)
        th = angle if kind == 'num' else [0., float(rng.uniform(.05, 1.5))][
            rep if idx % 2 else 1]
        full = dict(env)
        full[S.theta] = th
        n1, n2 = gen.ev_array(t1, env), gen.ev_array(t2, env)
        want = [c12.intensities(th, p + np.pi, n1, None, n2) for p in grid]
        scale = np.sum(np.abs(n1))**2 + np.sum(np.abs(n2))**2
        for k in gen.PCS:
            w = gen.dft([x[k] for x in want], M, 40)
            got = gen.ev_array(nums[k], full)
            tol = np.full(2*M+1, 1e-9*scale)
            bad = np.abs(got-w) > tol
            mon.check(not bad.any(), 'coefficient',
                      lambda: f'{k} n={np.nonzero(bad)[0]-M} got {got[bad]} '
                              f'want {w[bad]} theta {th} ndigits {nd} {env}')
            far = np.abs(np.arange(-M, M+1)) > 8
            mon.check(np.all(np.abs(got[far]) <= tol[far]),
                      'nothing above the eighth harmonic', lambda: got[far])
            mon.check(np.all(np.abs(got - got[::-1].conj()) <= 2*tol),
                      'Hermitian symmetry', lambda: got)
            mon.count('coefficients compared', 2*M+1)
    if nd is not None:
        f(fn, prefix, t1, t2, M=M, ndigits=nd)
        rounded(ff, shgpy.load_fform(fn), nd, mon)
        mon.count('rounded')
    clear_cache()


def reject(rng, mon):
    accel.install()
    job = TEMP['jobs'][0]
    st = os.path.join(TEMP['dir'], job[0] + '.status')
    if not os.path.exists(st):
        raise MemoryError(f'generation {job[0]} did not finish in time')
    mon.check(open(st).read() == 'ok', 'generation succeeds',
              lambda: open(st).read()[-2500:])
    prefix = os.path.join(TEMP['dir'], job[0])
    fn = os.path.join(mon.dir, 'x.p')
    z, a = sp.Symbol('z'), sp.Symbol('a', real=True)
    g3, g4 = np.zeros((3,)*3, dtype=object), np.zeros((3,)*4, dtype=object)
    g3[tuple(rng.integers(3, size=3))] = a
    g4[tuple(rng.integers(3, size=4))] = a
    b3, b4 = g3.copy(), g4.copy()
    bad = [z, a*z, a + sp.I*z][rng.integers(3)]
    b3[tuple(rng.integers(3, size=3))] = bad
    b4[tuple(rng.integers(3, size=4))] = bad
    f = fg.generate_contracted_fourier_transforms
    M = job[3]
    mon.sig('reject', str(bad))
    mon.note_sample(bad)
    mon.raises(lambda: f(fn, prefix, b3, g4, M=M), 'non-real dipole rejected')
    mon.raises(lambda: f(fn, prefix, g3, b4, M=M),
               'non-real quadrupole rejected')
    for m in (M-1, M+1, 2*M, 3):
        mon.raises(lambda: f(fn, prefix, g3, g4, M=m),
                   'another M is rejected', detail=m)
    if M != 16:
        mon.raises(lambda: f(fn, prefix, g3, g4), 'another M is rejected')
    mon.raises(lambda: f(fn, prefix + 'absent', g3, g4, M=M),
               'missing transforms are rejected')
    mon.check(not os.path.exists(fn), 'nothing is saved on rejection')
    mon.count('rejected', 6)


def run(kind, idx, rng, mon, tier):
    if kind == 'contract':
        contract(idx, rng, mon)
    else:
        reject(rng, mon)
