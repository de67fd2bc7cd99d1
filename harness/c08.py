"""C08 - phi-space and Fourier data are faithful transforms of each other."""
import warnings

import numpy as np
from scipy.interpolate import interp1d
from shgpy import DataContainer, fDataContainer
from shgpy.core.data_handler import dat_to_fdat, fdat_to_dat
import c02
import c03

PROPERTY = 'C08'
RULE = ('random spectra, orders, sample counts, samplings and interpolation '
        'kinds; synthesis and analysis against direct double-precision '
        'Fourier sums; distinct by M, N, kind, sampling and keys')
ASSUMPTIONS = ['analysis stores single precision: coefficients are compared '
               'to 2e-6 of the largest sample',
               'scipy.interpolate.interp1d is the reference interpolant']
MIN_EVENTS = {'syntheses': 150, 'analyses': 150, 'round trips': 150,
              'linearity': 60, 'non-uniform samplings': 60}
KINDS = ['cubic', 'linear', 'nearest', 'quadratic', 'slinear', 'zero',
         'previous', 'next', 1, 2, 3]


def plan(tier):
    k = 9 if tier == 'quick' else 20
    return [('synth', 160*k), ('trip', 160*k), ('analyse', 220*k),
            ('linear', 70*k)]


def kset(rng):
    keys = ['PP', 'PS', 'SP', 'SS', 'z']
    rng.shuffle(keys)
    return keys[:int(rng.integers(1, 4))]


def real_spectrum(rng, M):
    v = rng.normal(size=2*M+1) + 1j*rng.normal(size=2*M+1)
    v *= rng.random(2*M+1) < .6
    v = (v + np.conj(v[::-1]))/2
    return v*10.0**rng.integers(-2, 3)


def run(kind, idx, rng, mon, tier):
    if kind == 'synth':
        M = int(rng.choice([0, 1, 3, 8, 16, 20]))
        N = int(rng.choice([1, 2, 3, 7, 16, 33, 60, 100, 129, 300]))
        dt = [np.complex64, complex][rng.integers(2)]
        raw = {k: c03.spectrum(rng, M, dt) for k in kset(rng)}
        fd = fDataContainer(raw, M=M)
        if rng.random() < .4:
            a = float(rng.normal())
            fd.phase_shift_fdata(a, 'radians')
            fd.scale_fdata(2)
            raw = {k: 2*v.astype(complex)*np.exp(1j*a*np.arange(-M, M+1))
                   for k, v in raw.items()}
        d = fdat_to_dat(fd, N)
        mon.check(d.get_keys() == list(raw), 'keys')
        phi = 2*np.pi*np.arange(N)/N
        for k, v in raw.items():
            g = d.get_pc(k, 'radians')
            mon.close(g[0], phi, 'equally spaced angles from 0', 1e-12, 1e-9)
            E = np.exp(1j*np.outer(phi, np.arange(-M, M+1)))
            w = (E @ v.astype(complex)).real
            tol = (1e-5 if dt == np.complex64 else 1e-11)*np.abs(v).sum()
            mon.close(g[1], w, 'synthesised samples', 0, tol,
                      lambda: f'M={M} N={N}')
        mon.count('syntheses')
        mon.sig(kind, M, N, str(dt), list(raw))
        mon.note_sample(f'{kind} M={M} N={N} {np.dtype(dt)}')
    elif kind == 'trip':
        M = int(rng.choice([0, 1, 3, 8, 16]))
        N = 2*M + 2 + int(rng.choice([0, 1, 2, 5, 30]))
        N = max(N, 4)
        M2 = int(rng.choice([M, max(0, M-1), M+int(rng.integers(0, N))//3]))
        M2 = min(M2, N - M - 1)        # beyond that N samples alias
        ik = KINDS[rng.integers(len(KINDS))]
        raw = {k: real_spectrum(rng, M) for k in kset(rng)}
        fd = fDataContainer(raw, M=M)
        d = fdat_to_dat(fd, N)
        f2 = dat_to_fdat(d, interp_kind=ik, M=M2)
        mon.check(f2.get_M() == M2 and f2.get_keys() == list(raw), 'M, keys')
        for k, v in raw.items():
            w = np.zeros(2*M2+1, complex)
            for n in range(-M2, M2+1):
                if abs(n) <= M:
                    w[n+M2] = v[n+M]
            mon.close(f2.get_pc(k), w, 'round trip', 0,
                      2e-6*max(np.abs(v).sum(), 1e-300),
                      lambda: f'M={M} N={N} M2={M2} {ik}')
        mon.count('round trips')
        mon.sig(kind, M, N, M2, ik, list(raw))
        mon.note_sample(f'{kind} M={M} N={N} analysed with M={M2} {ik}')
    elif kind == 'analyse':
        ik = KINDS[rng.integers(len(KINDS))]
        M = int(rng.choice([0, 1, 3, 8, 16, 20]))
        raw = {}
        for k in kset(rng):
            N = int(rng.choice([4, 5, 9, 24, 60, 61, 102, 150, 257])
                    if rng.random() < .9 else rng.integers(4, 500))
            x = 2*np.pi*np.arange(N)/N
            if rng.random() < .7:
                x = x + rng.uniform(0, .7, N)*2*np.pi/N
                mon.count('non-uniform samplings')
            raw[k] = np.array([x, rng.normal(size=N)*10.0**rng.choice(
                [-1, 0, 1, 2, -14, 12])])
        d = DataContainer(raw, 'radians')
        if ik == 'cubic' and M == 16 and rng.random() < .5:
            f = dat_to_fdat(d)
        else:
            f = dat_to_fdat(d, interp_kind=ik, M=M)
        for k, (x, y) in raw.items():
            x, y = d.get_pc(k, 'radians')
            N = len(x)
            g = 2*np.pi*np.arange(N)/N
            fi = interp1d(x, y, kind=ik, fill_value='extrapolate')(g)
            n = np.arange(-M, M+1)
            w = np.exp(-1j*np.outer(n, g)) @ fi/N
            tol = 2e-6*max(np.abs(fi).max(), 1e-300)
            c = f.get_pc(k)
            mon.check(c.shape == (2*M+1,), 'shape', c.shape)
            err = np.abs(c - w) > tol
            if ik in ('nearest', 'zero', 'previous', 'next') and err.any():
                # a node within rounding of a step may go either way
                near = np.abs(g[:, None] - x[None, :]).min() < 1e-9 or (
                    ik == 'nearest' and np.abs(
                        g[:, None] - (x[1:] + x[:-1])[None, :]/2
                        ).min() < 1e-9)
                if near:
                    continue
            mon.check(not err.any(), 'coefficients of the interpolant',
                      lambda: f'{k} M={M} N={N} {ik} n={n[err]} '
                              f'got {c[err]} want {w[err]}')
        mon.count('analyses')
        mon.sig(kind, M, ik, [v.shape[1] for v in raw.values()])
        mon.note_sample(f'{kind} M={M} {ik} lengths '
                        f'{[v.shape[1] for v in raw.values()]}')
    else:
        N = int(rng.choice([6, 12, 30, 120]))
        M = int(rng.choice([2, 8, 16]))
        ik = ['cubic', 'linear', 'quadratic'][rng.integers(3)]
        x = 2*np.pi*np.arange(N)/N + rng.uniform(0, .6, N)*2*np.pi/N
        y1, y2 = rng.normal(size=N), rng.normal(size=N)
        a, b = float(rng.uniform(.1, 3)), float(rng.normal())
        def F(y, key='PP', extra=None):
            raw = {key: np.array([x, y])}
            if extra is not None:
                raw = {**extra, **raw}
            return dat_to_fdat(DataContainer(raw, 'radians'), ik, M
                               ).get_pc(key)
        f1, f2 = F(y1), F(y2)
        tol = 1e-4*(np.abs(f1).max() + np.abs(f2).max())*(a + abs(b) + 1)
        mon.close(F(a*y1 + b*y2), a*f1 + b*f2, 'linear', 0, tol)
        mon.check(np.array_equal(F(y1, 'SS'), f1), 'label independent')
        mon.check(np.array_equal(F(y1, 'SP', {'PP': np.array([x[:5], y2[:5]])
                                             }), f1),
                  'independent of other polarizations')
        mon.count('linearity')
        mon.sig(kind, N, M, ik)
        mon.note_sample(f'{kind} N={N} M={M} {ik}')
