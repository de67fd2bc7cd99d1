"""C03 - Fourier-data-container histories agree with a simple model."""
import numpy as np
from shgpy import fDataContainer

PROPERTY = 'C03'
RULE = ('random histories (up to 12 steps) of scale/normalize/shift/rejected '
        'calls on random Fourier-data containers with M in 0..24 and both '
        'complex types, every coefficient and all metadata compared with a '
        'complex-array model after every step; distinct by M, type and '
        'operation sequence')
ASSUMPTIONS = ['coefficients of complex64 containers are compared to single '
               'precision']
MIN_EVENTS = {'operations': 1500, 'state comparisons': 1500,
              'rejected operations': 100, 'shifts': 300,
              'malformed rejected': 40, 'single precision': 100}
ABC = ['PP', 'PS', 'SP', 'SS', 'q', '']


def plan(tier):
    k = 12 if tier == 'quick' else 30
    return [('history', 600*k), ('malformed', 60*k)]


def spectrum(rng, M, dt):
    v = rng.normal(size=2*M+1) + 1j*rng.normal(size=2*M+1)
    k = rng.integers(4)
    if k == 0:
        v = (v + np.conj(v[::-1]))/2        # spectrum of real data
    if k == 1:
        v *= rng.random(2*M+1) < .3
        v[M] += .5
    return (v*10.0**rng.integers(-2, 3)).astype(dt)


def run(kind, idx, rng, mon, tier):
    if kind == 'malformed':
        return malformed(idx, rng, mon)
    M = int(rng.choice([0, 1, 2, 3, 7, 8, 16, 17, 24]))
    dt = [np.complex64, np.complex128][rng.integers(2)]
    keys = list(ABC)
    rng.shuffle(keys)
    keys = keys[:int(rng.integers(1, 5))]
    raw = {k: spectrum(rng, M, dt) for k in keys}
    it = [raw, list(raw.items()), zip(raw.keys(), raw.values()),
          raw.items()][rng.integers(4)]
    f = fDataContainer(it) if M == 16 and rng.random() < .5 \
        else fDataContainer(it, M=M)
    m = {k: v.astype(complex) for k, v in raw.items()}
    st = dict(scale=1.0, shift=0.0)
    tol = 3e-5 if dt == np.complex64 else 1e-10
    if dt == np.complex64:
        mon.count('single precision')
    n = np.arange(-M, M+1)
    ops = []

    def compare():
        mon.count('state comparisons')
        mon.check(f.get_M() == M, 'M', f.get_M())
        mon.check(f.get_keys() == keys, 'keys', f.get_keys())
        items = f.get_items()
        vals = f.get_values()
        for i, k in enumerate(keys):
            # per-coefficient comparison: magnitudes are never mixed
            g = f.get_pc(k)
            mon.check(g.shape == (2*M+1,), 'shape', g.shape)
            err = np.abs(g - m[k]) > tol*np.abs(m[k]) + 1e-300
            mon.check(not err.any(), 'coefficients',
                      lambda: f'{ops} {k} n={n[err]} {g[err]} '
                              f'want {m[k][err]}')
            mon.check(items[i][0] == k
                      and np.array_equal(items[i][1], g)
                      and np.array_equal(vals[i], g), 'accessors agree')
            mon.close(f.get_pc_maxval(k), np.abs(m[k]).max(), 'pc maxval',
                      tol, 0)
        pc, v = f.get_maxval()
        mx = max(np.abs(x).max() for x in m.values())
        mon.close(v, mx, 'maxval', tol, 0)
        mon.close(np.abs(m[pc]).max(), mx, 'maxval polarization', tol, 0)
        mon.close(f.get_scale(), st['scale'], 'scale',
                  max(1e-9, tol*len(ops)), 0)
        mon.close(f.get_phase_shift('radians'), st['shift'], 'phase shift',
                  1e-9, 1e-9)
        mon.close(f.get_phase_shift('DEGREES'), np.degrees(st['shift']),
                  'phase shift in degrees', 1e-9, 1e-7)

    compare()
    for _ in range(int(rng.integers(1, 13))):
        j = int(rng.integers(9))
        if j in (0, 1):
            c = [float(rng.uniform(.1, 3)), int(rng.integers(1, 4)),
                 np.float64(1.5), .25, 1, 0, 1e-10, 1e10][
                     rng.choice(8, p=[.3, .3, .1, .1, .1, .04, .03, .03])]
            if dt == np.complex64 and c in (1e-10, 1e10):
                c = 2
            f.scale_fdata(c)
            m = {k: v*float(c) for k, v in m.items()}
            st['scale'] *= float(c)
            ops.append('scale')
        elif j == 2:
            t = float(rng.uniform(.1, 4))
            mx = max(np.abs(x).max() for x in m.values())
            if mx == 0:
                continue
            f.normalize_fdata(t)
            m = {k: v*t/mx for k, v in m.items()}
            st['scale'] *= t/mx
            ops.append('normalize')
        elif j in (3, 4, 5):
            a = float([rng.uniform(-1, 1), rng.uniform(-20, 20), np.pi/2, 0,
                       np.pi][rng.integers(5)])
            if rng.random() < .5:
                f.phase_shift_fdata(a, 'radians')
            else:
                a = float(np.round(np.degrees(a), 2))
                f.phase_shift_fdata(a, ['degrees', 'Degrees'][
                    rng.integers(2)])
                a = a*np.pi/180
            m = {k: v*np.exp(1j*n*a) for k, v in m.items()}
            st['shift'] += a
            mon.count('shifts')
            ops.append('shift')
        elif j == 6:
            bad = [lambda: f.scale_fdata(-1), lambda: f.scale_fdata(-1e-12),
                   lambda: f.normalize_fdata(-2),
                   lambda: f.phase_shift_fdata(1, 'deg'),
                   lambda: f.phase_shift_fdata(1, None),
                   lambda: f.get_pc('nope'),
                   lambda: f.get_pc_maxval('nope'),
                   lambda: f.get_phase_shift('x')]
            i = int(rng.integers(len(bad)))
            mon.raises(bad[i], 'invalid operation rejected', detail=str(i))
            mon.count('rejected operations')
            ops.append(f'reject{i}')
        elif j == 7:
            f = f.copy()
            ops.append('copy')
        else:
            # out-parameters of accessors must not feed back
            f.get_pc(keys[0])[:] = 99
            ops.append('scribble')
        mon.count('operations')
        compare()
    mon.sig(M, str(dt), len(keys), ops)
    mon.note_sample(f'M={M} {np.dtype(dt)} keys={keys} {ops}')


def malformed(idx, rng, mon):
    M = int(rng.choice([0, 1, 3, 16]))
    g = spectrum(rng, M, complex)
    bad = [
        ('long', {'PP': np.append(g, 1j)}), ('short', {'PP': g[1:]}),
        ('len of other M', {'PP': spectrum(rng, M+1, complex)}),
        ('float', {'PP': g.real.copy()}), ('int', {'PP': np.ones(2*M+1, int)}),
        ('object', {'PP': g.astype(object)}), ('list', {'PP': list(g)}),
        ('2-d', {'PP': g.reshape(1, -1)}), ('int key', {3: g}),
        ('None key', {None: g}), ('one bad of two', {'PP': g, 'PS': g.real}),
        ('one bad key of two', {'PP': g, 1: g}), ('not iterable', 5),
        ('None', None), ('scalar', {'PP': 1j}), ('0-d', {'PP': np.array(1j)}),
    ]
    name, it = bad[idx % len(bad)]
    mon.sig('malformed', name, M)
    mon.note_sample(f'{name} M={M}')
    mon.raises(lambda: fDataContainer(it, M=M), 'malformed input rejected',
               detail=name)
    mon.count('malformed rejected')
