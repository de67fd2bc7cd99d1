"""C02 - data-container histories agree with a simple model."""
import numpy as np
from shgpy import DataContainer
import model

PROPERTY = 'C02'
RULE = ('random histories (up to 14 steps) of scale/normalize/shift/subtract/'
        'filter/rejected calls on random data containers, the whole observable '
        'state compared with a list model after every step; distinct by '
        'operation sequence and data shape, non-trivial with at least one '
        'mutation')
ASSUMPTIONS = ['a history with a maximum of exactly zero is not normalized '
               '(division by zero)']
MIN_EVENTS = {'operations': 3000, 'state comparisons': 3000,
              'rejected operations': 300, 'filters': 200, 'shifts': 300,
              'minimum subtractions': 200, 'normalizations': 200}
TOL = 1e-10


def plan(tier):
    return [('history', 8000 if tier == 'quick' else 40000)]


def random_data(rng, nk=None):
    raw = {}
    keys = ['PP', 'PS', 'SP', 'SS', 'zz', 'A']
    unit = 10.0**int(rng.choice([0, -12, -30, 9], p=[.7, .15, .05, .1]))
    rng.shuffle(keys)
    for k in keys[:nk or int(rng.integers(1, 5))]:
        n = int(rng.choice([1, 2, 3, 7, 12, 36]))
        while True:
            x = rng.uniform(-9, 9, n)
            s = np.sort(np.mod(x, 2*np.pi))
            if n == 1 or (np.diff(s).min() > 1e-5
                          and s[0] + 2*np.pi - s[-1] > 1e-5):
                break
        if rng.random() < .3:
            x = np.linspace(0, 2*np.pi, n, endpoint=False)
        y = rng.normal(size=n) * 10.0**rng.integers(-2, 3) * unit
        if rng.random() < .3:
            y = np.abs(y)
        if rng.random() < .1:
            y = -np.abs(y) - .1*unit
        raw[k] = np.array([x, y])
    return raw


def sq(y, p=2, off=0):
    return y**p + off


def center(y):
    return y - np.mean(y)


def smooth(y, w):
    return np.convolve(np.concatenate([y, y[:1]]), [w, 1-w], 'valid')


def rolled(y):
    return np.roll(y, 1)


class Failing:
    """A filter which fails at the last polarization."""

    def __init__(self, n, how):
        self.n, self.how = n, how

    def __call__(self, y):
        self.n -= 1
        if self.how == 0:
            y *= 2
        if self.n:
            return y + 1
        if self.how == 1:
            return np.append(y, [0, 0])
        raise ValueError('cannot filter this')


class H:
    """One container, its model and its history."""

    def __init__(self, raw, unit='radians'):
        self.d = DataContainer(raw, unit)
        self.m = model.Data.build(raw, unit)
        self.big = max(np.abs(y).max() for _, y in self.m.d.values())
        self.ops = []

    def step(self, rng, mon):
        d, m = self.d, self.m
        k = int(rng.integers(12))
        if k in (0, 1):
            f = [float(rng.uniform(.1, 3)), int(rng.integers(1, 4)), 0,
                 np.float64(2.5), np.float32(.5), 1e-3][
                     rng.choice(6, p=[.35, .2, .02, .2, .13, .1])]
            d.scale_data(f)
            m.do_scale(float(f))
            name = 'scale'
        elif k == 2:
            t = float(rng.uniform(.2, 5)) if rng.random() < .6 else None
            mx = m.maxval()
            if abs(mx) < 1e-6*max(self.big, 1e-30) or mx == 0:
                return
            if mx < 0:
                mon.raises(lambda: d.normalize_data(t or 1),
                           'normalization by a negative factor rejected')
                mon.count('rejected operations')
            else:
                d.normalize_data() if t is None else d.normalize_data(t)
                m.do_scale((1 if t is None else t)/mx)
                mon.close(max(v[1].max() for v in d.get_values('radians')),
                          1 if t is None else t, 'normalized maximum',
                          rtol=1e-9)
                mon.count('normalizations')
            name = 'normalize'
        elif k in (3, 4, 5):
            a = float([rng.uniform(-1, 1), rng.uniform(-20, 20), np.pi/2,
                       -np.pi, 2*np.pi, 0][rng.integers(6)])
            if rng.random() < .5:
                d.phase_shift_data(a, ['radians', 'Radians'][rng.integers(2)])
                m.do_shift(a)
            else:
                deg = float(np.round(np.degrees(a), 3))
                if rng.random() < .3:
                    deg = int(deg)
                d.phase_shift_data(deg, ['degrees', 'DEGREES'][
                    rng.integers(2)])
                m.do_shift(float(deg)*np.pi/180)
            mon.count('shifts')
            name = 'shift'
        elif k in (6, 7):
            d.subtract_min()
            m.do_submin()
            mon.count('minimum subtractions')
            name = 'submin'
        elif k in (8, 9):
            ang = np.concatenate([x for x, _ in m.d.values()])
            j = int(rng.integers(5))
            if model.circ(ang, 0).min() < 1e-6:
                j = j % 3
            if j == 0 and self.big > 1e3:
                j = 1
            if j == 0:
                p, off = int(rng.integers(1, 3)), float(rng.normal())
                if rng.random() < .5:
                    d.filter(sq, p, off)
                else:
                    d.filter(sq, off=off, p=p)
                m.do_filter(lambda y: sq(y, p, off))
            elif j == 1:
                d.filter(center)
                m.do_filter(center)
            elif j == 2:
                d.filter(np.clip, -1, 1.5)
                m.do_filter(lambda y: np.clip(y, -1, 1.5))
            elif j == 3:
                d.filter(smooth, .25)
                m.do_filter(lambda y: smooth(y, .25))
            else:
                d.filter(rolled)
                m.do_filter(rolled)
            mon.count('filters')
            name = f'filter{j}'
        elif k == 10:
            bad = [lambda: d.scale_data(-1), lambda: d.scale_data(-1e-9),
                   lambda: d.scale_data(np.float64(-2)),
                   lambda: d.phase_shift_data(1, 'deg'),
                   lambda: d.phase_shift_data(1, 'gradians'),
                   lambda: d.phase_shift_data(.5, None),
                   lambda: d.get_pc('nope', 'radians'),
                   lambda: d.get_pc_maxval('nope'),
                   lambda: d.get_pc_minval('nope'),
                   lambda: d.get_phase_shift('turns'),
                   lambda: d.get_items('turns'),
                   lambda: d.get_values('turns'),
                   # the last polarization cannot be filtered
                   lambda: d.filter(Failing(len(m.d), rng.integers(3))),
                   lambda: d.filter(Failing(len(m.d), rng.integers(3)))]
            j = int(rng.integers(len(bad)))
            mon.raises(bad[j], 'invalid operation rejected', detail=str(j))
            mon.count('rejected operations')
            name = f'reject{j}'
        else:
            # an independent continuation from a copy
            self.d = d.copy()
            name = 'copy'
        self.ops.append(name)
        mon.count('operations')
        self.big = max([self.big] + [np.abs(y).max()
                                     for _, y in m.d.values()])

    def compare(self, mon):
        d, m = self.d, self.m
        mon.count('state comparisons')
        h = ','.join(self.ops)
        cur = max(np.abs(y).max() for _, y in m.d.values())
        # rounding left over from larger intermediate values
        yabs = max(cur, self.big*1e-4, 1e-300)
        model.compare_data(d, m, mon, 'after history', TOL, yabs=yabs)
        at = TOL*yabs
        mon.close(d.get_scale(), m.scale, 'scale', 1e-9, 1e-300, h)
        mon.close(d.get_phase_shift('radians'), m.shift, 'phase shift',
                  1e-9, 1e-9, h)
        mon.close(d.get_phase_shift('Degrees'), np.degrees(m.shift),
                  'phase shift in degrees', 1e-9, 1e-7, h)
        mon.close(d.get_offset(), m.offset, 'offset', 1e-9,
                  TOL*max(self.big, yabs), h)
        for f, ref, name in ((d.get_maxval, m.maxval(), 'maxval'),
                             (d.get_minval, m.minval(), 'minval')):
            pc, v = f()
            mon.close(v, ref, name, 1e-9, at, h)
            y = m.d[pc][1]
            mon.close(y.max() if name == 'maxval' else y.min(), ref,
                      name + ' polarization', 1e-9, at, h)
        for k, (x, y) in m.d.items():
            mon.close(d.get_pc_maxval(k), y.max(), 'pc maxval', 1e-9, at, h)
            mon.close(d.get_pc_minval(k), y.min(), 'pc minval', 1e-9, at, h)


def run(kind, idx, rng, mon, tier):
    raw = random_data(rng)
    unit = 'radians'
    if rng.random() < .3:
        unit = 'degrees'
        raw = {k: np.array([np.degrees(v[0]), v[1]]) for k, v in raw.items()}
    h = H(raw, unit)
    h.compare(mon)
    for _ in range(int(rng.integers(1, 15))):
        h.step(rng, mon)
        h.compare(mon)
    mon.sig([v.shape[1] for v in raw.values()], h.ops)
    mon.note_sample(f'{[(k, v.shape[1]) for k, v in raw.items()]} {h.ops}')
