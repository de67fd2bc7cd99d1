"""Independent reference models of the containers (plain numpy)."""
import numpy as np

TWO_PI = 2*np.pi


def circ(a, b):
    """Circular distance."""
    d = np.mod(np.asarray(a) - np.asarray(b), TWO_PI)
    return np.minimum(d, TWO_PI - d)


class Data:
    """keys -> list of (angle in [0, 2 pi), value), sorted by angle."""

    def __init__(self):
        self.d = {}
        self.scale = 1.0
        self.shift = 0.0
        self.offset = 0.0
        self.duplicates = False

    @classmethod
    def build(cls, raw, unit, tol=1e-10):
        m = cls()
        for k, v in raw.items():
            x = np.asarray(v[0], dtype=float)
            y = np.asarray(v[1], dtype=float)
            if unit == 'degrees':
                x = x*np.pi/180
            x = np.mod(x, TWO_PI)
            kept_x, kept_y = [], []
            for a, b in zip(x, y):
                if any(circ(a, c) < tol for c in kept_x):
                    m.duplicates = True
                    continue
                kept_x.append(a)
                kept_y.append(b)
            m.d[k] = (np.array(kept_x), np.array(kept_y))
        return m

    def copy(self):
        m = Data()
        m.d = {k: (x.copy(), y.copy()) for k, (x, y) in self.d.items()}
        m.scale, m.shift, m.offset = self.scale, self.shift, self.offset
        m.duplicates = self.duplicates
        return m

    def sorted(self):
        out = {}
        for k, (x, y) in self.d.items():
            o = np.argsort(x, kind='stable')
            out[k] = (x[o], y[o])
        return out

    # operations
    def do_scale(self, f):
        self.d = {k: (x, y*f) for k, (x, y) in self.d.items()}
        self.scale *= f

    def do_shift(self, a):
        self.d = {k: (np.mod(x + a, TWO_PI), y)
                  for k, (x, y) in self.d.items()}
        self.shift += a

    def minval(self):
        return min(y.min() for _, y in self.d.values())

    def maxval(self):
        return max(y.max() for _, y in self.d.values())

    def do_submin(self):
        m = self.minval()
        self.d = {k: (x, y - m) for k, (x, y) in self.d.items()}
        self.offset -= m

    def do_filter(self, f):
        """f acts on the values in order of angle."""
        s = self.sorted()
        self.d = {k: (x, np.asarray(f(y.copy()))) for k, (x, y) in s.items()}


def match_samples(got_x, got_y, want_x, want_y, mon, rule, ytol=1e-12,
                  xtol=1e-9, detail='', yabs=1e-300):
    """got must be want as a set of (angle, value); angles modulo 2 pi.

    Angles are unique in both, so matching by nearest angle is a bijection.
    """
    mon.check(len(got_x) == len(want_x) == len(got_y), rule + ' (number)',
              lambda: f'got {len(got_x)} samples, want {len(want_x)} {detail}')
    if not len(want_x):
        return
    o = np.argsort(np.mod(want_x, TWO_PI), kind='stable')
    wx, wy = np.mod(want_x, TWO_PI)[o], np.asarray(want_y)[o]
    gx = np.mod(got_x, TWO_PI)
    p = np.argsort(gx, kind='stable')
    gx, gy = gx[p], np.asarray(got_y)[p]
    # an angle within rounding of 0 may have landed on either side of a turn
    best = None
    scale = max(yabs, np.max(np.abs(wy)))
    for r in (0, 1, -1):
        ax, ay = np.roll(gx, r), np.roll(gy, r)
        dx = circ(ax, wx).max()
        dy = np.abs(ay - wy).max()/scale
        if best is None or (dx > xtol, dy) < (best[0] > xtol, best[1]):
            best = (dx, dy)
        if dx <= xtol and dy <= ytol:
            break
    mon.check(best[0] <= xtol, rule + ' (angles)',
              lambda: f'angle off by {best[0]} {detail}: got {gx} want {wx}')
    mon.check(best[1] <= ytol, rule + ' (values)',
              lambda: f'value off by {best[1]*scale} {detail}: '
                      f'got {gy} want {wy} at {wx}')


def compare_data(d, m, mon, rule, ytol=1e-12, xtol=1e-9, yabs=1e-300):
    want = m.sorted()
    mon.check(d.get_keys() == list(want), rule + ' keys',
              lambda: (d.get_keys(), list(want)))
    for k, (x, y) in want.items():
        g = d.get_pc(k, 'radians')
        mon.check(g.ndim == 2 and g.shape[0] == 2, rule + ' shape', g.shape)
        match_samples(g[0], g[1], x, y, mon, rule, ytol, xtol, detail=k, yabs=yabs)
        mon.check(np.all(np.diff(g[0]) > 0), rule + ' sorted',
                  lambda: (k, g[0]))
        h = d.get_pc(k, 'degrees')
        match_samples(h[0]*np.pi/180, h[1], x, y, mon, rule + ' degrees',
                      ytol, xtol, detail=k, yabs=yabs)
