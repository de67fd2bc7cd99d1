"""C01 - ingested phi-space data are canonical and lose nothing."""
import warnings
from collections import OrderedDict

import numpy as np
from shgpy import DataContainer
import model

PROPERTY = 'C01'
RULE = ('random sample sets (order, sign, range, dtype, unit, duplicate '
        'pattern, container kind) given to DataContainer; a case is distinct '
        'by its shape (unit, dtypes, lengths, duplicate pattern, range) and '
        'non-trivial when the input is not already canonical')
ASSUMPTIONS = [
    'angles closer than 1e-8 rad (but not equal up to rounding) are never '
    'generated, so what counts as a repeated angle is unambiguous']
MIN_EVENTS = {'containers built': 300, 'with duplicates': 60,
              'integer dtype': 12, 'malformed rejected': 60,
              'duplicates across turns': 20, 'one-shot iterators': 60,
              'nearly equal angles': 100}
KEYS = ['PP', 'PS', 'SP', 'SS', 'a', 'custom key', '', 'Pp2', 'é']


def plan(tier):
    k = 5 if tier == 'quick' else 25
    return [('build', 1400*k), ('malformed', 130*k)]


def angles(rng, n, unit):
    """n raw angles, with deliberate repetitions modulo a turn."""
    turn = 360.0 if unit == 'degrees' else 2*np.pi
    mode = rng.integers(6)
    integer = False
    if mode == 0:
        x = rng.uniform(0, turn, n)
    elif mode == 1:
        x = rng.uniform(-5*turn, 5*turn, n)
    elif mode == 2:
        x = np.linspace(0, turn, n, endpoint=False)
        x = np.round(x, 6)
    elif mode == 3:
        x = rng.permutation(np.linspace(-turn, turn, n))
    elif mode == 4:
        x = rng.integers(-800 if unit == 'degrees' else -9,
                         800 if unit == 'degrees' else 9, n).astype(float)
        integer = True
    else:
        x = np.linspace(0, turn, n)      # both ends of the turn included
    dup = 'none'
    if n >= 2 and rng.random() < .6:
        for _ in range(int(rng.integers(1, 4))):
            i, j = rng.integers(0, n, 2)
            k = int(rng.choice([0, 0, 1, -1, 2, -3]))
            if i != j and not integer:
                x[i] = x[j] + k*turn
                dup = 'turns' if k else 'exact'
            elif i != j:
                if unit == 'degrees':
                    x[i] = x[j] + k*360
                    dup = 'turns' if k else 'exact'
                else:
                    x[i] = x[j]
                    dup = 'exact'
    if rng.random() < .15 and not integer:
        # angles equal up to rounding near a whole turn
        x[int(rng.integers(n))] = turn*float(rng.integers(-2, 3))
        if n > 1 and rng.random() < .5:
            x[int(rng.integers(n))] = -1e-17
            dup = 'rounding'
    if n >= 2 and rng.random() < .3 and not integer:
        # nearly equal angles on both sides of the limit of 1e-10 rad
        u = 180/np.pi if unit == 'degrees' else 1
        for _ in range(int(rng.integers(1, 4))):
            i, j = rng.integers(0, n, 2)
            e = rng.choice([-1, 1])*u*10.0**(
                rng.uniform(-13, -11) if rng.random() < .4
                else rng.uniform(-9.4, -4))
            if i != j:
                x[i] = x[j] + e + turn*int(rng.choice([0, 0, 1, -1]))
        dup = 'near'
    return x, integer, dup


def ok_separation(x, unit):
    r = np.deg2rad(x) if unit == 'degrees' else x
    r = np.sort(np.mod(r, 2*np.pi))
    d = np.diff(np.concatenate([r, [r[0] + 2*np.pi]]))
    return not np.any((d > 3e-11) & (d < 3e-10))


def values(rng, n):
    k = rng.integers(5)
    y = rng.normal(size=n)*10.0**rng.integers(-3, 4)
    if k == 0:
        return np.round(y*7), True
    if k == 1:
        y[:] = y[0]
    return y, False


def spell(rng, unit):
    return [unit, unit.upper(), unit.capitalize(),
            unit[:3] + unit[3:].upper()][rng.integers(4)]


def build(rng, mon):
    unit = ['degrees', 'radians'][rng.integers(2)]
    nk = int(rng.integers(1, 5))
    keys = [KEYS[i] for i in rng.permutation(len(KEYS))[:nk]]
    raw, sig, anydup = OrderedDict(), [], False
    for k in keys:
        n = int(rng.choice([1, 2, 3, 5, 12, 36, 100]))
        if rng.random() < .004:
            n = int(rng.integers(200, 600))
        for _ in range(50):
            x, xint, dup = angles(rng, n, unit)
            if ok_separation(x, unit):
                break
        else:
            return
        y, yint = values(rng, n)
        arr = np.array([x, y])
        dt = 'f8'
        c = rng.integers(6)
        if xint and yint and c < 3:
            arr = arr.astype([np.int64, np.int32, np.int16][c]
                             if np.abs(arr).max() < 3e4 else np.int64)
            mon.count('integer dtype')
            dt = str(arr.dtype)
        elif c == 3:
            arr32 = arr.astype(np.float32)
            if ok_separation(arr32[0].astype(float), unit) and dup not in (
                    'turns', 'near'):
                arr = arr32
                dt = 'f4'
        elif c == 4:
            arr = np.asfortranarray(arr)
        elif c == 5:
            big = np.zeros((2, 2*n))
            big[:, ::2] = arr
            arr = big[:, ::2]
        raw[k] = arr
        sig.append((n, dt, dup, round(float(np.ptp(x)))))
        mon.count('input samples', n)
        if dup != 'none':
            mon.count('with duplicates')
        if dup == 'near':
            mon.count('nearly equal angles')
        if dup == 'turns':
            mon.count('duplicates across turns')
    form = int(rng.integers(7))
    it = [lambda: raw, lambda: dict(raw), lambda: list(raw.items()),
          lambda: raw.items(), lambda: zip(raw.keys(), raw.values()),
          lambda: ((k, v) for k, v in raw.items()),
          lambda: tuple(raw.items())][form]()
    if form in (4, 5):
        mon.count('one-shot iterators')
    mon.sig(unit, form, sorted(sig))
    mon.note_sample(f'{unit} ' + ', '.join(
        f'{k}: {v.dtype} angles {np.array2string(v[0][:6], precision=4)}..'
        for k, v in raw.items()))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        d = DataContainer(it, spell(rng, unit))
    mon.count('containers built')
    m = model.Data.build(raw, unit)
    warned = [x for x in w if 'uplicate' in str(x.message)]
    mon.check(bool(warned) == m.duplicates, 'duplicate warning',
              lambda: f'duplicates={m.duplicates} warnings='
                      f'{[str(x.message) for x in w]} input {raw}')
    mon.check(len(w) == len(warned), 'no other warning',
              lambda: [str(x.message) for x in w])
    mon.check(d.get_keys() == keys, 'keys', lambda: (d.get_keys(), keys))
    model.compare_data(d, m, mon, 'ingested', xtol=2e-11)
    for u in ('radians', 'degrees', 'Degrees', 'RADIANS'):
        vals, items = d.get_values(u), d.get_items(u)
        mon.check([k for k, _ in items] == keys, 'item keys')
        for k, v, (k2, v2) in zip(keys, vals, items):
            p = d.get_pc(k, u)
            mon.check(np.array_equal(p, v) and np.array_equal(p, v2),
                      'accessors agree', lambda: (u, k))
            mon.check(p.dtype.kind == 'f', 'float samples', p.dtype)
            a = p[0]
            full = 360 if u.lower() == 'degrees' else 2*np.pi
            mon.check(np.all(a >= 0) and np.all(a <= full*(1+1e-15))
                      and np.all(np.diff(a) > 0),
                      'canonical angles', lambda: (k, a))


def malformed(idx, rng, mon):
    x = np.linspace(0, 6, 7)
    good = np.array([x, x**2])
    u = ['degrees', 'radians'][rng.integers(2)]
    bad = [
        ('int key', {1: good}, u), ('None key', {None: good}, u),
        ('tuple key', {('PP',): good}, u), ('bytes key', {b'PP': good}, u),
        ('mixed keys', {'PP': good, 2: good}, u),
        ('list value', {'PP': [list(x), list(x)]}, u),
        ('tuple value', {'PP': (x, x)}, u),
        ('object dtype', {'PP': np.array([x, x], dtype=object)}, u),
        ('1-d', {'PP': x}, u), ('3-d', {'PP': np.zeros((2, 3, 4))}, u),
        ('0-d', {'PP': np.array(3.)}, u),
        ('ragged', {'PP': np.array([x, x[:3]], dtype=object)}, u),
        ('None value', {'PP': None}, u), ('string value', {'PP': 'abc'}, u),
        ('string array', {'PP': np.array([['1', '2'], ['3', '4']])}, u),
        ('one bad of two', {'PP': good, 'PS': [1, 2]}, u),
        ('not iterable', 3, u), ('flat list', [1, 2, 3], u),
        ('unit', {'PP': good}, 'deg'), ('unit2', {'PP': good}, ''),
        ('unit3', {'PP': good}, 'gradians'), ('unit4', {'PP': good}, None),
        ('unit5', {'PP': good}, 'radian'),
        ('complex', {'PP': good.astype(complex)}, u),
        ('one row', {'PP': good[:1]}, u),
    ]
    name, it, unit = bad[idx % len(bad)]
    n2o = bool(rng.integers(2)) and 'unit' not in name
    mon.sig('malformed', name)
    mon.note_sample(name)
    mon.raises(lambda: DataContainer(it, unit), 'malformed input rejected',
               detail=name)
    d = DataContainer({'PP': good}, 'radians')
    for f in (lambda: d.get_pc('PP', 'deg'), lambda: d.get_items('x'),
              lambda: d.get_values('rads'),
              lambda: d.get_pc('XX', 'radians')):
        mon.raises(f, 'bad request rejected')
    mon.count('malformed rejected')


def run(kind, idx, rng, mon, tier):
    if kind == 'build':
        build(rng, mon)
    else:
        malformed(idx, rng, mon)
