"""C07 - loading, dark subtraction and the loading pipeline are exact."""
import csv
import os
import warnings

import numpy as np
from shgpy import DataContainer
from shgpy.core.data_handler import (
    read_csv, load_data, load_data_and_dark_subtract, dat_add, dat_subtract,
    load_data_and_fourier_transform, dat_to_fdat)
import model

PROPERTY = 'C07'
RULE = ('generated CSV files (numbers, order, delimiter, unit, duplicates) '
        'through read_csv, load_data, dark subtraction, container arithmetic '
        'and the combined pipeline with every option combination, against a '
        'model composed of elementary steps; distinct by option combination '
        'and data shape')
ASSUMPTIONS = ['"different angles" means angles that differ by more than '
               '1e-3 rad; closer ones are not decided']
MIN_EVENTS = {'files read': 200, 'dark subtractions': 80, 'arithmetic': 80,
              'pipelines': 100, 'rejections': 60, 'min and scale together': 15,
              'dark in another unit': 30, 'metadata of pipelines': 100,
              'files written again': 60}


def plan(tier):
    k = 8 if tier == 'quick' else 20
    return [('csv', 100*k), ('dark', 150*k), ('arith', 150*k),
            ('pipeline', 200*k), ('reject', 100*k)]


def sampling(rng, n):
    """n well separated angles in (0, 2 pi), in radians."""
    k = rng.integers(3)
    g = 2*np.pi*np.arange(n)/n
    if k == 0:
        return g
    return g + .05 + rng.uniform(0, .5, n)*2*np.pi/n*.9


def number(rng, v):
    k = rng.integers(6)
    if k == 0:
        return '%.17e' % v
    if k == 1:
        return ' ' + repr(float(v))
    if k == 2:
        return repr(float(v)) + ' '
    return repr(float(v))


def write(mon, name, x, y, rng, delim=',', extra=False):
    fn = os.path.join(mon.dir, name)
    with open(fn, 'w') as f:
        for a, b in zip(x, y):
            f.write(number(rng, a) + delim + number(rng, b)
                    + (delim + 'note' if extra else '') + '\n')
    mon.count('files read')
    return fn


def unit_of(rng):
    return ['radians', 'degrees'][rng.integers(2)]


def to_unit(x, u):
    return np.degrees(x) if u == 'degrees' else np.asarray(x)


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def keyset(rng, n=None):
    keys = ['PP', 'PS', 'SP', 'SS']
    rng.shuffle(keys)
    return keys[:n or int(rng.integers(1, 5))]


def csv_case(rng, mon):
    n = int(rng.choice([1, 2, 5, 40]))
    x = rng.normal(size=n)*10.0**rng.integers(-5, 6)
    y = rng.normal(size=n)*10.0**rng.integers(-9, 9)
    delim = [',', ';', '\t', ' ', '|'][rng.integers(5)]
    fn = os.path.join(mon.dir, 'a.txt')
    with open(fn, 'w') as f:
        end = ['\n', '\r\n'][rng.integers(2)]
        lines = [repr(float(a)) + delim + repr(float(b))
                 + (delim + '7' if rng.random() < .2 else '')
                 for a, b in zip(x, y)]
        f.write(end.join(lines) + (end if rng.random() < .7 else ''))
    mon.count('files read')
    got = read_csv(fn) if delim == ',' else read_csv(fn, delimiter=delim)
    mon.check(got.shape == (2, n) and np.array_equal(got[0], x)
              and np.array_equal(got[1], y), 'read_csv is exact',
              lambda: f'{delim!r}: {got} want {x} {y}')
    if rng.random() < .5:
        fn2 = write(mon, 'b.csv', x, y, rng)
        got = read_csv(fn2)
        mon.check(np.array_equal(got, np.array([x, y])), 'read_csv is exact')
    if rng.random() < .5:
        # the same file written again: as many rows, perhaps as many bytes
        st = os.stat(fn)
        p = rng.permutation(n)
        x2, y2 = x[p], (y if rng.random() < .5 else -y)[p]
        text = ''.join(repr(float(a)) + delim + repr(float(b)) + '\n'
                       for a, b in zip(x2, y2))
        if rng.random() < .5:
            # the digits of the other file, turned
            swap = str.maketrans('123456789', '234567891')
            text = end.join(l.translate(swap) for l in lines) + (
                end if st.st_size > len(end.join(lines)) else '')
            rows = [[float(c.translate(swap)) for c in l.split(delim)[:2]]
                    for l in lines]
            x2, y2 = np.array(rows).T
        with open(fn, 'w') as f:
            f.write(text)
        if rng.random() < .5:
            os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
        got = read_csv(fn, delimiter=delim)
        mon.check(np.array_equal(got, np.array([x2, y2])),
                  'the file is read as it is now')
        mon.count('files written again')
    mon.sig('csv', n, delim, end)
    mon.note_sample(f'csv of {n} rows, delimiter {delim!r}')
    # loading several
    keys = keyset(rng)
    u = unit_of(rng)
    files, raw = {}, {}
    for k in keys:
        m = int(rng.choice([1, 3, 12]))
        xx = to_unit(sampling(rng, m) + 2*np.pi*rng.integers(-2, 3, m), u)
        p = rng.permutation(m)
        yy = rng.normal(size=m)
        raw[k] = np.array([xx[p], yy[p]])
        files[k] = write(mon, k + '.csv', xx[p], yy[p], rng)
    d = quiet(load_data, files, u)
    model.compare_data(d, model.Data.build(raw, u), mon, 'load_data')
    # measured again under the same names
    for k in keys:
        raw[k] = np.array([raw[k][0], raw[k][1][::-1]])
        write(mon, k + '.csv', raw[k][0], raw[k][1], rng)
    d = quiet(load_data, files, u)
    model.compare_data(d, model.Data.build(raw, u), mon,
                       'load_data of new files')


def two_sets(rng, mon, same_len=False):
    """Two datasets over the same angles, rows of each shuffled."""
    keys = keyset(rng)
    out = {}
    for k in keys:
        n = int(rng.choice([1, 2, 5, 12, 36]))
        out[k] = (sampling(rng, n), rng.normal(size=n)*10, rng.normal(size=n))
    return keys, out


def shuffled(rng, x, y, u):
    p = rng.permutation(len(x))
    k = rng.integers(-1, 2, len(x)) if rng.random() < .5 else 0
    return np.array([to_unit((x + 2*np.pi*k)[p], u), y[p]])


def dark(rng, mon):
    keys, sets = two_sets(rng, mon)
    u1, u2 = unit_of(rng), unit_of(rng)
    if u1 != u2:
        mon.count('dark in another unit')
    f1, f2, raw1, want = {}, {}, {}, {}
    for k in keys:
        x, y1, y2 = sets[k]
        a = shuffled(rng, x, y1, u1)
        b = shuffled(rng, x, y2, u2)
        f1[k] = write(mon, k + '.csv', a[0], a[1], rng)
        f2[k] = write(mon, k + 'dark.csv', b[0], b[1], rng)
        want[k] = np.array([x, y1 - y2])
    if rng.random() < .6:
        f2 = {str(k): f2[str(k)] for k in rng.permutation(list(f2))}
    n2o = (len(keys) == 2 and sorted(k[0] == k[1] for k in keys)
           == [False, True] and rng.random() < .7)
    sp1 = u1 if rng.random() < .5 else u1.upper()
    if n2o:
        d = quiet(load_data_and_dark_subtract, f1, sp1, f2, u2,
                  normal_to_oblique=True)
        m = model.Data.build(want, 'radians')
        P = {'PP': 'SS', 'SS': 'PP', 'PS': 'SP', 'SP': 'PS'}
        for k in keys:
            x, y = m.d[k]
            m.d[P[k]] = (np.mod(x + np.pi/2, 2*np.pi), y)
        mon.check(sorted(d.get_keys()) == sorted(m.d), 'keys', d.get_keys)
        m.d = {k: m.d[k] for k in d.get_keys()}
    else:
        d = quiet(load_data_and_dark_subtract, f1, sp1, f2, u2)
        m = model.Data.build(want, 'radians')
    model.compare_data(d, m, mon, 'data minus dark', ytol=1e-12, yabs=10)
    mon.count('dark subtractions')
    mon.sig('dark', keys, u1, u2, [len(s[0]) for s in sets.values()], n2o)
    mon.note_sample(f'dark {keys} {u1}/{u2} oblique={n2o}')


def arith(rng, mon):
    keys, sets = two_sets(rng, mon)
    u1, u2 = unit_of(rng), unit_of(rng)
    k2 = list(keys)
    rng.shuffle(k2)
    d1 = quiet(DataContainer,
               {k: shuffled(rng, sets[k][0], sets[k][1], u1) for k in keys},
               u1)
    d2 = quiet(DataContainer,
               {k: shuffled(rng, sets[k][0], sets[k][2], u2) for k in k2}, u2)
    f1, f2 = 1.0, 1.0
    if rng.random() < .5:
        f1 = 2.0
        d1.scale_data(2)
    if rng.random() < .5:
        f2 = .5
        d2.scale_data(.5)
    for f, s in ((dat_add, 1), (dat_subtract, -1)):
        d = quiet(f, d1, d2)
        want = {k: np.array([sets[k][0], f1*sets[k][1] + s*f2*sets[k][2]])
                for k in d.get_keys()}
        mon.check(sorted(d.get_keys()) == sorted(keys), 'keys')
        model.compare_data(d, model.Data.build(want, 'radians'), mon,
                           f.__name__, yabs=10)
        mon.count('arithmetic')
    mon.sig('arith', keys, k2, u1, u2, f1, f2,
            [len(s[0]) for s in sets.values()])
    mon.note_sample(f'arith {keys} with {k2} {u1}/{u2}')


def reject(rng, mon):
    keys, sets = two_sets(rng, mon)
    j = int(rng.integers(5))
    a = {k: np.array([sets[k][0], sets[k][1]]) for k in keys}
    b = {k: np.array([sets[k][0], sets[k][2]]) for k in keys}
    k = keys[int(rng.integers(len(keys)))]
    x = sets[k][0].copy()
    if j == 0:
        b['extra'] = b[k]
    elif j == 1:
        b['renamed'] = b.pop(k)
    elif j == 2:
        i = int(rng.integers(len(x)))
        gap = 2*np.pi/len(x)
        x[i] += float(rng.choice([2e-3, .1]))*gap*.5 if gap > .1 else .01
        b[k] = np.array([x, b[k][1]])
        if len(x) == 1:
            x[0] += .01
        b[k][0] = x
    elif j == 3:
        x = np.append(x, (x[-1] + .013))
        b[k] = np.array([x, rng.normal(size=len(x))])
    else:
        if len(x) < 2:
            return reject(rng, mon)
        keep = int(rng.integers(1, len(x)))
        b[k] = b[k][:, :keep]
    d1, d2 = DataContainer(a, 'radians'), DataContainer(b, 'radians')
    if rng.random() < .5:
        d1, d2, a, b = d2, d1, b, a
    name = ['extra key', 'renamed key', 'other angle', 'more angles',
            'fewer angles'][j]
    for f in (dat_add, dat_subtract):
        mon.raises(lambda: f(d1, d2), 'mismatched containers rejected',
                   detail=name)
    fa = {q: write(mon, q + '1.csv', *v, rng) for q, v in a.items()}
    fb = {q: write(mon, q + '2.csv', *v, rng) for q, v in b.items()}
    mon.raises(lambda: load_data_and_dark_subtract(fa, 'radians', fb,
                                                   'radians'),
               'mismatched dark rejected', detail=name)
    mon.raises(lambda: load_data_and_fourier_transform(
        fa, 'radians', fb, 'radians', M=2, interp_kind='nearest'),
        'mismatched dark rejected by the pipeline', detail=name)
    mon.count('rejections')
    mon.sig('reject', name, keys, len(x))
    mon.note_sample(f'reject {name} {keys}')


def pipeline(rng, mon):
    keys = keyset(rng)
    u1, u2 = unit_of(rng), unit_of(rng)
    use_dark = rng.random() < .5
    minsub = rng.random() < .5
    scale = [1, 2, .5, 1e3, 3, 1.0001, 1e-6, 0][rng.choice(
        8, p=[.2, .2, .2, .1, .1, .1, .05, .05])]
    size = 10.0**int(rng.choice([0, -12, 9], p=[.8, .1, .1]))
    M = int(rng.choice([0, 1, 3, 8, 16]))
    ik = ['cubic', 'linear', 'nearest', 'quadratic', 'slinear', 'zero', 3][
        rng.integers(7)]
    n2o = (len(keys) == 2 and sorted(k[0] == k[1] for k in keys)
           == [False, True] and rng.random() < .7)
    f1, f2 = {}, {}
    for k in keys:
        n = int(rng.choice([8, 12, 36]))
        x = sampling(rng, n)
        y1 = rng.normal(size=n)*10**float(rng.integers(-1, 3))*size
        y2 = rng.normal(size=n)*size
        a, b = shuffled(rng, x, y1, u1), shuffled(rng, x, y2, u2)
        f1[k] = write(mon, k + '.csv', a[0], a[1], rng)
        f2[k] = write(mon, k + 'd.csv', b[0], b[1], rng)
    kw = {}
    if use_dark:
        kw.update(dark_filenames_dict=f2, dark_angle_units=u2)
    if M != 16 or rng.random() < .5:
        kw['M'] = M
    if ik != 'cubic' or rng.random() < .5:
        kw['interp_kind'] = ik
    if minsub or rng.random() < .3:
        kw['min_subtract'] = minsub
    if scale != 1 or rng.random() < .3:
        kw['scale'] = scale
    if n2o:
        kw['normal_to_oblique'] = True
    dat, fdat = quiet(load_data_and_fourier_transform, f1, u1, **kw)
    if use_dark:
        ref = quiet(load_data_and_dark_subtract, f1, u1, f2, u2,
                    normal_to_oblique=n2o)
    else:
        ref = quiet(load_data, f1, u1, normal_to_oblique=n2o)
    raw = ref.copy()
    m = model.Data.build({k: v for k, v in ref.get_items('radians')},
                         'radians')
    big = max(np.abs(y).max() for _, y in m.d.values())
    if minsub:
        m.do_submin()
    if scale != 1:
        m.do_scale(scale)
    model.compare_data(dat, m, mon, 'pipeline data', ytol=1e-11,
                       yabs=big*max(1, scale))
    if minsub:
        ref.subtract_min()
    if scale != 1:
        ref.scale_data(scale)
    for what in ('get_scale', 'get_offset'):
        g, w = getattr(dat, what)(), getattr(ref, what)()
        mon.close(g, w, what + ' of the pipeline', 1e-11,
                  1e-11*big*max(1, scale), lambda: f'{kw}')
    for unit in ('radians', 'degrees'):
        mon.close(dat.get_phase_shift(unit), ref.get_phase_shift(unit),
                  'phase shift of the pipeline', 1e-11, 1e-11)
    mon.count('metadata of pipelines')
    want = dat_to_fdat(ref, interp_kind=ik, M=M)
    mon.check(fdat.get_M() == M, 'M of the pipeline')
    mon.check(sorted(fdat.get_keys()) == sorted(want.get_keys()),
              'fdat keys')
    for k in want.get_keys():
        mon.close(fdat.get_pc(k), want.get_pc(k), 'pipeline Fourier data',
                  1e-5, 1e-6*big*scale, lambda: f'{k} {kw}')
    if minsub and scale != 1:
        mon.count('min and scale together')
    mon.count('pipelines')
    mon.sig('pipe', use_dark, minsub, scale, M, ik, n2o, u1, u2, keys)
    mon.note_sample(f'pipeline { {k: v for k, v in kw.items() if k != "dark_filenames_dict"} } {keys}')


def run(kind, idx, rng, mon, tier):
    dict(csv=csv_case, dark=dark, arith=arith, pipeline=pipeline,
         reject=reject)[kind](rng, mon)
