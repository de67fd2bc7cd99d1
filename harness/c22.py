"""C22 - tabular views contain exactly the container contents."""
import warnings

import numpy as np
import sympy as sp
from shgpy import DataContainer, fDataContainer, FormContainer, fFormContainer
import gen
import c02
import c03

PROPERTY = 'C22'
RULE = ('random containers of all four types (M, number and length of '
        'polarizations, unequal sampling) viewed in both index styles and '
        'units, row by row against the accessors and the original input; '
        'distinct by type, keys, lengths, unit and index style')
MIN_EVENTS = {'rows compared': 5000, 'data views': 60, 'fdata views': 60,
              'form views': 60, 'fform views': 60, 'representations': 200,
              'unequal sampling': 20}


def plan(tier):
    k = 6 if tier == 'quick' else 30
    return [(n, 70*k) for n in ('data', 'fdata', 'form', 'fform')]


def rows_multi(df, mon, names, col):
    mon.check(list(df.columns) == [col], 'columns', lambda: list(df.columns))
    mon.check(list(df.index.names) == names, 'index names',
              lambda: list(df.index.names))
    return [(i, v) for i, v in zip(df.index, df[col].tolist())]


def rows_flat(df, mon, cols, key):
    mon.check(sorted(df.columns) == sorted(cols + ['POLARIZATION']),
              'columns', lambda: list(df.columns))
    out = []
    for r in zip(*[df[c].tolist() for c in cols + ['POLARIZATION']]):
        idx = (r[-1],) + tuple(r[:-2]) if len(cols) > 1 else r[-1]
        out.append((idx, r[len(cols)-1] if len(cols) > 1 else r[0]))
    return out


def same(a, b):
    if isinstance(a, sp.Basic) or isinstance(b, sp.Basic):
        return sp.sympify(a) == sp.sympify(b)
    return a == b


def compare(got, want, mon, label):
    mon.check(len(got) == len(want), 'one row for each sample',
              lambda: f'{label}: {len(got)} rows, want {len(want)}')
    for (gi, gv), (wi, wv) in zip(got, want):
        if isinstance(wi, tuple):
            ok = gi[0] == wi[0] and abs(gi[1] - wi[1]) <= 1e-9
        else:
            ok = gi == wi
        mon.check(ok, 'row labels', lambda: f'{label}: {gi} want {wi}')
        mon.check(same(gv, wv), 'row values',
                  lambda: f'{label} {wi}: {gv} want {wv}')
    mon.count('rows compared', len(want))


def run(kind, idx, rng, mon, tier):
    keys = ['PP', 'PS', 'SP', 'SS', 'x', 'A b']
    rng.shuffle(keys)
    keys = keys[:int(rng.integers(1, 5))]
    views = []
    if kind == 'data':
        raw = c02.random_data(rng)
        keys = list(raw)
        c = DataContainer(raw, 'radians')
        if rng.random() < .5:
            c.phase_shift_data(float(rng.normal()), 'radians')
            c.scale_data(2)
        if len({v.shape[1] for v in raw.values()}) > 1:
            mon.count('unequal sampling')
        for u in ('radians', 'degrees', 'Degrees'):
            want = [((k, a), y) for k in keys
                    for a, y in zip(*c.get_pc(k, u))]
            df = c.as_pandas(u)
            compare(rows_multi(df, mon, ['POLARIZATION', 'ANGLE'], 'VALUE'),
                    want, mon, 'data ' + u)
            compare(rows_flat(c.as_pandas(u, index='none'), mon,
                              ['ANGLE', 'VALUE'], 'ANGLE'),
                    want, mon, 'data flat ' + u)
            compare(rows_multi(c.as_pandas(u, index='multi'), mon,
                               ['POLARIZATION', 'ANGLE'], 'VALUE'),
                    want, mon, 'data ' + u)
            mon.count('data views', 3)
        mon.raises(lambda: c.as_pandas('turns'), 'unknown unit rejected')
        shape = [(k, v.shape[1]) for k, v in raw.items()]
    elif kind == 'fdata':
        M = int(rng.choice([0, 1, 2, 5, 16, 20]))
        raw = {k: c03.spectrum(rng, M, [np.complex64, complex][
            rng.integers(2)]) for k in keys}
        c = fDataContainer(raw, M=M)
        want = [((k, n), raw[k][n+M]) for k in keys
                for n in range(-M, M+1)]
        for df in (c.as_pandas(), c.as_pandas(index='multi')):
            compare(rows_multi(df, mon, ['POLARIZATION', 'N'], 'VALUE'),
                    want, mon, 'fdata')
        compare(rows_flat(c.as_pandas(index='none'), mon, ['N', 'VALUE'],
                          'N'), want, mon, 'fdata flat')
        mon.count('fdata views', 3)
        shape = [keys, M]
    elif kind == 'form':
        syms = gen.symbols(rng, 3)
        raw = {k: gen.formula(rng, syms, 5) for k in keys}
        if rng.random() < .2:
            raw[keys[0]] = sp.Integer(0)
        c = FormContainer(raw)
        want = [(k, raw[k]) for k in keys]
        for df in (c.as_pandas(), c.as_pandas(index='multi')):
            compare(rows_multi(df, mon, ['POLARIZATION'], 'EXPRESSION'),
                    want, mon, 'form')
        compare(rows_flat(c.as_pandas(index='none'), mon, ['EXPRESSION'],
                          None), want, mon, 'form flat')
        mon.count('form views', 3)
        shape = [keys, [type(e).__name__ for e in raw.values()]]
    else:
        M = int(rng.choice([0, 1, 2, 5, 16]))
        syms = gen.symbols(rng, 3)
        raw = {}
        for k in keys:
            v = np.empty(2*M+1, dtype=object)
            for i in range(2*M+1):
                v[i] = gen.coeff(rng, syms) if rng.random() < .4 else \
                    sp.Integer(0)
            raw[k] = v
        c = fFormContainer(raw, M=M)
        want = [((k, n), raw[k][n+M]) for k in keys
                for n in range(-M, M+1)]
        for df in (c.as_pandas(), c.as_pandas(index='multi')):
            compare(rows_multi(df, mon, ['POLARIZATION', 'N'], 'EXPRESSION'),
                    want, mon, 'fform')
        compare(rows_flat(c.as_pandas(index='none'), mon,
                          ['N', 'EXPRESSION'], 'N'), want, mon, 'fform flat')
        mon.count('fform views', 3)
        shape = [keys, M]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for r in (repr(c), str(c), f'{c}'):
            mon.check(isinstance(r, str) and keys[0] in r or len(r) > 20,
                      'representation', r)
            mon.count('representations')
    mon.sig(kind, shape)
    mon.note_sample(f'{kind} {shape}')
