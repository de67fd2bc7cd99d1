"""C11 - saved Fourier formulas and merged containers lose nothing."""
import os
import pathlib
import subprocess
import sys

import numpy as np
import sympy as sp
from shgpy import (DataContainer, fDataContainer, FormContainer,
                   fFormContainer, form_to_fform)
from shgpy.core.data_handler import (save_fform, load_fform,
                                     merge_containers)
import gen
import c02
import c03

PROPERTY = 'C11'
RULE = ('random Fourier formulas (M, symbol names and assumptions, polarization '
        'sets) through save/overwrite/load histories in this and in new '
        'processes, structural equality; random lists of containers merged '
        'under random mappings, item by item; distinct by content')
ASSUMPTIONS = ['formulas are in sympy\'s automatically evaluated form and use '
               'ordinary symbols']
MIN_EVENTS = {'saved and loaded': 100, 'overwrites': 40,
              'loaded in a new process': 8, 'merges': 100,
              'mixed types rejected': 40}
TYPES = ['data', 'fdata', 'form', 'fform']


def plan(tier):
    k = 3 if tier == 'quick' else 25
    return [('save', 110*k), ('process', 8*min(k, 6)), ('merge', 160*k),
            ('mixed', 60*k)]


def rand_fform(rng, M=None, keys=None):
    if M is None:
        M = int(rng.choice([0, 1, 2, 5, 16, 19]))
    names = gen.NAMES + gen.ODD_NAMES
    names = [n for n in names if n]
    syms = gen.symbols(rng, int(rng.integers(1, 5)), names=names)
    if rng.random() < .3:     # same name, different assumptions
        syms.append(sp.Symbol(syms[0].name, real=True))
        syms.append(sp.Symbol(syms[0].name))
    raw = {}
    for k in keys or gen.subset_pcs(rng):
        v = np.empty(2*M+1, dtype=object)
        for i in range(2*M+1):
            r = rng.random()
            e = gen.coeff(rng, syms) if r < .6 else sp.Integer(0)
            if r < .1:
                e = e*sp.conjugate(syms[-1]) + sp.I*sp.re(syms[0])
            v[i] = sp.sympify(e)
        raw[k] = v
    if rng.random() < .2 and M == 16:
        form = FormContainer({k: gen.trig_poly(rng, syms, 4)
                              for k in raw})
        f = form_to_fform(form, M=M)
        return f
    return fFormContainer(raw, M=M)


def same_fform(a, b, mon, rule):
    mon.check(type(b) is fFormContainer, rule + ': type', lambda: type(b))
    mon.check(a.get_keys() == b.get_keys(), rule + ': keys in order',
              lambda: (a.get_keys(), b.get_keys()))
    mon.check(a.get_M() == b.get_M(), rule + ': M',
              lambda: (a.get_M(), b.get_M()))
    for k in a.get_keys():
        x, y = a.get_pc(k), b.get_pc(k)
        mon.check(x.shape == y.shape, rule + ': shape')
        for n, (p, q) in enumerate(zip(x, y)):
            mon.check(p == q and sp.srepr(p) == sp.srepr(q),
                      rule + ': expressions',
                      lambda: f'{k} {n - a.get_M()}: {sp.srepr(q)} want '
                              f'{sp.srepr(p)}')
            mon.check(p.free_symbols == q.free_symbols, rule + ': symbols',
                      lambda: (p.free_symbols, q.free_symbols))
    mon.check(a.get_free_symbols() == b.get_free_symbols(),
              rule + ': free symbols')


CHILD = '''
import sys, pickle
import sympy as sp
from shgpy.core.data_handler import load_fform, save_fform
out = {}
for fn in sys.argv[2:]:
    f = load_fform(fn)
    out[fn] = (f.get_keys(), f.get_M(),
               {k: [sp.srepr(e) for e in f.get_pc(k)] for k in f.get_keys()})
    save_fform(f, fn + '.again')
with open(sys.argv[1], 'wb') as fh:
    pickle.dump(out, fh)
'''


def run(kind, idx, rng, mon, tier):
    if kind == 'save':
        n = int(rng.integers(1, 4))
        paths = [os.path.join(mon.dir, f'f{i}' + ['', '.p', '.fform'][
            rng.integers(3)]) for i in range(n)]
        cur = {}
        for step in range(int(rng.integers(2, 8))):
            p = paths[int(rng.integers(n))]
            as_given = [p, pathlib.Path(p)][rng.integers(2)]
            if p not in cur or rng.random() < .5:
                f = rand_fform(rng)
                if p in cur:
                    mon.count('overwrites')
                ret = save_fform(f, as_given)
                cur[p] = f.copy()
                if rng.random() < .5:
                    f.apply_arbitrary_scale(7)    # later changes stay here
            else:
                g = load_fform(as_given)
                same_fform(cur[p], g, mon, 'loaded')
                # mixes with the original
                for k in g.get_keys():
                    d = g.get_pc(k) - cur[p].get_pc(k)
                    mon.check(all(sp.expand(e) == 0 for e in d),
                              'loaded formulas mix with the original',
                              lambda: d)
                g.subs([(s, 1) for s in cur[p].get_free_symbols()])
                mon.check(g.get_free_symbols() == [],
                          'symbols of the original act on the loaded',
                          g.get_free_symbols)
                mon.count('saved and loaded')
        for p, f in cur.items():
            same_fform(f, load_fform(p), mon, 'loaded at the end')
            mon.count('saved and loaded')
        mon.sig(kind, [(f.get_M(), f.get_keys(), str(f.get_values()[0]))
                       for f in cur.values()])
        mon.note_sample(f'{[(f.get_M(), f.get_keys()) for f in cur.values()]}')
    elif kind == 'process':
        fs = {}
        for i in range(5):
            fn = os.path.join(mon.dir, f'p{i}')
            fs[fn] = rand_fform(rng)
            save_fform(fs[fn], fn)
        out = os.path.join(mon.dir, 'out')
        r = subprocess.run([sys.executable, '-c', CHILD, out] + list(fs),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=200)
        mon.check(r.returncode == 0, 'loading in a new process',
                  lambda: r.stderr.decode()[-1500:])
        import pickle
        with open(out, 'rb') as fh:
            res = pickle.load(fh)
        for fn, f in fs.items():
            keys, M, d = res[fn]
            mon.check(keys == f.get_keys() and M == f.get_M(),
                      'keys and M in a new process')
            for k in keys:
                mon.check(d[k] == [sp.srepr(e) for e in f.get_pc(k)],
                          'expressions in a new process',
                          lambda: f'{d[k]} want {f.get_pc(k)}')
            same_fform(f, load_fform(fn + '.again'), mon,
                       'saved again in a new process')
            mon.count('loaded in a new process')
        mon.sig(kind, [str(f.get_values()[0]) for f in fs.values()])
        mon.note_sample(f'5 formulas, M={[f.get_M() for f in fs.values()]}')
    elif kind == 'merge':
        merge(idx, rng, mon)
    else:
        t1, t2 = rng.permutation(4)[:2]
        cs = [build(rng, TYPES[t1], M=16)[0] for _ in range(
            int(rng.integers(1, 3)))]
        cs.insert(int(rng.integers(0, len(cs)+1)),
                  build(rng, TYPES[t2], M=16)[0])
        mon.raises(lambda: merge_containers(cs, lambda k, i: f'{k}{i}'),
                   'mixed types rejected', detail=[type(c) for c in cs])
        for bad in ([{'PP': np.zeros((2, 3))}], [1, 2], [None],
                    ['PP', 'SS']):
            mon.raises(lambda: merge_containers(
                bad, lambda k, i: f'{k}{i}'), 'unsupported types rejected')
        mon.count('mixed types rejected')
        mon.sig(kind, int(t1), int(t2), len(cs))
        mon.note_sample([type(c).__name__ for c in cs])


def build(rng, t, M):
    keys = gen.subset_pcs(rng)
    if t == 'data':
        raw = c02.random_data(rng)
        n2o = rng.random() < .2
        if n2o:
            v = list(raw.values())
            raw = dict(zip([['PP', 'PS'], ['SS', 'PS'], ['SP', 'SS']][
                rng.integers(3)], [v[0], v[-1]]))
        c = DataContainer(raw, ['radians', 'degrees'][rng.integers(2)],
                          normal_to_oblique=n2o)
        return c, {k: c.get_pc(k, 'radians') for k in c.get_keys()}
    if t == 'fdata':
        dt = [np.complex64, complex][rng.integers(2)]
        raw = {k: c03.spectrum(rng, M, dt) for k in keys}
        c = fDataContainer(raw, M=M)
        return c, {k: c.get_pc(k) for k in keys}
    if t == 'form':
        syms = gen.symbols(rng, 3)
        raw = {k: sp.sympify(gen.formula(rng, syms, 4)) for k in keys}
        return FormContainer(raw), raw
    f = rand_fform(rng, M)
    return f, {k: f.get_pc(k) for k in f.get_keys()}


def merge(idx, rng, mon):
    t = TYPES[idx % 4]
    M = int(rng.choice([0, 1, 2, 5, 16, 20]))
    n = int(rng.integers(1, 5))
    cs, want = [], {}
    style = int(rng.integers(4))
    if style == 0:
        mapping = lambda k, i: f'{k}_{i}'
    elif style == 1:
        mapping = lambda k, i: f'{i}{k}'
    elif style == 2:
        mapping = lambda k, i: k.lower() + 'abcdef'[i]
    else:
        mapping = lambda k, i: ['first', 'second', '3', '4'][i] + k
    for i in range(n):
        c, raw = build(rng, t, M)
        if t == 'data' and rng.random() < .5:
            c.scale_data(2)
            c.phase_shift_data(.3, 'radians')
            raw = {k: c.get_pc(k, 'radians') for k in c.get_keys()}
        elif t == 'fdata' and rng.random() < .5:
            c.phase_shift_fdata(.3, 'radians')
            raw = {k: c.get_pc(k) for k in c.get_keys()}
        cs.append(c)
        for k, v in raw.items():
            want[mapping(k, i)] = v
    calls = []

    def recording(k, i):
        calls.append((k, i))
        return mapping(k, i)

    m = merge_containers(cs, recording)
    mon.check(type(m) is type(cs[0]), 'merged type', lambda: type(m))
    mon.check(set(calls) == {(k, i) for i, c in enumerate(cs)
                             for k in c.get_keys()},
              'mapping sees every item', lambda: calls)
    if t in ('fdata', 'fform'):
        mon.check(m.get_M() == M, 'merged M', lambda: (m.get_M(), M))
    mon.check(sorted(m.get_keys()) == sorted(want), 'merged keys',
              lambda: (m.get_keys(), list(want)))
    for k, v in want.items():
        g = m.get_pc(k, 'radians') if t == 'data' else m.get_pc(k)
        if t == 'data':
            mon.check(g.shape == v.shape and np.abs(g - v).max() < 1e-12,
                      'merged data', lambda: f'{k}: {g} want {v}')
        elif t == 'fdata':
            mon.check(g.dtype == v.dtype and np.array_equal(g, v),
                      'merged Fourier data', lambda: f'{k}: {g} want {v}')
        elif t == 'form':
            mon.check(isinstance(g, sp.Basic) and g == v, 'merged formula',
                      lambda: f'{k}: {g} want {v}')
        else:
            mon.check(g.shape == v.shape and all(
                isinstance(a, sp.Basic) and a == b for a, b in zip(g, v)),
                'merged Fourier formula', lambda: f'{k}: {g} want {v}')
    if t in ('fdata', 'fform'):
        other = build(rng, t, M+1)[0]
        mon.raises(lambda: merge_containers(
            cs + [other], lambda k, i: f'{k}{i}'),
            'containers of different M rejected')
    mon.count('merges')
    mon.sig('merge', t, M, n, style, len(want))
    mon.note_sample(f'{n} {t} containers, M={M}')
