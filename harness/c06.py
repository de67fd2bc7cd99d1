"""C06 - normal-incidence data are completed by a 90 degree rotation."""
import csv
import os
import warnings

import numpy as np
from shgpy import DataContainer
from shgpy.core.data_handler import load_data
import model
import c02

PROPERTY = 'C06'
RULE = ('random two-key and four-key datasets (key order, case, suffix, dtype, '
        'unit, sampling) extended to oblique geometry, from memory and from '
        'CSV, against a sample-by-sample model; other key sets must be '
        'rejected; distinct by keys, unit, dtype and sampling')
MIN_EVENTS = {'completions': 150, 'relabellings': 40, 'rejections': 60,
              'integer dtype': 20, 'from csv': 30}
PARTNER = {'PP': 'SS', 'SS': 'PP', 'PS': 'SP', 'SP': 'PS'}


def plan(tier):
    k = 12 if tier == 'quick' else 30
    return [('two', 300*k), ('four', 90*k), ('other', 120*k)]


def decorate(rng, pc):
    s = ''.join(c.lower() if rng.random() < .3 else c for c in pc)
    return s + ['', '', '1', '_data', ' run 2', 'pp', 'SS'][rng.integers(7)]


def dataset(rng, unit, mon):
    raw = c02.random_data(rng, 1)
    v = next(iter(raw.values()))
    if unit == 'degrees':
        v = np.array([np.degrees(v[0]), v[1]])
    k = rng.integers(6)
    if k == 0:
        n = v.shape[1]
        x = rng.permutation(np.arange(0, 360, 5) if unit == 'degrees'
                            else np.arange(-3, 3))[:n]
        v = np.array([x, rng.integers(-5, 5, len(x))])
        mon.count('integer dtype')
    elif k == 1:
        v = v.astype(np.float32)
    return v


def run(kind, idx, rng, mon, tier):
    unit = ['degrees', 'radians'][rng.integers(2)]
    if kind == 'two':
        pcs = [['PP', 'SS'][rng.integers(2)], ['PS', 'SP'][rng.integers(2)]]
    elif kind == 'four':
        pcs = ['PP', 'PS', 'SP', 'SS']
    else:
        pool = [['PP'], ['PS'], ['PP', 'SS'], ['PS', 'SP'],
                ['PP', 'PS', 'SP'], ['PP', 'PS', 'SS'], ['PP', 'XX'],
                ['xp', 'ps'], ['P', 'PS'], ['PP', 'PS', 'SP', 'SS', 'XX'],
                ['PP', 'PP', 'PS'], ['PP', 'PS', 'PS'], ['', 'PP'],
                ['SS', 'SS', 'PP', 'PS', 'SP'], ['PP', 'PP'],
                ['SP', 'SP', 'SS'], ['LL', 'LR'], ['SS', 'PS', 'SP']]
        pcs = list(pool[idx % len(pool)])
    rng.shuffle(pcs)
    raw = {}
    for pc in pcs:
        key = decorate(rng, pc) if len(pc) == 2 else pc
        while key in raw:
            key = pc + str(rng.integers(1000)) if len(pc) == 2 else pc + '_'
        raw[key] = dataset(rng, unit, mon)
    mon.sig(kind, unit, [(k, v.shape[1], str(v.dtype))
                         for k, v in raw.items()])
    mon.note_sample(f'{unit} {[(k, v.shape, str(v.dtype)) for k, v in raw.items()]}')
    spell = unit if rng.random() < .6 else unit.upper()
    if kind == 'other':
        # only two-letter prefixes count: 'P' + suffix may become another key
        mon.raises(lambda: DataContainer(raw, spell, normal_to_oblique=True),
                   'other key sets rejected', detail=list(raw))
        mon.count('rejections')
        return
    before = {k: v.copy() for k, v in raw.items()}
    src = raw
    if rng.random() < .25:
        mon.count('from csv')
        files = {}
        for i, (k, v) in enumerate(raw.items()):
            files[k] = os.path.join(mon.dir, f'{i}.csv')
            with open(files[k], 'w', newline='') as f:
                w = csv.writer(f)
                for x, y in zip(*v):
                    w.writerow([repr(x.item()), repr(y.item())])
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            d = load_data(files, spell, normal_to_oblique=True)
    else:
        if rng.random() < .3:
            src = list(raw.items())
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            d = DataContainer(src, spell, normal_to_oblique=True)
    m = model.Data.build({k.upper()[:2]: v for k, v in before.items()}, unit)
    mon.check(sorted(d.get_keys()) == ['PP', 'PS', 'SP', 'SS'],
              'exactly four keys', d.get_keys)
    given = dict(m.d)
    for pc in ('PP', 'PS', 'SP', 'SS'):
        g = d.get_pc(pc, 'radians')
        h = d.get_pc(pc, 'degrees')
        if pc in given:
            x, y = given[pc]
            rule = 'given data unchanged'
        else:
            x, y = given[PARTNER[pc]]
            x = np.mod(x + np.pi/2, 2*np.pi)
            rule = 'missing data is the rotated partner'
        model.match_samples(g[0], g[1], x, y, mon, rule, detail=pc)
        model.match_samples(h[0]*np.pi/180, h[1], x, y, mon,
                            rule + ' in degrees', detail=pc)
        mon.check(np.all(np.diff(g[0]) > 0), 'sorted', lambda: g[0])
    mon.check(d.get_scale() == 1 and d.get_phase_shift('radians') == 0
              and d.get_offset() == 0, 'metadata untouched')
    mon.count('completions' if kind == 'two' else 'relabellings')
    # a missing dataset is not an alias of its partner
    if kind == 'two':
        d2 = d.copy()
        d2.scale_data(2)
        d2.phase_shift_data(.1, 'radians')
        for pc in ('PP', 'SS'):
            x, y = given.get(pc, given.get(PARTNER[pc]))
            extra = .1 if pc in given else .1 + np.pi/2
            g = d2.get_pc(pc, 'radians')
            model.match_samples(g[0], g[1], np.mod(x + extra, 2*np.pi), 2*y,
                                mon, 'operations act once on each dataset',
                                detail=pc)
