"""C26 - results are functions of the arguments, in every process."""
import json
import os
import subprocess
import sys

import numpy as np
import sympy as sp
from shgpy import tensor_definitions as td
import fgen
import gen

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('random programs of calls over the whole package, each executed in '
        'three new interpreters: different hash seeds, calls in another order, '
        'after unrelated calls on similar arguments, twice in a row, in other '
        'working directories and locales; the logs of their results are '
        'compared entry by entry; and files saved by one interpreter are used '
        'by others; distinct by operation, shape of the result and hash seeds')
ASSUMPTIONS = [
    'expressions are compared by their free symbols and their value at one '
    'point, numbers to 1e-9, results of fits to 1e-3 (all fits are seeded)',
    'error messages are not compared, only the type of the exception']
MIN_EVENTS = {'programs': 6, 'processes': 24, 'results compared': 400,
              'calls on similar arguments': 80, 'symbols of one name': 8,
              'handovers': 6, 'distinct hash seeds': 20}
WATCHDOG_S = 500
WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                      'c26_worker.py')


def plan(tier):
    q = tier == 'quick'
    return [('program', 14 if q else 320), ('handover', 9 if q else 120)]


# ---------------------------------------------------------------- generators
def text(x):
    if isinstance(x, np.ndarray):
        return [text(y) for y in x]
    return sp.srepr(sp.sympify(x))


def pick_symbols(rng, mon, n=None, real=None):
    n = int(rng.integers(2, 7)) if n is None else n
    names = list(gen.NAMES) + ['a%d' % i for i in range(1, 13)]
    out = gen.symbols(rng, n, real, names)
    if real is None and rng.random() < .5:
        # one name with several assumptions
        s = out[0]
        for kw in (dict(), dict(real=True), dict(positive=True)):
            t = sp.Symbol(s.name, **kw)
            if t not in out:
                out.append(t)
        mon.count('symbols of one name')
    return out


def job_data(rng, mon, unit=None):
    n = int(rng.integers(5, 12))
    unit = unit or ['degrees', 'radians'][rng.integers(2)]
    top = 360 if unit == 'degrees' else 2*np.pi
    n2o = bool(rng.random() < .3)
    pcs = [['PP', 'PS'], ['SS', 'SP'], ['PS', 'SS']][rng.integers(3)] if n2o \
        else gen.subset_pcs(rng)
    d = []
    for k in pcs:
        x = np.sort(rng.choice(np.arange(1, 37), size=n, replace=False))
        d.append([k, [list(map(float, x*top/37)),
                      list(map(float, rng.normal(size=n)*100))]])
    steps = []
    for _ in range(rng.integers(0, 4)):
        steps.append([['scale_data', float(rng.uniform(.5, 3))],
                      ['phase_shift_data', float(rng.uniform(0, 6)), 'radians'],
                      ['subtract_min'],
                      ['normalize_data', float(rng.uniform(.5, 3))],
                      ['phase_shift_data', float(rng.uniform(0, 400)),
                       'degrees']][rng.integers(5)])
    return dict(d=d, unit=unit, n2o=n2o, steps=steps)


def job_combine(rng, mon):
    a = job_data(rng, mon)
    a['d2'] = [[k, [x, list(map(float, rng.normal(size=len(x))))]]
               for k, (x, _) in (a['d'][i] for i in
                                 rng.permutation(len(a['d'])))]
    return a


def cnums(rng, n):
    return [[float(rng.normal()), float(rng.normal())] for _ in range(n)]


def job_fdata(rng, mon):
    M = int(rng.integers(1, 9))
    steps = []
    for _ in range(rng.integers(0, 3)):
        steps.append([['scale_fdata', float(rng.uniform(.5, 3))],
                      ['phase_shift_fdata', float(rng.uniform(0, 6)),
                       'radians']][rng.integers(2)])
    return dict(f=[[k, cnums(rng, 2*M+1)] for k in gen.subset_pcs(rng)], M=M,
                steps=steps, n=int(rng.integers(3, 30)))


def job_convert(rng, mon):
    M = int(rng.integers(1, 5))
    n = int(rng.integers(2*M+4, 30))
    d = [[k, [list(map(float, np.arange(n)*360./n)),
              list(map(float, rng.normal(size=n)))]]
         for k in gen.subset_pcs(rng)]
    return dict(d=d, unit='degrees', M=M)


def pairs(rng, syms):
    ss = [syms[i] for i in rng.permutation(len(syms))[:int(rng.integers(1, 4))]]
    return [[text(s), text(gen.num(rng) if rng.random() < .5 else
                           gen.num(rng) + syms[rng.integers(len(syms))])]
            for s in ss]


def job_form(rng, mon, deg=4):
    syms = pick_symbols(rng, mon)
    d = [[k, text(gen.formula(rng, syms, deg, False) + syms[i % len(syms)]
                  + sum(syms[:4]))]
         for i, k in enumerate(gen.subset_pcs(rng))]
    steps = []
    for _ in range(rng.integers(0, 3)):
        steps.append([['subs', pairs(rng, syms)],
                      ['shift', text(gen.num(rng))],
                      ['scale', text(syms[0])],
                      ['expand']][rng.integers(4)])
    return dict(d=d, steps=steps)


def job_transform(rng, mon):
    a = job_form(rng, mon, 3)
    a['d'] = a['d'][:2]
    a['M'] = int(rng.integers(3, 6))
    return a


def job_fform(rng, mon, linear=False, npc=None):
    M = int(rng.integers(1, 4))
    syms = pick_symbols(rng, mon, real=None)
    d = []
    for i, k in enumerate(gen.subset_pcs(rng)[:npc]):
        a = np.array([sp.Integer(0)]*(2*M+1), dtype=object)
        for j in range(2*M+1):
            if linear:
                a[j] = sum(gen.num(rng)*s for s in syms
                           if rng.random() < .5) + gen.num(rng)
            elif rng.random() < .6:
                a[j] = fgen.cexpr(rng, syms, 1)
        a[rng.integers(2*M+1)] += sum((q+1)*s for q, s in enumerate(syms))
        d.append([k, text(a)])
    steps = []
    for _ in range(rng.integers(0, 3)):
        steps.append([['subs', pairs(rng, syms)],
                      ['apply_phase_shift', text(gen.num(rng))],
                      ['apply_arbitrary_scale', text(syms[0])]
                      ][rng.integers(3)])
    keys = [k for k, _ in d]
    rng.shuffle(keys)
    return dict(d=d, steps=steps, M=M,
                f=[[k, cnums(rng, 2*M+1)] for k in keys])


def job_merge(rng, mon):
    k = bool(rng.integers(2))
    if k:
        cs = [job_form(rng, mon) for _ in range(2)]
    else:
        cs = [job_fform(rng, mon) for _ in range(2)]
        for i, (_, v) in enumerate(cs[1]['d']):
            M = cs[0]['M']
            cs[1]['d'][i][1] = (v*7)[:2*M+1]
        cs[1]['M'] = cs[0]['M']
    m = []
    for i, c in enumerate(cs):
        m.append([[p, p + str(i)] for p, _ in c['d']])
    return dict(form=k, cs=cs, map=m)


def job_tensor(rng, mon, rank3=False):
    if rng.random() < .6:
        t = 'dipole' if rank3 or rng.random() < .7 else 'quadrupole'
        names = list(getattr(td, t))
        return dict(table=t, name=names[rng.integers(len(names))])
    # solving depends on assumptions such as positive
    syms = [sp.Symbol(s.name, real=s.is_real) for s in pick_symbols(rng, mon)]
    a = np.zeros((3, 3, 3), dtype=object)
    for _ in range(rng.integers(3, 20)):
        a[tuple(rng.integers(3, size=3))] = sum(
            int(rng.integers(-2, 3))*s for s in syms[:4])
    return dict(t=text(a))


def job_particularize(rng, mon):
    a = job_tensor(rng, mon)
    a['all'] = bool(rng.random() < .4) and a.get('table') != 'quadrupole'
    return a


def job_params(rng, mon):
    a = job_tensor(rng, mon)
    a['prefix'] = [['r_', 'i_'], ['', 'im'], ['real_', 'imag_']][
        rng.integers(3)]
    return a


def job_rotate(rng, mon):
    a = job_tensor(rng, mon, True)
    a.update(n=list(map(float, rng.normal(size=3))),
             m=list(map(float, rng.normal(size=3))), angle=float(rng.normal()))
    return a


def job_formgen(rng, mon):
    small = ['T_d', 'C_3v', 'D_2', 'C_4v', 'D_2d', 'C_6v', 'O']
    kw = [['t_eee', dict(table='dipole',
                         name=small[rng.integers(len(small)-1)])]]
    if rng.random() < .4:
        kw = [['t_mee', kw[0][1]]]
    if rng.random() < .3:
        kw.append(['t_qee', dict(table='quadrupole', name='O_h')])
    return dict(kw=kw, theta=text([sp.Float(.3), sp.Float(.1), sp.pi/8][
        rng.integers(3)]))


def job_load(rng, mon):
    a = job_convert(rng, mon)
    a['n2o'] = False
    a.update(dark=bool(rng.integers(2)), scale=float(rng.uniform(.5, 2)),
             min=bool(rng.integers(2)))
    return a


def job_cost(rng, mon):
    a = job_fform(rng, mon)
    a.update(save=bool(rng.integers(2)), chunk=bool(rng.integers(2)))
    return a


def job_model(rng, mon):
    return job_fform(rng, mon, npc=2)


def job_fit(rng, mon):
    a = job_fform(rng, mon, linear=True)
    a['fit'] = ['lsq', 'lsqb', 'bh', 'bhj', 'bhb', 'da'][rng.integers(6)]
    return a


OPS = dict(data=(job_data, 2), combine=(job_combine, 1.5), fdata=(job_fdata, 2),
           convert=(job_convert, 1),
           form=(job_form, 3), transform=(job_transform, 2),
           fform=(job_fform, 3), merge=(job_merge, 2), save=(job_fform, 1),
           particularize=(job_particularize, 3), params=(job_params, 2),
           rotate=(job_rotate, 2), formgen=(job_formgen, 1),
           load=(job_load, 1), cost=(job_cost, 1), model=(job_model, .4),
           fit=(job_fit, .7))
TOL = dict(fit=1e-3)


# ----------------------------------------------------- similar arguments
def similar(rng, x, p=.3):
    """x with small changes: what a careless cache takes for the same."""
    if isinstance(x, dict):
        return {k: similar(rng, v, p) if k not in ('M', 'n', 'fit', 'table')
                else v for k, v in x.items()}
    if isinstance(x, list):
        return [similar(rng, v, p) for v in x]
    if rng.random() > p or isinstance(x, bool):
        return x
    if isinstance(x, float):
        return [x*(1+3e-8), x+1e-9, -x, x+1][rng.integers(4)]
    if isinstance(x, str):
        return [lambda: x.replace(', real=True', ''),
                lambda: x.replace('real=True', 'positive=True'),
                lambda: x.replace("Symbol('b'", "Symbol('a'"),
                lambda: x.replace('Integer(2)', "Float('2.0', precision=53)"),
                lambda: x.replace('Integer(1)', 'Integer(2)'),
                ][rng.integers(5)]()
    return x


# ------------------------------------------------------------------ running
def execute(mon, prog, hseed, cwd, env=None):
    os.makedirs(prog['dir'], exist_ok=True)
    os.makedirs(cwd, exist_ok=True)
    fn = os.path.join(prog['dir'], 'prog.json')
    with open(fn, 'w') as f:
        json.dump(prog, f)
    e = dict(os.environ, PYTHONHASHSEED=str(hseed), **(env or {}))
    log = os.path.join(prog['dir'], 'log.json')
    p = subprocess.run([sys.executable, WORKER, fn, log], env=e, cwd=cwd,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=450)
    mon.count('processes')
    if p.returncode < 0 and p.returncode not in (-9, -15):
        mon.check(False, 'the process survives the calls',
                  f'exit {p.returncode} {p.stderr[-600:]}')
    if p.returncode:
        raise MemoryError(f'worker: {p.returncode} {p.stderr[-1500:]}')
    r = json.load(open(log))
    mon.sig('hash', r['seed'])
    return r['log']


def difference(a, b, tol, path=''):
    """Where two records differ (None if they agree)."""
    if type(a) is not type(b):
        return f'{path}: {a!r} and {b!r}'[:400]
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: {a!r} and {b!r}'[:600]
        if a and a[0] == 'raised':
            return None if a[:2] == b[:2] else f'{path}: {a} and {b}'[:600]
        if len(a) == 3 and a[0] == 'n' == b[0]:
            return num_difference([a], [b], tol, path)
        if a and all(isinstance(x, list) and len(x) == 3 and x[0] == 'n'
                     for x in a[1:]) and len(a) > 2 and a[0] == b[0]:
            # numbers of one list round against the largest of them
            if all(isinstance(x, list) and x and x[0] == 'n' for x in b[1:]):
                return num_difference(a[1:], b[1:], tol, path)
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, tol, f'{path}/{i}')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {a!r} and {b!r}'[:400]


def num_difference(a, b, tol, path):
    x = np.array([complex(*z[1:]) for z in a])
    y = np.array([complex(*z[1:]) for z in b])
    same = (x == y) | (np.isnan(x) & np.isnan(y))
    with np.errstate(all='ignore'):
        m = np.abs(x[np.isfinite(x)])
        scale = m.max() if m.size else 0
        ok = same | (np.abs(x-y) <= tol*(scale + 1e-3))
    if ok.all():
        return None
    i = int(np.argmin(ok))
    return f'{path}: number {i} is {x[i]} and {y[i]}'


def size(r):
    return 1 + sum(size(x) for x in r) if isinstance(r, list) else 1


def compare(mon, jobs, first, other, rule, hs):
    for i, j in enumerate(jobs):
        want = first[str(i)][0]
        mon.count('raised' if want[0] == 'raised' else 'succeeded')
        for got in other[str(i)]:
            mon.count('results compared')
            d = difference(want, got, TOL.get(j['op'], 1e-9))
            mon.check(d is None, rule,
                      lambda: f'{j["op"]} {json.dumps(j["a"])[:900]} {d}'
                              f' (hash seeds {hs})')
        mon.sig(j['op'], size(want) // 8, want[0])


def run(kind, idx, rng, mon, tier):
    base = mon.dir
    hs = [int(x) for x in rng.integers(1, 2**31, size=3)]
    mon.count('distinct hash seeds', len(set(hs)))
    if kind == 'handover':
        return handover(rng, mon, base, hs)
    names = list(OPS)
    w = np.array([OPS[n][1] for n in names], float)
    jobs = []
    for i in range(22):
        op = names[rng.choice(len(names), p=w/w.sum())]
        jobs.append(dict(op=op, a=OPS[op][0](rng, mon), id=i))
    mon.note_sample([j['op'] for j in jobs])
    # every process gets the expressions as text
    p1 = dict(dir=os.path.join(base, 'p1'), jobs=jobs)
    first = execute(mon, p1, hs[0], base)
    # another order, after unrelated calls
    seq = []
    for i in rng.permutation(len(jobs)):
        j = jobs[i]
        if rng.random() < .8:
            seq.append(dict(op=j['op'], a=similar(rng, j['a'])))
            mon.count('calls on similar arguments')
        seq.append(j)
    p2 = dict(dir=os.path.join(base, 'p2'), jobs=seq)
    second = execute(mon, p2, hs[1], os.path.join(base, 'elsewhere'),
                     dict(LC_ALL='C', LANG='C', TZ='Asia/Tokyo'))
    compare(mon, jobs, first, second,
            'results do not depend on the process or on earlier calls', hs[:2])
    # every call twice in a row, backwards
    seq = [j for j in jobs[::-1] for _ in range(2)]
    p3 = dict(dir=os.path.join(base, 'p 3'), jobs=seq)
    third = execute(mon, p3, hs[2], os.path.join(base, 'p 3'))
    compare(mon, jobs, first, third,
            'results do not change when calls are repeated', [hs[0], hs[2]])
    mon.count('programs')


def handover(rng, mon, base, hs):
    a = job_fform(rng, mon, linear=True, npc=2)
    a['chunk'] = bool(rng.integers(2))
    a['shared'] = os.path.join(base, 'shared')
    os.mkdir(a['shared'])
    store = [dict(op='store', a=a, id=0)]
    TOL['store'] = 1e-3
    logs = []
    for i, h in enumerate(hs):
        jobs = store if i == 0 else [dict(op='fetch', a=a, id=0)]
        logs.append(execute(mon, dict(
            dir=os.path.join(base, 'h%d' % i), jobs=jobs), h, base))
        mon.check(logs[-1]['0'][0][0] == 'ok', 'saving and loading succeed',
                  lambda: logs[-1]['0'][0])
        if i:
            compare(mon, store, logs[0], logs[i],
                    'files mean the same in the process which loads them',
                    [hs[0], h])
            mon.count('handovers')
