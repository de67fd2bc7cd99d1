"""C20 - generated and reloaded model functions evaluate the formula."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np
import sympy as sp
from shgpy import fFormContainer
from shgpy.fformfit import gen_model_func, load_model_func
import fgen
import gen

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('random Fourier formulas; model functions generated with every number '
        'of terms per file, saved, overwritten by other formulas, loaded here '
        'and in new processes; a fault injected at every compiler step; every '
        'pattern of missing or damaged files; distinct by formula structure, '
        'terms per file and fault')
ASSUMPTIONS = [
    'parameters are real numbers at which the formula is finite',
    'a file is missing when its coefficient has a gap or no file at all; '
    'which files a coefficient needs is known from the folder just written']
MIN_EVENTS = {'evaluations': 600, 'loaded evaluations': 300,
              'several files per coefficient': 3, 'overwrites': 10,
              'functions loaded after overwrite': 10, 'faults': 20,
              'missing files': 40, 'process evaluations': 20,
              'generation without saving': 1, 'large M': 1,
              'more than ten files per coefficient': 1}
SOFT_S = {'quick': 300, 'thorough': 3000}


def plan(tier):
    q = tier == 'quick'
    return [('value', 36 if q else 400), ('overwrite', 8 if q else 120),
            ('fault', 16 if q else 200), ('missing', 12 if q else 150),
            ('process', 4 if q else 40)]


def terms(rng, syms, n):
    e = sp.Integer(0)
    for j in range(n):
        s = syms[rng.integers(len(syms))]
        t = syms[rng.integers(len(syms))]
        e += (sp.Float(float(np.round(rng.normal(), 3)))*s**int(
            rng.integers(1, 4))*[1, t, sp.cos(t), sp.I][rng.integers(4)])
    return e


def formula(rng, M=None, npc=None, nsyms=None):
    n = int(rng.integers(1, 4)) if nsyms is None else nsyms
    syms = gen.symbols(rng, n, real=[True, None][rng.integers(2)],
                       names=gen.NAMES)
    M = 1 if M is None else M
    npc = int(rng.integers(1, 3)) if npc is None else npc
    for _ in range(20):
        d = {}
        for pc in fgen.keys(rng, npc):
            row = []
            for i in range(2*M+1):
                k = int(rng.integers(6))
                row.append([
                    lambda: sp.Integer(0), lambda: gen.num(rng, True),
                    lambda: fgen.cexpr(rng, syms, 2),
                    lambda: terms(rng, syms, int(rng.integers(2, [
                        12, 12, 30][rng.integers(3)]))),
                    lambda: syms[0],
                    lambda: terms(rng, syms, 3) + sp.I*terms(rng, syms, 4),
                ][k]())
            d[pc] = np.array(row + [None], dtype=object)[:-1]
        ff = fFormContainer(d, M=M)
        if ff.get_free_symbols():
            return ff
    raise RuntimeError('no formula')


def arr(rng, x):
    k = int(rng.integers(4))
    if k == 0:
        return np.array(x)
    if k == 1:
        b = np.zeros(2*len(x))
        b[::2] = x
        return b[::2]
    if k == 2:
        return np.array(x, dtype=np.longdouble)
    b = np.array(x)
    b.flags.writeable = False
    return b


def compare(mon, ff, model, rng, rule, n=2, event='evaluations'):
    syms = ff.get_free_symbols()
    M = ff.get_M()
    for i in range(n):
        env = gen.values(rng, syms, complex_ok=False)
        for s in syms:
            if s.name == 'tiny':
                env[s] = float(rng.normal())*1e-13
                mon.count('tiny parameters')
        if i == n-1 and rng.random() < .5:
            env = {s: float(rng.integers(1, 4)) for s in syms}
            x = np.array([env[s] for s in syms], dtype=int)
        else:
            x = arr(rng, [env[s] for s in syms])
        want = fgen.fform_values(ff, env)
        for pc in ff.get_keys():
            scale = np.abs(want[pc]).max() + 1e-3
            for m in range(-M, M+1):
                got = complex(model(x, pc, m))
                mon.check(abs(got - want[pc][m+M]) <= 1e-9*scale, rule,
                          lambda: f'{pc} m={m}: got {got} want '
                                  f'{want[pc][m+M]} for {ff.get_pc(pc)[m+M]}'
                                  f' at {env}')
                mon.count(event)


def options(rng):
    k = int(rng.integers(6))
    return [dict(), dict(max_terms_per_file=1), dict(max_terms_per_file=2),
            dict(max_terms_per_file=3), dict(max_terms_per_file=1000),
            dict(max_terms_per_file=int(rng.integers(1, 8)))][k]


def folder(rng, mon, name='model'):
    f = os.path.join(mon.dir, name)
    k = int(rng.integers(4))
    os.chdir(mon.dir)
    return f, [f, Path(f), name, './' + name][k]


def value(rng, mon, idx=0):
    M = int(rng.choice([1, 1, 1, 2, 3]))
    if idx % 12 == 5:
        M = int(rng.integers(10, 13))
        mon.count('large M')
    ff = formula(rng, M, 1 if M > 1 else None)
    if rng.random() < .35:      # a parameter with values of 1e-13
        d = {k: np.array(list(v), dtype=object) for k, v in ff.get_items()}
        d[ff.get_keys()[-1]][int(rng.integers(2*M+1))] += (
            sp.Float(1.5e13)*[1, sp.I][rng.integers(2)]
            * sp.Symbol('tiny', real=True))
        ff = fFormContainer(d, M=M)
    opt = options(rng)
    many = idx % 12 == 9
    if many:
        # more files than can be told apart by one digit
        d = {k: np.array(list(v), dtype=object) for k, v in ff.get_items()}
        x = ff.get_free_symbols()[0]
        d[ff.get_keys()[0]][int(rng.integers(2*M+1))] = sum(
            sp.Float(round(float(rng.normal()), 3))*sp.cos(x)**int(a)
            * [1, sp.I, 1 + sp.I][rng.integers(3)]
            * x**int(rng.integers(2)) for a in range(8, 34))
        ff = fFormContainer(d, M=M)
        opt = dict(max_terms_per_file=1)
    if M > 9:
        # sums without a file per term, for the time it takes
        opt = [dict(), dict(max_terms_per_file=1000)][rng.integers(2)]
    mon.sig('value', M, str(opt), str(ff.get_items())[:200])
    mon.note_sample(f'{opt} {str(dict(ff.get_items()))[:300]}')
    if rng.random() < .3 and not many:
        model = gen_model_func(ff, None, **opt)
        mon.count('generation without saving')
        compare(mon, ff, model, rng, 'generated model function', 3)
        mon.check(os.listdir(mon.dir) == [], 'nothing is saved')
        return
    real, spell = folder(rng, mon)
    if rng.random() < .5:
        os.mkdir(real)          # the folder may exist
    model = gen_model_func(ff, spell, **opt)
    compare(mon, ff, model, rng, 'generated model function')
    mp = bool(rng.integers(2))
    loaded = load_model_func(ff, spell, multiprocessing=mp)
    compare(mon, ff, loaded, rng, 'loaded model function', 3,
            'loaded evaluations')
    if any(f.endswith('_10.so') for f in os.listdir(real)):
        mon.count('more than ten files per coefficient')
    if len(os.listdir(real)) > 2*len(ff.get_keys())*(2*M+1):
        mon.count('several files per coefficient')
    shutil.rmtree(real)
    if not mp:
        compare(mon, ff, loaded, rng, 'loaded function after deletion', 1)
    compare(mon, ff, model, rng, 'generated function after deletion', 1)


def overwrite(rng, mon):
    """Later saves replace all of the earlier ones, fewer terms after more."""
    real, spell = folder(rng, mon)
    held = []
    n = int(rng.integers(1, 4))
    for r in range(3):
        ff = formula(rng, 1, 1 + r % 2, n)
        opt = [dict(max_terms_per_file=1), dict(), dict(
            max_terms_per_file=2)][int(rng.integers(3))]
        model = gen_model_func(ff, spell, **opt)
        loaded = load_model_func(ff, spell, multiprocessing=bool(
            rng.integers(2)))
        if r:
            mon.count('overwrites')
            mon.count('functions loaded after overwrite')
        compare(mon, ff, loaded, rng, 'loaded function is the last saved', 2,
                'loaded evaluations')
        held += [(ff, model), (ff, loaded)]
        for g, f in held:
            compare(mon, g, f, rng, 'a function keeps its own behaviour', 1)
        mon.sig('overwrite', r, str(opt), str(ff.get_items())[:200])
    mon.note_sample(f'three formulas of {n} symbols in one folder')


CC = '''#!/bin/sh
echo x >> %(d)s/calls
n=$(wc -l < %(d)s/calls)
if [ $n -eq %(step)d ]; then
    out=; for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
    %(how)s
fi
exec gcc "$@"
'''
HOW = ['exit 1', 'kill -9 $$', '[ -n "$out" ] && echo junk > "$out"; exit 3',
       'exec gcc "$@" -nosuchoption', 'kill -TERM $$']


def fault(idx, rng, mon):
    """One compiler call fails; the step is swept over the whole generation."""
    real, spell = folder(rng, mon)
    old = formula(rng, 1, 1)
    keep = rng.random() < .7
    if keep:
        gen_model_func(old, spell)
        before = {f: open(os.path.join(real, f), 'rb').read()
                  for f in os.listdir(real)}
    ff = formula(rng, 1, 1)
    opt = options(rng)
    d = os.path.join(mon.dir, 'cc')
    os.mkdir(d)
    cc = fgen.script(os.path.join(d, 'count'), CC % dict(
        d=d, step=0, how=':'))
    gen_model_func(ff, None, method=cc, **opt)
    steps = len(open(os.path.join(d, 'calls')).readlines())
    mon.check(steps > 0, 'the compiler given is used')
    todo = {1, 2, steps, steps-1, int(rng.integers(1, steps+1))}
    for step in sorted(s for s in todo if s >= 1):
        os.unlink(os.path.join(d, 'calls'))
        how = HOW[rng.integers(len(HOW))]
        cc = fgen.script(os.path.join(d, f'cc{step}'), CC % dict(
            d=d, step=step, how=how))
        mon.raises(lambda: gen_model_func(ff, spell, method=cc, **opt),
                   'a failing generation raises',
                   detail=f'step {step} of {steps}: {how}')
        mon.count('faults')
        mon.sig('fault', steps, step, how, keep)
        if keep:
            after = {f: open(os.path.join(real, f), 'rb').read()
                     for f in os.listdir(real)}
            same = after == before
            if same:
                compare(mon, old, load_model_func(old, spell), rng,
                        'the earlier function survives', 1)
            else:
                # then it must not load as if it were complete
                mon.raises(lambda: load_model_func(ff, spell)(
                    np.ones(len(ff.get_free_symbols())),
                    ff.get_keys()[0], 0), 'an incomplete folder is refused')
        else:
            mon.raises(lambda: [load_model_func(ff, spell)(
                np.ones(len(ff.get_free_symbols())), pc, m)
                for pc in ff.get_keys() for m in (-1, 0, 1)],
                'an incomplete folder is refused')
    mon.raises(lambda: gen_model_func(ff, None, method='/absent/cc', **opt),
               'an absent compiler raises')
    mon.note_sample(f'{steps} steps, earlier function kept: {keep}')
    # the generator recovers
    gen_model_func(ff, spell, **opt)
    compare(mon, ff, load_model_func(ff, spell), rng,
            'generation after failures', 1)


def missing(rng, mon):
    """Files disappear; only files of the coefficient at hand are judged."""
    real, spell = folder(rng, mon)
    ff = formula(rng, 1, 1)
    opt = [dict(max_terms_per_file=1), dict(max_terms_per_file=2),
           dict()][rng.integers(3)]
    gen_model_func(ff, spell, **opt)
    files = sorted(os.listdir(real))
    syms = ff.get_free_symbols()
    mon.sig('missing', len(files), str(opt))
    mon.note_sample(files)
    # which files belong to one coefficient: the highest chunk of a group may
    # only be recognised as missing when it is the only one
    groups = {}
    for f in files:
        groups.setdefault(f.rsplit('_', 1)[0], []).append(f)
    x = np.ones(len(syms))

    def use(mp):
        model = load_model_func(ff, spell, multiprocessing=mp)
        return [model(x, pc, m) for pc in ff.get_keys() for m in (-1, 0, 1)]

    def broken(what):
        for mp in (False, True):
            mon.raises(lambda: use(mp), 'missing parts are refused',
                       detail=what)
            mon.count('missing files')

    order = list(groups)
    rng.shuffle(order)
    for g in order[:8]:
        names = sorted(groups[g], key=lambda f: int(
            f.rsplit('_', 1)[1].split('.')[0]))
        pats = [names, names[:1]]
        if len(names) > 2:
            pats.append([names[int(rng.integers(len(names)-1))]])
        for pat in pats:
            for f in pat:
                os.rename(os.path.join(real, f), os.path.join(mon.dir, f))
            broken(f'{pat} of {names}')
            for f in pat:
                os.rename(os.path.join(mon.dir, f), os.path.join(real, f))
    # damaged instead of missing
    f = files[rng.integers(len(files))]
    data = open(os.path.join(real, f), 'rb').read()
    for junk in (b'', b'junk', data[:200]):
        os.unlink(os.path.join(real, f))
        with open(os.path.join(real, f), 'wb') as fh:
            fh.write(junk)
        broken(f'{f} damaged')
    os.unlink(os.path.join(real, f))
    with open(os.path.join(real, f), 'wb') as fh:
        fh.write(data)
    compare(mon, ff, load_model_func(ff, spell), rng, 'restored folder', 1,
            'loaded evaluations')
    shutil.rmtree(real)
    broken('the folder')
    os.mkdir(real)
    broken('all files')


CHILD = '''
import sys, json, pickle, numpy as np, shgpy
from shgpy.fformfit import load_model_func
job = json.load(sys.stdin)
ff = shgpy.load_fform(job['fform'])
M = ff.get_M()
f = load_model_func(ff, job['folder'], multiprocessing=job['mp'])
out = []
for x in job['pts']:
    for pc in ff.get_keys():
        for m in range(-M, M+1):
            v = complex(f(np.array(x), pc, m))
            out.append([v.real, v.imag])
print(json.dumps(out))
'''


def process(rng, mon):
    import shgpy
    real, spell = folder(rng, mon)
    ff = formula(rng, 1, 2)
    if rng.random() < .5:
        gen_model_func(formula(rng, 1, 1), spell, max_terms_per_file=1)
    gen_model_func(ff, spell, **options(rng))
    fn = os.path.join(mon.dir, 'ff.p')
    shgpy.save_fform(ff, fn)
    syms = ff.get_free_symbols()
    pts, want = [], []
    for _ in range(2):
        env = gen.values(rng, syms, complex_ok=False)
        pts.append([float(env[s]) for s in syms])
        v = fgen.fform_values(ff, env)
        for pc in ff.get_keys():
            want += list(v[pc])
    mon.sig('process', str(ff.get_items())[:300])
    for mp in (False, True):
        r = subprocess.run([sys.executable, '-c', CHILD], text=True,
                           capture_output=True, cwd=mon.dir, timeout=120,
                           input=json.dumps(dict(fform=fn, folder=real,
                                                 mp=mp, pts=pts)))
        mon.check(r.returncode == 0, 'loading in a new process works',
                  lambda: r.stderr[-1500:])
        got = np.array([complex(*v) for v in json.loads(r.stdout)])
        mon.close(got, np.array(want), 'a new process evaluates the formula')
        mon.count('process evaluations', len(got))


def run(kind, idx, rng, mon, tier):
    if kind == 'fault':
        fault(idx, rng, mon)
    elif kind == 'value':
        value(rng, mon, idx)
    else:
        globals()[kind](rng, mon)
