"""C19 - saved cost functions always give what was last saved."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np
import sympy as sp
from shgpy import fDataContainer, fFormContainer
from shgpy import fformfit
from shgpy.fformfit import gen_cost_func, load_func
import fgen
import gen

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('random histories of generate, save, load, overwrite, copy, move, '
        'delete, truncate and compiler failure over a few paths, every '
        'function obtained being called again throughout; loads in new and '
        'forked processes; saving and loading by the fits; distinct by '
        'sequence of operations and kinds of path')
ASSUMPTIONS = ['files are not modified while a load is in progress (C24 covers '
               'concurrent saves)']
MIN_EVENTS = {'saves': 80, 'loads': 150, 'overwrites': 40,
              'loads after overwrite': 40, 'calls of older functions': 200,
              'failed generations': 40, 'failed loads': 30,
              'calls after deletion': 20, 'process loads': 20,
              'forked calls': 10, 'fit loads': 15, 'gradient loads': 3}


def plan(tier):
    q = tier == 'quick'
    return [('history', 70 if q else 1200), ('process', 8 if q else 100),
            ('fits', 12 if q else 150), ('jac', 5 if q else 60),
            ('overwrite', 16 if q else 200)]


CC_FAIL = '''#!/bin/sh
# fails at step $FAIL_STEP after optionally leaving some output
n=$(cat %(d)s/n 2>/dev/null || echo 0); n=$((n+1)); echo $n > %(d)s/n
if [ $n -eq %(step)d ]; then
    if [ %(partial)d -eq 1 ]; then
        out=; while [ $# -gt 0 ]; do [ "$1" = -o ] && out=$2; shift; done
        [ -n "$out" ] && printf 'garbage' > "$out"
    fi
    %(how)s
fi
exec gcc "$@"
'''


class Version:
    """A formula and data, the function they define and points to compare."""
    count = 0

    def __init__(self, rng, syms, M=None):
        Version.count += 1
        M = int(rng.integers(1, 3)) if M is None else M
        d = {}
        for pc in gen.subset_pcs(rng):
            a = np.array([sp.Integer(0)]*(2*M+1), dtype=object)
            for i in range(2*M+1):
                if rng.random() < .6:
                    a[i] = fgen.cexpr(rng, list(syms), 1)
            a[rng.integers(2*M+1)] += sum(
                (j+1)*s for j, s in enumerate(syms))
            d[pc] = a
        self.ff = fFormContainer(d, M=M)
        self.fd = fgen.random_fdat(rng, self.ff)
        self.chunk = bool(rng.integers(2))
        self.order = list(syms)
        self.pts = []
        for _ in range(2):
            env = gen.values(rng, syms, complex_ok=False)
            self.pts.append(np.array([env[s] for s in syms]))
        self.want = [fgen.cost(self.ff, self.fd, dict(zip(syms, map(float, x))))
                     for x in self.pts]
        self.bits = None

    def generate(self, **kw):
        return gen_cost_func(self.ff, self.fd, argument_list=self.order,
                             chunk=self.chunk, **kw)

    def agrees(self, mon, f, rule, what=''):
        for x, (w, mag) in zip(self.pts, self.want):
            got = f(x.copy())
            mon.check(abs(got-w) <= 1e-9*mag, rule,
                      lambda: f'{what}: got {got} want {w}')
        bits = [f(x) for x in self.pts]
        if self.bits is None:
            self.bits = bits
        mon.check(bits == self.bits, rule + ' (same bits)',
                  lambda: (bits, self.bits))


def symbols(rng):
    n = int(rng.integers(1, 4))
    return [sp.Symbol(s, real=True) for s in 'abc'[:n]]


class World:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.syms = symbols(rng)
        self.root = Path(mon.dir)
        os.makedirs(self.root/'sub dir'/'deep')
        os.makedirs(self.root/'cwd')
        os.chdir(self.root/'cwd')
        pool = ['a.so', 'SHGPY_COST_FUNC.so', 'noext', 'with space.so',
                'sub dir/b.so', 'sub dir/deep/ünï.so', 'cwd/c.so',
                'cwd/autofunc', '.hidden.so', 'a.so.bak', 'cwd/model.tar.gz']
        rng.shuffle(pool)
        self.paths = [self.root/p for p in pool[:int(rng.integers(1, 4))]]
        self.state = {}            # path -> Version | 'bad' | absent
        self.history = {}          # path -> number of versions seen
        self.handles = []          # (function, version, path)
        self.ops = []

    def spell(self, p):
        k = int(self.rng.integers(6))
        if k == 0:
            return p
        if k == 1:
            return str(p)
        if k == 2:
            return os.path.relpath(p)
        if k == 3:
            return Path(os.path.relpath(p))
        if k == 4:
            return os.path.join(os.path.dirname(p), '.', os.path.basename(p))
        return str(p.parent/'..'/p.parent.name/p.name)

    def save(self, p):
        v = Version(self.rng, self.syms)
        f = v.generate(save_filename=self.spell(p))
        v.agrees(self.mon, f, 'generated function')
        self.mon.check(p.is_file(), 'the file is written', p)
        if p in self.state:
            self.mon.count('overwrites')
        self.state[p] = v
        self.history[p] = self.history.get(p, 0) + 1
        self.handles.append((f, v, p))
        self.mon.count('saves')

    def load(self, p):
        mp = bool(self.rng.integers(2))
        arg = self.spell(p)
        if isinstance(self.state.get(p), Version):
            f = load_func(arg, multiprocessing=mp) if mp or \
                self.rng.random() < .5 else load_func(arg)
            v = self.state[p]
            v.agrees(self.mon, f, 'loaded function is the last saved',
                     (self.ops, str(arg), mp))
            self.mon.count('loads')
            if self.history.get(p, 0) > 1:
                self.mon.count('loads after overwrite')
            self.handles.append((f, v, p))
        else:
            # with the multiprocessing option it may fail at the first call
            self.mon.raises(
                lambda: load_func(arg, multiprocessing=mp)(np.zeros(3)),
                'loading a missing or invalid file raises',
                detail=(str(arg), mp))
            self.mon.count('failed loads')

    def fail(self, p):
        v = Version(self.rng, self.syms)
        d = self.root/f'fail{len(self.ops)}'
        os.mkdir(d)
        cc = fgen.script(str(d/'cc'), CC_FAIL % dict(
            d=d, step=int(self.rng.integers(1, 3)),
            partial=int(self.rng.integers(2)),
            how=['exit 1', 'kill -9 $$', 'exit 200'][self.rng.integers(3)]))
        if self.rng.random() < .15:
            cc = '/nonexistent/compiler'
        before = p.read_bytes() if p.exists() else None
        self.mon.raises(
            lambda: v.generate(save_filename=self.spell(p), method=cc),
            'a failing generation raises')
        after = p.read_bytes() if p.exists() else None
        self.mon.check(before == after,
                       'a failing generation leaves the saved function',
                       lambda: (self.ops, None if before is None
                                else len(before), None if after is None
                                else len(after)))
        self.mon.count('failed generations')

    def step(self):
        rng = self.rng
        p = self.paths[rng.integers(len(self.paths))]
        q = self.paths[rng.integers(len(self.paths))]
        op = rng.choice(['save', 'save', 'save', 'load', 'load', 'load',
                         'load', 'fail', 'delete', 'copy', 'move', 'garbage',
                         'nosave', 'missingdir', 'again'])
        self.ops.append((str(op), p.name))
        if op == 'save':
            self.save(p)
        elif op == 'load':
            self.load(p)
        elif op == 'fail':
            self.fail(p)
        elif op == 'delete':
            if p in self.state:
                p.unlink()
                del self.state[p]
        elif op == 'copy' and p in self.state and p != q:
            if rng.random() < .5:
                shutil.copy(p, q)
            else:               # keeps size and times alike
                shutil.copy2(p, q)
            self.state[q] = self.state[p]
            self.history[q] = self.history.get(q, 0) + 1
        elif op == 'move' and p in self.state and p != q:
            os.replace(p, q)
            self.state[q] = self.state.pop(p)
            self.history[q] = self.history.get(q, 0) + 1
        elif op == 'garbage':
            data = [b'', b'not a library', b'\x7fELF', None][rng.integers(4)]
            if data is None and isinstance(self.state.get(p), Version):
                data = p.read_bytes()[:100]
            if p.exists():
                p.unlink()
            p.write_bytes(data or b'')
            self.state[p] = 'bad'
            self.history[p] = self.history.get(p, 0) + 1
        elif op == 'nosave':
            v = Version(rng, self.syms)
            f = v.generate()
            v.agrees(self.mon, f, 'generated function')
            self.handles.append((f, v, None))
        elif op == 'missingdir':
            v = Version(rng, self.syms)
            self.mon.raises(
                lambda: v.generate(save_filename=self.root/'absent'/'x.so'),
                'saving into a missing directory raises')
        elif op == 'again' and isinstance(self.state.get(p), Version):
            # the same formula saved again
            v = self.state[p]
            f = v.generate(save_filename=self.spell(p))
            v.agrees(self.mon, f, 'generated function')
            self.handles.append((f, v, p))
        if rng.random() < .2:
            os.chdir(self.root if rng.random() < .5 else self.root/'cwd')
        # every function obtained so far keeps its behaviour
        for f, v, p in self.handles[-8:] + self.handles[:4]:
            v.agrees(self.mon, f, 'a function keeps its own behaviour',
                     self.ops)
            self.mon.count('calls of older functions')
            if p is not None and p not in self.state:
                self.mon.count('calls after deletion')


def history(rng, mon):
    w = World(rng, mon)
    w.save(w.paths[0])
    for _ in range(int(rng.integers(6, 16))):
        w.step()
    for p in w.paths:
        w.load(p)
    mon.sig(tuple(o for o, _ in w.ops))
    mon.note_sample(w.ops)


def overwrite(rng, mon):
    """The shortest trap: save, load, save again, load again, repeatedly."""
    syms = symbols(rng)
    p = Path(mon.dir)/'f.so'
    hs = []
    mode = int(rng.integers(3))
    mon.sig('overwrite', mode, len(syms))
    mon.note_sample(f'mode {mode}')
    for r in range(4):
        v = Version(rng, syms, M=1)
        if mode == 2 and p.exists():
            p.unlink()
        v.generate(save_filename=str(p))
        mon.count('saves')
        if r:
            mon.count('overwrites')
        if mode == 1:               # same times for every version
            os.utime(p, (1e9, 1e9))
        for mp in (False, True):
            hs.append((load_func(str(p), multiprocessing=mp), v))
            mon.count('loads')
            if r:
                mon.count('loads after overwrite')
        for f, u in hs:
            u.agrees(mon, f, 'each version is its own')
            mon.count('calls of older functions')


CHILD = '''
import sys, json, numpy as np
from shgpy.fformfit import load_func
out = []
for path, mp, pts in json.load(sys.stdin):
    f = load_func(path, multiprocessing=mp)
    out.append([float(f(np.array(x))) for x in pts])
print(json.dumps(out))
'''


def process(rng, mon):
    syms = symbols(rng)
    paths = [os.path.join(mon.dir, f'p{i}.so') for i in range(3)]
    cur, jobs = {}, []
    for r in range(6):
        p = paths[rng.integers(3)]
        v = Version(rng, syms)
        v.generate(save_filename=p)
        mon.count('saves')
        cur[p] = v
    for p, v in cur.items():
        for mp in (False, True):
            jobs.append((p, mp, [list(map(float, x)) for x in v.pts]))
    mon.sig('process', len(jobs))
    r = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps(jobs),
                       capture_output=True, text=True, cwd=mon.dir,
                       timeout=120)
    mon.check(r.returncode == 0, 'loading in a new process works',
              lambda: r.stderr[-1500:])
    for (p, mp, _), vals in zip(jobs, json.loads(r.stdout)):
        for got, (w, mag) in zip(vals, cur[p].want):
            mon.check(abs(got-w) <= 1e-9*mag,
                      'a new process sees the last saved', (got, w, mp))
        mon.count('process loads')
    # functions loaded here and called in forked children
    fs = [(load_func(p, multiprocessing=bool(i % 2)), v)
          for i, (p, v) in enumerate(list(cur.items())*2)]
    for f, v in fs:
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(b, json.dumps([float(f(x)) for x in v.pts]).encode())
            finally:
                os._exit(0)
        os.close(b)
        data = b''
        while True:
            c = os.read(a, 65536)
            if not c:
                break
            data += c
        os.close(a)
        os.waitpid(pid, 0)
        got = json.loads(data or b'[]')
        mon.check(len(got) == len(v.pts) and all(
            abs(g-w) <= 1e-9*m for g, (w, m) in zip(got, v.want)),
            'a forked process calls the same function',
            lambda: (got, v.want))
        mon.count('forked calls')


def simple_version(rng, n=2):
    syms = [sp.Symbol(s, real=True) for s in 'abc'[:n]]
    ff = fFormContainer({'PP': np.array(
        [syms[0], sp.Integer(1), syms[-1]*2], dtype=object),
        'SS': np.array([syms[0]*syms[-1], syms[-1] - 1, sp.Integer(0)],
                       dtype=object)}, M=1)
    fd = fDataContainer({k: rng.normal(size=3) + 1j*rng.normal(size=3)
                         for k in ff.get_keys()}, M=1)
    return ff, fd, syms


def fits(rng, mon):
    """The objective a fit reports comes from what is saved at its path."""
    p = os.path.join(mon.dir, 'cost.so')
    which = int(rng.integers(5))
    old_f = None
    for r in range(3):
        ff, fd, syms = simple_version(rng)
        saver = int(rng.integers(3))
        guess = {s: float(rng.normal()) for s in syms}
        bounds = {s: (-5, 5) for s in syms}
        if saver == 0:
            gen_cost_func(ff, fd, save_filename=p)
        elif saver == 1:
            fformfit.least_squares_fit(ff, fd, guess,
                                       save_cost_func_filename=p)
        else:
            fformfit.basinhopping_fit(ff, fd, guess, 1,
                                      save_cost_func_filename=Path(p),
                                      chunk_cost_func=bool(rng.integers(2)))
        mon.count('saves')
        # the data given with the load option play no part in the objective
        other = fgen.random_fdat(rng, ff)
        kw = dict(load_cost_func_filename=p if rng.random() < .5 else Path(p))
        if which == 0:
            ret = fformfit.least_squares_fit(ff, other, guess, **kw)
            fun = 2*ret.cost
        elif which == 1:
            ret = fformfit.least_squares_fit_with_bounds(
                ff, other, guess, bounds, **kw)
            fun = 2*ret.cost
        elif which == 2:
            ret = fformfit.basinhopping_fit(ff, other, guess, 1, **kw)
            fun = ret.fun
        elif which == 3:
            ret = fformfit.basinhopping_fit_with_bounds(
                ff, other, guess, bounds, 1, **kw)
            fun = ret.fun
        else:
            ret = fformfit.dual_annealing_fit_with_bounds(
                ff, other, guess, bounds, maxiter=20, **kw)
            fun = ret.fun
        want, mag = fgen.cost(ff, fd, dict(zip(
            ff.get_free_symbols(), map(float, ret.x))))
        mon.check(abs(fun - want) <= 1e-8*mag,
                  'a fit uses the last saved function',
                  lambda: f'fit {which} round {r}: {fun} want {want}')
        mon.count('fit loads')
        f = load_func(p)
        x = rng.normal(size=len(syms))
        want, mag = fgen.cost(ff, fd, dict(zip(ff.get_free_symbols(),
                                               map(float, x))))
        mon.check(abs(f(x)-want) <= 1e-9*mag,
                  'the file saved by a fit holds its cost function')
        if old_f is not None:
            w, mag = fgen.cost(*old_f[1:3], dict(zip(
                old_f[1].get_free_symbols(), map(float, x))))
            mon.check(abs(old_f[0](x)-w) <= 1e-9*mag,
                      'a function keeps its own behaviour')
        old_f = (f, ff, fd)
        mon.sig('fit', which, saver, r)


def jac(rng, mon):
    """Cost and gradient functions saved by one fit and loaded by another."""
    p = os.path.join(mon.dir, 'cost.so')
    g = os.path.join(mon.dir, 'grad')
    for r in range(2):
        ff, fd, syms = simple_version(rng, 3 - r)
        guess = {s: float(rng.normal()) for s in syms}
        saved = fformfit.basinhopping_fit_jac(
            ff, fd, guess, 1, save_cost_func_filename=p,
            grad_save_cost_func_filename_prefix=g if r else Path(g))
        other = fgen.random_fdat(rng, ff)
        bounds = {s: (-9, 9) for s in syms}
        ret = fformfit.basinhopping_fit_jac(
            ff, other, guess, 1, load_cost_func_filename=p,
            load_grad_cost_func_filename_prefix=g) if rng.random() < .5 else \
            fformfit.basinhopping_fit_jac_with_bounds(
                ff, other, guess, bounds, 1, load_cost_func_filename=Path(p),
                load_grad_cost_func_filename_prefix=Path(g))
        order = ff.get_free_symbols()
        want, mag = fgen.cost(ff, fd, dict(zip(order, map(float, ret.x))))
        mon.check(abs(ret.fun-want) <= 1e-8*mag,
                  'a gradient fit uses the last saved function',
                  lambda: (ret.fun, want))
        # each gradient file holds the derivative by its own parameter
        for i, s in enumerate(order):
            f = load_func(f'{g}{i}.so')
            x = rng.normal(size=len(order))
            h = 1e-5
            e = np.zeros(len(order))
            e[i] = h
            up = fgen.cost(ff, fd, dict(zip(order, map(float, x+e))))[0]
            dn = fgen.cost(ff, fd, dict(zip(order, map(float, x-e))))[0]
            mon.check(abs(f(x) - (up-dn)/(2*h)) <= 1e-4*(1 + mag + abs(f(x))),
                      'gradient file', lambda: (i, f(x), (up-dn)/(2*h)))
        mon.count('gradient loads')
        mon.sig('jac', r)


def run(kind, idx, rng, mon, tier):
    globals()[kind](rng, mon)
