"""C24 - code generation is clean under concurrency and leaves no debris.

Three monitors look at the code while it runs: an audit hook sees every
operation on files and processes that Python makes (and can make the k-th one
fail), a profile hook looks at the destination after every call of a C
function, and snapshots of the folders, the environment and the working
directory are compared afterwards.
"""
import errno
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time
from pathlib import Path

import numpy as np
from shgpy import fformfit
from shgpy.fformfit import (gen_cost_func, gen_model_func, load_func,
                            load_model_func)
import c19
import c20
import fgen
import gen

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('random formulas generated as cost, gradient and model functions by '
        'one thread under the hooks, by several threads and processes at '
        'once with injected delays, with readers loading what writers '
        'replace, and with a fault at every operation on files; distinct by '
        'kind of function, sequence of operations, interleaving and fault')
ASSUMPTIONS = [
    'the hooks see the operations made by Python, and after each of them what '
    'the compiler did',
    'a fault is one failing operation other than a deletion (deletions are '
    'best effort)',
    'at least one thread switch per operation is forced by short switch '
    'intervals and injected delays, not enumerated']
MIN_EVENTS = {'observed generations': 12, 'audited operations': 200,
              'looks at the destination': 5000,
              'faults injected': 30, 'interruptions': 8,
              'failed generations': 15,
              'concurrent generations': 40, 'concurrent calls': 400,
              'loads by readers': 100, 'replacements under readers': 20,
              'process generations': 8, 'folders compared': 150,
              'states of the destination seen': 20}
SOFT_S = {'quick': 300, 'thorough': 2400}
WATCHDOG_S = 400


def plan(tier):
    q = tier == 'quick'
    return [('trace', 16 if q else 250), ('fault', 8 if q else 120),
            ('failure', 16 if q else 200), ('threads', 8 if q else 120),
            ('readers', 6 if q else 100), ('processes', 3 if q else 40)]


# ---------------------------------------------------------------------------
# hooks

WRITES = {'os.mkdir', 'os.rename', 'os.link', 'os.symlink', 'os.truncate',
          'os.chmod', 'os.chown', 'os.mkfifo', 'os.utime', 'os.setxattr'}
DELETES = {'os.remove', 'os.rmdir'}
COMMANDS = {'os.system', 'subprocess.Popen', 'os.posix_spawn', 'os.exec'}
FORBIDDEN = {'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv'}


class Hook:
    def __init__(self):
        self.armed = None        # a Trace
        self.busy = threading.local()
        self.installed = False

    def install(self):
        if not self.installed:
            sys.addaudithook(self.audit)
            self.installed = True

    def audit(self, event, args):
        tr = self.armed
        if tr is None or getattr(self.busy, 'x', False):
            return
        if event == 'open':
            path, mode, flags = args
            write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if isinstance(path, int) or not write:
                return
        elif event not in WRITES and event not in DELETES and \
                event not in COMMANDS and event not in FORBIDDEN:
            return
        self.busy.x = True
        try:
            tr.audit(event, args)
        finally:
            self.busy.x = False


HOOK = Hook()


def absolute(path, dir_fd=-1):
    path = os.fsdecode(path)
    if isinstance(dir_fd, int) and dir_fd >= 0:
        path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
    # the folder resolved, the last component as it is
    d, b = os.path.split(os.path.abspath(path))
    return os.path.join(os.path.realpath(d), b)


class Fault(OSError):
    pass


class Interrupt(KeyboardInterrupt):
    """The user loses patience."""


class Trace:
    """Watches what one generation does to the files."""

    def __init__(self, mon, dests=(), fail_at=None, look=False, delay=None,
                 interrupt=False):
        self.mon = mon
        self.interrupt = interrupt
        self.dests = [absolute(d) for d in dests]
        self.parents = {os.path.dirname(d) for d in self.dests}
        self.before = {os.path.join(p, n) for p in self.parents
                       if os.path.isdir(p) for n in os.listdir(p)}
        self.tmp = os.path.realpath(mon.tmp)
        self.events = []
        self.problems = []
        self.fail_at = fail_at
        self.failed = None
        self.look = look
        self.delay = delay
        self.n = 0
        self.looks = 0
        self.states = {d: [] for d in self.dests}
        self.sig = {}
        if look:
            self.look_at()

    def paths(self, event, args):
        if event == 'open':
            return [absolute(args[0])]
        if event in ('os.mkdir',):
            return [absolute(args[0], args[2])]
        if event in DELETES:
            return [absolute(args[0], args[1])]
        if event in ('os.rename', 'os.link'):
            return [absolute(args[0], args[2]), absolute(args[1], args[3])]
        if event == 'os.symlink':
            return [absolute(args[1], args[2])]
        if isinstance(args[0], int):
            return [absolute(os.readlink(f'/proc/self/fd/{args[0]}'))]
        return [absolute(args[0])]

    def allowed(self, path):
        if path == '/dev/null' or path.startswith(self.tmp + os.sep):
            return True
        for d in self.dests:
            if path == d or path.startswith(d + os.sep):
                return True
        for p in self.parents:
            if path.startswith(p + os.sep):
                # something of its own, for the time being
                top = os.path.join(p, path[len(p)+1:].split(os.sep)[0])
                return top not in self.before
        return False

    def audit(self, event, args):
        if event in FORBIDDEN:
            self.problems.append((event, str(args)))
            return
        if event in COMMANDS:
            self.events.append((event, ''))
            names = [event]
        else:
            names = self.paths(event, args)
            self.events.append((event, os.path.basename(names[-1])
                                if self.allowed(names[-1]) and any(
                                    names[-1] == d for d in self.dests)
                                else ''))
            for p in names:
                if not self.allowed(p):
                    self.problems.append((event, p))
        if event not in DELETES:
            self.n += 1
            if self.fail_at is not None and self.n == self.fail_at:
                self.failed = (event, names)
                self.fail_at = None
                if self.interrupt:
                    raise Interrupt()
                raise Fault(errno.EDQUOT, 'injected fault', str(names))
        if self.delay:
            self.delay()

    # the destination, as a concurrent reader or the user after a crash of
    # the process at this point would find it
    def content(self, d):
        try:
            if os.path.isdir(d):
                return tuple((n, hashlib.sha256(
                    open(os.path.join(d, n), 'rb').read()).hexdigest())
                    for n in sorted(os.listdir(d)))
            with open(d, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def quick(self, d):
        try:
            st = os.stat(d)
        except OSError:
            return None
        s = (st.st_ino, st.st_size, st.st_mtime_ns, st.st_mode)
        if os.path.isdir(d):
            for n in sorted(os.listdir(d)):
                try:
                    t = os.stat(os.path.join(d, n))
                except OSError:
                    continue
                s += (n, t.st_ino, t.st_size, t.st_mtime_ns)
        return s

    def look_at(self):
        self.looks += 1
        for d in self.dests:
            s = self.quick(d)
            if d not in self.sig or s != self.sig[d]:
                self.sig[d] = s
                c = self.content(d)
                if not self.states[d] or self.states[d][-1] != c:
                    self.states[d].append(c)

    def profile(self, frame, event, arg):
        if event not in ('c_return', 'c_exception', 'return'):
            return
        name = frame.f_globals.get('__name__', '')
        if name.startswith(('sympy', 'numpy', 'mpmath')):
            return
        if getattr(HOOK.busy, 'x', False):
            return
        HOOK.busy.x = True
        try:
            self.look_at()
        finally:
            HOOK.busy.x = False

    def __enter__(self):
        HOOK.install()
        HOOK.armed = self
        if self.look:
            sys.setprofile(self.profile)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)
        HOOK.armed = None
        if self.look:
            self.look_at()

    def verdict(self):
        self.mon.count('audited operations', len(self.events))
        self.mon.count('looks at the destination', self.looks)
        self.mon.check(not self.problems,
                       'only its own temporary files and the destination are '
                       'written, and the process is left as it is',
                       lambda: self.problems[:5])


# ---------------------------------------------------------------------------
# folders

class Snapshot:
    """What must be the same afterwards, except for some paths."""

    def __init__(self, mon, roots):
        self.mon = mon
        self.roots = roots
        self.files = self.read()
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.umask = os.umask(0o22)
        os.umask(self.umask)
        self.path = list(sys.path)

    def read(self):
        out = {}
        for r in self.roots:
            for d, dirs, files in os.walk(r):
                for n in dirs + files:
                    p = os.path.join(d, n)
                    st = os.lstat(p)
                    if os.path.islink(p):
                        out[p] = ('link', os.readlink(p))
                    elif os.path.isdir(p):
                        out[p] = ('dir', st.st_mode)
                    else:
                        with open(p, 'rb') as f:
                            out[p] = ('file', st.st_mode, st.st_mtime_ns,
                                      hashlib.sha256(f.read()).hexdigest())
        return out

    def compare(self, except_for=()):
        now = self.read()
        skip = [os.path.abspath(p) for p in except_for]

        def mine(p):
            return any(p == s or p.startswith(s + os.sep) for s in skip)
        a = {p: v for p, v in self.files.items() if not mine(p)}
        b = {p: v for p, v in now.items() if not mine(p)}
        self.mon.check(a == b, 'no files are left, lost or changed', lambda: (
            'left', [p for p in b if p not in a][:6],
            'lost', [p for p in a if p not in b][:6],
            'changed', [p for p in a if p in b and a[p] != b[p]][:6]))
        self.mon.check(dict(os.environ) == self.env, 'environment')
        self.mon.check(os.getcwd() == self.cwd, 'working directory')
        um = os.umask(0o22)
        os.umask(um)
        self.mon.check(um == self.umask, 'umask', um)
        self.mon.check(sys.path == self.path, 'sys.path')
        self.mon.count('folders compared', len(self.roots))


def furnish(rng, mon):
    """Folders with files that nobody asked to touch."""
    root = Path(mon.dir)
    for sub in ['out', 'cwd', 'home']:
        d = root/sub
        d.mkdir(exist_ok=True)
        for n in ['SHGPY_COST_FUNC.c', 'SHGPY_COST_FUNC.h',
                  'SHGPY_COST_FUNC.o', 'SHGPY_COST_FUNC.so', 'autofunc.c',
                  'PP_0_real_0.so', 'PP_0_real_0.c', 'a.out', 'keep.so',
                  'tmp', 'model.bak', 'f.so.tmp', 'f.so~', '.f.so',
                  'f.c', 'f.o', 'f.h', 'grad.so', 'f.tmp', 'model.tmp']:
            if rng.random() < .6:
                (d/n).write_text(f'{sub} {n}')
        (d/'folder').mkdir(exist_ok=True)
        (d/'folder'/'file').write_text('x')
    if rng.random() < .5:
        (Path(mon.tmp)/'SHGPY_COST_FUNC.c').write_text('mine')
        (Path(mon.tmp)/'other').mkdir()
        (Path(mon.tmp)/'other'/'file').write_text('mine')
    os.chdir(root/'cwd')
    # one which the code under test would not come across by accident
    os.umask(int(rng.choice([0o022, 0o027, 0o077, 0o037, 0o026])))
    return root, [mon.dir, mon.tmp]


# ---------------------------------------------------------------------------
# what is generated

class Job:
    """A function to generate, where to save it and how to judge it."""

    def __init__(self, rng, mon, dest=None, what=None, syms=None, small=False):
        self.rng, self.mon = rng, mon
        self.what = what or ['cost', 'cost', 'model', 'jac', 'fit'][
            rng.integers(5)]
        self.dest = dest
        if self.what == 'model':
            self.ff = c20.formula(rng, 1, 1, None if syms is None else syms)
            n = len(self.ff.get_free_symbols())
            self.k = int(rng.choice([2, 3, 1000]))
            self.label = list(self.ff.get_keys())[0]
        elif self.what == 'cost':
            self.v = c19.Version(rng, c19.symbols(rng) if syms is None
                                 else syms)
            n = len(self.v.order)
        else:
            self.ff, self.fd, s = c19.simple_version(
                rng, 2 if syms is None else len(syms))
            n = len(s)
        if self.what == 'model':
            # the formula may rely on what the symbols assume
            ss = self.ff.get_free_symbols()
            self.pts = [np.array([float(v) for v in map(gen.values(
                rng, ss, complex_ok=False).get, ss)]) for _ in range(2)]
        else:
            self.pts = [rng.normal(size=n) for _ in range(2)]
        # None of the oracles below may touch the random generator: several
        # threads use them
        if self.what == 'model':
            ss = self.ff.get_free_symbols()
            self.want = [fgen.fform_values(self.ff, dict(zip(
                ss, map(float, x))))[self.label] for x in self.pts]
        elif self.what != 'cost':
            ss = self.ff.get_free_symbols()
            self.want = [fgen.cost(self.ff, self.fd, dict(zip(
                ss, map(float, x)))) for x in self.pts]

    def dests(self):
        if self.dest is None:
            return []
        if self.what == 'jac':
            n = len(self.ff.get_free_symbols())
            return [self.dest] + [f'{self.dest}_g{i}.so' for i in range(n)]
        return [self.dest]

    def generate(self, method='gcc'):
        """Generates and saves; returns the function or None."""
        if self.what == 'cost':
            return self.v.generate(save_filename=self.dest, method=method)
        if self.what == 'model':
            return gen_model_func(self.ff, self.dest, method=method,
                                  max_terms_per_file=self.k)
        guess = {s: .5 for s in self.ff.get_free_symbols()}
        if self.what == 'fit':
            fformfit.least_squares_fit(
                self.ff, self.fd, guess, save_cost_func_filename=self.dest,
                least_sq_kwargs=dict(max_nfev=2))
        else:
            fformfit.basinhopping_fit_jac(
                self.ff, self.fd, guess, 0,
                save_cost_func_filename=self.dest,
                grad_save_cost_func_filename_prefix=None if self.dest is None
                else f'{self.dest}_g')
        return None

    def load(self, dest=None, mp=False):
        dest = dest or self.dest
        if self.what == 'model':
            return load_model_func(self.ff, dest, multiprocessing=mp)
        return load_func(dest, multiprocessing=mp)

    def wrong(self, f):
        """None if f is this job's function, else what is wrong."""
        if f is None:
            return None
        if self.what == 'model':
            for x, w in zip(self.pts, self.want):
                scale = np.abs(w).max() + 1e-3
                for m in (-1, 0, 1):
                    got = complex(f(x, self.label, m))
                    if not abs(got-w[m+1]) <= 1e-9*scale:
                        return f'm={m} got {got} want {w[m+1]}'
            return None
        pts, want = (self.v.pts, self.v.want) if self.what == 'cost' else (
            self.pts, self.want)
        for x, (w, mag) in zip(pts, want):
            got = f(x)
            if not abs(got-w) <= 1e-9*mag:
                return f'got {got} want {w}'
        return None

    def good(self, f, rule):
        w = self.wrong(f)
        self.mon.check(w is None, rule, lambda: (self.what, w))


def pick_dest(rng, root, what):
    name = ['f.so', 'f', 'SHGPY_COST_FUNC', 'deep/f.so', 'a b.so', '.f'][
        rng.integers(6)] if what != 'model' else [
        'model', 'model.d', 'deep/model', 'mod el'][rng.integers(4)]
    d = root/'out'/name
    d.parent.mkdir(parents=True, exist_ok=True)
    return str(d)


def trace(rng, mon):
    """One generation, watched at every operation."""
    root, roots = furnish(rng, mon)
    what = ['cost', 'model', 'jac', 'fit'][rng.integers(4)]
    save = rng.random() < .85
    dest = pick_dest(rng, root, what) if save else None
    job = Job(rng, mon, dest, what)
    n = len(job.pts[0])
    older = bool(rng.integers(4)) and save
    if older:
        if what == 'model':
            old = job
            for _ in range(20):
                old = Job(rng, mon, dest, what)
                if old.ff.get_keys() == job.ff.get_keys():
                    break
        else:
            old = Job(rng, mon, dest, what)
        old.generate()
    rel = save and bool(rng.integers(2))
    if rel:
        job.dest = os.path.relpath(dest)
    snap = Snapshot(mon, roots)
    with Trace(mon, job.dests(), look=True) as tr:
        f = job.generate()
    tr.verdict()
    job.good(f, 'generated function')
    mon.count('observed generations')
    snap.compare([os.path.abspath(d) for d in job.dests()])
    for d in job.dests():
        states = tr.states[absolute(d)]
        mon.count('states of the destination seen', len(states))
        first, last = states[0], states[-1]
        # before, after, and in between at most nothing (a folder)
        odd = [s for s in states[1:-1] if s not in (first, last)
               and not (what == 'model' and s is None)]
        bad = []
        for s in odd:
            # some other way to write the same library
            if isinstance(s, bytes) and d == job.dest and what != 'model':
                p = os.path.join(mon.tmp, 'state.so')
                with open(p, 'wb') as fh:
                    fh.write(s)
                if not whole(p, job):
                    bad.append(len(s))
                os.remove(p)
            else:
                bad.append(s if s is None else len(s))
        mon.check(not bad, 'the destination is always complete',
                  lambda: (what, d, 'sizes', bad,
                           len(first or ''), len(last or '')))
        mon.check(last is not None, 'the destination is written', d)
    if save:
        job.good(job.load(), 'loaded function')
    snap.compare([os.path.abspath(d) for d in job.dests()])
    mon.sig('trace', what, save, older, rel, tuple(tr.events))
    mon.note_sample(f'{what} save={save} older={older}: {tr.events[:30]}')


def whole(path, job):
    """Is this a complete library of the job?  Asked in another process, as
    half a library can crash the one that loads it."""
    r = os.fork()
    if r == 0:
        code = 1
        try:
            code = 0 if job.wrong(job.load(path)) is None else 1
        finally:
            os._exit(code)
    return os.waitpid(r, 0)[1] == 0


def fault(rng, mon):
    """Every operation on files fails in its turn."""
    root, roots = furnish(rng, mon)
    what = ['cost', 'model', 'fit', 'jac'][int(rng.choice(
        [0, 0, 0, 1, 1, 2, 3]))]
    save = rng.random() < .9
    dest = pick_dest(rng, root, what) if save else None
    old = None
    if save and rng.random() < .7:
        old = Job(rng, mon, dest, what)
        old.generate()
    job = Job(rng, mon, dest, what)
    if what == 'model':
        job.k = 1000
    keep = {d: (d, shutil.copytree(d, os.path.join(mon.dir, 'keep'))
                if os.path.isdir(d) else open(d, 'rb').read())
            for d in job.dests() if os.path.exists(d)}
    snap = Snapshot(mon, roots)
    with Trace(mon, job.dests()) as tr:
        job.generate()
    total = tr.n
    ks = list(range(1, total+1))
    if what in ('model', 'jac') and total > 14:
        # the beginning, the end and some in the middle
        ks = ks[:3] + sorted(int(k) for k in rng.choice(
            ks[3:-6], size=5, replace=False)) + ks[-6:]
    for k in ks:
        # as it was before
        for d in job.dests():
            if os.path.isdir(d):
                shutil.rmtree(d)
            elif os.path.exists(d):
                os.remove(d)
            if d in keep:
                if os.path.isdir(str(keep[d][1])):
                    shutil.copytree(keep[d][1], d)
                else:
                    with open(d, 'wb') as fh:
                        fh.write(keep[d][1])
        impatient = rng.random() < .4
        with Trace(mon, job.dests(), fail_at=k, interrupt=impatient) as tr:
            err = f = None
            try:
                f = job.generate()
            except (Exception, Interrupt) as e:
                err = e
        tr.verdict()
        mon.count('faults injected', tr.failed is not None)
        mon.count('interruptions', impatient and tr.failed is not None)
        mon.check(not impatient or tr.failed is None or isinstance(
            err, Interrupt), 'an interruption is not swallowed',
            lambda: (err, tr.failed))
        mon.sig('fault', what, save, old is not None,
                None if tr.failed is None else (
                    tr.failed[0], tr.failed[1][-1] in tr.dests), k)
        snap.compare([os.path.abspath(d) for d in job.dests()])
        if err is None:
            job.good(f, 'a function which was generated in spite of a fault')
            if save:
                job.good(job.load(), 'a function which was saved in spite of '
                                     'a fault')
            continue
        mon.count('failed generations')
        for d in job.dests():
            if what == 'jac':
                # saved one after the other: each is old or new
                if d in keep:
                    mon.check(os.path.exists(d), 'a failing generation keeps '
                              'what was saved', lambda: (d, tr.failed))
                continue
            if not os.path.exists(d):
                mon.check(d not in keep, 'a failing generation keeps what '
                          'was saved', lambda: (d, tr.failed))
                continue
            ok = whole(d, job) or (old is not None and whole(d, old))
            mon.check(ok, 'what is saved after a failure is complete',
                      lambda: (what, d, tr.failed, err))
    mon.note_sample(f'{what} save={save} {total} operations, failed {ks}')


WRAP = '''#!/bin/sh
n=$(cat %(d)s/n 2>/dev/null || echo 0); n=$((n+1)); echo $n > %(d)s/n
out=; prev=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
if [ $n -eq %(step)d ]; then
    case %(how)s in
    fail) exit 1;;
    partial) printf garbage > "$out"; exit 1;;
    kill) kill -9 $$;;
    litter) d=$(dirname "$out"); mkdir "$d/more" "$d/more/still"
            echo x > "$d/more/still/file"; ln -s /nowhere "$d/link"
            echo x > "$d/.hidden"; exit 3;;
    nothing) exit 0;;
    after) gcc "$@"; exit 7;;
    esac
fi
exec gcc "$@"
'''


def failure(rng, mon):
    """Failing compilers and impossible destinations."""
    root, roots = furnish(rng, mon)
    what = ['cost', 'cost', 'model'][rng.integers(3)]
    dest = pick_dest(rng, root, what) if rng.random() < .9 else None
    old = None
    if dest and rng.random() < .6:
        old = Job(rng, mon, dest, what)
        old.generate()
    d = root/'cc'
    d.mkdir()
    before = Snapshot(mon, [str(root/'out'), str(root/'cwd'),
                            str(root/'home'), mon.tmp])
    for _ in range(3):
        job = Job(rng, mon, dest, what)
        how = str(rng.choice(['fail', 'partial', 'kill', 'litter', 'nothing',
                              'after', 'absent', 'nodir', 'isdir']))
        step = int(rng.integers(1, 3 if what == 'cost' else 7))
        method = fgen.script(str(d/f'cc{_}'), WRAP % dict(
            d=d, step=step, how=how))
        if (d/'n').exists():
            (d/'n').unlink()
        dests = job.dests()
        if how == 'absent':
            method = '/nonexistent/compiler'
        if how == 'nodir':
            job.dest = str(root/'out'/'no'/'such'/'f.so')
            method = 'gcc'
        if how == 'isdir' and what == 'cost':
            job.dest = str(root/'out'/'folder')
            method = 'gcc'
        if how == 'isdir' and what == 'model':
            # a file is in the place of the folder
            job.dest = str(root/'out'/'folder'/'file')
            method = 'gcc'
        with Trace(mon, job.dests()) as tr:
            mon.raises(lambda: job.generate(method=method),
                       'a failing generation raises', detail=(how, step))
        tr.verdict()
        before.compare()
        mon.count('failed generations')
        mon.sig('failure', what, how, step, old is not None)
        if old is not None:
            old.good(old.load(), 'a failing generation keeps what was saved')
    mon.note_sample(f'{what} {how} step {step}')


SLOW = '''#!/bin/sh
sleep 0.0%(ms)d
gcc "$@"; r=$?
sleep 0.0%(ms2)d
exit $r
'''


def slow_cc(rng, d, i):
    return fgen.script(os.path.join(d, f'slow{i}'), SLOW % dict(
        ms=rng.integers(0, 9), ms2=rng.integers(0, 9)))


def threads(rng, mon):
    """Threads generating, saving, loading and calling at the same time."""
    root, roots = furnish(rng, mon)
    n = int(rng.integers(2, 6))
    cc = root/'cc'
    cc.mkdir()
    jobs = []
    for t in range(n):
        mine = []
        for r in range(2):
            what = ['cost', 'cost', 'cost', 'model', 'jac', 'fit'][
                rng.integers(6)]
            save = rng.random() < .7
            dest = str(root/'out'/f't{t} {r}') if save else None
            job = Job(rng, mon, dest, what)
            job.method = slow_cc(rng, str(cc), f'{t}_{r}')
            mine.append(job)
        jobs.append(mine)
    early = [Job(rng, mon, str(root/'out'/'early'), 'cost')]
    early[0].early = early[0].generate()
    snap = Snapshot(mon, roots)
    log, errors = [], []
    start = threading.Barrier(n + 1)
    stop = threading.Event()

    def work(t):
        try:
            start.wait()
            for j in jobs[t]:
                log.append((t, 'start'))
                f = j.generate(method=j.method) if j.what in (
                    'cost', 'model') else j.generate()
                log.append((t, 'generated'))
                for k in range(5):
                    w = j.wrong(f)
                    if w:
                        errors.append((t, j.what, 'generated', w))
                    log.append((t, 'called'))
                if j.dest is not None:
                    g = j.load(mp=bool(t % 2))
                    log.append((t, 'loaded'))
                    for k in range(5):
                        w = j.wrong(g)
                        if w:
                            errors.append((t, j.what, 'loaded', w))
        except BaseException as e:
            errors.append((t, 'exception', repr(e)))

    def call():
        """Somebody who keeps calling an older function."""
        k = 0
        try:
            start.wait()
            while not stop.is_set():
                w = early[0].wrong(early[0].early)
                if w:
                    errors.append(('early', w))
                k += 1
                time.sleep(.0005)
        except BaseException as e:
            errors.append(('early', 'exception', repr(e)))
        mon.count('concurrent calls', k)

    seeds = [int(s) for s in rng.integers(2**31, size=64)]

    def delay():
        # a pause in the middle of the operations on files
        s = seeds[len(log) % 64] ^ threading.get_ident()
        if s % 7 == 0:
            time.sleep((s % 11)/1000)

    old = sys.getswitchinterval()
    ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    ts.append(threading.Thread(target=call))
    try:
        sys.setswitchinterval(1e-5)
        tr = Trace(mon, [d for m in jobs for j in m for d in j.dests()],
                   delay=delay)
        with tr:
            for t in ts:
                t.start()
            for t in ts[:-1]:
                t.join()
            stop.set()
            ts[-1].join()
    finally:
        sys.setswitchinterval(old)
        stop.set()
    tr.verdict()
    mon.check(not errors, 'each of several functions made at the same time '
              'is its own', lambda: errors[:4])
    mon.count('concurrent generations', 2*n)
    mon.count('concurrent calls', sum(1 for e in log if e[1] == 'called'))
    snap.compare([os.path.abspath(d) for m in jobs for j in m
                  for d in j.dests()])
    mon.sig('threads', tuple(log))
    mon.note_sample(f'{n} threads, {[j.what for m in jobs for j in m]}; '
                    f'{log[:20]}')


def readers(rng, mon):
    """Some threads and a process load what another keeps replacing (a cost
    function: the folder of a model function is not read at once)."""
    root, roots = furnish(rng, mon)
    dest = str(root/'out'/'f.so')
    nv = 3
    syms = c19.symbols(rng)
    versions = [Job(rng, mon, dest, 'cost', syms) for _ in range(nv)]
    versions[0].generate()
    snap = Snapshot(mon, roots)
    stop = threading.Event()
    errors, seen = [], []
    writes = 12
    pts = versions[0].v.pts
    # the same points for all
    table = [[fgen.cost(v.v.ff, v.v.fd, dict(zip(v.v.order, map(float, x))))
              for x in pts] for v in versions]

    def which(f):
        got = [f(x) for x in pts]
        for i, t in enumerate(table):
            if all(abs(g-w) <= 1e-9*mag for g, (w, mag) in zip(got, t)):
                return i
        return f'{got} is none of {table}'

    def read(mp):
        kept = []
        try:
            while not stop.is_set():
                f = versions[0].load(mp=mp)
                i = which(f)
                seen.append(i)
                if not isinstance(i, int):
                    errors.append(i)
                    return
                if len(kept) < 4:
                    kept.append((f, i))
                time.sleep(.001)
            for f, i in kept:
                if which(f) != i:
                    errors.append(('a loaded function changed', i, which(f)))
        except BaseException as e:
            errors.append(repr(e))

    # a reader in a process of its own
    pid = os.fork()
    if pid == 0:
        code = 5
        try:
            code = 0
            t0 = time.time()
            while time.time()-t0 < 120 and not os.path.exists(
                    os.path.join(mon.dir, 'stop')):
                if not isinstance(which(versions[0].load()), int):
                    code = 4
                    break
                time.sleep(.002)
        except BaseException:
            code = 5
        finally:
            os._exit(code)
    ts = [threading.Thread(target=read, args=(bool(k),)) for k in range(2)]
    old = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-5)
        for t in ts:
            t.start()
        for k in range(writes):
            v = versions[(k+1) % nv]
            v.generate()
            time.sleep(.004)
    finally:
        stop.set()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        open(os.path.join(mon.dir, 'stop'), 'w').close()
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        os.remove(os.path.join(mon.dir, 'stop'))
    mon.check(not errors, 'a concurrent reader sees a complete function',
              lambda: errors[:3])
    mon.check(code == 0, 'a concurrent reader in another process sees a '
              'complete function', code)
    mon.count('loads by readers', len(seen))
    mon.count('replacements under readers', writes)
    snap.compare([dest])
    order = []
    for s in seen:
        if not order or order[-1] != s:
            order.append(s)
    mon.sig('readers', tuple(order))
    mon.note_sample(f'{len(seen)} loads saw {order[:20]}')


CHILD = '''
import json, sys, os
sys.path[:0] = json.loads(sys.argv[1])
spec = json.loads(sys.argv[2])
import numpy as np, sympy as sp
from shgpy import fFormContainer, fDataContainer
from shgpy.fformfit import gen_cost_func, load_func
a, b = sp.symbols('a b', real=True)
out = []
for r, (p, q, c, save) in enumerate(spec):
    ff = fFormContainer({'PP': np.array([p*a, q*a*b + sp.I*b, sp.Integer(0)],
                                        dtype=object)}, M=1)
    fd = fDataContainer({'PP': np.array([1.0+0j, c, 2j])}, M=1)
    f = gen_cost_func(ff, fd, argument_list=[a, b], save_filename=save)
    out.append(f(np.array([.5, -1.5])))
    if save:
        out.append(load_func(save)(np.array([.5, -1.5])))
print(json.dumps(out))
'''


def processes(rng, mon):
    """New and forked processes generating at the same time."""
    root, roots = furnish(rng, mon)
    snap = Snapshot(mon, roots)
    x, y = .5, -1.5
    ps, want, dests = [], [], []
    env = dict(os.environ, HOME=str(root/'home'))
    n = 3
    for i in range(n):
        spec = []
        w = []
        for r in range(3):
            p, q, c = (float(np.round(z, 3)) for z in rng.normal(size=3))
            save = str(root/'out'/f'p{i} {r}.so') if rng.random() < .7 \
                else None
            spec.append([p, q, c, save])
            v = abs(p*x-1)**2 + abs(q*x*y + 1j*y - c)**2 + 4
            w += [v] + ([v] if save else [])
            dests += [save] if save else []
        want.append(w)
        ps.append(subprocess.Popen(
            [sys.executable, '-c', CHILD, json.dumps(
                [p for p in sys.path if p]), json.dumps(spec)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
            text=True))
    # forked ones meanwhile
    kids = []
    jobs = [Job(rng, mon, str(root/'out'/f'k{i}'), ['cost', 'model'][i % 2])
            for i in range(4)]
    for j in jobs:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                f = j.generate()
                code = 0 if j.wrong(f) is None and j.wrong(
                    j.load()) is None else 2
            finally:
                os._exit(code)
        kids.append(pid)
    codes = [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in kids]
    mon.check(codes == [0]*len(kids), 'forked processes generate their own '
              'functions', codes)
    mon.count('process generations', len(kids))
    for j in jobs:
        j.good(j.load(), 'a function saved by another process')
    for p, w in zip(ps, want):
        out, err = p.communicate(timeout=300)
        mon.check(p.returncode == 0, 'a process generates', lambda: err[-800:])
        got = json.loads(out.splitlines()[-1])
        mon.close(got, w, 'processes generate their own functions', 1e-9)
        mon.count('process generations', 3)
    snap.compare(dests + [j.dest for j in jobs])
    mon.sig('processes', tuple(map(tuple, want)))
    mon.note_sample(f'{n} new and {len(kids)} forked processes')


def run(kind, idx, rng, mon, tier):
    globals()[kind](rng, mon)
