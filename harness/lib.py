"""Runner shared by all checks: cases, monitors, worker pool, replay, evidence.

A check module defines

    PROPERTY, RULE, ASSUMPTIONS, LEVEL
    plan(tier)            -> list of (kind, number of cases)
    run(kind, index, rng, mon, tier)
    MIN_EVENTS            -> {event: minimum} (per tier or common)

A case is identified by (property, seed, kind, index) and is fully determined by
it.  ``mon`` is the monitor: it counts the events observed, remembers which
distinct situations were seen, and raises Violation when an oracle disagrees.

Verdicts are three-valued: 0 held on everything observed, 1 violated, 2
inconclusive (a monitor was not reached often enough, a watchdog fired, the
machine ran out of memory or disk).
"""
import errno
import hashlib
import json
import multiprocessing
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
# exceptions raised by defects of sympy 1.8 itself on odd expressions
SYMPY_BUGS = ['keyfunc gave non-binary output']
NPROC = max(1, min(8, len(os.sched_getaffinity(0))))


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Monitor:
    def __init__(self):
        self.events = {}
        self.rules = {}
        self.sigs = set()
        self.sample = None
        self.notes = []

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def note_sample(self, text):
        if self.sample is None:
            self.sample = str(text)[:600]

    def check(self, cond, rule, detail=''):
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(f'{rule}: {detail}')

    def close(self, got, want, rule, rtol=1e-9, atol=1e-9, detail=''):
        self.rules[rule] = self.rules.get(rule, 0) + 1
        got = np.asarray(got)
        want = np.asarray(want)
        ok = got.shape == want.shape
        if ok:
            with np.errstate(all='ignore'):
                scale = np.max(np.abs(want)) if want.size else 0
                ok = bool(np.all(np.abs(got - want) <= atol + rtol * scale))
        if not ok:
            if callable(detail):
                detail = detail()
            raise Violation(
                f'{rule}: got {short(got)} want {short(want)} {detail}')

    def raises(self, f, rule, types=Exception, detail=''):
        """f() must raise; returns the exception."""
        self.rules[rule] = self.rules.get(rule, 0) + 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                res = f()
        except types as e:
            if isinstance(e, MemoryError) or (
                    isinstance(e, OSError) and e.errno in (
                        errno.ENOSPC, errno.ENOMEM, errno.EMFILE)):
                raise
            return e
        raise Violation(
            f'{rule}: no exception, returned {short(res)} {detail}')

    def dump(self):
        return dict(events=self.events, rules=self.rules,
                    sigs=sorted(self.sigs), sample=self.sample)


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:       # a broken repr must not hide the witness
        s = f'<{type(x).__name__}: repr failed: {e!r}>'
    return s if len(s) <= n else s[:n] + '...'


def make_rng(prop, seed, kind, idx):
    return np.random.default_rng(np.random.SeedSequence(
        [int(seed) & 0xffffffff, zlib.crc32(prop.encode()),
         zlib.crc32(kind.encode()), int(idx)]))


def run_case(mod, kind, idx, seed, tier, scratch):
    """Run one case in this process.  Returns a result dictionary."""
    mon = Monitor()
    rng = make_rng(mod.PROPERTY, seed, kind, idx)
    t = time.time()
    status, msg = 'ok', ''
    cwd = os.getcwd()
    d = tempfile.mkdtemp(dir=scratch, prefix='case')
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    mon.dir = os.path.join(d, 'work')
    os.mkdir(mon.dir)
    old_tmp = os.environ.get('TMPDIR')
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = None
    mon.tmp = tmp
    np.random.seed(rng.integers(2**31))
    random.seed(int(rng.integers(2**31)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(kind, idx, rng, mon, tier)
    except Skip:
        status = 'skip'
    except Violation as e:
        status, msg = 'violation', str(e)
    except (MemoryError, KeyboardInterrupt) as e:
        status, msg = 'inconclusive', repr(e)
    except Exception as e:
        tb = traceback.format_exc()
        if isinstance(e, OSError) and e.errno in (
                errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
                errno.EAGAIN):
            status, msg = 'inconclusive', tb
        elif any(s in str(e) for s in SYMPY_BUGS):
            status = 'skip'
        else:
            status = 'violation'
            msg = ('unexpected exception: %s: %s\n%s' % (
                type(e).__name__, short(str(e)), tb[-3000:]))
    finally:
        os.chdir(cwd)
        if old_tmp is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = old_tmp
        tempfile.tempdir = None
        shutil.rmtree(d, ignore_errors=True)
    res = mon.dump()
    res.update(kind=kind, idx=idx, status=status, msg=msg,
               wall=time.time() - t)
    return res


def _worker(conn, mod, seed, tier, scratch):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    # the code under test may write to stdout/stderr (compilers, warnings)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    log = os.open(os.path.join(scratch, f'stderr.{os.getpid()}'),
                  os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log, 2)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        try:
            res = run_case(mod, job[0], job[1], seed, tier, scratch)
        except BaseException as e:
            res = dict(kind=job[0], idx=job[1], status='inconclusive',
                       msg='harness: ' + traceback.format_exc(), wall=0,
                       events={}, rules={}, sigs=[], sample=None)
        conn.send(res)


class Pool:
    def __init__(self, mod, seed, tier, scratch, n):
        self.mod, self.seed, self.tier, self.scratch = mod, seed, tier, scratch
        self.ctx = multiprocessing.get_context('fork')
        self.n = n
        self.workers = {}

    def spawn(self):
        a, b = self.ctx.Pipe()
        others = [c for c in self.workers]
        p = self.ctx.Process(target=self._start, args=(b, a, others))
        p.start()
        b.close()
        self.workers[a] = dict(proc=p, job=None, t=0)
        return a

    def _start(self, b, a, others):
        a.close()
        for c in others:
            c.close()
        _worker(b, self.mod, self.seed, self.tier, self.scratch)

    def kill(self, conn):
        w = self.workers.pop(conn)
        p = w['proc']
        for sig in (signal.SIGKILL,):
            try:
                os.killpg(p.pid, sig)
            except (OSError, ProcessLookupError):
                pass
            try:
                os.kill(p.pid, sig)
            except (OSError, ProcessLookupError):
                pass
        p.join()
        conn.close()

    def run(self, jobs, watchdog, deadline, on_result):
        jobs = list(jobs)
        pos = 0
        for _ in range(min(self.n, len(jobs))):
            self.spawn()
        skipped = 0
        try:
            while True:
                for conn, w in list(self.workers.items()):
                    if w['job'] is None and pos < len(jobs):
                        if time.time() > deadline:
                            skipped += len(jobs) - pos
                            pos = len(jobs)
                            break
                        w['job'] = jobs[pos]
                        w['t'] = time.time()
                        pos += 1
                        try:
                            conn.send(w['job'])
                        except (BrokenPipeError, OSError):
                            pass
                busy = [c for c, w in self.workers.items()
                        if w['job'] is not None]
                if not busy:
                    break
                ready = select.select(busy, [], [], 1.0)[0]
                for conn in ready:
                    w = self.workers[conn]
                    try:
                        res = conn.recv()
                    except (EOFError, OSError):
                        w['proc'].join(10)
                        code = w['proc'].exitcode
                        job = w['job']
                        self.kill(conn)
                        bad = code not in (-signal.SIGKILL, -signal.SIGTERM)
                        on_result(dict(
                            kind=job[0], idx=job[1], wall=0, events={},
                            rules={}, sigs=[], sample=None,
                            status='violation' if bad else 'inconclusive',
                            msg=f'the process died with exit code {code}'))
                        if pos < len(jobs):
                            self.spawn()
                        continue
                    w['job'] = None
                    on_result(res)
                now = time.time()
                for conn, w in list(self.workers.items()):
                    if w['job'] is not None and now - w['t'] > watchdog:
                        job = w['job']
                        self.kill(conn)
                        on_result(dict(
                            kind=job[0], idx=job[1], wall=now - w['t'],
                            events={}, rules={}, sigs=[], sample=None,
                            status='inconclusive',
                            msg=f'watchdog: no answer after {watchdog} s'))
                        if pos < len(jobs):
                            self.spawn()
        finally:
            for conn in list(self.workers):
                self.kill(conn)
        return skipped


def load_known(prop):
    """Known findings: lines 'known: property=<id> kind=<kind> match=<text>'."""
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):].strip()
                match, _, text = rest.partition(' :: ')
                out.append((match[len('match='):], text))
    return out


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--kind')
    ap.add_argument('--idx', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop = mod.PROPERTY
    start = time.time()
    scratch = tempfile.mkdtemp(prefix=f'shgpy_{prop}_')
    os.chmod(scratch, 0o755)
    os.environ['TMPDIR'] = scratch
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.mkdir(os.environ['MPLCONFIGDIR'])
    tempfile.tempdir = None
    try:
        return _main(mod, a, prop, start, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, a, prop, start, scratch):
    os.chdir(scratch)
    tier = a.tier
    if a.replay:
        rp = json.load(open(os.path.join(VERIF, a.replay)
                            if not os.path.isabs(a.replay) else a.replay))
        a.seed, a.kind, a.idx, tier = (rp['seed'], rp['kind'], rp['idx'],
                                       rp['tier'])
    if hasattr(mod, 'prepare'):
        mod.prepare(tier, a.seed, scratch)
    if a.kind is not None:
        if a.idx is not None:
            jobs = [(a.kind, a.idx)]
        else:
            jobs = [(k, i) for k, n in mod.plan(tier) for i in range(n)
                    if k == a.kind]
    else:
        # interleave the kinds so that a deadline cuts them evenly
        plan = mod.plan(tier)
        jobs = []
        for k, n in plan:
            jobs += [((i + 0.5) / n, k, i) for i in range(n)]
        jobs.sort()
        jobs = [(k, i) for _, k, i in jobs]
        first = getattr(mod, 'FIRST', ())
        jobs.sort(key=lambda j: j[0] not in first)
    soft = getattr(mod, 'SOFT_S', {}).get(tier, 400 if tier == 'quick' else 3000)
    watchdog = getattr(mod, 'WATCHDOG_S', 300)
    nproc = getattr(mod, 'NPROC', NPROC)
    events, rules, sigs, samples = {}, {}, set(), {}
    stats = dict(ok=0, skip=0, violation=0, inconclusive=0)
    bykind = {}
    violations, inconclusive, slow = [], [], []

    def on_result(r):
        stats[r['status']] += 1
        bykind[r['kind']] = bykind.get(r['kind'], 0) + (r['status'] == 'ok')
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['rules'].items():
            rules[k] = rules.get(k, 0) + v
        sigs.update((r['kind'], s) for s in r['sigs'])
        if r['sample'] and r['kind'] not in samples:
            samples[r['kind']] = f"{r['kind']}#{r['idx']}: {r['sample']}"
        if r['status'] == 'violation':
            violations.append(r)
        if r['status'] == 'inconclusive':
            inconclusive.append(r)
        slow.append((r['wall'], r['kind'], r['idx']))
        if a.v:
            print(r['kind'], r['idx'], r['status'], round(r['wall'], 2),
                  r['msg'], r['events'], file=sys.stderr)

    pool = Pool(mod, a.seed, tier, scratch, nproc)
    skipped = pool.run(jobs, watchdog, start + soft, on_result)
    slow.sort(reverse=True)
    if hasattr(mod, 'finish') and a.kind is None:
        # verdicts over everything that was observed
        mon = Monitor()
        try:
            mod.finish(events, rules, mon)
        except Violation as e:
            violations.append(dict(kind='finish', idx=0, msg=str(e)))
    known = load_known(prop)
    new = []
    for v in violations:
        if not any(m and m in v['msg'] for m, _ in known):
            new.append(v)
    for m, text in known:
        if any(m in v['msg'] for v in violations):
            print(f'KNOWN-FINDING: property={prop} {text}')
    evaluations = stats['ok'] + stats['violation']
    short_events = {}
    if a.kind is None:
        mins = dict(getattr(mod, 'MIN_EVENTS', {}))
        for k, n in mod.plan(tier):
            if bykind.get(k, 0) < 1:
                short_events['cases of kind ' + k] = (0, 1)
        for k, n in mins.items():
            if events.get(k, 0) < n:
                short_events[k] = (events.get(k, 0), n)
    ev = dict(
        property=prop, tier='thorough' if tier == 'thorough' else 'quick',
        seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=[samples[k] for k in sorted(samples)][:12] or ['none'],
            cases_per_kind=bykind,
            skipped_out_of_domain=stats['skip'],
            cut_by_deadline=skipped,
            inconclusive=stats['inconclusive'],
            events_observed=dict(sorted(events.items())),
            oracle_evaluations=dict(sorted(rules.items())),
            slowest_case_s=round(slow[0][0], 2) if slow else 0,
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - start, 2),
        violations=len(new),
    )
    if a.kind is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fn = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(fn + '.new', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(fn + '.new', fn)
    print(f'{prop} tier={tier} seed={a.seed} cases={evaluations} '
          f'distinct={len(sigs)} skipped={stats["skip"]} '
          f'cut={skipped} inconclusive={stats["inconclusive"]} '
          f'oracle={sum(rules.values())} wall={time.time()-start:.1f}s '
          f'slowest={[(round(w, 1), k, i) for w, k, i in slow[:3]]}')
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = {}
        for v in new:
            rule = v['msg'].split(':')[0]
            key = (v['kind'], rule)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1 or len(seen) > 10:
                continue
            fn = os.path.join('replays', f"{prop}-{v['kind']}-{v['idx']}.json")
            with open(os.path.join(VERIF, fn), 'w') as f:
                json.dump(dict(property=prop, seed=a.seed, tier=tier,
                               kind=v['kind'], idx=v['idx'], msg=v['msg'],
                               how=f'cd /verif && ./check {prop} --replay {fn}'
                               ), f, indent=1)
            print(v['msg'][:1500])
            print(f'VIOLATION property={prop} replay={fn}')
        print('violations:', {f'{k[0]}/{k[1]}': n for k, n in seen.items()})
        return 1
    if short_events or (a.kind is None and inconclusive) or (
            a.kind is not None and inconclusive):
        for r in inconclusive[:5]:
            print('INCONCLUSIVE', r['kind'], r['idx'], r['msg'][-1500:])
        for k, (g, w) in short_events.items():
            print(f'INCONCLUSIVE only {g} of at least {w} events: {k}')
        return 2
    return 0
