"""C18 - the compiled cost function is the sum of squared deviations."""
import os
import subprocess
import threading

import numpy as np
import sympy as sp
from shgpy import fDataContainer, fFormContainer
from shgpy.fformfit import gen_cost_func
import fgen
import gen

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('random Fourier formulas and data, cost functions generated with and '
        'without chunking and in every argument order, called on every array '
        'layout, on vectors between guard pages, from several threads, and as '
        'code instrumented by AddressSanitizer and UndefinedBehaviorSanitizer; '
        'distinct by structure of the formula, options and layouts')
ASSUMPTIONS = ['parameters are real numbers at which the formula is finite',
               'tolerance 1e-9 of the sum of (|formula|+|data|)^2']
MIN_EVENTS = {'evaluations': 800, 'chunked': 30, 'whole': 30,
              'argument order given': 30, 'guarded calls': 200,
              'sanitized calls': 20, 'thread calls': 400,
              'complex data': 20, 'exact parameters': 30}
RTOL = 1e-9


def plan(tier):
    q = tier == 'quick'
    return [('value', 160 if q else 2500), ('exact', 40 if q else 500),
            ('memory', 40 if q else 500), ('sanitizer', 24 if q else 300),
            ('threads', 12 if q else 150), ('nested', 16 if q else 200)]


def names(rng):
    pool = list(gen.NAMES) + list(gen.ODD_NAMES) + ['xs', 'i', 'autofunc',
                                                    'double', 'M_PI', 'conj']
    rng.shuffle(pool)
    return pool


def setup(rng, mon, n=None, M=None, real=None):
    many = n is None and M is None and rng.random() < .12
    if many:    # numbered names, whose alphabetical order is not their own
        n, M = int(rng.integers(10, 15)), int(rng.integers(3, 6))
        syms = gen.symbols(rng, n, real=real,
                           names=['a%d' % i for i in range(1, 17)])
        mon.count('ten or more parameters')
    else:
        n = int(rng.integers(1, 6)) if n is None else n
        syms = gen.symbols(rng, n, real=real, names=names(rng))
    for _ in range(20):
        ff = fgen.random_fform(rng, syms, M)
        if ff.get_free_symbols():
            break
    used = ff.get_free_symbols()
    fd = fgen.random_fdat(rng, ff)
    args, how = None, 'sorted'
    order = list(used)
    if rng.random() < .5:
        order = list(used)
        rng.shuffle(order)
        how = 'permuted'
        if rng.random() < .4:
            order.insert(int(rng.integers(len(order)+1)),
                         sp.Symbol('unused_', real=True))
            how = 'superset'
        args = list(order)
        if rng.random() < .3:
            args = tuple(args)
        mon.count('argument order given')
    chunk = bool(rng.integers(2))
    mon.count('chunked' if chunk else 'whole')
    mon.sig(ff.get_M(), len(ff.get_keys()), how, chunk, len(order),
            tuple(sorted({type(e).__name__ for k in ff.get_keys()
                          for e in ff.get_pc(k)})))
    mon.note_sample(lambda: 0) if False else mon.note_sample(
        f'{str(dict(ff.get_items()))[:300]} args {order} chunk {chunk}')
    return ff, fd, args, order, chunk


def generate(ff, fd, args, chunk, rng, **kw):
    if args is not None:
        kw['argument_list'] = args
    if chunk or rng.random() < .5:
        kw['chunk'] = chunk
    return gen_cost_func(ff, fd, **kw)


def point(rng, order):
    v = gen.values(rng, order, complex_ok=False)
    return np.array([v[s] for s in order])


def expect(mon, f, x, arg, ff, fd, order, what):
    want, mag = fgen.cost(ff, fd, dict(zip(order, map(float, x))))
    got = f(arg)
    mon.check(np.ndim(got) == 0 and isinstance(float(got), float),
              'a scalar', type(got))
    mon.check(abs(got-want) <= RTOL*mag + 1e-300, what,
              lambda: f'got {got} want {want} at {dict(zip(order, x))} of '
                      f'{str(dict(ff.get_items()))[:600]}')
    mon.check(got >= -1e-18*mag, 'non-negative', lambda: (got, mag))
    mon.count('evaluations')
    return want


def value(rng, mon):
    ff, fd, args, order, chunk = setup(rng, mon)
    if rng.random() < .25:      # one coefficient far larger than the rest
        fd.scale_fdata(float(10.**rng.integers(-6, 7)))
    f = generate(ff, fd, args, chunk, rng)
    if any(np.abs(fd.get_pc(k).imag).max() > 0 for k in fd.get_keys()):
        mon.count('complex data')
    for _ in range(6):
        x = point(rng, order)
        name, arr = fgen.layout(rng, x, mon)
        before = np.array(arr, copy=True)
        expect(mon, f, x, arr, ff, fd, order, 'sum of squared deviations')
        mon.check(np.array_equal(before, arr), 'the array is left alone', name)
    # integer, boolean and single precision vectors
    for typ in (int, np.int32, np.uint8, np.float32, np.float16, bool):
        v = point(rng, order)
        x = np.abs(v).astype(typ)
        expect(mon, f, x.astype(float), x, ff, fd, order,
               'sum of squared deviations of ' + np.dtype(typ).name)
        mon.count('narrow dtype')


def exact(rng, mon):
    ff, _, args, order, chunk = setup(rng, mon)
    x = point(rng, order)
    vals = fgen.fform_values(ff, dict(zip(order, map(float, x))))
    fd = fDataContainer({k: v.astype(complex) for k, v in vals.items()},
                        M=ff.get_M())
    f = generate(ff, fd, args, chunk, rng)
    mag = sum(np.sum(np.abs(v)**2) for v in vals.values())
    got = f(x)
    mon.check(abs(got) <= 1e-18*mag + 1e-300, 'zero at exact parameters',
              lambda: (got, mag, str(dict(ff.get_items()))[:500]))
    mon.count('exact parameters')
    # one deviating coefficient is seen with its own weight
    k = list(vals)[rng.integers(len(vals))]
    i = int(rng.integers(2*ff.get_M()+1))
    d = complex(rng.normal(), rng.normal())
    pert = {q: v.astype(complex).copy() for q, v in vals.items()}
    pert[k][i] += d
    g = generate(ff, fDataContainer(pert, M=ff.get_M()), args, not chunk, rng)
    mon.check(abs(g(x) - abs(d)**2) <= 1e-9*(abs(d)**2) + 1e-12*mag,
              'one deviation counts once', lambda: (k, i, g(x), abs(d)**2))
    mon.count('single deviations')


def memory(rng, mon):
    """A stray access faults: the worker dies, which is a violation."""
    ff, fd, args, order, chunk = setup(rng, mon)
    f = generate(ff, fd, args, chunk, rng)
    for end in (True, False):
        gv = fgen.Guarded(len(order), end)
        for _ in range(4):
            x = point(rng, order)
            expect(mon, f, x, gv.set(x), ff, fd, order,
                   'value on a guarded vector')
            mon.check(np.array_equal(gv.arr, x), 'no write to the vector')
            mon.count('guarded calls')
        gv.free()


WRAP = '''#!/bin/sh
for a in "$@"; do
    case "$a" in *.c) cp "$a" %(keep)s/code.c;; *.h) ;; esac
    case "$a" in *.c) cp "${a%%.c}.h" %(keep)s/ 2>/dev/null;; esac
done
exec gcc -fsanitize=undefined -fno-sanitize-recover=undefined "$@"
'''
DRIVER = '''
#include <stdio.h>
#include <stdlib.h>
double autofunc(double *xs);
int main(int c, char **v) {
    int n = c - 1;
    double *xs = malloc(n*sizeof(double) + (n == 0));
    for (int i = 0; i < n; i++) xs[i] = strtod(v[i+1], 0);
    printf("%.17g\\n", autofunc(xs));
    for (int i = 0; i < n; i++) if (xs[i] != strtod(v[i+1], 0)) return 3;
    free(xs);
    return 0;
}
'''


def sanitizer(rng, mon):
    ff, fd, args, order, chunk = setup(rng, mon)
    keep = mon.dir
    cc = fgen.script(os.path.join(keep, 'cc'), WRAP % dict(keep=keep))
    f = generate(ff, fd, args, chunk, rng, method=cc)
    x = point(rng, order)
    # the library itself under UBSan: undefined behaviour aborts the worker
    expect(mon, f, x, x, ff, fd, order, 'value of the UBSan build')
    mon.count('ubsan calls')
    code = os.path.join(keep, 'code.c')
    if not os.path.exists(code):
        mon.count('source not seen')
        return
    drv = os.path.join(keep, 'driver.c')
    with open(drv, 'w') as fh:
        fh.write(DRIVER)
    exe = os.path.join(keep, 'driver')
    r = subprocess.run(
        ['gcc', '-w', '-g', '-I', keep,
         '-fsanitize=address,undefined,float-cast-overflow',
         '-fno-sanitize-recover=all', '-o', exe, drv, code, '-lm'],
        capture_output=True, text=True)
    if r.returncode:
        mon.count('source not understood')
        return
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=7',
               UBSAN_OPTIONS='halt_on_error=1')
    for _ in range(3):
        x = point(rng, order)
        r = subprocess.run([exe] + [repr(float(v)) for v in x],
                           capture_output=True, text=True, env=env,
                           timeout=120)
        mon.check(r.returncode == 0, 'clean under the sanitizers',
                  lambda: r.stderr[-1500:])
        want, mag = fgen.cost(ff, fd, dict(zip(order, map(float, x))))
        mon.check(abs(float(r.stdout) - want) <= RTOL*mag,
                  'value of the sanitized build', lambda: (r.stdout, want))
        mon.count('sanitized calls')


def threads(rng, mon):
    fs = []
    for _ in range(3):
        ff, fd, args, order, chunk = setup(rng, mon)
        f = generate(ff, fd, args, chunk, rng)
        pts = []
        for _ in range(5):
            x = point(rng, order)
            w, mag = fgen.cost(ff, fd, dict(zip(order, map(float, x))))
            pts.append((x, w, mag))
        fs.append((f, pts))
    bad, n = [], [0]
    start = threading.Barrier(6)

    def work(k):
        start.wait()
        c = 0
        for r in range(12):
            f, pts = fs[(k + r) % 3]
            for x, w, mag in pts:
                try:
                    got = f(np.array(x))
                except Exception as e:
                    bad.append(repr(e))
                    return
                c += 1
                if not abs(got-w) <= RTOL*mag:
                    bad.append((got, w))
        n[0] += c
    ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    mon.check(not bad, 'values from many threads', lambda: bad[:3])
    mon.count('thread calls', n[0])


def nested(idx, rng, mon):
    """Hand-made shapes: constants, single symbols, huge sums, zero rows."""
    a, b = sp.symbols('a b', real=True)
    z, w = sp.symbols('z w')
    O = sp.Integer(0)
    many = sum((k+1)*sp.cos(k*a)*b**(k % 4) for k in range(60))
    rows = [
        ([O, a, O], [a]), ([a, O, b], [a, b]), ([O, O, O], [a]),
        ([sp.Integer(3), 2+sp.I*5, O], [b]),
        ([many, sp.conjugate(a + sp.I*b), many*sp.I], [a, b]),
        ([z, sp.conjugate(z), w*sp.conjugate(w)], [z, w]),
        ([sp.re(z*w), sp.im(z + sp.I*w), z**2], [w, z]),
        ([sp.Abs(a - b), sp.Abs(a + sp.I*b), sp.Abs(a)**2], [b, a]),
    ]
    row, order = rows[idx % len(rows)]
    ff = fFormContainer({'PP': np.array(row, dtype=object),
                         'SS': np.array(row[::-1], dtype=object)}, M=1)
    fd = fgen.random_fdat(rng, ff)
    chunk = (idx // len(rows)) % 2 == 1
    mon.sig(idx % len(rows), chunk)
    mon.note_sample(row)
    f = gen_cost_func(ff, fd, argument_list=order, chunk=chunk)
    for _ in range(5):
        x = rng.normal(size=len(order))
        expect(mon, f, x, x, ff, fd, order, 'sum of squared deviations')


def run(kind, idx, rng, mon, tier):
    if kind == 'nested':
        nested(idx, rng, mon)
    else:
        globals()[kind](rng, mon)
