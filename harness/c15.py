"""C15 - tensor algebra and rotations obey their laws."""
import itertools

import numpy as np
import sympy as sp
from scipy.spatial.transform import Rotation
from shgpy import (tensor_contract, tensor_product, transform,
                   rotation_matrix3, rotation_matrix3symb,
                   rotation_matrix_from_two_vectors, union)
import gen

PROPERTY = 'C15'
RULE = ('random tensors (rank, dimension, integer / float / complex / '
        'symbolic entries), index pairings, operations, axes, angles and '
        'vector pairs incl. parallel, antiparallel and nearly so; distinct by '
        'rank, pairing, operands')
ASSUMPTIONS = ['the direction reached by the two-vector rotation is compared '
               'to 1e-10, if nearly (anti)parallel to 1e-6 (the package rounds to ndigits and treats vectors '
               'within 1e-8 of (anti)parallel as such)',
               'axis lengths between 1e-300 and 1e300']
MIN_EVENTS = {'products': 60, 'contractions': 120, 'transformations': 60,
              'compositions': 30, 'axis rotations': 120,
              'symbolic rotations': 30, 'two-vector rotations': 150,
              'degenerate vector pairs': 50, 'symbolic tensors': 40,
              'rounded': 30, 'unions': 20, 'changed arrays': 50}
LET = 'abcdefghijklmnopqrstuvwxyz'


def plan(tier):
    k = 3 if tier == 'quick' else 25
    return [('product', 120*k), ('contract', 250*k), ('transform', 120*k),
            ('axis', 300*k), ('symb', 100*k), ('vectors', 400*k),
            ('union', 20*k)]


def tensor(rng, shape, syms=None):
    k = rng.integers(5) if syms else rng.integers(3)
    if k == 0:
        return rng.integers(-5, 6, shape)
    if k == 1:
        return rng.normal(size=shape)
    if k == 2:
        return rng.normal(size=shape) + 1j*rng.normal(size=shape)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = sp.sympify(gen.coeff(rng, syms, depth=1)) \
            if rng.random() < .6 else sp.Integer(0)
    return out


def value(t, env, mon):
    t = np.asarray(t)
    if t.dtype == object:
        return gen.ev_array(t, env)
    return t.astype(complex)


def run(kind, idx, rng, mon, tier):
    globals()['do_' + kind](idx, rng, mon, tier)


def setup(rng):
    syms = gen.symbols(rng, 3)
    return syms, gen.values(rng, syms)


def count_symbolic(mon, *ts):
    if any(np.asarray(t).dtype == object for t in ts):
        mon.count('symbolic tensors')


def do_product(idx, rng, mon, tier):
    syms, env = setup(rng)
    n = int(rng.integers(2, 5))
    shapes = [(3,)*int(rng.integers(0 if n > 2 else 1, 4 if n == 2 else 3))
              for _ in range(n)]
    ts = [tensor(rng, s, syms) for s in shapes]
    got = tensor_product(*ts)
    want = np.array(1+0j)
    for t in ts:
        want = np.multiply.outer(want, value(t, env, mon))
    mon.close(value(got, env, mon), want, 'tensor product',
              detail=lambda: shapes)
    count_symbolic(mon, *ts)
    mon.count('products')
    mon.sig('product', shapes, str(ts[0]))
    mon.note_sample(f'{n} tensors of shapes {shapes}')


def do_contract(idx, rng, mon, tier):
    syms, env = setup(rng)
    rank = int(rng.integers(2, 9 if tier == 'thorough' else 8))
    npairs = int(rng.integers(0, rank//2 + 1))
    perm = [int(x) for x in rng.permutation(rank)]
    pairs = [[perm[2*i], perm[2*i+1]] for i in range(npairs)]
    if rng.random() < .25:      # other dimensions, equal within each pair
        dim = [int(x) for x in rng.integers(1, 4, rank)]
        for a, b in pairs:
            dim[a] = dim[b]
    else:
        dim = [3 if rank < 7 else 2]*rank
    t = tensor(rng, tuple(dim), syms if rank < 6 else None)
    if rng.random() < .12:      # sums leave the range of the entries
        typ = [np.int8, np.uint8, np.int16, bool][rng.integers(4)]
        top = 2 if typ is bool else np.iinfo(typ).max
        t = rng.integers(0, top, tuple(dim)).astype(typ)
        mon.count('narrow integers')
    form = int(rng.integers(5))
    got = tensor_contract(t, [
        lambda: [list(p) for p in pairs], lambda: [list(p) for p in pairs],
        lambda: tuple(map(tuple, pairs)), lambda: [tuple(p) for p in pairs],
        lambda: np.array(pairs, dtype=int).reshape(-1, 2)][form]())
    letters = list(LET[:rank])
    for a, b in pairs:
        letters[b] = letters[a]
    free = [LET[i] for i in range(rank) if i not in sum(pairs, [])]
    want = np.einsum(''.join(letters) + '->' + ''.join(free),
                     value(t, env, mon))
    mon.close(value(got, env, mon), want, 'contraction',
              detail=lambda: f'dims {dim} pairs {pairs}')
    # the order of the pairs and of the indices in them does not matter
    other = [p[::-1] if rng.random() < .5 else list(p)
             for p in (pairs[i] for i in rng.permutation(npairs))]
    mon.close(value(tensor_contract(t, other), env, mon), want,
              'contraction in another order',
              detail=lambda: f'dims {dim} pairs {other}')
    count_symbolic(mon, t)
    mon.count('contractions', 2)
    mon.sig('contract', dim, pairs)
    mon.note_sample(f'dims {dim} pairs {pairs}')


def operation(rng, syms):
    k = rng.integers(5)
    if k == 4:          # e.g. to circular components
        return rng.normal(size=(3, 3)) + 1j*rng.normal(size=(3, 3))
    if k == 0:
        return Rotation.random(random_state=int(rng.integers(1 << 30))
                               ).as_matrix()
    if k == 1:
        return -np.eye(3)[rng.permutation(3)].astype(int)
    if k == 2 or syms is None:
        return rng.normal(size=(3, 3))
    return rotation_matrix3symb(
        [[0, 0, 1], [1, 1, 1], [1, 0, -2]][rng.integers(3)],
        syms[rng.integers(len(syms))])


def apply(op, t):
    for i in range(t.ndim):
        t = np.moveaxis(np.tensordot(op, t, axes=([1], [i])), 0, i)
    return t


def do_transform(idx, rng, mon, tier):
    syms, env = setup(rng)
    big = rng.random() < (.1 if tier == 'thorough' else .06)
    rank = int(rng.choice([4, 4, 5])) if big else int(rng.integers(1, 4))
    numeric = big or rank == 3 and rng.random() < .7
    t = tensor(rng, (3,)*rank, None if numeric else syms)
    op = operation(rng, None if numeric or rank > 2 else syms)
    tv, ov = value(t, env, mon), value(op, env, mon)
    got = transform(t, op)
    mon.close(value(got, env, mon), apply(ov, tv), 'transformation',
              rtol=1e-8, detail=lambda: f'rank {rank} by {op}')
    mon.close(value(transform(t, np.identity(3)), env, mon), tv,
              'the identity does nothing')
    count_symbolic(mon, t, op)
    mon.count('transformations')
    if rank < 3 or np.asarray(t).dtype != object and rank < 4:
        op2 = operation(rng, None)
        a = value(transform(transform(t, op), op2), env, mon)
        b = value(transform(t, np.dot(op2, op)), env, mon)
        mon.close(a, b, 'product of operations', rtol=1e-8,
                  detail=lambda: f'rank {rank}: {op} then {op2}')
        mon.close(a, apply(op2, apply(ov, tv)), 'successive operations', rtol=1e-8)
        mon.count('compositions')
    # the same arrays, with other contents
    if not big:
        i = tuple(rng.integers(3, size=2))
        j = tuple(rng.integers(3, size=rank))
        op[i] = -op[i] + 1
        t[j] = 2*t[j] + 1
        mon.close(value(transform(t, op), env, mon),
                  apply(value(op, env, mon), value(t, env, mon)),
                  'transformation of changed arrays', rtol=1e-8,
                  detail=lambda: f'rank {rank} by {op}')
        mon.count('changed arrays')
    mon.sig('transform', rank, str(op)[:80], str(t)[:60])
    mon.note_sample(f'rank {rank} dtype {t.dtype}')


def axis(rng):
    k = rng.integers(6)
    if k == 0:
        a = np.zeros(3)
        a[rng.integers(3)] = rng.choice([-1, 1])*rng.uniform(.1, 9)
    elif k == 1:
        a = rng.integers(-4, 5, 3)
        if not a.any():
            a = np.array([0, 0, 2])
    elif k == 2:
        a = rng.normal(size=3)*10.**rng.integers(-12, 13)
    elif k == 3:
        a = rng.normal(size=3)*np.array([1, 1e-6, 1e-9])[rng.permutation(3)]
    else:
        a = rng.normal(size=3)*(10.**rng.integers(-300, 300)
                                if rng.random() < .3 else 1)
    k = rng.integers(5)
    if k == 0 and a.dtype == float and 1e-30 < np.abs(a).max() < 1e30:
        a = a.astype(np.float32)
    if k == 1:
        a = a.tolist()
    elif k == 2:
        a.flags.writeable = False
    elif k == 3:
        a = np.repeat(a, 2)[::2]
    elif k == 4 and a.dtype.kind == 'i':
        a = (a*25).astype([np.int8, np.int16, np.int32][rng.integers(3)])
    return a


def unit(a):
    a = np.asarray(a, float)
    a = a/np.abs(a).max()
    return a/np.linalg.norm(a)


def angle(rng):
    k = rng.integers(5)
    return [float(rng.uniform(-7, 7)), 0, int(rng.integers(-6, 7)),
            np.pi*int(rng.integers(-4, 5))/2, float(rng.normal()*1e-7)][k]


def do_axis(idx, rng, mon, tier):
    a, t = axis(rng), angle(rng)
    R = np.asarray(rotation_matrix3(a, t), dtype=float)
    n = unit(a)
    what = lambda: f'axis {a!r} angle {t!r}: {R.tolist()}'
    tol = 1e-6 if np.asarray(a).dtype == np.float32 else 1e-12
    mon.close(R, Rotation.from_rotvec(n*t).as_matrix(), 'right-handed rotation',
              rtol=0, atol=tol, detail=what)
    mon.close(R @ R.T, np.eye(3), 'orthogonal', rtol=0, atol=3*tol,
              detail=what)
    mon.close(np.linalg.det(R), 1, 'determinant', rtol=0, atol=3*tol,
              detail=what)
    mon.close(R @ n, n, 'fixes the axis', rtol=0, atol=3*tol, detail=what)
    mon.count('axis rotations')
    mon.sig('axis', repr(a), t)
    mon.note_sample(what())


def do_symb(idx, rng, mon, tier):
    t = sp.Symbol('t', real=True)
    k = rng.integers(4)
    env = {t: float(rng.uniform(-7, 7))}
    if k == 0:
        a = [int(x) for x in rng.integers(-3, 4, 3)]
        if not any(a):
            a = [1, 0, 0]
    elif k == 1:
        a = np.array([sp.sqrt(2), sp.Rational(1, 3), -1], dtype=object)
    elif k == 2:
        syms = [sp.Symbol(c, real=True) for c in 'uvw']
        env.update({s: float(rng.normal()) for s in syms})
        a = syms if rng.random() < .5 else np.array(syms)
    else:
        a = rng.normal(size=3)*(10.**rng.integers(-300, 300)
                                if rng.random() < .3 else 1)
        if rng.random() < .3:
            a[rng.permutation(3)[:2]] = 0
        if rng.random() < .2:
            a = np.round(rng.normal(size=3)*60).astype(
                [np.int8, np.int32, np.int64][rng.integers(3)])
            if not a.any():
                a[1] = 1
    ang = [t, 2*t + 1, sp.pi/3, float(rng.normal())][rng.integers(4)]
    R = rotation_matrix3symb(a, ang)
    mon.check(np.shape(R) == (3, 3), 'shape', lambda: np.shape(R))
    n = unit([float(gen.ev(x, env)) for x in a])
    th = float(gen.ev(ang, env))
    mon.close(gen.ev_array(R, env), Rotation.from_rotvec(n*th).as_matrix(),
              'symbolic rotation', detail=lambda: f'axis {a} angle {ang}')
    mon.count('symbolic rotations')
    mon.sig('symb', str(a), str(ang))
    mon.note_sample(f'axis {a} angle {ang}')


def do_vectors(idx, rng, mon, tier):
    v = rng.normal(size=3) if rng.random() < .6 else \
        rng.integers(-3, 4, 3).astype(float)
    if not v.any():
        v = np.array([0., 1., 0.])
    k = idx % 8
    if k in (0, 1):
        w = (1 if k else -1)*v*rng.uniform(.1, 7)
    elif k in (2, 3):           # nearly parallel
        d = rng.normal(size=3)*10.**rng.integers(-13, -1)
        w = (v + d)*(1 if k == 2 else -1)
    elif k == 4:
        w = np.cross(v, rng.normal(size=3))
    elif k == 5:
        w = rng.integers(-3, 4, 3)
        if not w.any():
            w = np.array([0, 0, -1])
        if rng.random() < .5:
            v = np.round(v).astype(int)
            if not v.any():
                v = np.array([0, 0, 1])
    else:
        w = rng.normal(size=3)
    if rng.random() < .1:
        v = v*10.**rng.integers(-300, 300)
        w = w*10.**rng.integers(-300, 300)
    elif k < 5:
        v = v*10.**rng.integers(-6, 7)
        w = w*10.**rng.integers(-6, 7)
    for x in (v, w):
        if rng.random() < .3:
            x.flags.writeable = False
    R = np.asarray(rotation_matrix_from_two_vectors(v, w), float)
    a, b = unit(v), unit(w)
    if rng.random() < .3:
        nd = int(rng.integers(1, 16))
        T = np.asarray(rotation_matrix_from_two_vectors(
            v, w, float(rng.choice([.01, .1, 1e-6])), nd)
            if rng.random() < .5 else
            rotation_matrix_from_two_vectors(v, w, ndigits=nd), float)
        mon.close(T, R, 'rounding to ndigits', rtol=0,
                  atol=.5000001*10.**-nd + 1e-14)
        mon.close(T, np.round(T, nd), 'rounded', rtol=0, atol=1e-15)
        mon.count('rounded')
    what = lambda: f'{v.tolist()} to {w.tolist()}: {R.tolist()}'
    mon.check(R.shape == (3, 3) and np.isfinite(R).all(), 'a 3x3 matrix', what)
    mon.close(R @ R.T, np.eye(3), 'orthogonal', rtol=0, atol=1e-9,
              detail=what)
    mon.close(np.linalg.det(R), 1, 'proper rotation', rtol=0, atol=1e-9,
              detail=what)
    mon.close(R @ a, b, 'carries the first direction onto the second', rtol=0,
              atol=1e-6 if np.linalg.norm(np.cross(a, b)) < 1e-3 else 1e-10,
              detail=what)
    mon.count('two-vector rotations')
    if k < 4:
        mon.count('degenerate vector pairs')
    mon.sig('vectors', v.tolist(), w.tolist())
    mon.note_sample(what())


def do_union(idx, rng, mon, tier):
    pool = [0, 1, 2, 'a', 'b', sp.Symbol('a'), sp.Symbol('a', real=True),
            (1, 2)]
    ls = [[pool[i] for i in rng.integers(len(pool), size=rng.integers(6))]
          for _ in range(int(rng.integers(5)))]
    kept = [list(x) for x in ls]
    got = list(union(*[tuple(x) if rng.random() < .5 else x for x in ls]))
    mon.check(set(got) == set().union(*map(set, ls))
              and len(got) == len(set(got)), 'the union, each element once',
              lambda: (ls, got))
    mon.check(kept == ls, 'the operands are left alone')
    mon.count('unions')
    mon.sig('union', str(ls))
