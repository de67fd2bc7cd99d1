"""C16 - particularizing imposes exactly the index symmetry."""
import itertools

import numpy as np
import sympy as sp
import shgpy.tensor_definitions as td
from shgpy import particularize, transform
import gen

PROPERTY = 'C16'
RULE = ('every tabulated tensor, tabulated tensors under exact (rational) '
        'orthogonal maps, and random linear tensors of rank 2 to 4 with exact '
        'coefficients, both modes, with and without excluded symbols; '
        'attainable sets compared as affine subspaces in exact arithmetic; '
        'distinct by tensor, mode and exclude list')
ASSUMPTIONS = ['tensors are linear in their parameters, with exact (not '
               'rounded) coefficients, sympy entries and parameters that may '
               'take any real value']
MIN_EVENTS = {'particularized': 180, 'constrained': 60, 'with exclude': 12,
              'all indices': 50, 'already symmetric': 30,
              'unattainable rejected': 5}
TABLES = [(t, k) for t in ('dipole', 'surface') for k in sorted(td.dipole)]
TABLES += [('quadrupole', k) for k in sorted(td.quadrupole)]
ROT = [np.array([[sp.Rational(3, 5), -sp.Rational(4, 5), 0],
                 [sp.Rational(4, 5), sp.Rational(3, 5), 0], [0, 0, 1]]),
       np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
       np.array([[-1, 0, 0], [0, 0, 1], [0, 1, 0]]),
       np.array([[sp.Rational(2, 3), -sp.Rational(1, 3), sp.Rational(2, 3)],
                 [sp.Rational(2, 3), sp.Rational(2, 3), -sp.Rational(1, 3)],
                 [-sp.Rational(1, 3), sp.Rational(2, 3), sp.Rational(2, 3)]])]
WATCHDOG_S = 280


def plan(tier):
    k = 4 if tier == 'quick' else 20
    return [('table', len(TABLES)), ('tableall', 64 if tier == 'quick'
                                     else len(TABLES)),
            ('rotated', 12*k), ('random', 100*k), ('exclude', 60*k),
            ('paired', 40*k),
            ('constant', 20*k)]


def affine(t, syms):
    """t = A p + c, as exact matrices."""
    flat = [sp.expand(sp.sympify(e)) for e in t.ravel()]
    zero = {s: 0 for s in syms}
    c = sp.Matrix([e.xreplace(zero) for e in flat])
    A = sp.zeros(len(flat), len(syms))
    for i, e in enumerate(flat):
        for s in e.free_symbols:
            d = sp.diff(e, s)
            if d.free_symbols:
                return None
            A[i, syms.index(s)] = d
    return A, c


def num(M):
    return np.array(M.tolist(), dtype=float).reshape(M.shape)


def sym_map(shape, everything):
    """Matrix D with D v = 0 iff the tensor v has the index symmetry."""
    rank = len(shape)
    rows = []
    for i in itertools.product(*[range(n) for n in shape]):
        if everything:
            js = [tuple(i[:a] + (i[a+1], i[a]) + i[a+2:])
                  for a in range(rank-1)]
        else:
            js = [i[:-2] + (i[-1], i[-2])]
        for j in js:
            if i < j:
                r = np.zeros(int(np.prod(shape)))
                r[np.ravel_multi_index(i, shape)] = 1
                r[np.ravel_multi_index(j, shape)] = -1
                rows.append(r)
    return np.array(rows)


def null(M, tol=1e-9):
    if M.size == 0:
        return np.eye(M.shape[1])
    u, s, vh = np.linalg.svd(M)
    return vh[(s > tol).sum():].T


def orth(M, tol=1e-9):
    if M.shape[1] == 0:
        return M
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    return u[:, s > tol]


def symbols_of(t):
    return sorted({s for e in t.ravel() for s in sp.sympify(e).free_symbols},
                  key=lambda s: (s.name, sp.srepr(s)))


def examine(t, mon, everything=False, exclude=None, what=''):
    shape = t.shape
    syms = symbols_of(t)
    A, c = affine(t, syms)
    A, c = num(A), num(c).ravel()
    D = sym_map(shape, everything)
    # symmetric attainable tensors: {A p + c : D A p = -D c}
    DA = D @ A
    p0, *_ = np.linalg.lstsq(DA, -D @ c, rcond=None) if syms else (
        np.zeros(0),)
    feasible = np.abs(DA @ p0 + D @ c).max() < 1e-9 if syms else \
        np.abs(D @ c).max() < 1e-9
    before = [sp.srepr(e) for e in t.ravel()]
    kw = {}
    if everything:
        kw['permute_all_indices'] = True
    if exclude is not None:
        kw['exclude'] = exclude
    N = null(DA) if syms else np.zeros((0, 0))
    if not feasible:
        mon.raises(lambda: particularize(t, **kw),
                   'no symmetric tensor attainable: rejected', detail=what)
        mon.count('unattainable rejected')
        return
    if exclude:
        rows = [syms.index(s) for s in exclude if s in syms]
        if np.linalg.matrix_rank(N[rows], tol=1e-9) < len(rows):
            return 'impossible'
        mon.count('with exclude')
    g = particularize(t, **kw)
    mon.check(before == [sp.srepr(e) for e in t.ravel()],
              'the input is left alone', what)
    mon.check(isinstance(g, np.ndarray) and g.shape == shape, 'shape',
              lambda: f'{what}: {np.shape(g)}')
    gsyms = symbols_of(g)
    mon.check(set(gsyms) <= set(syms), 'no new symbols',
              lambda: f'{what}: {set(gsyms) - set(syms)}')
    r = affine(g, gsyms)
    mon.check(r is not None, 'result is linear', lambda: f'{what}: {g}')
    B, d = num(r[0]), num(r[1]).ravel()
    mon.check((np.abs(D @ B).max() if B.size else 0) < 1e-9
              and np.abs(D @ d).max() < 1e-9,
              'symmetric', lambda: f'{what}: {g.tolist()}')
    W = orth(A @ N) if syms else np.zeros((t.size, 0))
    V = orth(B) if gsyms else np.zeros((t.size, 0))
    mon.check(V.shape[1] == W.shape[1], 'most general specialisation',
              lambda: f'{what}: {V.shape[1]} degrees of freedom, '
              f'{W.shape[1]} attainable: {g.tolist()} from {t.tolist()}')
    if V.shape[1]:
        mon.check(np.abs(V - W @ (W.T @ V)).max() < 1e-8,
                  'attainable by the input',
                  lambda: f'{what}: {g.tolist()} from {t.tolist()}')
    off = d - (A @ p0 + c if syms else c)
    off = off - W @ (W.T @ off)
    mon.check(np.abs(off).max() < 1e-8, 'attainable by the input (offset)',
              lambda: f'{what}: {g.tolist()} from {t.tolist()}')
    if not np.abs(DA).any() and not np.abs(D @ c).any():
        mon.check(all(sp.expand(a - b) == 0 for a, b in
                      zip(g.ravel(), t.ravel())),
                  'an already symmetric tensor is unchanged', what)
        mon.count('already symmetric')
    else:
        mon.count('constrained')
    if exclude:
        for i, e in enumerate(t.ravel()):
            if e.free_symbols and e.free_symbols <= set(exclude):
                mon.check(sp.expand(g.ravel()[i] - e) == 0,
                          'excluded symbols stay free',
                          lambda: f'{what} exclude {exclude}: {e} became '
                          f'{g.ravel()[i]}')
    # particularizing again changes nothing
    g2 = particularize(g, **{k: v for k, v in kw.items() if k != 'exclude'})
    mon.check(all(sp.expand(a - b) == 0 for a, b in zip(g2.ravel(),
                                                        g.ravel())),
              'particularizing again changes nothing', what)
    mon.count('particularized')
    if everything:
        mon.count('all indices')


def compatible(t, everything, rng):
    """Symbols which can all stay free at once, as many as there are."""
    syms = symbols_of(t)
    A, c = affine(t, syms)
    N = null(sym_map(t.shape, everything) @ num(A))
    ex = []
    for i in rng.permutation(len(syms)):
        rows = [syms.index(s) for s in ex] + [i]
        if np.linalg.matrix_rank(N[rows], tol=1e-9) == len(rows):
            ex.append(syms[i])
    return ex


def paired(rng, everything):
    """A tensor with several constraints p = q, and one of each to keep."""
    rank = int(rng.choice([2, 3]))
    letters = list('abcdefghijklmnopqrstuvwxyz')
    rng.shuffle(letters)
    sort = (lambda i: tuple(sorted(i))) if everything else (
        lambda i: i[:-2] + tuple(sorted(i[-2:])))
    t = np.empty((3,)*rank, dtype=object)
    own, other = {}, {}
    for i in np.ndindex(*t.shape):
        k = sort(i)
        if k not in own and letters and rng.random() < .6:
            own[k] = sp.Symbol(letters.pop())
        t[i] = own.get(k, sp.Integer(0))
        if k in own and i != k and letters and rng.random() < .6:
            if k not in other:
                # now and then of the same name, with another assumption
                other[k] = sp.Symbol(own[k].name, real=True) \
                    if rng.random() < .2 else sp.Symbol(letters.pop())
            t[i] = other[k]*int(rng.choice([1, 1, -1, 2]))
    keep = [[own[k], other[k]][rng.integers(2)] for k in other]
    return t, keep


def random_tensor(rng, constants=False, rank=None):
    rank = rank or int(rng.choice([2, 3, 3, 3, 4]))
    n = int(rng.integers(1, 8))
    syms = [sp.Symbol(f'p{i}', **[{}, {'real': True}][rng.integers(2)])
            for i in range(n)]
    if n > 1 and rng.random() < .15:
        a = rng.permutation(n)[:2]
        syms[a[0]], syms[a[1]] = (sp.Symbol('p0', **kw) for kw in
                                  ({}, {'real': True}))
        syms = list(dict.fromkeys(syms))
        n = len(syms)
    t = np.empty((3,)*rank, dtype=object)
    pool = [s*int(rng.choice([-2, -1, 1, 1, 1])) for s in syms]
    for _ in range(3):
        a = sp.Integer(0)
        for s in rng.choice(n, size=min(n, int(rng.integers(1, 3))),
                            replace=False):
            a += sp.Rational(int(rng.integers(-3, 4)),
                             int(rng.integers(1, 4)))*syms[s]
        pool.append(a)
    base = np.empty((3,)*rank, dtype=object)
    for i in np.ndindex(*t.shape):
        base[i] = sp.sympify(pool[rng.integers(len(pool))]) \
            if rng.random() < .6 else sp.Integer(0)
    style = rng.integers(3)
    for i in np.ndindex(*t.shape):
        j = i[:-2] + tuple(sorted(i[-2:]))
        if style == 1 and rng.random() < .9:
            t[i] = base[j]
        elif style == 2 and rng.random() < .9:
            t[i] = base[tuple(sorted(i))]
        else:
            t[i] = base[i]
        if constants and rng.random() < .2:
            k = j if rng.random() < .8 else i
            t[i] = t[i] + sum(k)
    return t


def run(kind, idx, rng, mon, tier):
    if kind in ('table', 'tableall'):
        tab, name = TABLES[idx]
        t = getattr(td, tab)[name]
        what = f'{tab}[{name}]'
        examine(t, mon, everything=kind == 'tableall', what=what)
        mon.sig(kind, what)
    elif kind == 'rotated':
        tab, name = TABLES[int(rng.integers(64))]
        R = ROT[rng.integers(len(ROT))]
        t = transform(getattr(td, tab)[name], R)
        t = np.array([sp.expand(e) for e in t.ravel()],
                     dtype=object).reshape(t.shape)
        what = f'rotated {tab}[{name}]'
        ev = bool(rng.random() < .3)
        examine(t, mon, everything=ev, what=what)
        mon.sig(kind, what, str(R), ev)
    elif kind == 'random':
        t = random_tensor(rng)
        ev = bool(rng.random() < .4)
        what = f'{t.tolist()} all={ev}'
        examine(t, mon, everything=ev, what=what)
        mon.sig(kind, what)
    elif kind == 'constant':
        t = random_tensor(rng, constants=True)
        ev = bool(rng.random() < .3)
        what = f'{t.tolist()} all={ev}'
        examine(t, mon, everything=ev, what=what)
        mon.sig(kind, what)
    elif kind == 'paired':
        ev = bool(idx % 2)
        t, ex = paired(rng, ev)
        rng.shuffle(ex)
        what = f'{t.tolist()} all={ev} exclude={ex}'
        if examine(t, mon, everything=ev, exclude=ex or None,
                   what=what) != 'impossible':
            mon.count('excluded together', len(ex) > 1)
        mon.sig(kind, what)
    else:
        if rng.random() < .5:
            t = random_tensor(rng)
        else:
            tab, name = TABLES[int(rng.integers(len(TABLES)))]
            t = getattr(td, tab)[name]
        syms = symbols_of(t)
        if not syms:
            return
        n = int(rng.integers(1, max(2, len(syms)//2 + 1)))
        ex = [syms[i] for i in rng.permutation(len(syms))[:n]]
        ev = bool(rng.random() < .35) and t.ndim < 4
        if rng.random() < .6:
            ex = compatible(t, ev, rng)
            if len(ex) > 2 and rng.random() < .5:
                ex = ex[:int(rng.integers(2, len(ex)))]
            if not ex:
                return
            mon.count('excluded together')
        what = f'{t.tolist()} all={ev} exclude={ex}'
        examine(t, mon, everything=ev, exclude=ex, what=what)
        mon.sig(kind, what)
    mon.note_sample(what[:300])
