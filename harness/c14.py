"""C14 - tabulated tensors have exactly the symmetry of their point group."""
import itertools

import numpy as np
import sympy as sp
import shgpy.tensor_definitions as td
from shgpy import shg_symbols as S
import gen
import pointgroups as pg

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('every entry of the three tables against every operation of its point '
        'group (exhaustive), the dimension and span of the invariant '
        'subspace, the symbols used; distinct by table and group')
ASSUMPTIONS = [
    'axis convention: principal axis z, unique monoclinic axis y, secondary '
    'twofold axis x, mirrors of C_3v and D_3h perpendicular to x; the '
    'trigonal quadrupole tables (D_3, D_3d, C_3v) have theirs along y']
MIN_EVENTS = {'operations applied': 400, 'dipole entries': 32,
              'surface entries': 32, 'quadrupole entries': 33,
              'symbols': 140}
TABLES = ['dipole', 'surface', 'quadrupole']
GROUPS = sorted(pg.GEN)
QUAD_AXES = {'C_3v': [pg.rot(pg.Z, 120), pg.mirror(pg.Y)],
             'D_3': [pg.rot(pg.Z, 120), pg.rot(pg.Y, 180)],
             'D_3d': [pg.rot(pg.Z, 120), pg.rot(pg.Y, 180), pg.I]}


def plan(tier):
    return [('entry', 3*len(GROUPS) + 1), ('symbols', 1)]


def linear(t, mon, what):
    """Symbols and matrix A with t = A @ parameters; checks linearity."""
    flat = [sp.sympify(e) for e in t.ravel()]
    syms = sorted({s for e in flat for s in e.free_symbols}, key=str)
    zero = {s: 0 for s in syms}
    c = np.array([complex(e.subs(zero)) for e in flat])
    mon.check(not c.any(), 'no constant terms', what)
    A = np.zeros((len(flat), len(syms)))
    for j, s in enumerate(syms):
        for i, e in enumerate(flat):
            d = sp.diff(e, s)
            mon.check(d.is_number, 'entries are linear',
                      lambda: f'{what}: {e}')
            A[i, j] = float(d)
    return syms, A


def run(kind, idx, rng, mon, tier):
    if kind == 'symbols':
        return symbols(mon)
    if idx == 3*len(GROUPS):
        table, name = 'quadrupole', 'Isotropic'
    else:
        table, name = TABLES[idx // len(GROUPS)], GROUPS[idx % len(GROUPS)]
    what = f'{table}[{name!r}]'
    tab = getattr(td, table)
    mon.check(name in tab, 'documented group present', what)
    t = tab[name]
    rank = 4 if table == 'quadrupole' else 3
    mon.check(isinstance(t, np.ndarray) and t.shape == (3,)*rank, 'shape',
              lambda: f'{what}: {np.shape(t)}')
    mon.check(all(isinstance(e, sp.Basic) for e in t.ravel()),
              'entries are sympy expressions', what)
    syms, A = linear(t, mon, what)
    for s in syms:
        mon.check(getattr(S, s.name, None) == s, 'symbols are those exported',
                  lambda: f'{what}: {s} {s.assumptions0}')
        n = len(s.name.lstrip('s'))
        mon.check(n == rank and s.name.startswith('s') == (table == 'surface'),
                  'symbols belong to their table', lambda: f'{what}: {s}')
    if name == 'Isotropic':
        ops = [pg.rot(rng.normal(size=3), 360*rng.random())
               for _ in range(25)] + [pg.I, pg.mirror(rng.normal(size=3))]
        # invariant under a group dense enough to leave only the isotropic
        B = pg.invariant_basis(pg.operations('O_h'), 4)
        for g in ops[:6]:
            K = np.kron(np.kron(g, g), np.kron(g, g))
            w, _, vt = np.linalg.svd(K @ B - B)
            u, s, vh = np.linalg.svd(K @ B - B)
            B = B @ vh[(s > 1e-9).sum():].T
        dim = B.shape[1]
        mon.check(dim == 3, 'harness: isotropic rank 4 tensors', dim)
    else:
        if table == 'quadrupole' and name in QUAD_AXES:
            pg.GEN[name] = QUAD_AXES[name]
        ops = pg.operations(name)
        mon.check(len(ops) == pg.ORDER[name], 'harness: order of the group',
                  lambda: (name, len(ops)))
        B = pg.invariant_basis(ops, rank)
        dim = B.shape[1]
    # invariance at random parameter values, through the real entries
    for trial in range(3):
        env = {s: complex(rng.normal(), rng.normal()) for s in syms}
        v = gen.ev_array(t, env)
        for g in ops:
            mon.close(pg.act(g, v), v, 'invariant under the group',
                      detail=lambda: f'{what} under {g.round(3).tolist()}')
            mon.count('operations applied')
    r = np.linalg.matrix_rank(A) if A.size else 0
    mon.check(r == len(syms), 'parameters are independent',
              lambda: f'{what}: rank {r} with {len(syms)} parameters')
    mon.check(r == dim, 'most general invariant tensor',
              lambda: f'{what}: {r} parameters, {dim} independent invariants')
    if A.size:
        out = A - B @ (B.T @ A)
        mon.check(np.abs(out).max() < 1e-9, 'spans the invariant tensors',
                  what)
    if rank == 3 and name != 'Isotropic' and any(
            np.allclose(g, pg.I) for g in ops):
        mon.check(not A.any(), 'centrosymmetric dipole vanishes', what)
    if table == 'surface':
        d = td.dipole[name]
        ren = {s: sp.Symbol('s' + s.name) for e in d.ravel()
               for s in e.free_symbols}
        mon.check(all(a.xreplace(ren) == b for a, b in
                      zip(d.ravel(), t.ravel())),
                  'surface is the dipole table renamed',
                  lambda: f'{what}: {t.tolist()} from {d.tolist()}')
        mon.check(not set(ren) & set(syms), 'surface parameters are disjoint',
                  what)
    mon.count(table + ' entries')
    mon.sig(table, name)
    mon.note_sample(f'{what}: {len(ops)} operations, {len(syms)} parameters, '
                    f'{dim} independent invariant tensors')


def symbols(mon):
    names = [''.join(p) for p in itertools.product('xyz', repeat=3)]
    names += ['s' + n for n in names]
    names += [''.join(p) for p in itertools.product('xyz', repeat=4)]
    for n in names + ['Fx', 'Fy', 'Fz']:
        s = getattr(S, n, None)
        mon.check(s == sp.Symbol(n), 'exported symbol',
                  lambda: f'{n}: {s!r}')
        mon.check(s is getattr(td, n, s), 'one object per name', n)
        mon.count('symbols')
    for n in ('theta', 'phi', 'psi'):
        s = getattr(S, n, None)
        mon.check(s == sp.Symbol(n, real=True), 'exported angle',
                  lambda: f'{n}: {s!r}')
        mon.count('symbols')
    for t in TABLES:
        want = set(GROUPS) | ({'Isotropic'} if t == 'quadrupole' else set())
        mon.check(set(getattr(td, t)) >= want, 'documented groups',
                  lambda: want - set(getattr(td, t)))
    mon.sig('symbols')
    mon.note_sample(f'{len(names)} parameter symbols')
