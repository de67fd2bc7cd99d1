"""Crystallographic point groups as explicit 3x3 operations.

Axis convention of shgpy's tables: principal axis z, except that the monoclinic
groups have their unique axis along y; the secondary twofold axis of D_n is x;
the mirrors of C_3v and D_3h are perpendicular to x; D_2d has twofold axes
along x and y.
"""
import numpy as np


def rot(axis, deg):
    a = np.asarray(axis, float)
    a = a/np.linalg.norm(a)
    t = np.deg2rad(deg)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(t)*K + (1-np.cos(t))*K@K


X, Y, Z = np.eye(3)
I = -np.eye(3)


def mirror(axis):
    return I @ rot(axis, 180)


def roto(axis, deg):            # S_n: rotation and reflection
    return mirror(axis) @ rot(axis, deg)


GEN = {
    'C_1': [], 'S_2': [I],
    'C_2': [rot(Y, 180)], 'C_1h': [mirror(Y)], 'C_2h': [rot(Y, 180), I],
    'D_2': [rot(Z, 180), rot(X, 180)],
    'C_2v': [rot(Z, 180), mirror(X)],
    'D_2h': [rot(Z, 180), rot(X, 180), I],
    'C_4': [rot(Z, 90)], 'S_4': [roto(Z, 90)], 'C_4h': [rot(Z, 90), I],
    'D_4': [rot(Z, 90), rot(X, 180)], 'C_4v': [rot(Z, 90), mirror(X)],
    'D_2d': [roto(Z, 90), rot(X, 180)], 'D_4h': [rot(Z, 90), rot(X, 180), I],
    'C_3': [rot(Z, 120)], 'S_6': [rot(Z, 120), I],
    'D_3': [rot(Z, 120), rot(X, 180)], 'C_3v': [rot(Z, 120), mirror(X)],
    'D_3d': [rot(Z, 120), rot(X, 180), I],
    'C_6': [rot(Z, 60)], 'C_3h': [rot(Z, 120), mirror(Z)],
    'C_6h': [rot(Z, 60), I], 'D_6': [rot(Z, 60), rot(X, 180)],
    'C_6v': [rot(Z, 60), mirror(X)],
    'D_3h': [rot(Z, 120), mirror(Z), mirror(X)],
    'D_6h': [rot(Z, 60), rot(X, 180), I],
    'T': [rot(Z, 180), rot([1, 1, 1], 120)],
    'T_h': [rot(Z, 180), rot([1, 1, 1], 120), I],
    'O': [rot(Z, 90), rot([1, 1, 1], 120)],
    'T_d': [roto(Z, 90), rot([1, 1, 1], 120)],
    'O_h': [rot(Z, 90), rot([1, 1, 1], 120), I],
}
ORDER = {
    'C_1': 1, 'S_2': 2, 'C_2': 2, 'C_1h': 2, 'C_2h': 4, 'D_2': 4, 'C_2v': 4,
    'D_2h': 8, 'C_4': 4, 'S_4': 4, 'C_4h': 8, 'D_4': 8, 'C_4v': 8, 'D_2d': 8,
    'D_4h': 16, 'C_3': 3, 'S_6': 6, 'D_3': 6, 'C_3v': 6, 'D_3d': 12, 'C_6': 6,
    'C_3h': 6, 'C_6h': 12, 'D_6': 12, 'C_6v': 12, 'D_3h': 12, 'D_6h': 24,
    'T': 12, 'T_h': 24, 'O': 24, 'T_d': 24, 'O_h': 48,
}


def operations(name):
    """All operations of the group (closure of the generators)."""
    ops = [np.eye(3)]
    todo = [np.eye(3)]
    while todo:
        a = todo.pop()
        for g in GEN[name]:
            b = g @ a
            if not any(np.allclose(b, c, atol=1e-9) for c in ops):
                ops.append(b)
                todo.append(b)
    return ops


def act(op, t):
    """Transform a tensor (leading axes may carry a batch)."""
    rank = t.ndim
    for i in range(rank):
        t = np.moveaxis(np.tensordot(op, t, axes=([1], [i])), 0, i)
    return t


def invariant_basis(ops, rank):
    """Orthonormal basis (as columns) of the invariant tensors of a rank."""
    n = 3**rank
    P = np.zeros((n, n))
    for g in ops:
        K = np.array([[1.]])
        for _ in range(rank):
            K = np.kron(K, g)
        P += K
    P /= len(ops)
    w, v = np.linalg.eigh((P+P.T)/2)
    return v[:, w > .5]
