"""Full Fock space of a few modes by Jordan-Wigner matrices."""
from functools import lru_cache

import numpy as np


@lru_cache(None)
def annihilators(n):
    """c_0..c_{n-1} on the 2^n dimensional Fock space."""
    z = np.diag([1.0, -1.0])
    a = np.array([[0.0, 1.0], [0.0, 0.0]])  # |0><1|
    out = []
    for p in range(n):
        m = np.eye(1)
        for k in range(n):
            m = np.kron(m, z if k < p else a if k == p else np.eye(2))
        out.append(m)
    return out


@lru_cache(None)
def excitations(n):
    c = annihilators(n)
    D = 2 ** n
    E = np.zeros((n, n, D, D))
    for p in range(n):
        for q in range(n):
            E[p, q] = c[p].T @ c[q]
    return E


@lru_cache(None)
def numbers(n):
    return np.rint(np.einsum("ppaa->a", excitations(n))).astype(int)


def one_body(h):
    """sum h_pq c+_p c_q"""
    return np.tensordot(h, excitations(len(h)), axes=((0, 1), (0, 1)))


def two_body(u):
    """sum u_pqrs c+_p c+_q c_s c_r"""
    n = len(u)
    E = excitations(n)
    A = np.tensordot(u, E, axes=((1, 3), (0, 1)))  # p r D D
    D = 2 ** n
    out = np.einsum("prab,prbc->ac", E.astype(complex), A, optimize=True)
    out = out - np.tensordot(np.einsum("pqqs->ps", u), E, axes=((0, 1), (0, 1)))
    return out


def determinant(n, occ):
    """|occ> = c+_{i1} c+_{i2} ... |vac>"""
    c = annihilators(n)
    v = np.zeros(2 ** n)
    v[0] = 1.0
    for p in reversed(occ):
        v = c[p].T @ v
    return v
