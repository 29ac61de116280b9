"""Exact rational arithmetic: matrices are lists of lists of Fraction."""
from fractions import Fraction as F

import numpy as np


def mat(a):
    return [[F(float(x)) for x in r] for r in np.atleast_2d(np.asarray(a, float))]


def col(a):
    return [[F(float(x))] for x in np.asarray(a, float).ravel()]


def mul(A, B):
    Bt = list(zip(*B))
    return [[sum((x * y for x, y in zip(r, c) if x and y), F(0)) for c in Bt] for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def add(A, B, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(A, B)]


def solve(A, B):
    """Gauss-Jordan with exact pivots; A must be non-singular."""
    n, k = len(A), len(B[0])
    M = [list(r) + list(b) for r, b in zip(A, B)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        iv = 1 / M[i][i]
        M[i] = [x * iv for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [r[n:n + k] for r in M]


def fl(A):
    return np.array([[float(x) for x in r] for r in A])


def filter_exact(full, z, bits=0):
    """Exact filtered and predicted moments of a model given by per-step lists (keys AbQCdRmP)."""
    x, P = col(full["m"][0]), mat(full["P"][0])
    res = []
    for t in range(len(z)):
        if t:
            A = mat(full["A"][t - 1])
            x = add(mul(A, x), col(full["b"][t - 1]))
            P = add(mul(mul(A, P), tr(A)), mat(full["Q"][t - 1]))
        xp, Pp = x, P
        if not bits >> t & 1:
            C = mat(full["C"][t])
            S = add(mul(mul(C, P), tr(C)), mat(full["R"][t]))
            PC = mul(P, tr(C))
            e = add(add(col(z[t]), mul(C, x), -1), col(full["d"][t]), -1)
            x = add(x, mul(PC, solve(S, e)))
            P = add(P, mul(PC, solve(S, tr(PC))), -1)
        res.append((x, P, xp, Pp))
    return res
