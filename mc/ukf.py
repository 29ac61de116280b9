"""Reference unscented recursions, written from the documented equations (not from the code).

Sigma points of N(mu, S) in dimension N: mu and mu +- sqrt(3) * (columns of the Cholesky factor of S), weights
(3 - N)/3 for the centre and 1/6 for each of the others, for means and covariances alike.
"""
import numpy as np


def sigma(mu, S):
    L = np.linalg.cholesky(np.asarray(S, float))
    N = len(mu)
    pts = [np.array(mu, float)]
    for s in (1.0, -1.0):
        for i in range(N):
            pts.append(mu + s * np.sqrt(3.0) * L[:, i])
    w = np.full(2 * N + 1, 1.0 / 6)
    w[0] = (3.0 - N) / 3.0
    return np.array(pts), w


def moments(Y, w):
    m = w.dot(Y)
    D = Y - m
    return m, (D * w[:, None]).T.dot(D)


def cross(X, mx, Y, my, w):
    return ((X - mx) * w[:, None]).T.dot(Y - my)


def blk(*Ms):
    k = sum(len(M) for M in Ms)
    out = np.zeros((k, k))
    i = 0
    for M in Ms:
        out[i:i + len(M), i:i + len(M)] = M
        i += len(M)
    return out


def correct(mx, Px, my, Py, Pxy, z):
    K = np.linalg.solve(Py, Pxy.T).T
    return mx + K.dot(z - my), Px - K.dot(Pxy.T)


def step_additive(mu, P, f, g, Q, R, z):
    """One predict/correct step (f None: no transition); z None: missing."""
    if f is not None:
        X, w = sigma(mu, P)
        mu, P = moments(np.array([f(x) for x in X]), w)
        P = P + Q
    if z is None:
        return mu, P
    X, w = sigma(mu, P)
    Y = np.array([g(x) for x in X])
    my, Py = moments(Y, w)
    return correct(mu, P, my, Py + R, cross(X, mu, Y, my, w), z)


def step_augmented(mu, P, f, g, Q, R, z):
    n, m = len(mu), len(R)
    A, w = sigma(np.concatenate([mu, np.zeros(n + m)]), blk(P, Q, R))
    X = A[:, :n]
    if f is not None:
        X = np.array([f(a[:n], a[n:2 * n]) for a in A])
    mx, Px = moments(X, w)
    if z is None:
        return mx, Px
    Y = np.array([g(x, a[2 * n:]) for x, a in zip(X, A)])
    my, Py = moments(Y, w)
    return correct(mx, Px, my, Py, cross(X, mx, Y, my, w), z)


def run(kind, mu0, P0, fs, gs, Q, R, Z, smooth=False):
    """fs, gs: function of the step -> function.  Z: list of vectors or None.  Returns means, covariances."""
    step = step_augmented if kind == "UKF" else step_additive
    T = len(Z)
    ms, Ps = [], []
    for t in range(T):
        mu, P = (mu0, P0) if t == 0 else (ms[-1], Ps[-1])
        mu, P = step(np.asarray(mu, float), np.asarray(P, float), None if t == 0 else fs(t - 1), gs(t), Q, R, Z[t])
        ms.append(mu)
        Ps.append(P)
    if not smooth:
        return np.array(ms), np.array(Ps)
    sm, sP = [ms[-1]], [Ps[-1]]
    n = len(mu0)
    for t in reversed(range(T - 1)):
        mu, P, f = ms[t], Ps[t], fs(t)
        if kind == "UKF":
            A, w = sigma(np.concatenate([mu, np.zeros(n)]), blk(P, Q))
            X = A[:, :n]
            Y = np.array([f(a[:n], a[n:]) for a in A])
            my, Py = moments(Y, w)
        else:
            X, w = sigma(mu, P)
            Y = np.array([f(x) for x in X])
            my, Py = moments(Y, w)
            Py = Py + Q
        G = np.linalg.solve(Py, cross(X, mu, Y, my, w).T).T
        sm.insert(0, mu + G.dot(sm[0] - my))
        sP.insert(0, P + G.dot(sP[0] - Py).dot(G.T))
    return np.array(sm), np.array(sP)


def picker(fs):
    """A list of functions is indexed by the step, a single one serves every step."""
    if isinstance(fs, (list, tuple)):
        return lambda t: fs[t] if len(fs) > 1 else fs[0]
    return lambda t: fs
