"""C21: the numerical helpers on every small integer instance, judged with exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import exact
from mc.lin import TOLX, attempt, exc

PID = "C21"
LEVEL = "model_checking"
RULE = ("every instance of the stated finite spaces of integer matrices and vectors is given to the real routine and its result is compared "
        "with the defining identity, evaluated exactly where the identity involves division; a state is one instance")
ASSUMPTIONS = ["identities hold up to rounding: 1e-11 of the largest entry (1e-7 where a downdate makes the matrix singular)"]


def bounds(tier):
    return dict(udu="all PSD integer matrices: n<=2 entries -3..4, n=3 diagonal 0..3, off-diagonal -2..2, n=4 diagonal 0..2, off -1..1",
                cholupdate="all upper-triangular integer factors n<=3 with entries -1..2, vectors -2..2, 6 weights, pairs of vectors at n=2",
                qr="all integer matrices up to 4x2 with entries -1..1, 3x3 with entries -1..1",
                scales="1, 2**-24, 2**24 of the standard deviations (and 2**-10, 2**10), two mixed units 2**(9,-9,..)")


def sym_matrices(n, diag, off):
    pairs = list(itertools.combinations(range(n), 2))
    for d in itertools.product(diag, repeat=n):
        for o in itertools.product(off, repeat=len(pairs)):
            if any(v * v > d[i] * d[j] for (i, j), v in zip(pairs, o)):
                continue
            M = [[0] * n for _ in range(n)]
            for i in range(n):
                M[i][i] = d[i]
            for (i, j), v in zip(pairs, o):
                M[i][j] = M[j][i] = v
            yield M


def psd(M):
    """Exact test by symmetric elimination: True (definite), None (semidefinite), False."""
    A = [[F(x) for x in r] for r in M]
    n = len(A)
    left = list(range(n))
    definite = True
    while left:
        if any(A[i][i] < 0 for i in left):
            return False
        p = max(left, key=lambda i: A[i][i])
        if A[p][p] == 0:
            definite = False
            if any(A[i][j] != 0 for i in left for j in left):
                return False
            break
        left.remove(p)
        for i in left:
            f = A[i][p] / A[p][p]
            for j in left:
                A[i][j] -= f * A[p][j]
    return True if definite else None


def cases(tier):
    big = tier != "quick"
    out = []
    for sc in (0, -20, 20, -48, 48):
        out.append(dict(kind="udu", n=1, diag=[0, 9], off=[0, 1], sc=sc, part=0, of=1))
        out.append(dict(kind="udu", n=2, diag=[0, 5], off=[-3, 4], sc=sc, part=0, of=1))
        for p in range(4):
            out.append(dict(kind="udu", n=3, diag=[0, 4], off=[-2, 3], sc=sc, part=p, of=4))
            out.append(dict(kind="udu", n=4, diag=[0, 3 if not big else 4], off=[-1, 2], sc=sc, part=p, of=4))
        out.append(dict(kind="udu", n=3, diag=[0, 4], off=[-2, 3], sc=sc, part=0, of=8, integer=True))
    for mix in (18, -18):           # components in very different units (definite matrices only)
        out.append(dict(kind="udu", n=2, diag=[0, 5], off=[-3, 4], sc=0, mix=mix, part=0, of=1))
        for p in range(4):
            out.append(dict(kind="udu", n=3, diag=[0, 4], off=[-2, 3], sc=0, mix=mix, part=p, of=4))
    for w in (1, 2, 0.25, -1, -0.25, -2):
        out.append(dict(kind="chol", n=1, w=w, part=0, of=1, off=[-2, 3], vecs=1))
        out.append(dict(kind="chol", n=2, w=w, part=0, of=1, off=[-2, 3], vecs=1))
        out.append(dict(kind="chol", n=2, w=w, part=0, of=1, off=[-1, 2], vecs=2))
        for p in range(4):
            out.append(dict(kind="chol", n=3, w=w, part=p, of=4, off=[-1, 2] if not big else [-2, 3], vecs=1))
    for N, L in [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (1, 2), (2, 3)] + ([(4, 3)] if big else []):
        for p in range(4):
            out.append(dict(kind="qr", N=N, L=L, part=p, of=4))
    for n in (1, 2, 3, 4, 5, 6):
        for ex in ((0,), (-24,), (24,)) + (((9, -9), (-9, 9)) if n > 1 else ()):
            out += [dict(kind="points", n=n, part=p, of=2, ex=ex) for p in range(2)]
    for n in (1, 2, 3, 4, 5):
        for p in range(2):
            out.append(dict(kind="density", n=n, part=p, of=2))
    for m in (1, 2, 3):
        for ex in ((0,), (-24,), (24,)) + (((9, -9), (-9, 9)) if m > 1 else ()):
            out.append(dict(kind="decorrelate", m=m, ex=ex))
    return out


def share(it, case):
    return (x for i, x in enumerate(it) if i % case["of"] == case["part"])


def near(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.isfinite(got))) and \
        (got.size == 0 or np.abs(got - want).max() <= tol * TOLX * max(np.abs(want).max(), 1e-300))


def get(out, mod, name):
    """The routine, or None (noted) if the package no longer offers it."""
    import importlib
    try:
        return getattr(importlib.import_module("pykalman." + mod), name)
    except (ImportError, AttributeError):
        out.note(f"no {mod}.{name}")
        return None


def run_case(case, out):
    out.sample = case
    out.outcome(case)
    globals()["run_" + case["kind"]](case, out)


def step(out):
    out.states += 1
    out.transitions += 1
    out.traces += 1


def run_udu(case, out):
    udu = get(out, "sqrt.bierman", "udu")
    if udu is None:
        return
    s = 2.0 ** case["sc"]
    mix = 2.0 ** np.resize([case.get("mix", 0) / 2, -case.get("mix", 0) / 2], case["n"])
    back = np.outer(mix, mix)
    few = 1e-11 if not case.get("mix") else 1e-4
    for M in share(sym_matrices(case["n"], range(*case["diag"]), range(*case["off"])), case):
        if psd(M) is False or case.get("mix") and not psd(M):
            continue
        A = np.array(M) if case.get("integer") else np.array(M, float) * s * back
        keep = A.copy()
        ok, r = attempt(udu, A)
        step(out)
        if not ok:
            out.fail("udu", f"udu({A.tolist()}): {exc(r)}")
            return
        U, D = np.asarray(r.U, float), np.asarray(r.D, float)
        n = len(M)
        scale = max(np.abs(keep / back).max(), 1e-300)
        ok2, rec = attempt(r.reconstruct)
        if not np.array_equal(np.diag(U), np.ones(n)) or np.any(np.tril(U, -1) != 0) or D.shape != (n,) or np.any(D / mix ** 2 < -1e-12 * scale):
            out.fail("udu", f"udu({A.tolist()}): U {U.tolist()} D {D.tolist()} not unit upper triangular with non-negative diagonal")
            return
        want = np.asarray(keep, float)
        got = (U * D).dot(U.T)
        if not np.abs((got - want) / back).max() <= few * TOLX * scale or not ok2 or \
                not np.abs((np.asarray(rec, float) - want) / back).max() <= few * TOLX * scale:
            out.fail("udu", f"udu({A.tolist()}): U {U.tolist()} D {D.tolist()} gives {got.tolist()}")
            return
        if not np.array_equal(A, keep):
            out.fail("udu", f"udu changes its argument {keep.tolist()}")
            return


def factors(n, off):
    tri = list(itertools.combinations(range(n), 2))
    for d in itertools.product((0, 1, 2), repeat=n):
        for o in itertools.product(range(*off), repeat=len(tri)):
            B = [[0] * n for _ in range(n)]
            for i in range(n):
                B[i][i] = d[i]
            for (i, j), v in zip(tri, o):
                B[i][j] = v
            yield B


def run_chol(case, out):
    cholupdate = get(out, "sqrt.unscented", "cholupdate")
    if cholupdate is None:
        return
    n, w = case["n"], case["w"]
    vec = list(itertools.product(range(-2, 3) if n < 3 and case["vecs"] == 1 else range(-1, 2) if n == 3 else (-1, 0, 2), repeat=n))
    for B in share(factors(n, case["off"]), case):
        A = [[sum(B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        zero = [i for i in range(n) if B[i][i] == 0]
        for xs in itertools.product(vec, repeat=case["vecs"]):
            W = [[F(A[i][j]) for j in range(n)] for i in range(n)]
            verdict, skip = True, False
            for x in xs:
                W = [[W[i][j] + F(w) * x[i] * x[j] for j in range(n)] for i in range(n)]
                verdict = psd(W)
                if verdict is False:
                    skip = True
                    break
            if skip:
                continue
            if w < 0 and zero:
                continue            # downdating a factor that is singular already: no unique triangular form is promised
            for s in (1.0, 2.0 ** -26, 2.0 ** 26):
                B2 = np.array(B, float) * s
                X = np.array(xs, float) * s
                X = X[0] if len(xs) == 1 and s == 1.0 else X
                kB, kX = B2.copy(), X.copy()
                ok, r = attempt(cholupdate, B2, X, w)
                step(out)
                if not ok:
                    out.fail("cholupdate", f"cholupdate({B}, {xs}, {w}) scaled {s}: {exc(r)}")
                    return
                r = np.asarray(r, float)
                want = exact.fl(W) * s * s
                scale = max(np.abs(np.array(A)).max(), np.abs(want).max() / s / s, 1e-300) * s * s
                tol = 1e-11 if verdict else 1e-7
                if r.shape != (n, n) or not np.all(np.isfinite(r)) or np.abs(np.tril(r, -1)).max(initial=0) > 1e-9 * scale ** 0.5 \
                        or np.abs(r.T.dot(r) - want).max() > tol * TOLX * scale:
                    out.fail("cholupdate", f"cholupdate({B}, {xs}, {w}) scaled {s}: {r.tolist()}, R'R {r.T.dot(r).tolist()} instead of {want.tolist()}")
                    return
                if not np.array_equal(B2, kB) or not np.array_equal(X, kX):
                    out.fail("cholupdate", "cholupdate changes its arguments")
                    return
            if len(xs) == 1:
                ok, r = attempt(cholupdate, np.array(B), np.array(xs[0]), w)         # integer types
                step(out)
                if not ok or not np.abs(np.asarray(r, float).T.dot(r) - exact.fl(W)).max() <= 1e-7 * TOLX * max(1, np.abs(exact.fl(W)).max(), np.abs(np.array(A)).max()):
                    out.fail("cholupdate", f"cholupdate of integer arrays {B}, {xs}, {w}: {exc(r) if not ok else np.asarray(r).tolist()}")
                    return


def run_qr(case, out):
    qr = get(out, "sqrt.unscented", "qr")
    if qr is None:
        return
    N, L = case["N"], case["L"]
    for e in share(itertools.product((-1, 0, 1), repeat=N * L), case):
        for s in (1.0, 2.0 ** -26, 2.0 ** 26):
            A = np.array(e, float).reshape(N, L) * s
            ok, R = attempt(qr, A)
            step(out)
            if N < L:
                if ok or not isinstance(R, ValueError):
                    out.fail("qr", f"qr of a {N}x{L} matrix {'is accepted' if ok else exc(R)}")
                    return
                continue
            if not ok or np.shape(R) != (L, L) or np.abs(np.tril(R, -1)).max(initial=0) > 1e-12 * s or \
                    np.abs(R.T.dot(R) - A.T.dot(A)).max() > 1e-12 * TOLX * 10 * s * s:
                out.fail("qr", f"qr({A.tolist()}): {exc(R) if not ok else np.asarray(R).tolist()}")
                return


def definite(n, diag, off, most):
    k = 0
    for M in sym_matrices(n, diag, off):
        if psd(M) is True:
            yield M
            k += 1
            if k >= most:
                return


def run_points(case, out):
    n = case["n"]
    plain = get(out, "unscented", "moments2points"), get(out, "unscented", "points2moments"), get(out, "unscented", "unscented_transform")
    root = get(out, "sqrt.unscented", "moments2points"), get(out, "sqrt.unscented", "points2moments"), None
    Moments = get(out, "unscented", "Moments")
    spaces = {1: (range(1, 5), (0,)), 2: (range(1, 5), range(-2, 3)), 3: (range(1, 4), range(-1, 2)), 4: (range(2, 4), (0, 1)), 5: ((1, 3), (0,)), 6: ((2, 3), (0,))}
    u = 2.0 ** np.resize(np.array(case["ex"], float), n)        # the points are handed over in these units
    uu = np.outer(u, u)
    loose = 1e-9 if len(set(u)) < 2 else 1e-5
    settings = [{}] + [dict(alpha=a, beta=b, kappa=k) for a in (1.0, 0.5) for b in (0.0, 2.0) for k in (0.0, 1.0, 3.0 - n) if n + k > 0]
    from mc.lin import value
    for M in share(definite(n, *spaces[n], 400 if n < 4 else 150), case):
        S = np.array(M, float)
        mu = np.arange(n) - 0.5
        for form, (m2p, p2m, ut) in (("plain", plain), ("square-root", root)):
            if m2p is None or p2m is None or Moments is None:
                continue
            second = S * uu if form == "plain" else np.linalg.cholesky(S).T * u
            for st in settings:
                ok, p = attempt(m2p, Moments(mu * u, second), **st)
                step(out)
                what = f"{form} sigma points of mean {mu.tolist()}, covariance {M}, units 2**{case['ex']}, {st}"
                if not ok:
                    out.fail("points", f"{what}: {exc(p)}")
                    return
                X, wm, wc = np.asarray(p[0], float) / u, np.asarray(p[1], float), np.asarray(p[2], float)
                if X.shape[1:] != (n,) or not near(wm.sum(), 1.0, 1e-10) or not near(wm.dot(X) + 1, mu + 1, loose) or \
                        not near((X - mu).T.dot(np.diag(wc)).dot(X - mu), S, loose):
                    out.fail("points", f"{what}: weighted mean {wm.dot(X).tolist()}, covariance {(X - mu).T.dot(np.diag(wc)).dot(X - mu).tolist()}")
                    return
                if not st and not near(np.sort(np.unique(np.round([(x - mu).dot(np.linalg.solve(S, x - mu)) for x in X], 4 if loose > 1e-9 else 8))), [0.0, 3.0], 1e-7 + loose):
                    out.fail("points", f"{what}: points are not the centre and points at squared distance 3")
                    return
                for noise in (None, value("Q", "g", 3, n, 1)):
                    arg = () if noise is None else (noise * uu if form == "plain" else np.linalg.cholesky(noise).T * u,)
                    ok, r = attempt(p2m, p, *arg)
                    step(out)
                    want = S if noise is None else S + noise
                    if ok:
                        c = np.asarray(r[1], float)
                        c = (c if form == "plain" else c.T.dot(c)) / uu
                    if not ok or not near(np.ravel(r[0]) / u + 1, mu + 1, loose) or not near(c, want, loose):
                        out.fail("points", f"{what}: moments of the points {exc(r) if not ok else (np.ravel(r[0]).tolist(), c.tolist())}")
                        return
                if ut is not None:
                    A, b = value("A", "g", 5, n, 1), value("b", "g", 5, n, 1)
                    ok, r = attempt(ut, p, lambda x: u * (A.dot(x / u) + b))
                    step(out)
                    if not ok or not near(np.ravel(r[1][0]) / u + 5, A.dot(mu) + b + 5, loose) or not np.abs(np.asarray(r[1][1]) / uu - A.dot(S).dot(A.T)).max() < loose * np.abs(S).max():
                        out.fail("points", f"{what}: transform by an affine function {exc(r) if not ok else r[1]}")
                        return


def run_density(case, out):
    f = get(out, "utils", "log_multivariate_normal_density")
    if f is None:
        return
    n = case["n"]
    spaces = {1: (range(1, 9), (0,)), 2: (range(1, 6), range(-3, 4)), 3: (range(1, 4), range(-2, 3)), 4: (range(2, 4), (-1, 0, 1)), 5: (range(2, 4), (0, 1))}
    pts = [list(x) for x in itertools.product((-1, 0, 2) if n < 4 else (0, 2), repeat=n)]
    centres = [[F(1, 2)] * n, [F(-i) for i in range(n)], [F(10 ** 6)] + [F(3, 4)] * (n - 1)]
    for M in share(definite(n, *spaces[n], 10 ** 9 if n < 4 else 60), case):
        for s in (0, -10, 10, -44, 44):
            S = [[F(x) * F(2) ** s for x in r] for r in M]
            factor = [(k,) + det_inv(S, k) for k in (1, 4, F(1, 16))]
            for nmix, rows in ((2, len(pts)), (1, len(pts)), (3, 1), (3, 4)):
                if (nmix, rows) != (2, len(pts)) and s:
                    continue
                X = np.array(pts[:rows], float if rows != 4 else int)
                args = [X, np.array([[float(x) for x in m] for m in centres[:nmix]]), np.array([exact.fl(S) * float(k) for k, _, _ in factor[:nmix]])]
                keep = [a.copy() for a in args]
                ok, r = attempt(f, *args)
                step(out)
                if not ok or np.shape(r) != (len(X), nmix):
                    out.fail("density", f"log density for covariance {M} * 2^{s}: {exc(r) if not ok else np.shape(r)}")
                    return
                if not all(a.dtype == b.dtype and np.array_equal(a, b) for a, b in zip(args, keep)):
                    out.fail("density", f"log density for covariance {M} * 2^{s} changes its arguments")
                    return
                for c, (mu, (k, det, inv)) in enumerate(zip(centres[:nmix], factor)):
                    for i, x in enumerate(X.tolist()):
                        e = [F(a) - b for a, b in zip(x, mu)]
                        q = float(sum(e[a] * inv[a][b] * e[b] for a in range(n) for b in range(n)))
                        want = -0.5 * (q + n * math.log(2 * math.pi) + math.log(det))
                        out.states += 1
                        if not abs(r[i, c] - want) <= 1e-10 * TOLX * (1 + abs(q)):
                            out.fail("density", f"log density of {x} for mean {[float(v) for v in mu]}, covariance {M} * 2^{s} * {k}: {r[i, c]} instead of {want}")
                            return


def det_inv(S, k):
    n = len(S)
    A = [[x * k for x in r] for r in S]
    inv = exact.solve(A, [[F(int(i == j)) for j in range(n)] for i in range(n)])
    det, B = F(1), [list(r) for r in A]
    for i in range(n):
        det *= B[i][i]
        for r in range(i + 1, n):
            g = B[r][i] / B[i][i]
            B[r] = [x - g * y for x, y in zip(B[r], B[i])]
    return det, inv


def run_decorrelate(case, out):
    f = get(out, "sqrt.bierman", "decorrelate_observations")
    if f is None:
        return
    m, n, T = case["m"], 2, 3
    from mc.lin import value
    spaces = {1: (range(1, 5), (0,)), 2: (range(1, 5), range(-2, 3)), 3: (range(1, 4), range(-1, 2))}
    u = 2.0 ** np.resize(np.array(case["ex"], float), m)
    loose = 1e-10 if len(set(u)) < 2 else 1e-5
    for M in definite(m, *spaces[m], 10 ** 9):
        R = np.array(M, float)
        Ri = np.linalg.inv(R)
        R = R * np.outer(u, u)
        for tv_c, tv_d, miss in itertools.product((0, 1), (0, 1), range(3)):
            C = np.array([value("C", "g", t, n, m) for t in range(T)]) if tv_c else value("C", "g", 0, n, m)
            d = np.array([value("d", "g", t, n, m) for t in range(T)]) if tv_d else value("d", "g", 0, n, m)
            z = np.ma.array(np.arange(T * m, dtype=float).reshape(T, m) - 1)
            if miss:
                z[miss] = np.ma.masked
            ok, r = attempt(f, u[:, None] * C, u * d, R, z * u)
            step(out)
            what = f"decorrelation with covariance {M}, units 2**{case['ex']}, per-step matrices {tv_c}, offsets {tv_d}, missing {miss or None}"
            if not ok:
                out.fail("decorrelate", f"{what}: {exc(r)}")
                return
            C2, d2, R2, z2 = r
            Wi = np.linalg.inv(np.asarray(R2, float))
            if np.abs(np.asarray(R2) - np.diag(np.diag(R2))).max() > 1e-12 * np.abs(R2).max():
                out.fail("decorrelate", f"{what}: the new covariance is not diagonal")
                return
            for t in range(T):
                a = np.column_stack([C[t] if tv_c else C, d[t] if tv_d else d, z.data[t]])
                b = np.column_stack([C2[t] if tv_c else C2, d2[t] if tv_d else d2, np.asarray(np.ma.getdata(z2))[t]])
                if miss and t == miss:
                    if not np.all(np.ma.getmaskarray(z2)[t]):
                        out.fail("decorrelate", f"{what}: the missing observation is not masked any more")
                        return
                    a, b = a[:, :-1], b[:, :-1]
                elif np.any(np.ma.getmaskarray(z2)[t]):
                    out.fail("decorrelate", f"{what}: observation {t} became masked")
                    return
                if not near(b.T.dot(Wi).dot(b), a.T.dot(Ri).dot(a), loose):
                    out.fail("decorrelate", f"{what}: at {t} the quadratic form of (matrix, offset, observation) changes")
                    return
