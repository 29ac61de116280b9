"""Linear-Gaussian models: a finite alphabet of parameters, and the reference semantics.

The reference is *not* a recursion.  It writes down the joint Gaussian of all states and all
observations of the sequence and conditions it on the observed entries (one dense solve per
question), so it shares no structure with the filters under test.
"""
import itertools
import os
import zlib

import numpy as np

PARAMS = ["transition_matrices", "transition_offsets", "transition_covariance",
          "observation_matrices", "observation_offsets", "observation_covariance",
          "initial_state_mean", "initial_state_covariance"]
SHORT = dict(A="transition_matrices", b="transition_offsets", Q="transition_covariance",
             C="observation_matrices", d="observation_offsets", R="observation_covariance",
             m="initial_state_mean", P="initial_state_covariance")
TV = "AbQCdR"          # parameters that may vary over time
KEYS = "AbQCdRmP"


def _rng(*key):
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7FFFFFFF)


def _round(x, q=16):
    return np.round(np.asarray(x) * q) / q


def _psd(n, r):
    if n > 6:                     # keep large matrices well conditioned
        L = np.tril(_round(r.uniform(-1, 1, (n, n)) / n, 256))
    else:
        L = np.tril(_round(r.uniform(-0.75, 0.75, (n, n)), 8))
    L[np.arange(n), np.arange(n)] = 0.5 + _round(r.uniform(0, 0.75, n), 8)
    return L.dot(L.T)


# the alphabet: variant letters per parameter, "g" (generic, dyadic) first
VARIANTS = dict(
    A=["g", "I", "0", "nil", "big", "rot", "cv"],
    b=["g", "0", "big"],
    Q=["g", "0", "diag0", "tiny", "huge", "I"],
    C=["g", "0", "row0", "dup", "I", "neg", "last"],
    d=["g", "0", "big"],
    R=["g", "diag", "tiny", "huge", "I"],
    m=["g", "0", "big"],
    P=["g", "0", "diag0", "tiny", "huge", "I"],
)


_CACHE = {}


def value(par, variant, t, n, m, salt=""):
    """Value of parameter `par` (a key of SHORT) at time t for dimensions (n, m)."""
    key = (par, variant, t, n, m, salt)
    if key not in _CACHE:
        if len(_CACHE) > 100000:
            _CACHE.clear()
        _CACHE[key] = _value(*key)
    return _CACHE[key].copy()


def _value(par, variant, t, n, m, salt):
    if variant[0] == "z":               # the generic matrix with zeros wherever the bit pattern has none
        g = _value(par, "g", t, n, m, salt)
        bits = int(variant[1:])
        return g * np.array([bits >> i & 1 for i in range(g.size)]).reshape(g.shape)
    if variant[0] == "e":               # a covariance whose correlations are those of the pairs in the bit pattern
        k = m if par == "R" else n
        pairs = list(itertools.combinations(range(k), 2))
        h = np.diag(1.0 + np.arange(k) / 2)
        for i, (a, b) in enumerate(pairs):
            if int(variant[1:]) >> i & 1:
                h[a, b] = h[b, a] = (-1) ** i * (0.5 + 0.0625 * i) / max(k - 2, 1)
        return h
    r = _rng(par, variant if variant in ("g",) else "g", t, n, m, salt)
    if par == "A":
        g = _round(r.uniform(-1, 1, (n, n))) if n <= 6 else _round(r.uniform(-2, 2, (n, n)) / np.sqrt(n), 64)
        return {"g": lambda: g, "I": lambda: np.eye(n), "0": lambda: np.zeros((n, n)),
                "nil": lambda: np.diag(np.ones(n - 1), 1) if n > 1 else np.array([[0.5]]),
                "cv": lambda: np.eye(n) + np.diag(np.ones(n - 1), 1),     # position, velocity, ...
                "big": lambda: 4.0 * g, "half": lambda: 0.5 * g,
                "rot": lambda: np.roll(np.eye(n), 1, axis=0)}[variant]()
    if par == "C":
        g = _round(r.uniform(-1, 1, (m, n)))

        def row0():
            h = g.copy()
            h[0] = 0
            return h

        def dup():
            h = g.copy()
            h[-1] = h[0]
            return h
        return {"g": lambda: g, "0": lambda: np.zeros((m, n)), "row0": row0, "dup": dup,
                "I": lambda: np.eye(m, n), "last": lambda: np.eye(m, n)[:, ::-1].copy(), "neg": lambda: -2.0 * g}[variant]()
    if par in "bdm":
        k = {"b": n, "m": n, "d": m}[par]
        g = _round(r.uniform(-2, 2, k))
        return {"g": lambda: g, "0": lambda: np.zeros(k), "big": lambda: 64.0 * g + 100}[variant]()
    k = m if par == "R" else n
    g = _psd(k, r)

    def diag0():
        h = np.diag(np.diag(g)).copy()
        h[0, 0] = 0.0
        return h
    def sing():
        h = g[:, :max(k - 1, 1)]        # correlated, but of rank k - 1
        h = _round(h.dot(h.T), 2 ** 20)
        return h
    return {"g": lambda: g, "0": lambda: np.zeros((k, k)), "diag0": diag0, "sing": sing, "diag": lambda: np.diag(np.diag(g)),
            "tiny": lambda: g * 2.0 ** -10, "huge": lambda: g * 2.0 ** 10, "I": lambda: np.eye(k)}[variant]()


TOLX = float(os.environ.get("VERIF_TOLX", "1"))     # to measure the margin of all comparisons

DEFAULT = dict(
    A=lambda n, m: np.eye(n), b=lambda n, m: np.zeros(n), Q=lambda n, m: np.eye(n),
    C=lambda n, m: np.eye(m, n), d=lambda n, m: np.zeros(m), R=lambda n, m: np.eye(m),
    m=lambda n, m: np.zeros(n), P=lambda n, m: np.eye(n))


class Model:
    """A model spec: kinds[p] in N (default) C (constant) V (per step) L (per step, longer than needed)."""

    def __init__(self, n, m, T, kinds=None, variants=None, salt=""):
        self.n, self.m, self.T = n, m, T
        self.kinds = dict({k: "C" for k in KEYS}, **(kinds or {}))
        self.variants = dict({k: "g" for k in KEYS}, **(variants or {}))
        self.salt = salt
        self.full = {}
        self.given = {}
        for p in KEYS:
            kind = self.kinds[p]
            steps = T if p in "CdR" else max(T - 1, 0)
            if kind == "N":
                v = DEFAULT[p](n, m)
                self.full[p] = [v] * max(steps, 1)
            elif kind == "C":
                v = value(p, self.variants[p], 0, n, m, salt)
                self.given[p] = v
                self.full[p] = [v] * max(steps, 1)
            else:
                extra = 2 if kind == "L" else 0
                vs = [self.entry(p, t) for t in range(max(steps + extra, 1))]
                self.given[p] = np.array(vs)
                self.full[p] = vs[:max(steps, 1)]

    def entry(self, p, t):
        """Entry t of a per-step parameter: a new value of the variant, or what a word over the variants ("g1.0.g1") says."""
        v = self.variants[p]
        i = t + 1
        if "." in v:
            word = v.split(".")
            v, i = word[t % len(word)], 1
            if len(v) > 1 and v[0] == "g":
                v, i = "g", int(v[1:])
        return value(p, v, i, self.n, self.m, self.salt)

    def spec(self):
        return dict(n=self.n, m=self.m, T=self.T, kinds=self.kinds, variants=self.variants, salt=self.salt)

    def kwargs(self):
        kw = {SHORT[p]: np.array(v, copy=True) for p, v in self.given.items()}
        # dimensions are given explicitly unless they can be inferred
        kw["n_dim_state"], kw["n_dim_obs"] = self.n, self.m
        return kw

    def obs(self, variant="g"):
        r = _rng("z", self.n, self.m, self.T, variant)
        z = _round(r.uniform(-3, 3, (self.T, self.m)))
        if variant == "big":
            z = z * 64 + 32
        elif variant == "0":                      # numbers that might be taken for something else
            z = np.zeros_like(z)
        elif variant == "alt":
            z[::2] = 0
        elif variant == "fill":
            z[::2] = np.ma.default_fill_value(z)
        elif variant == "same":
            z[:] = z[0]
        return z


class Joint:
    """Joint Gaussian of (x_0..x_{T-1}, z_0..z_{T-1}) of a Model (or of explicit per-step lists)."""

    def __init__(self, full, n, m, T):
        self.n, self.m, self.T, self.full = n, m, T, full
        A, b, Q, C, d, R = (full[k] for k in "AbQCdR")
        m0, P0 = full["m"][0], full["P"][0]
        N = n * T
        mean = np.zeros(N)
        F = np.zeros((N, N))          # states as a linear map of (x_0 - m0, w_0, w_1, ...)
        S = np.zeros((N, N))
        for t in range(T):
            s = slice(t * n, t * n + n)
            if t == 0:
                mean[s] = m0
                S[s, s] = P0
            else:
                p = slice((t - 1) * n, t * n)
                mean[s] = A[t - 1].dot(mean[p]) + b[t - 1]
                F[s, :] = A[t - 1].dot(F[p, :])
                S[s, s] = Q[t - 1]
            F[s, s] += np.eye(n)
        self.mx = mean
        self.Pxx = F.dot(S).dot(F.T)
        H = np.zeros((m * T, N))
        D = np.zeros(m * T)
        V = np.zeros((m * T, m * T))
        for t in range(T):
            so, s = slice(t * m, t * m + m), slice(t * n, t * n + n)
            H[so, s] = C[t]
            D[so] = d[t]
            V[so, so] = R[t]
        self.H, self.V = H, V
        self.mz = H.dot(mean) + D
        self.Pxz = self.Pxx.dot(H.T)
        self.Pzz = H.dot(self.Pxz) + V
        self.Pzz = 0.5 * (self.Pzz + self.Pzz.T)
        self.cache = {}

    def scale(self, t):
        n = self.n
        return max(np.abs(self.Pxx[t * n:t * n + n, t * n:t * n + n]).max(), 1e-300)

    def idx(self, steps):
        m = self.m
        return np.concatenate([np.arange(t * m, t * m + m) for t in steps]).astype(int) if len(steps) else np.zeros(0, int)

    def cond(self, steps):
        """(gain, covariance of all states, condition number) given the observations at `steps`."""
        key = tuple(steps)
        if key not in self.cache:
            i = self.idx(key)
            if len(i) == 0:
                self.cache[key] = (None, self.Pxx, 1.0)
            else:
                S = self.Pzz[np.ix_(i, i)]
                sc = np.sqrt(np.maximum(np.diag(S), 1e-300))
                Sn = S / np.outer(sc, sc)
                w = np.linalg.eigvalsh(Sn)
                kappa = w[-1] / w[0] if w[0] > 0 else np.inf
                # raw conditioning matters too: the implementation inverts the unscaled matrix
                ws = np.linalg.eigvalsh(S)
                kraw = ws[-1] / ws[0] if ws[0] > 0 else np.inf
                G = np.linalg.solve(Sn, (self.Pxz[:, i] / sc).T).T / sc
                P = self.Pxx - G.dot(self.Pxz[:, i].T)
                self.cache[key] = (G, 0.5 * (P + P.T), max(kappa, kraw))
        return self.cache[key]

    def posterior(self, z, steps):
        """mean, covariance of the stacked states given z[t] for t in steps."""
        G, P, k = self.cond(steps)
        if G is None:
            return self.mx, P, k
        i = self.idx(steps)
        return self.mx + G.dot(z.reshape(-1)[i] - self.mz[i]), P, k

    def block(self, mean, P, t, s=None):
        n = self.n
        a = slice(t * n, t * n + n)
        c = a if s is None else slice(s * n, s * n + n)
        return mean[a], P[a, c]

    def loglik(self, z, steps):
        i = self.idx(steps)
        if len(i) == 0:
            return 0.0
        S = self.Pzz[np.ix_(i, i)]
        e = z.reshape(-1)[i] - self.mz[i]
        sg, ld = np.linalg.slogdet(S)
        return -0.5 * (len(i) * np.log(2 * np.pi) + ld + e.dot(np.linalg.solve(S, e)))


def masks(T):
    """All patterns of missing rows, fewest missing first (bit t of the number = step t missing)."""
    return sorted(range(2 ** T), key=lambda k: (bin(k).count("1"), k))


def observed(T, bits):
    return [t for t in range(T) if not bits >> t & 1]


def masked_obs(z, bits):
    T = z.shape[0]
    mk = np.zeros(z.shape, bool)
    for t in range(T):
        if bits >> t & 1:
            mk[t] = True
    return np.ma.array(z.copy(), mask=mk)


def partly_masked(z, bits):
    """The same steps missing, of which only one component is masked (a different one each time) and the values are arbitrary."""
    T, m = z.shape
    X = np.ma.array(z.copy(), mask=np.zeros(z.shape, bool))
    for i, t in enumerate(t for t in range(T) if bits >> t & 1):
        X[t] = 7.0 - t
        X[t, (i + bits) % m] = np.ma.masked
    return X


def plain(x):
    """ndarray data of a result; None if the result has masked entries (never legitimate)."""
    if isinstance(x, np.ma.MaskedArray):
        if np.any(np.ma.getmaskarray(x)):
            return None
        return np.asarray(x.data, dtype=float)
    try:
        return np.asarray(x, dtype=float)
    except Exception:
        return None


def close(got, want, tol):
    got = plain(got)
    if got is None:
        return False
    want = np.asarray(want, float)
    if got.shape != want.shape:
        return False
    if not np.all(np.isfinite(got)):
        return False
    if got.size == 0:
        return True
    return bool(np.max(np.abs(got - want)) <= tol * TOLX)


def err(got, want):
    g = plain(got)
    if g is None:
        return "masked/unusable result"
    w = np.asarray(want, float)
    if g.shape != w.shape:
        return f"shape {g.shape} instead of {w.shape}"
    return f"got {np.array2string(g, precision=10).replace(chr(10), ' ')} want {np.array2string(w, precision=10).replace(chr(10), ' ')}"


def attempt(f, *a, **k):
    """(True, result) or (False, exception) of a call into the code under test."""
    try:
        return True, f(*a, **k)
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "Watchdog":
            raise
        return False, e


def exc(e):
    return f"{type(e).__name__}: {str(e)[:160]}"
