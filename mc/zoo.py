"""Models of all six filter classes, built from the same finite alphabet, with picklable functions."""
import numpy as np

from .lin import TOLX, Model, value
from .linspace import ALLC, ALLN, ALLV, ALLV_CQ, kinds_dict

LINEAR = ("KF", "Chol", "Bier")
UNSCENTED = ("UKF", "AUKF", "SAUKF")
ALL = LINEAR + UNSCENTED


def cls(name):
    import pykalman
    import pykalman.sqrt
    return dict(KF=pykalman.KalmanFilter, Chol=pykalman.sqrt.CholeskyKalmanFilter, Bier=pykalman.sqrt.BiermanKalmanFilter,
                UKF=pykalman.UnscentedKalmanFilter, AUKF=pykalman.AdditiveUnscentedKalmanFilter,
                SAUKF=pykalman.sqrt.AdditiveUnscentedKalmanFilter)[name]


class Fun:
    """x -> M x + c + nl * bend(x) [+ noise], bend smooth and bounded; the noise enters additively, through
    the matrix G, or modulated by the state.  only: 'p' the last component of x alone matters, 'e' an even function,
    'k' constant, 'r' kinked, 'q' quadratic; with at: the point at is mapped to itself (only 'z': to zero)."""

    def __init__(self, M, c, nl=0.0, G=None, mod=0.0, only="", at=None):
        self.only, self.at = only, at
        self.M, self.c, self.nl, self.G, self.mod = np.asarray(M, float), np.asarray(c, float), nl, G, mod
        self.calls = 0

    def mean(self, x):
        x = np.asarray(x, float)
        if self.only == "p":
            x = np.where(np.arange(len(x)) == len(x) - 1, x, 0.0)
        elif self.only == "e":
            x = x * x / (1 + x * x)
        if self.only == "k":
            return self.c.copy()
        if self.only == "r":
            x = np.maximum(x - 0.2, 0.0)
        if self.only == "q":
            return np.resize(np.append(x.dot(x), x), len(self.c)) + 0.25 * self.c
        if self.at is not None:
            k = len(self.c)
            y = np.zeros(k) if self.only == "z" else np.resize(self.at, k)
            return y + 0.5 * self.M.dot(x - self.at) + self.nl * (self.bend(x, k) - self.bend(self.at, k))
        y = self.M.dot(x) + self.c
        if self.nl:
            y = y + self.nl * self.bend(x, len(y))
        return y

    @staticmethod
    def bend(x, k):
        s = np.sin(x + 0.3)
        return np.resize(s, k) + 0.5 * np.resize(np.roll(s, 1) * np.cos(x), k)

    def __call__(self, x, w=None):
        y = self.mean(x)
        if w is not None:
            w = np.asarray(w, float)
            if self.G is not None:
                w = self.G.dot(w)
            if self.mod:
                w = w * (1.0 + self.mod * np.resize(np.sin(x), len(w)))
            y = y + w
        return y


class Impure:
    """The same function, which spoils its arguments and returns its result in one array over and over again."""

    def __init__(self, f):
        self.f, self.buf = f, None

    def __call__(self, *args):
        r = np.array(self.f(*[np.array(a, float) for a in args]))
        if self.buf is None or self.buf.shape != r.shape:
            self.buf = np.zeros(r.shape)
        self.buf[...] = r
        for a in args:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = np.nan
        return self.buf


def impure(kw):
    """Arguments with all functions made impure."""
    return {k: ([Impure(f) for f in v] if isinstance(v, list) else Impure(v)) if "_function" in k else v for k, v in kw.items()}


def functions(name, n, m, T, form):
    """(transition functions, observation functions) for an unscented class.

    form: letters 's' single functions, 'l' lists; 'a' affine, 'n' non-linear; 'g' noise through a matrix,
    'm' noise modulated by the state (UKF only), 'x' lists with two functions more than there are steps,
    'p' functions of the last component, 'e' even functions, 'k' constant ones, 'r' kinked ones, 'q' quadratic ones,
    'f' the initial mean is a fixed point, 'z' it is mapped to zero, 'o' one function object for both."""
    nl = 0.4 if "n" in form else 0.0
    ukf = name == "UKF"
    G = value("A", "g", 77, n, n) + 1.5 * np.eye(n) if ukf and "g" in form else None
    H = value("A", "g", 78, m, m) + 1.5 * np.eye(m) if ukf and "g" in form else None
    mod = 0.25 if ukf and "m" in form else 0.0
    only = next((c for c in "pekrqz" if c in form), "")
    at = value("m", "g", 0, n, m) if "f" in form or "z" in form else None
    k = T + 2 * ("x" in form) if "l" in form else 1
    fs = [Fun(value("A", "g", 50 + t, n, m), value("b", "g", 50 + t, n, m), nl, G, mod, only, at) for t in range(max(k - 1, 1))]
    gs = [Fun(value("C", "g", 50 + t, n, m), value("d", "g", 50 + t, n, m), nl, H, mod, only, at) for t in range(k)]
    if "o" in form:
        gs = [fs[min(t, len(fs) - 1)] for t in range(k)]
    if "l" in form:
        return fs, gs
    return fs[0], gs[0]


def kwargs(name, n, m, T, form):
    """Constructor arguments.  Linear classes: form 'c' constant, 't' per-step, 'd' defaults."""
    if name in LINEAR:
        kinds = {"c": ALLC, "t": ALLV if name == "KF" else ALLV_CQ, "d": ALLN}[form]
        return Model(n, m, T, kinds_dict(kinds), salt="zoo").kwargs()
    f, g = functions(name, n, m, T, form)
    return dict(transition_functions=f, observation_functions=g,
                transition_covariance=value("Q", "g", 0, n, m), observation_covariance=value("R", "g", 0, n, m),
                initial_state_mean=value("m", "g", 0, n, m), initial_state_covariance=value("P", "g", 0, n, m),
                n_dim_state=n, n_dim_obs=m)


def build(name, n, m, T, form, **more):
    kw = kwargs(name, n, m, T, form)
    kw.update(more)
    return cls(name)(**kw)


def obs(n, m, T):
    return Model(n, m, T, salt="zoo").obs()


def same(a, b, tol=1e-9):
    """Numerically equal pairs/arrays/floats (NaN never equals)."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if np.ma.is_masked(a) or np.ma.is_masked(b):
        return False
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return False
    return a.size == 0 or bool(np.max(np.abs(a - b)) <= TOLX * tol * (1 + np.max(np.abs(b))))


def show(a):
    return np.array2string(np.asarray(a[0] if isinstance(a, tuple) else a, float), precision=8).replace("\n", "")[:200]
