"""A random source whose unit normal draws are chosen by the explorer (the environment of sample)."""
import numpy as np


class Source(np.random.RandomState):
    """RandomState whose k-th unit normal draw is u[k] (0 beyond the end).  All Gaussian draws go through it."""

    def __init__(self, u=()):
        super().__init__(0)
        self.u, self.k, self.other = np.asarray(u, float), 0, []

    def standard_normal(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        out = np.zeros(n)
        have = self.u[self.k:self.k + n]
        out[:len(have)] = have
        self.k += n
        return float(out[0]) if size is None else out.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * self.standard_normal(size)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8):
        mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
        if mean.ndim != 1 or cov.ndim != 2 or cov.shape[0] != cov.shape[1] or cov.shape[0] != len(mean):
            raise ValueError("mean and cov must have same length")
        w, V = np.linalg.eigh((cov + cov.T) / 2)
        L = V * np.sqrt(np.maximum(w, 0))
        shape = () if size is None else tuple(np.atleast_1d(size))
        return mean + self.standard_normal(shape + (len(mean),)).dot(L.T)

    def _refuse(self, what):
        def f(*a, **k):
            self.other.append(what)
            return getattr(super(Source, self), what)(*a, **k)
        return f


for _name in ("uniform", "random_sample", "rand", "random", "randint", "choice", "standard_t", "laplace", "exponential",
              "permutation", "shuffle", "standard_cauchy", "gamma", "standard_gamma", "lognormal", "logistic"):
    def _f(self, *a, _name=_name, **k):
        self.other.append(_name)
        return getattr(np.random.RandomState, _name)(self, *a, **k)
    setattr(Source, _name, _f)
