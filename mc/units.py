"""A change of units of the states and observations: every answer must come out in the new units.

The factors are powers of two, so that the change itself is exact.  A unit is a pair of exponent lists, one entry per
component, cycled: (states, observations).  An optional third entry (es, eu) moves the origin as well, by 2**es for the
states and 2**eu for the observations (alternating in sign, None for no shift): everything then happens far from zero.
"""
import numpy as np

from .lin import SHORT

UNIFORM = [((-24,), (-24,)), ((24,), (24,)), ((-24,), (24,)), ((24,), (-24,))]
MIXED = [((-9, 9), (-9, 9)), ((9, -9), (0,)), ((0,), (9, -9))]
# to first order the implementations lose eps * (ratio of variances); measured margins are in DESIGN.md
MIXED_TOL = 1e-4
SHIFTED = [((0,), (0,), (24, 24)), ((0,), (0,), (None, 20)), ((0,), (0,), (20, None))]
SHIFT_TOL = 1e-5


class Units:
    def __init__(self, unit, n, m):
        ex, ez = unit[:2]
        es, eu = unit[2] if len(unit) > 2 else (None, None)
        self.S = 2.0 ** np.resize(np.array(ex, float), n)
        self.U = 2.0 ** np.resize(np.array(ez, float), m)
        self.mixed = len(set(self.S)) > 1 or len(set(self.U)) > 1
        self.shifted = len(unit) > 2
        self.s = (0.0 if es is None else 2.0 ** es) * (-1.0) ** np.arange(n)
        self.u = (0.0 if eu is None else 2.0 ** eu) * (-1.0) ** np.arange(m)
        self.tol = MIXED_TOL if self.mixed else SHIFT_TOL if self.shifted else 0.0
        S, U = self.S, self.U
        self.f = dict(A=np.outer(S, 1 / S), b=S, Q=np.outer(S, S), C=np.outer(U, 1 / S), d=U, R=np.outer(U, U), m=S,
                      P=np.outer(S, S))

    def par(self, k, v):
        return np.asarray(v, float) * self.f[k]

    def kwargs(self, kw, update=False):
        """Constructor arguments in the new units, functions included (they follow the parameters' order x, noise)."""
        long = {v: k for k, v in SHORT.items()}
        long.update((v[:-8] + v[-8:].replace("matrices", "matrix").replace("offsets", "offset"), k) for v, k in list(long.items()))
        fun = dict(transition_functions=self.trans, observation_functions=self.observe,
                   transition_function=self.trans, observation_function=self.observe)

        def one(k, v):
            if k in long:
                return self.par(long[k], v)
            if k in fun:
                return [fun[k](f) for f in v] if isinstance(v, list) else fun[k](v)
            return v
        new = {k: one(k, v) for k, v in kw.items()}
        if self.shifted:
            self.move(new, long, not update)
        return new

    def move(self, new, long, ctor):
        """Move the origin of states by s and of observations by u (in the new units)."""
        n, m = len(self.s), len(self.u)
        by = {long[k]: k for k in new if k in long}
        if ctor and not any(k.endswith("_functions") for k in new):     # the defaults move too
            for p, v in (("b", np.zeros(n)), ("d", np.zeros(m))):
                new.setdefault(SHORT[p], v)
                by[p] = SHORT[p]
        if ctor:
            new.setdefault(SHORT["m"], np.zeros(n))
            by["m"] = SHORT["m"]
        if "m" in by:
            new[by["m"]] = new[by["m"]] + self.s
        for p, q, off, dflt in (("A", "b", self.s, np.eye(n)), ("C", "d", self.u, np.eye(m, n))):
            if q in by:
                M = new[by[p]] if p in by else dflt
                new[by[q]] = new[by[q]] + off - np.matmul(M, self.s)

    def obs(self, X):
        return X * self.U + self.u

    def back(self, res):
        """Means and covariances of states in the old units (anything else is passed through)."""
        try:
            a, b = res
            return (a - self.s) / self.S, b / np.outer(self.S, self.S)
        except Exception:
            return res

    def loglik(self, v, nobs):
        return v + nobs * np.log(self.U).sum()

    def trans(self, f):
        S, s = self.S, self.s
        return lambda x, *w: S * f((np.asarray(x) - s) / S, *[np.asarray(a) / S for a in w]) + s

    def observe(self, g):
        S, U, s, u = self.S, self.U, self.s, self.u
        return lambda x, *v: U * g((np.asarray(x) - s) / S, *[np.asarray(a) / U for a in v]) + u


def of(case, n=None, m=None):
    """Units of a case, or None."""
    u = case.get("units")
    return Units(u, case["n"] if n is None else n, case["m"] if m is None else m) if u else None


def label(case):
    return f" units=2**{case['units']}" if case.get("units") else ""
