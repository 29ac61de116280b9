"""C23: everything that arrives after construction, in every wrong size."""
import itertools

import numpy as np

from mc import zoo
from mc.lin import attempt, exc

PID = "C23"
LEVEL = "model_checking"
RULE = ("for each class, dimensions (n, m) and calling method: observations of every wrong width under every missing pattern that leaves a step "
        "observed, flat lists of every wrong length, online observations, means and covariances of every wrong size, initial states of every "
        "wrong size, each per-step parameter (or list of functions) of every insufficient length alone and with all others per step, and user functions whose "
        "result has a wrong size at any one step, must be refused with an error, while the same call with the right size is answered and the "
        "model answers as before afterwards")
ASSUMPTIONS = ["a refusal is any exception; which steps of a too short parameter are looked at when their observation is missing is not judged"]
LONG = dict(A="transition_matrices", b="transition_offsets", Q="transition_covariance", C="observation_matrices", d="observation_offsets",
            R="observation_covariance")


def bounds(tier):
    k = 3 if tier == "quick" else 4
    return dict(dims=f"1..{k} x 1..{k}", widths="1..max+3", T="1..4" if tier == "quick" else "1..6")


def cases(tier):
    k, T = (3, 4) if tier == "quick" else (4, 6)
    out = []
    for n, m in sorted(itertools.product(range(1, k + 1), repeat=2), key=sum):
        for name in zoo.ALL:
            for kind in ("observations", "update", "initial", "short") + (("functions",) if name in zoo.UNSCENTED else ()):
                for form in ("c", "t") if name in zoo.LINEAR else ("sa", "sn", "ln"):
                    if kind == "functions" and form == "sa" or kind == "short" and form not in ("c", "t", "ln", "sn"):
                        continue
                    if kind == "update" and form in ("t", "ln"):
                        continue
                    out.append(dict(kind=kind, cls=name, n=n, m=m, T=T, form=form))
    return out


class Site:
    def __init__(self, case, out):
        self.case, self.out = case, out
        self.name, self.n, self.m, self.T, self.form = (case[k] for k in ("cls", "n", "m", "T", "form"))
        self.lin = self.name in zoo.LINEAR
        self.z = zoo.obs(self.n, self.m, self.T)
        self.kw = zoo.kwargs(self.name, self.n, self.m, self.T, self.form)
        self.methods = ["filter", "smooth"] + (["loglikelihood", "em"] if self.lin else [])

    def model(self, **more):
        return zoo.cls(self.name)(**dict(self.kw, **more))

    def call(self, model, meth, *a):
        if meth == "em":
            return model.em(*a, n_iter=1, em_vars=["transition_covariance", "initial_state_mean"])
        if meth == "sample":
            return model.sample(*a, random_state=3)
        return getattr(model, meth)(*a)

    def refused(self, key, what, model, f):
        """The call must be refused and leave the model usable."""
        out = self.out
        out.states += 1
        out.transitions += 1
        out.traces += 1
        ok, r = attempt(f)
        out.outcome(hash((key, ok, type(r).__name__)))
        if ok:
            out.fail(f"{key}:{self.name}", f"{self.name} (n={self.n}, m={self.m}, form {self.form}) {what} was answered: {show(r)}")
        return not ok

    def answered(self, key, what, f):
        self.out.states += 1
        self.out.transitions += 1
        ok, r = attempt(f)
        if not ok:
            self.out.fail(f"{key}-right:{self.name}", f"{self.name} (n={self.n}, m={self.m}, form {self.form}) {what} of the right size: {exc(r)}")
        return ok


def show(r):
    try:
        return zoo.show(r)
    except Exception:  # noqa: BLE001
        return repr(r)[:120]


def run_case(case, out):
    s = Site(case, out)
    base = s.model()
    ok, before = attempt(base.filter, s.z)
    if not ok:
        out.fail(f"build:{s.name}", f"{s.name} (n={s.n}, m={s.m}): filter fails: {exc(before)}")
        return
    globals()["run_" + case["kind"]](s, case, out)
    out.sample = dict(case)


def wide(z, w):
    return np.resize(np.concatenate([z, 0.5 + z], axis=1), (len(z), w)) if w else z[:, :0]


def run_observations(s, case, out):
    for meth in s.methods:
        for T in range(1, s.T + 1):
            z = s.z[:T]
            if not s.answered("width", f"{meth} of {T} observations", lambda: s.call(s.model(), meth, z)):
                return
            for w in range(1, s.m + 4):
                if w == s.m or T == 1 and s.m == 1:
                    continue
                for mask in itertools.product((0, 1), repeat=T):
                    if T > 1 and all(mask):
                        continue
                    if T == 1 and any(mask):
                        continue
                    X = wide(z, w)
                    if any(mask):
                        X = np.ma.array(X, mask=np.repeat(np.array(mask, bool)[:, None], w, 1))
                    model = s.model()
                    if not s.refused("width", f"{meth} of {T} observations of width {w}, missing {[int(b) for b in mask]}", model, lambda: s.call(model, meth, X)):
                        return
        for L in range(1, s.T + 1):
            if s.m == 1 or L == s.m:
                continue
            model = s.model()
            if not s.refused("flat", f"{meth} of a flat list of {L} numbers", model, lambda: s.call(model, meth, [float(i) for i in range(L)])):
                return
    after(s, base_answer(s))


def base_answer(s):
    return attempt(s.model().filter, s.z)[1]


def after(s, want):
    """One model that has refused everything still answers."""
    model = s.model()
    for X in (wide(s.z, s.m + 1), wide(s.z, s.m + 2)):
        for meth in s.methods:
            if s.m + 1 != 1:
                attempt(s.call, model, meth, X)
    ok, r = attempt(model.filter, s.z)
    s.out.states += 1
    if s.name in zoo.LINEAR or ok:
        if not ok or not zoo.same(r, want, 1e-7):
            s.out.fail(f"after:{s.name}", f"{s.name} (n={s.n}, m={s.m}, form {s.form}): after refused calls filter gives {show(r)} instead of {show(want)}")


def run_update(s, case, out):
    n, m = s.n, s.m
    mu, P = attempt(s.model().filter, s.z[:1])[1]
    mu, P = np.array(mu[0]), np.array(P[0])
    o = s.z[1]
    if not s.answered("update", "filter_update", lambda: s.model().filter_update(mu, P, o)):
        return
    if not s.answered("update", "filter_update without observation", lambda: s.model().filter_update(mu, P)):
        return
    for w in range(1, m + 4):
        if w != m:
            for v in (np.resize(o, w), np.ma.array(np.resize(o, w)), np.ma.array(np.resize(o, w), mask=False)):
                model = s.model()
                if not s.refused("update-observation", f"filter_update with {w} observed components", model, lambda: model.filter_update(mu, P, v)):
                    return
    big = np.eye(n + 4) * 2.0 + 0.25
    for w in range(1, n + 4):
        if w == n:
            continue
        bad = [("a mean", np.resize(mu, w), P)]
        bad += [("a covariance", mu, big[:a, :b]) for a, b in ((w, w), (w, n), (n, w))]
        for what, x, V in bad:
            for obs in (o, None):
                model = s.model()
                label = f"filter_update({'o' if obs is not None else 'None'}) with {what} of shape {(x if what == 'a mean' else V).shape}"
                if not s.refused("update-" + what.split()[1], label, model, lambda: model.filter_update(x, V, obs) if obs is not None else model.filter_update(x, V)):
                    return


def run_initial(s, case, out):
    for T in range(1, s.T + 1):
        if not s.answered("initial", f"sample({T}, x0)", lambda: s.call(s.model(), "sample", T, np.arange(s.n) - 0.5)):
            return
        for w in range(1, s.n + 4):
            if w == s.n:
                continue
            for v in (np.arange(w) - 0.5, list(np.arange(w) - 0.5)):
                model = s.model()
                if not s.refused("initial", f"sample({T}) from a state of {w} components", model, lambda: s.call(model, "sample", T, v)):
                    return


def run_short(s, case, out):
    T = s.T
    if s.lin:
        const = zoo.kwargs(s.name, s.n, s.m, T, "c")
        slots = {a: np.array([np.asarray(const[a], float)] * T) for k, a in LONG.items() if a in const and (s.name == "KF" or k in "AbCd")}
    else:
        fs, gs = zoo.functions(s.name, s.n, s.m, T, "l" + ("n" if "n" in s.form else "a"))
        slots = dict(transition_functions=fs, observation_functions=gs)
    for a, full in slots.items():
        for L in range(1 if s.lin else 2, T):
            for meth in s.methods + ["sample"]:
                for steps in range(1, T + 1):
                    need = steps if a.startswith("obs") else steps - 1
                    arg = steps if meth == "sample" else s.z[:steps]
                    model = s.model(**{a: full[:L]})
                    if L >= need:
                        if meth == "em" and steps < 2:
                            continue
                        if not s.answered("short", f"{meth} of {steps} steps with {a} given for {L} steps", lambda: s.call(model, meth, arg)):
                            return
                    elif not s.refused("short", f"{meth} of {steps} steps with {a} given for {L} steps", model, lambda: s.call(model, meth, arg)):
                        return


class Wrong(zoo.Fun):
    """A function whose result has another number of components."""

    def __init__(self, f, w):
        super().__init__(f.M, f.c, f.nl, f.G, f.mod)
        self.w = w

    def __call__(self, *a):
        return np.resize(super().__call__(*a), self.w)


def run_functions(s, case, out):
    T = s.T
    listed = "l" in s.form
    for a, size in (("transition_functions", s.n), ("observation_functions", s.m)):
        v = s.kw[a]
        for at in range(len(v)) if listed else (0,):
            for w in range(1, size + 4):
                if w == size:
                    continue
                bad = [Wrong(f, w) if i == at else f for i, f in enumerate(v)] if listed else Wrong(v, w)
                for meth in s.methods:
                    model = s.model(**{a: bad})
                    if not s.refused("functions", f"{meth} with {a} returning {w} components at step {at if listed else 'any'}", model, lambda: s.call(model, meth, s.z)):
                        return
                if not listed:
                    model = s.model(**{a: bad})
                    mu, P = np.zeros(s.n), np.eye(s.n)
                    if not s.refused("functions", f"filter_update with {a} returning {w} components", model, lambda: model.filter_update(mu, P, s.z[0])):
                        return
