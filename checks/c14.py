"""C14: all histories of calls, attribute changes, in-place changes and overwritten results against fresh models."""
import copy
import itertools

import numpy as np

from mc import zoo
from mc.lin import SHORT, Model, attempt, exc, masked_obs, value

PID = "C14"
LEVEL = "model_checking"
RULE = ("all histories up to the depth over: the inference calls (several observation arrays, with and without missing steps, overrides), "
        "assigning a parameter, changing a parameter's contents, changing an observation array's contents, overwriting everything "
        "returned so far, EM, and calls on another instance sharing the parameter arrays; a state is (parameters, arrays, model): "
        "each call must return what a freshly built model returns for copies of the current values, and nothing but the "
        "intended values may change, compared byte for byte")
ASSUMPTIONS = []
N, MM, T = 2, 2, 3
QUERIES = ["filter X", "filter Y", "smooth X", "smooth Y", "loglik X", "loglik Y", "update", "update None", "update over", "sample", "sample x0"]
MUTATORS = ["X[1]=", "Y[0]=", "Y mask", "scribble", "em X", "em all Y", "sibling em", "sibling smooth"]
LIN_ATTR = "AbQCdRmP"
USC_ATTR = "AQCRmP"
UNAME = dict(A="transition_functions", Q="transition_covariance", C="observation_functions", R="observation_covariance",
             m="initial_state_mean", P="initial_state_covariance")


def ops(name):
    lin = name in zoo.LINEAR
    q = [x for x in QUERIES if lin or not x.startswith("loglik")]
    mu = [x for x in MUTATORS if lin or "em " not in x + " "]
    at = LIN_ATTR if lin else USC_ATTR
    mu += ["set " + k for k in at] + ["in " + k for k in at if lin or k not in "AC"]
    if lin:
        mu += ["per-step A", "unset b", "unset C"]
    else:
        mu += ["list A", "swap A"]
    return q, mu


def bounds(tier):
    return dict(depth="3 (last a call)" if tier == "quick" else "4 (last a call)", T=T,
                operations={k: len(sum(ops(k), [])) for k in zoo.ALL})


def cases(tier):
    out = []
    for name in zoo.ALL:
        q, mu = ops(name)
        # form L: every parameter and X as nested lists
        for form in ("c", "t", "d", "tL", "cL") if name in zoo.LINEAR else ("sn", "la", "laL"):
            if tier == "quick" and (name, form) in (("Chol", "c"), ("Bier", "c"), ("Bier", "d"), ("SAUKF", "sn"), ("UKF", "sn"), ("KF", "tL"), ("UKF", "laL"),
                                                    ("Chol", "cL"), ("Bier", "cL"), ("Chol", "tL"), ("SAUKF", "laL")):
                continue
            firsts = q + mu
            for a in firsts:
                if tier == "quick":
                    out.append(dict(cls=name, form=form, prefix=[a], more=2))
                else:
                    for b in firsts:
                        out.append(dict(cls=name, form=form, prefix=[a, b], more=2))
        for n, m, t in ((1, 1, 3), (1, 1, 1), (1, 2, 1), (3, 1, 4), (2, 3, 60)):
            for form in ("c", "t", "d", "cL") if name in zoo.LINEAR else ("sn", "la", "laL"):
                out += [dict(cls=name, form=form, prefix=[a], more=1 if tier == "quick" else 2, dims=(n, m, t)) for a in q + mu]
    return out


def snap(v):
    """A comparable picture of a value, byte for byte."""
    if isinstance(v, np.ma.MaskedArray):
        return ("m", v.dtype.str, v.shape, np.asarray(v.data).tobytes(), np.ma.getmaskarray(v).tobytes(), np.ma.getmask(v) is np.ma.nomask)
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.tobytes(), v.flags.writeable)
    if isinstance(v, zoo.Fun):
        return ("f", v.M.tobytes(), v.c.tobytes(), v.nl, v.mod, None if v.G is None else v.G.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snap(x) for x in v)
    return v if v is None or isinstance(v, (str, int, float)) else repr(v)


def scribble(r):
    if isinstance(r, tuple):
        for x in r:
            scribble(x)
    elif isinstance(r, np.ndarray):
        try:
            if isinstance(r, np.ma.MaskedArray):
                r.mask = True
            np.asarray(np.ma.getdata(r))[...] = 12345.0
        except ValueError:
            pass


def overwrite(a, v, at=None):
    """New contents for (an entry of) an array or nested lists; v is broadcast."""
    if at is not None and np.ndim(a) == 1:
        a[at] = float(np.ravel(v)[0])
    elif isinstance(a, np.ndarray):
        a[... if at is None else at] = v
    elif at is not None:
        overwrite(a[at], v)
    else:
        new = np.broadcast_to(v, np.shape(a)).tolist()
        for i, x in enumerate(new):
            if isinstance(x, list):
                overwrite(a[i], np.array(x))
            else:
                a[i] = x


TABLES = {}


class Run:
    def __init__(self, name, form, out, n=N, m=MM, T=T):
        self.name, self.form, self.out, self.n, self.m, self.T = name, form, out, n, m, T
        self.lin = name in zoo.LINEAR
        self.names = {k: SHORT[k] for k in LIN_ATTR} if self.lin else UNAME
        self.table = TABLES.setdefault((name, form, n, m, T), {})
        if len(self.table) > 60000:
            self.table.clear()
        self.base = zoo.kwargs(name, self.n, self.m, self.T, form.strip("L"))
        self.lists = form.endswith("L")
        if self.lists:
            self.base = {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in self.base.items()}
        z = zoo.obs(self.n, self.m, self.T)
        self.z = z

    def start(self):
        self.kw = {k: copy.deepcopy(v) if isinstance(v, (np.ndarray, list)) else v for k, v in self.base.items()}
        self.mod = zoo.cls(self.name)(**self.kw)
        self.sib = zoo.cls(self.name)(**self.kw)
        self.par = {k: getattr(self.mod, k) for k in self.names.values()}     # what the parameters should be
        self.exp = {k: snap(v) for k, v in self.par.items()}
        self.X = self.z[:, 0].copy() if self.m == 1 else self.z.copy()       # one-dimensional: as a vector
        if self.lists:
            self.X = self.X.tolist()
        self.Y = masked_obs(self.z[::-1].copy(), 2)
        self.mu, self.P, self.o = np.linspace(-0.5, 0.75, self.n), np.eye(self.n) * 1.5 + 0.25, self.z[min(1, self.T - 1)].copy()
        self.x0 = np.arange(self.n) - 0.25
        i = 9
        names = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance", C="observation_matrix",
                     d="observation_offset", R="observation_covariance")
        if self.lin:
            self.over = {v: value(k, "g", 40, self.n, self.m) for k, v in names.items()}
        else:
            f, g = zoo.functions(self.name, self.n, self.m, self.T, "sn")
            self.over = dict(transition_function=f, observation_function=g, transition_covariance=value("Q", "g", 40, self.n, self.m),
                             observation_covariance=value("R", "g", 40, self.n, self.m))
        self.k = 0
        self.results = []
        self.obs = dict(X=snap(self.X), Y=snap(self.Y))
        self.args = self.arg_snap()

    def arg_snap(self):
        return snap([self.mu, self.P, self.o, self.x0] + [v for v in self.over.values()])

    def call(self, op, mod, c):
        """c: how arguments are passed (identity for the model under test, deep copy for the reference)."""
        what, _, arg = op.partition(" ")
        data = self.X if arg == "X" else self.Y
        if what in ("filter", "smooth"):
            return getattr(mod, what)(c(data))
        if what == "loglik":
            return mod.loglikelihood(c(data))
        if what == "sample":
            return mod.sample(min(3, self.T), random_state=5, **(dict(initial_state=c(self.x0)) if arg else {}))
        if arg == "over":
            return mod.filter_update(c(self.mu), c(self.P), c(self.o), **{k: c(v) for k, v in self.over.items()})
        return mod.filter_update(c(self.mu), c(self.P), None if arg == "None" else c(self.o))

    def reference(self, op):
        key = (op, tuple(self.exp.values()), self.obs[op[-1]] if op[-1] in "XY" else None)
        if key not in self.table:
            cp = lambda v: v if isinstance(v, zoo.Fun) else [cp(x) for x in v] if isinstance(v, list) else copy.deepcopy(v)
            kw = {k: cp(v) for k, v in self.par.items() if v is not None}
            ok, mod = attempt(zoo.cls(self.name), n_dim_state=self.n, n_dim_obs=self.m, **kw)
            self.table[key] = attempt(self.call, op, mod, cp) if ok else (ok, mod)
            if self.table[key][0]:
                self.table[key] = (True, copy.deepcopy(self.table[key][1]))
        return self.table[key]

    def do(self, op):
        """One operation; returns what is wrong, or None; raises StopIteration where the history ends early."""
        mod, names = self.mod, self.names
        self.k += 1
        if op in QUERIES:
            ok, r = attempt(self.call, op, mod, lambda v: v)
            wok, want = self.reference(op)
            if not wok:
                if ok:
                    return f"{op} succeeded although a fresh model raises {exc(want)}"
                raise StopIteration
            if not ok:
                return f"{op} raised {exc(r)}"
            if not zoo.same(tuple(r) if isinstance(r, tuple) else r, want, 1e-9):
                return f"{op} returned {zoo.show(r)} but a fresh model with the same parameters returns {zoo.show(want)}"
            self.results.append(r)
        elif op == "scribble":
            for r in self.results:
                scribble(r)
        elif op.endswith("]="):
            a = self.X if op[0] == "X" else self.Y
            overwrite(a, np.array([0.75, -1.5, 2.0, 0.25])[:self.m] * self.k, min(int(op[2]), self.T - 1))
            self.obs[op[0]] = snap(a)
        elif op == "Y mask":
            self.Y[min(2, self.T - 1), 0] = np.ma.masked
            self.obs["Y"] = snap(self.Y)
        elif op.startswith("em "):
            args = dict(n_iter=1) if op == "em X" else dict(n_iter=2, em_vars=["transition_matrices", "observation_matrices", "initial_state_mean"])
            ok, r = attempt(mod.em, self.X if op == "em X" else self.Y, **args)
            if not ok or any(not np.all(np.isfinite(np.asarray(getattr(mod, k), float))) for k in names.values()):
                raise StopIteration       # values are the business of C07
            for k in names.values():
                self.par[k] = getattr(mod, k)
                self.exp[k] = snap(self.par[k])
        elif op == "sibling em":
            ok, r = attempt(self.sib.em, self.X, n_iter=1, em_vars="all")
        elif op == "sibling smooth":
            ok, r = attempt(self.sib.smooth, self.Y)
            if ok:
                self.results.append(r)
        else:
            what, _, k = op.partition(" ")
            attr = names[k]
            if what == "set":
                if not self.lin and k in "AC":
                    f, g = zoo.functions(self.name, self.n, self.m, 6, "ln")
                    v = (f if k == "A" else g)[1 + self.k]
                else:
                    v = value(k, "g", 60 + self.k, self.n, self.m)
            elif what == "per-step":
                v = np.array([value(k, "g", 70 + t, self.n, self.m) for t in range(self.T)])
            elif what == "unset":
                v = None
            elif what == "list":
                v = zoo.functions(self.name, self.n, self.m, self.T, "la")[0][::-1]
            elif what == "swap":
                v = getattr(mod, attr)
                if not isinstance(v, list) or len(v) < 2:
                    raise StopIteration
                v[0], v[1] = v[1], v[0]         # contents of the list of functions changed in place
                self.par[attr] = v
                self.exp[attr] = snap(v)
                return None
            else:
                cur = getattr(mod, attr)
                if not (isinstance(cur, list) or isinstance(cur, np.ndarray) and cur.flags.writeable):
                    raise StopIteration
                overwrite(cur, value(k, "g", 80 + self.k, self.n, self.m))      # contents changed in place
                self.exp[attr] = snap(cur)
                return None
            setattr(mod, attr, v)
            self.par[attr] = getattr(mod, attr)
            self.exp[attr] = snap(v)
        return None

    def frame(self, op):
        for k in self.names.values():
            v = getattr(self.mod, k)
            if snap(v) != self.exp[k]:
                return f"the model's {k} changed to {zoo.show(v) if isinstance(v, np.ndarray) else v}"
        if snap(self.X) != self.obs["X"] or snap(self.Y) != self.obs["Y"]:
            return "an observation array changed"
        if self.arg_snap() != self.args:
            return "an argument of filter_update or sample changed"


def run_case(case, out):
    run = Run(case["cls"], case["form"], out, *case.get("dims", (N, MM, T)))
    q, mu = ops(case["cls"])
    alphabet = q + mu
    n_last = case["more"]
    for tail in itertools.product(*([alphabet] * (n_last - 1) + [q])):
        hist = case["prefix"] + list(tail)
        run.start()
        out.traces += 1
        try:
            for i, op in enumerate(hist):
                out.states += 1
                out.transitions += 1
                bad = run.do(op) or run.frame(op)
                if bad:
                    out.fail(f"{case['cls']}.{op.split()[0]}", f"{case['cls']} ({case['form']}) history {hist[:i + 1]}: {bad} {case.get("dims") or ""}")
                    return
        except StopIteration:
            out.note("history ends (operation not applicable)")
            continue
        out.outcome(hash((tuple(run.exp.values()), run.obs["X"], run.obs["Y"])))
    out.sample = dict(case, history=hist)
