"""C15: all methods under every representation of every parameter, argument and observation (singly, pairwise, all at once)."""
import functools
import itertools

import numpy as np

from mc import zoo
from mc.lin import KEYS, SHORT, Model, attempt, exc, masked_obs, value

PID = "C15"
LEVEL = "model_checking"
RULE = ("for each class, shape and value set (integers, integers too large for sums and products of their own type, dyadic fractions), every slot (parameter, initial state, observations, "
        "filter_update argument, override, initial_state of sample) is given in every representation, alone, for all pairs of slots "
        "and for all slots at once (per-step parameters also in every memory layout and container), and every method is executed (single parameters also assigned to the attribute after construction); user functions as lists, tuples, "
        "arrays of functions or partial objects, returning arrays, lists, tuples or numbers; the results must be those for native float arrays")
ASSUMPTIONS = ["the values used are exactly representable in every type used; single-precision inputs may lower the precision of the "
               "result to single precision, extended precision is not supported by the linear algebra underneath"]
FLOAT = ["list", "tuple", ">f8", "F", "strided", "readonly", "rows", "f4", ">f4", "neg", "matrix", "subclass"]
INT = ["int list", "i8", "i4", ">i4", ">i8", "i2", "int F", "int readonly", "mixed"]
WIDE = ["i1", "u1", "i2", ">u2", "u8"]          # values so large that sums and products do not fit into one byte
OBS = ["ma matrix", "ma hard", "ma", "ma nomask", "ma int", "ma F", "ma >f8", "ma strided"]


class Subclass(np.ndarray):
    pass


def represent(v, form, what):
    v = np.asarray(v, float)
    if form == "native":
        return v.copy()
    if form == "repeat":
        return np.repeat(v[None], what, axis=0)
    if form == "scalar":
        return v.reshape(-1)[0].item()
    if form == "int scalar":
        return int(v.reshape(-1)[0])
    if form == "flat":
        return v.reshape(-1).tolist()
    if form == "flat array":
        return v.reshape(-1)
    if form == "matrix":
        return np.matrix(v)
    if form == "subclass":
        return v.view(Subclass)
    if form == "ma matrix":
        return np.ma.array(np.matrix(v))
    if form == "ma hard":
        return np.ma.array(v, mask=np.zeros(v.shape, bool), hard_mask=True)
    if form == "list":
        return v.tolist()
    if form == "rows":
        return [np.array(r) for r in v]
    if form == "tuple":
        f = lambda x: tuple(f(y) for y in x) if isinstance(x, list) else x
        return f(v.tolist())
    if form == "F":
        return np.asfortranarray(v)
    if form == "strided":
        big = np.full(tuple(3 * k + 2 for k in v.shape), 777.0)
        ix = tuple(slice(1, 1 + 3 * k, 3) for k in v.shape)
        big[ix] = v
        return big[ix]
    if form == "neg":
        ix = tuple(slice(None, None, -1) for _ in v.shape)
        return v[ix].copy()[ix]
    if form == "readonly":
        v = v.copy()
        v.flags.writeable = False
        return v
    if form in ["f4", ">f4", ">f8", "i8", "i4", ">i4", ">i8", "i2"] + WIDE:
        return v.astype(form)
    if form == "int list":
        return v.astype(int).tolist()
    if form == "int F":
        return np.asfortranarray(v.astype(int))
    if form == "int readonly":
        w = v.astype(int)
        w.flags.writeable = False
        return w
    if form == "mixed":                 # a nested list mixing ints and floats
        f = lambda x, i=0: [f(y, i + j) for j, y in enumerate(x)] if isinstance(x, list) else (int(x) if i % 2 else float(x))
        return f(v.tolist())
    if form == "ma":
        return np.ma.array(v, mask=np.zeros(v.shape, bool))
    if form == "ma nomask":
        return np.ma.array(v)
    if form == "ma int":
        return np.ma.array(v.astype(int), mask=False)
    if form == "ma F":
        return np.ma.array(np.asfortranarray(v), mask=np.zeros(v.shape, bool))
    if form == "ma >f8":
        return np.ma.array(v.astype(">f8"), mask=False)
    if form == "ma strided":
        return np.ma.array(represent(v, "strided", what))
    raise KeyError(form)


def ints(p, n, m):
    g = value(p, "g", 3, n, m, "rep")
    if p in "QRP":
        L = np.tril(np.round(2 * g))
        k = len(L)
        L[np.arange(k), np.arange(k)] = 1 + np.arange(k) % 2
        return L.dot(L.T)
    return np.round(2 * g)


def wide(p, n, m):
    """Whole numbers from 0 to 125."""
    g = value(p, "g", 3, n, m, "rep")
    if p in "QRP":
        L = np.abs(ints(p, n, m))
        L = np.tril(L) % 3 + np.eye(len(L))
        g = L.dot(L.T)
        return g * (120 // g.max())
    return np.abs(np.round(2 * g)) % 5 + (2 * np.eye(*g.shape) if g.ndim == 2 else 70 + 10 * np.arange(len(g)))


class Returning:
    """A user function whose result comes in another form."""

    def __init__(self, f, form):
        self.f, self.form = f, form

    def __call__(self, *a):
        y = self.f(*a)
        return y.tolist() if self.form == "returns list" else tuple(y.tolist()) if self.form == "returns tuple" else float(y[0])


def functions(f, h, form):
    if form is None:
        return f, h
    if form == "partial":
        return functools.partial(f), functools.partial(h)
    if form.startswith("returns"):
        return Returning(f, form), Returning(h, form)
    fs, hs = [f] * (T - 1), [h] * T
    if form == "tuple of functions":
        return tuple(fs), tuple(hs)
    if form == "array of functions":
        return np.array(fs, dtype=object), np.array(hs, dtype=object)
    return fs, hs


def slots(name):
    s = list(KEYS) if name in zoo.LINEAR else list("QRmP") + ["fg"]
    return s + ["X", "mu", "S", "o", "x0"] + ["u" + k for k in ("AbQCdR" if name in zoo.LINEAR else "QR")]


def forms(slot, vals, n, m, name):
    if slot == "fg":
        return ["list of functions", "tuple of functions", "array of functions", "returns list", "returns tuple", "partial"] + (["returns scalar"] if n == m == 1 else [])
    f = list(FLOAT) if vals == "dyadic" else ["list", "f4"] + INT if vals == "int" else list(WIDE)
    if slot == "X":
        f += OBS if vals == "int" else [x for x in OBS if x != "ma int"] if vals == "dyadic" else ["ma int"]
        if m == 1:
            f += ["flat", "flat array"]
    k = slot[-1]
    if slot == "o":
        f += ["ma", "ma nomask"]
    one = {"A": n * n, "b": n, "Q": n * n, "C": n * m, "d": m, "R": m * m, "m": n, "P": n * n, "u": n, "S": n * n, "o": m, "0": n}.get(k, 99)
    if one == 1 and slot != "X":
        f += ["scalar"] + (["int scalar"] if vals == "int" else [])
    if slot in (list("AbQCdR") if name == "KF" else list("AbCd") if name in zoo.LINEAR else []):
        f.append("repeat")
    if slot in ("b", "d", "m", "mu", "o", "x0", "ub", "ud"):
        f = [x for x in f if x not in ("rows", "matrix")]
    if slot in ("mu", "S"):            # documented as arrays
        f = [x for x in f if x not in ("list", "tuple", "rows", "scalar", "int scalar", "int list", "mixed")]
    if slot[0] == "u":
        f = [x for x in f if x not in ("scalar", "int scalar")]
    return f


def bounds(tier):
    return dict(shapes=shapes(tier), representations=len(FLOAT + INT + OBS + WIDE) + 5, deviations="1, 2 and all at once")


def shapes(tier):
    return [(2, 2), (1, 1), (2, 1), (1, 2)] if tier == "quick" else [(2, 2), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 1), (1, 3)]


def cases(tier):
    out = []
    for name in zoo.ALL:
        for n, m in shapes(tier):
            for vals in ("dyadic", "int", "wide"):
                ss = slots(name)
                for s in ss:
                    out.append(dict(cls=name, n=n, m=m, vals=vals, pair=[s]))
                allf = sorted(set(sum((forms(s, vals, n, m, name) for s in ss if s != "fg"), [])))
                out.append(dict(cls=name, n=n, m=m, vals=vals, pair=[], every=allf))
                main = [s for s in ss if s[0] != "u" and s != "fg"]
                if tier == "quick" and (n, m) != (2, 2):
                    continue
                for a, b in itertools.combinations(main, 2):
                    out.append(dict(cls=name, n=n, m=m, vals=vals, pair=[a, b], short=tier == "quick"))
    for name in zoo.LINEAR:
        for n, m in shapes(tier):
            for vals in ("dyadic", "int", "wide"):
                for s in STEPPED[name] + ["all", "CdX" if name != "KF" else "QRX"]:
                    out.append(dict(kind="stepped", cls=name, n=n, m=m, vals=vals, slots=s))
    out.append(dict(kind="single"))
    out.sort(key=lambda c: len(c.get("pair", "")))
    return out


T = 3
REF = {}


def base_values(name, n, m, vals):
    f = ints if vals == "int" else wide if vals == "wide" else lambda p, n, m: value(p, "g", 3, n, m, "rep")
    v = {p: f(p, n, m) for p in KEYS}
    if vals == "int":
        v["C"] = v["C"] + np.eye(m, n)
    z = Model(n, m, T, salt="rep").obs()
    v["X"] = np.round(z) if vals == "int" else np.abs(np.round(20 * z)) % 120 if vals == "wide" else z
    v.update(mu=v["m"] + 1, S=v["P"] + np.eye(n), o=v["X"][1] + 1, x0=v["m"] - 1)
    for k in "AbQCdR":
        g = f(k, n, m)
        v["u" + k] = g + (np.eye(len(g)) if k in "QR" else 1)
    return v


UARG = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance", C="observation_matrix",
            d="observation_offset", R="observation_covariance")


def execute(name, n, m, v, rep):
    """All methods for one assignment of representations (slot -> form)."""
    def g(s):
        form = rep.get(s, "native")
        count = T if s in "CdR" else T - 1
        return represent(v[s], form, count)
    lin = name in zoo.LINEAR
    assigned = rep.get("via") == "assigned"

    def build():
        if lin and assigned:
            mod = zoo.cls(name)(n_dim_state=n, n_dim_obs=m)
            for k in KEYS:
                setattr(mod, SHORT[k], g(k))
            return mod
        if lin:
            return zoo.cls(name)(n_dim_state=n, n_dim_obs=m, **{SHORT[k]: g(k) for k in KEYS})
        nl = 0.25
        f, h = zoo.Fun(v["A"], v["b"], nl), zoo.Fun(v["C"], v["d"], nl)
        f, h = functions(f, h, rep.get("fg"))
        if assigned:
            mod = zoo.cls(name)(n_dim_state=n, n_dim_obs=m)
            mod.transition_functions, mod.observation_functions = f, h
            mod.transition_covariance, mod.observation_covariance = g("Q"), g("R")
            mod.initial_state_mean, mod.initial_state_covariance = g("m"), g("P")
            return mod
        return zoo.cls(name)(f, h, n_dim_state=n, n_dim_obs=m, transition_covariance=g("Q"), observation_covariance=g("R"),
                             initial_state_mean=g("m"), initial_state_covariance=g("P"))
    res = {}
    res["new"] = ok, mod = attempt(build)
    if not ok:
        return res
    used = set(rep) - {"via"}
    par = used - {"X", "mu", "S", "o", "x0"} - {"u" + k for k in UARG}
    if par or "X" in used or not rep:
        res["filter"] = attempt(lambda: mod.filter(g("X")))
        res["smooth"] = attempt(lambda: mod.smooth(g("X")))
        if lin:
            res["loglikelihood"] = attempt(lambda: mod.loglikelihood(g("X")))
            if rep.get("Q") != "repeat" or rep.get("R") != "repeat":
                def em():
                    e = build().em(g("X"), n_iter=1, em_vars=["transition_matrices", "observation_covariance", "initial_state_mean",
                                                              "transition_offsets"])
                    return tuple(np.asarray(getattr(e, SHORT[k]), float) for k in "ARmb")
                res["em"] = attempt(em)

                def em2():
                    e = build().em(g("X"), n_iter=1, em_vars=["observation_matrices", "observation_offsets", "transition_covariance",
                                                              "initial_state_covariance"])
                    return tuple(np.asarray(getattr(e, SHORT[k]), float) for k in "CdQP")
                res["em the others"] = attempt(em2)
    if par or "x0" in used or not rep:
        def sample(**kw):
            x, z = mod.sample(3, random_state=4, **kw)
            return (x, np.ma.filled(z.astype(float), np.nan))
        if par or not rep:
            res["sample"] = attempt(sample)
        res["sample x0"] = attempt(lambda: sample(initial_state=g("x0")))
    if used - {"X", "x0"} or not rep:
        if not any(f == "repeat" or f.endswith("of functions") for f in rep.values()):
            res["filter_update"] = attempt(lambda: mod.filter_update(g("mu"), g("S"), g("o")))
            res["filter_update None"] = attempt(lambda: mod.filter_update(g("mu"), g("S")))
        over = [k for k in (UARG if lin else "QR") if "u" + k in used]
        if over or not rep:
            res["filter_update over"] = attempt(lambda: mod.filter_update(g("mu"), g("S"), g("o"), **{UARG[k]: g("u" + k) for k in over}))
    return res


def reference(name, n, m, vals, over):
    key = (name, n, m, vals, over)
    if key not in REF:
        v = base_values(name, n, m, vals)
        REF[key] = execute(name, n, m, v, {"u" + k: "native" for k in over})
        REF[key].update({k: r for k, r in execute(name, n, m, v, {}).items() if k not in REF[key]})
    return REF[key]


def compare(case, rep, out):
    name, n, m, vals = (case[k] for k in ("cls", "n", "m", "vals"))
    over = "".join(s[1] for s in rep if s[0] == "u")
    want = reference(name, n, m, vals, over)
    got = execute(name, n, m, base_values(name, n, m, vals), rep)
    tol = 1e-3 if any("f4" in f for f in rep.values()) else 1e-8
    out.traces += 1
    for meth, (ok, r) in got.items():
        if meth == "new":
            if not ok:
                out.fail(f"{name}.new", f"{name}(...) with {rep}: {exc(r)}")
                return False
            continue
        wok, w = want[meth]
        if not wok:
            out.note(f"native form refused ({name} {meth})")
            continue
        out.states += 1
        out.transitions += 1
        r = tuple(r) if isinstance(r, (tuple, list)) else r
        if not ok or not zoo.same(r, w, tol):
            out.fail(f"{name}.{meth}", f"{name}.{meth} n={n} m={m} ({vals} values) with {rep}: {exc(r) if not ok else zoo.show(r)} "
                     f"instead of {zoo.show(w)}")
            return False
        out.outcome(name, n, m, meth, vals, zoo.show(w))
    return True


def run_single(case, out):
    """A single multi-dimensional observation is one time step; a flat list is a sequence of one-dimensional ones."""
    for name in zoo.ALL:
        for n in (1, 2, 3):
            for m in (1, 2, 3, 4):
                form = "c" if name in zoo.LINEAR else "sn"
                ok, mod = attempt(zoo.build, name, n, m, 1, form)
                if not ok:
                    out.fail(f"{name}.new", exc(mod))
                    return
                z = Model(n, m, 5, salt="one").obs()
                pairs = [(z, np.ma.array(z))]
                if m > 1:
                    pairs += [(z[:1], f(z[0])) for f in (np.array, list, tuple, np.ma.array, lambda v: v.astype(">f8"), lambda v: [v])]
                    mk = np.ma.array(z[:1], mask=[[True] + [False] * (m - 1)])
                    pairs += [(mk, mk[0])]
                else:
                    mk = np.ma.array(z, mask=np.arange(5)[:, None] == 2)
                    pairs += [(z, f(z[:, 0])) for f in (np.array, list, tuple, np.ma.array)] + [(mk, mk[:, 0])]
                    pairs += [(z[:1], f(z[0])) for f in (np.array, list)] + [(z[:1], np.ma.array(z[0]))]
                for full, short in pairs:
                    for meth in ("filter", "smooth") + (("loglikelihood",) if name in zoo.LINEAR else ()):
                        wok, w = attempt(getattr(mod, meth), full)
                        ok, r = attempt(getattr(mod, meth), short)
                        out.states += 1
                        out.transitions += 1
                        out.traces += 1
                        if not wok or not ok or not zoo.same(r, w, 1e-9):
                            out.fail(f"{name}.{meth} single", f"{name}.{meth} n={n} m={m}: observations {short!r} give "
                                     f"{exc(r) if not ok else zoo.show(r)} instead of {zoo.show(w) if wok else exc(w)}")
                            return
    out.sample = dict(kind="single")


STEPPED = dict(KF=list("AbQCdR"), Chol=list("AbCd"), Bier=list("AbCd"))
STACKED = FLOAT[:6] + ["rows", "f4", ">f4", "neg", "subclass", "tuple of rows", "F rows"]


def stacked(v, form):
    """Forms of an array with one entry per time step."""
    if form.startswith("axes "):
        p = [int(c) for c in form[5:]]
        return np.ascontiguousarray(v.transpose(p)).transpose(np.argsort(p))
    if form == "tuple of rows":
        return tuple(np.array(r) for r in v)
    if form == "F rows":
        return [np.asfortranarray(r) for r in v]
    if form == "mixed rows":
        return [r.tolist() if i % 2 else np.array(r) for i, r in enumerate(v)]
    if form == "same rows":
        r = np.array(v[0])
        return [r] * len(v)
    if form == "broadcast":
        return np.broadcast_to(v[0], v.shape)
    return represent(v, form, None)


def run_stepped(case, out):
    """Per-step parameters: every memory layout and container, one parameter at a time and all at once."""
    name, n, m, vals = (case[k] for k in ("cls", "n", "m", "vals"))
    base = base_values(name, n, m, vals)

    def steps(p, equal):
        count = 4 if p in "CdR" else 3
        f = ints if vals == "int" else wide if vals == "wide" else lambda p, n, m: value(p, "g", 3, n, m, "rep")
        g = f(p, n, m)
        if equal:
            return np.stack([g] * count)
        if vals == "wide":
            return np.stack([np.roll(g, i, tuple(range(g.ndim))) if p in "AbCd" or i % 2 == 0 else np.flip(g) for i in range(count)])
        return np.stack([g + (i * np.eye(len(g)) if p in "QR" else i * np.arange(1, 1 + g.size).reshape(g.shape) / (1 if vals == "int" else 4))
                         for i in range(count)])

    which = STEPPED[name] if case["slots"] == "all" else [s for s in case["slots"] if s != "X"]
    z = Model(n, m, 4, salt="rep").obs()
    z = np.abs(np.round(20 * z)) % 120 if vals == "wide" else np.round(z) if vals == "int" else z

    def execute(form):
        ok, mod = attempt(lambda: zoo.cls(name)(n_dim_state=n, n_dim_obs=m, **{SHORT[k]: give(k, form) for k in KEYS}))
        if not ok:
            return dict(new=(ok, mod))
        X = z if form is None or case["slots"][-1] != "X" else represent(z, form, None) if form in FLOAT + INT + WIDE else z
        res = {"filter": attempt(lambda: mod.filter(X)), "smooth": attempt(lambda: mod.smooth(X)),
               "loglikelihood": attempt(lambda: mod.loglikelihood(X)),
               "filter missing": attempt(lambda: mod.filter(masked_obs(np.asarray(X, float), 5))),
               "sample": attempt(lambda: tuple(np.asarray(v, float) for v in mod.sample(4, random_state=4))),
               "filter_update": attempt(lambda: mod.filter_update(base["mu"], base["S"], base["o"], **{
                   UARG[k]: give(k, form)[2] if k in which else base[k] for k in "AbQCdR"}))}

        def em():
            e = zoo.cls(name)(n_dim_state=n, n_dim_obs=m, **{SHORT[k]: give(k, form) for k in KEYS})
            e.em(X, n_iter=1, em_vars=["initial_state_mean", "initial_state_covariance"])
            return tuple(np.asarray(getattr(e, SHORT[k]), float) for k in "mP")
        res["em"] = attempt(em)
        return res

    def give(k, form):
        if k not in which:
            return base[k].copy()
        v = steps(k, form in ("broadcast", "same rows", "equal"))
        return v if form in (None, "equal") else stacked(v, form)

    want = {None: execute(None), "equal": execute("equal")}
    fs = {"dyadic": STACKED + ["mixed rows", "same rows", "broadcast"], "int": ["rows", "F", "list"] + INT, "wide": ["list"] + WIDE}[vals]
    if vals == "dyadic":
        fs = fs + ["axes " + "".join(p) for d in (2, 3) for p in itertools.permutations("012"[:d]) if list(p) != sorted(p)]
    for form in fs:
        if form.startswith("axes "):
            d = len(form) - 5
            if any((2 if k in "bd" else 3) != d for k in which):
                continue
        got = execute(form)
        tol = 1e-3 if "f4" in form else 1e-8
        out.traces += 1
        ref = want["equal" if form in ("broadcast", "same rows") else None]
        for meth, (ok, r) in got.items():
            if meth not in ref or meth == "new":
                out.fail(f"{name}.new", f"{name}(...) with {form} per-step {which}: {exc(r)}")
                return
            wok, w = ref[meth]
            if not wok:
                out.note(f"native form refused ({name} {meth})")
                continue
            out.states += 1
            out.transitions += 1
            r = tuple(r) if isinstance(r, (tuple, list)) else r
            if not ok or not zoo.same(r, tuple(w) if isinstance(w, list) else w, tol):
                out.fail(f"{name}.{meth}", f"{name}.{meth} n={n} m={m} ({vals} values) with per-step {which} as {form}: "
                         f"{exc(r) if not ok else zoo.show(r)} instead of {zoo.show(w)}")
                return
            out.outcome(name, n, m, meth, vals, form, zoo.show(w))
    out.sample = case


def run_case(case, out):
    if case.get("kind") == "stepped":
        return run_stepped(case, out)
    if case.get("kind") == "single":
        return run_single(case, out)
    name, n, m, vals = (case[k] for k in ("cls", "n", "m", "vals"))
    out.sample = case
    if not case["pair"]:
        for form in case["every"]:
            rep = {s: form for s in slots(name) if form in forms(s, vals, n, m, name)}
            if not compare(case, rep, out):
                return
        return
    fs = [forms(s, vals, n, m, name) for s in case["pair"]]
    if case.get("short"):
        fs = [[x for x in f if x in (">f8", "F", "i8", "int list", "repeat", "ma", "f4")] for f in fs]
    for combo in itertools.product(*fs):
        rep = dict(zip(case["pair"], combo))
        if not compare(case, rep, out):
            return
        if len(combo) == 1 and (case["pair"][0] in KEYS or case["pair"][0] == "fg") and not compare(case, dict(rep, via="assigned"), out):
            return
