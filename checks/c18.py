"""C18: pickled and copied models against their original, over all short histories before and after the copy."""
import copy
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from mc import core, zoo
from mc.lin import SHORT, Model, attempt, exc, masked_obs, value

PID = "C18"
LEVEL = "model_checking"
RULE = ("for each class and model form: all histories up to the depth (inference, EM, assigning and changing parameters, setting the EM "
        "selection), then each way of copying (every pickle protocol, copy, deepcopy, chains of two), then every operation on one of the two "
        "models; after each the operated model must equal a twin that went through the same history without any copying, and the other "
        "one must be what it was; pickled models are also loaded, examined, operated and pickled again by another process (fresh, or one in "
        "which other models have lived)")
ASSUMPTIONS = ["functions of unscented models are picklable (module-level)"]
N, M_, T = 2, 2, 3
BRIEF = ("em", "set m", "in A", "in Q", "in P", "sample", "select A")
PICKLE = [f"pickle{p}" for p in range(pickle.HIGHEST_PROTOCOL + 1)]
WAYS = PICKLE + ["copy", "deepcopy"]
LIN_ATTR = "AbQCdRmP"
USC = dict(A="transition_functions", Q="transition_covariance", C="observation_functions", R="observation_covariance",
           m="initial_state_mean", P="initial_state_covariance")


def names(cls):
    return SHORT if cls in zoo.LINEAR else USC


def ops(cls):
    """Operations on a model, before and after the copy."""
    lin = cls in zoo.LINEAR
    o = ["filter", "smooth", "sample", "seed int", "seed state", "unset P"]
    o += ["set " + k for k in (LIN_ATTR if lin else "AQCRmP")]
    o += ["in " + k for k in (LIN_ATTR if lin else "AQCRmP")]
    if lin:
        o += ["em", "em all", "select A", "select all", "select dR"]
    return o


def bounds(tier):
    return dict(depth_before=1 if tier == "quick" else 2, depth_after=1 if tier == "quick" else 2, ways=WAYS,
                operations={k: len(ops(k)) for k in zoo.ALL})


def forms(cls, tier):
    if cls == "KF":
        return ("c", "t", "d", "l")
    return ("c", "t", "d") if cls in zoo.LINEAR else ("sn", "ln", "d")


def cases(tier):
    out = []
    for cls in zoo.ALL:
        for form in forms(cls, tier):
            for way in WAYS:
                two = way in ("pickle4", "deepcopy", "copy") and (tier != "quick" or (cls, form, way) in
                                                                  (("KF", "c", "pickle4"), ("UKF", "sn", "deepcopy")))
                out.append(dict(cls=cls, form=form, ways=[way], before=[], depth=2 if two else 1))
    chains = [list(w) for w in itertools.product(("pickle2", "pickle5", "copy", "deepcopy"), repeat=2)]
    for cls in zoo.ALL:
        for form in forms(cls, tier):
            for b in ops(cls):
                for way in (WAYS if tier != "quick" else ("pickle4", "copy", "deepcopy")):
                    if tier == "quick" and form != forms(cls, tier)[len(b) % len(forms(cls, tier))]:
                        continue
                    out.append(dict(cls=cls, form=form, ways=[way], before=[b], brief=tier == "quick"))
            for ch in chains:
                out.append(dict(cls=cls, form=form, ways=ch, before=["em"] if cls in zoo.LINEAR else ["set Q"], brief=True))
    for cls in zoo.ALL:
        for form in forms(cls, tier):
            for way in ("pickle4", "copy", "deepcopy"):
                for dims in ((1, 1, 1), (1, 2, 3), (3, 1, 3), (4, 3, 24)):
                    out.append(dict(cls=cls, form=form, ways=[way], before=[], brief=tier == "quick", dims=dims))
    for cls in zoo.ALL:
        for form in forms(cls, tier):
            for i, dims in enumerate(((2, 2, 3), (1, 1, 1)) if tier == "quick" else ((2, 2, 3), (1, 1, 1), (3, 1, 3), (4, 3, 24))):
                for lived in (0, 1):
                    if tier != "quick" or lived == i:
                        out.append(dict(kind="process", cls=cls, form=form, dims=dims, lived=lived, hash=i))
    if tier != "quick":
        for cls in zoo.ALL:
            for form in forms(cls, tier)[:2]:
                for b in itertools.product(ops(cls), repeat=2):
                    for way in ("pickle2", "copy", "deepcopy"):
                        if form != forms(cls, tier)[0] and way != "deepcopy":
                            continue
                        out.append(dict(cls=cls, form=form, ways=[way], before=list(b), brief=True))
    return out


def make(cls, form):
    if form == "l":             # parameters as nested lists
        return zoo.cls(cls)(**{k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in zoo.kwargs(cls, N, M_, T, "t").items()})
    if form == "d" and cls not in zoo.LINEAR:
        return zoo.cls(cls)(n_dim_state=N, n_dim_obs=M_)
    return zoo.build(cls, N, M_, T, form)


def clone(mod, way):
    if way.startswith("pickle"):
        return pickle.loads(pickle.dumps(mod, int(way[6:])))
    return copy.copy(mod) if way == "copy" else copy.deepcopy(mod)


def change(v):
    """Change a parameter value's contents in place (those of a function object too)."""
    if isinstance(v, np.ndarray):
        v *= 1.25
    elif isinstance(v, zoo.Fun):
        v.c += 0.5
    elif isinstance(v, list) and v:
        if isinstance(v[0], (int, float)):
            v[0] *= 1.25
        else:
            change(v[0])


def apply(cls, mod, op, X):
    """One operation of a history; returns what the caller sees."""
    nm = names(cls)
    verb, _, arg = op.partition(" ")
    if verb == "set":
        if cls not in zoo.LINEAR and arg in "AC":
            f, g = zoo.functions(cls, N, M_, T, "lan")
            setattr(mod, nm[arg], f if arg == "A" else g)
        else:
            setattr(mod, nm[arg], value(arg, "g", 33, N, M_))
    elif verb == "unset":
        setattr(mod, nm[arg], None)
    elif verb == "in":
        change(getattr(mod, nm[arg]))
    elif verb == "seed":
        mod.random_state = 5 if arg == "int" else np.random.RandomState(6)
    elif verb == "select":
        mod.em_vars = "all" if arg == "all" else [nm[k] for k in arg]
    elif verb == "em":
        return attempt(lambda: mod.em(X, n_iter=1, **({"em_vars": "all"} if arg else {})) is mod)
    elif verb == "sample":
        if mod.random_state is None:
            return attempt(lambda: tuple(np.asarray(x) for x in mod.sample(3, random_state=1)))
        return attempt(lambda: tuple(np.asarray(x) for x in mod.sample(3)))
    else:
        return attempt(getattr(mod, verb), X)
    return True, None


def probe(cls, mod, X):
    """Everything observable: parameters, and the results of every method (without advancing a stream)."""
    r = [("class", type(mod).__name__)]
    for k in sorted(set(names(cls).values())):
        v = getattr(mod, k)
        r.append((k, picture(v)))
    r.append(("em_vars", picture(getattr(mod, "em_vars", None))))
    r.append(("dims", (mod.n_dim_state, mod.n_dim_obs)))
    s = mod.random_state
    r.append(("random_state", s.get_state()[1].tobytes() + bytes([s.get_state()[2] % 256]) if isinstance(s, np.random.RandomState) else s))
    mu, P = np.linspace(0.5, 1, N), np.eye(N) * 2
    calls = [("filter", (X,), {}), ("smooth", (X,), {}), ("sample", (3,), dict(random_state=3)), ("filter_update", (mu, P, X[0]), {})]
    if cls in zoo.LINEAR:
        calls.append(("loglikelihood", (X,), {}))
    for meth, a, k in calls:
        ok, v = attempt(getattr(mod, meth), *a, **k)
        r.append((meth, picture(v) if ok else "raises " + type(v).__name__))
    return r


def picture(v):
    if isinstance(v, np.ma.MaskedArray):
        return ("m", v.shape, np.asarray(v.data).tobytes(), np.ma.getmaskarray(v).tobytes())
    if isinstance(v, (np.ndarray, np.generic)):
        return ("a", v.shape, str(v.dtype), np.ascontiguousarray(v).tobytes())
    if isinstance(v, zoo.Fun):
        return ("f", v.M.tobytes(), v.c.tobytes(), v.nl, v.mod, None if v.G is None else v.G.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(picture(x) for x in v)
    return v


def diff(a, b):
    return [x[0] for x, y in zip(a, b) if x != y]


def run_process(case, out):
    """Models of all histories of one operation, pickled here, used in another process, pickled there and used here again."""
    global N, M_, T
    N, M_, T = case["dims"]
    cls, form = case["cls"], case["form"]
    X = masked_obs(zoo.obs(N, M_, T), 2)
    hist = [[b] for b in ops(cls)] + [[]]
    jobs, want = [], []
    for i, before in enumerate(hist):
        after = [ops(cls)[i % len(ops(cls))], "filter"] if before else ops(cls)
        for proto in range(pickle.HIGHEST_PROTOCOL + 1) if not before else (i % (pickle.HIGHEST_PROTOCOL + 1), 4):
            mod, twin = make(cls, form), make(cls, form)
            for op in before:
                apply(cls, mod, op, X)
                apply(cls, twin, op, X)
            jobs.append((cls, pickle.dumps(mod, proto), X, after))
            first = probe(cls, twin, X)
            results = [(ok, picture(r) if ok else type(r).__name__) for ok, r in (apply(cls, twin, op, X) for op in after)]
            want.append((first, results, probe(cls, twin, X), before, proto))
    p = subprocess.run([sys.executable, "-m", "mc.fresh", core.REPO, *map(str, case["dims"])] + ["lived"] * case["lived"], cwd=core.VERIF,
                       input=pickle.dumps(jobs), capture_output=True, timeout=200, env=dict(os.environ, PYTHONHASHSEED=str(case["hash"])))
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-1500:])
    out.sample = case
    for got, (first, results, last, before, proto), job in zip(pickle.loads(p.stdout), want, jobs):
        what = f"{cls}/{form} {case['dims']} after {before}, pickled (protocol {proto}) and loaded by another process"
        out.traces += 1
        out.states += 2
        out.transitions += len(job[3]) + 2
        if isinstance(got, str):
            out.fail(f"{cls}.process", f"{what}: {got}")
            return
        d = diff(got[0], first)
        if d or len(got[0]) != len(first):
            out.fail(f"{cls}.process", f"{what}: differs in {d}")
            return
        if got[1] != results or diff(got[2], last):
            out.fail(f"{cls}.process", f"{what}: behaves differently in {job[3]}: {diff(got[2], last)}")
            return
        d = diff(probe(cls, pickle.loads(got[3]), X), last)
        if d:
            out.fail(f"{cls}.process", f"{what} and back: differs in {d}")
            return
        out.outcome(last)


def run_case(case, out):
    global N, M_, T
    if case.get("kind") == "process":
        return run_process(case, out)
    N, M_, T = case.get("dims", (2, 2, 3))
    cls, form, ways, before = case["cls"], case["form"], case["ways"], case["before"]
    X = masked_obs(zoo.obs(N, M_, T), 2)
    what = f"{cls}/{form} {case.get('dims') or ''} after {before} by {'+'.join(ways)}"
    out.sample = case

    def world(dup):
        """original, copy (two independently built models if dup is off)"""
        def hist():
            m = make(cls, form)
            for op in before:
                apply(cls, m, op, X)
            return m
        a = hist()
        if not dup:
            return a, hist()
        b = a
        for w in ways:
            b = clone(b, w)
        return a, b
    full = any(w != "copy" for w in ways)
    ref0 = probe(cls, world(False)[0], X)
    ok, pair = attempt(world, True)
    out.traces += 1
    if not ok:
        out.fail(f"{cls}.copy", f"{what}: {exc(pair)}")
        return
    a, b = pair
    if a is b:
        out.fail(f"{cls}.copy", f"{what}: the copy is the model itself")
        return
    for mod, tag in ((a, "original"), (b, "copy")):
        d = diff(probe(cls, mod, X), ref0)
        out.states += 1
        if d:
            out.fail(f"{cls}.copy", f"{what}: {tag} differs in {d}")
            return
    out.outcome(ref0)
    # every operation on either of the two: (operated, other)
    after = [o for o in ops(cls) if o in BRIEF] if case.get("brief") else ops(cls)
    seqs = [q for d in range(1, case.get("depth", 1) + 1) for q in itertools.product(after, repeat=d)]
    for seq in seqs:
        shares = not full and any(op.startswith("in ") or op == "sample" for op in seq)
        if shares:
            continue                # a shallow copy shares parameter arrays and the random source by definition
        t, other = world(False)
        want = [apply(cls, t, op, X) for op in seq]
        pt, po = probe(cls, t, X), ref0
        for side in (0, 1):
            pair = world(True)
            out.traces += 1
            got = [apply(cls, pair[side], op, X) for op in seq]
            out.transitions += len(seq)
            out.states += 1
            for (o1, r1), (o2, r2), op in zip(got, want, seq):
                if o1 != o2 or (o1 and picture(r1) != picture(r2)):
                    out.fail(f"{cls}.{op.split()[0]}", f"{what}: {op} of {list(seq)} on the {('original', 'copy')[side]} gives "
                             f"{exc(r1) if not o1 else 'a result'} different from a model never copied {exc(r2) if not o2 else ''}")
                    return
            d = diff(probe(cls, pair[side], X), pt)
            if d:
                out.fail(f"{cls}.{seq[-1].split()[0]}", f"{what}: {list(seq)} on the {('original', 'copy')[side]} leaves it different in {d}")
                return
            d = diff(probe(cls, pair[1 - side], X), po)
            if d:
                out.fail(f"{cls}.independent", f"{what}: {list(seq)} on the {('original', 'copy')[side]} changed the "
                         f"{('copy', 'original')[side]}'s {d}")
                return
