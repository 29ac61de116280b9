"""C20: all short histories of loading, using, modifying and copying the bundled data set."""
import copy
import itertools
import os
import pickle
import tempfile

import numpy as np

from mc import core
from mc.lin import attempt, exc

PID = "C20"
LEVEL = "model_checking"
RULE = ("all histories up to the depth over: loading, changing directory (temporary, root, one with a decoy of the data, one that no longer "
        "exists), and for containers loaded so far overwriting, masking, replacing and deleting each entry, changing nested values, running "
        "filters on them, copying and pickling; after each load every entry must equal, bit for bit, an independent reading of the data file, "
        "share no memory with anything loaded before, and have agreeing attributes and items; plus the stored results against the stored model")
ASSUMPTIONS = ["scipy.io.loadmat reads the bundled file correctly"]


def bounds(tier):
    return dict(depth=2 if tier == "quick" else 3, entries=18)


KEYS = ["n_timesteps", "observations", "states", "transition_matrix", "transition_offsets", "observation_matrix", "observation_offset",
        "initial_transition_covariance", "initial_observation_covariance", "transition_covariance", "observation_covariance",
        "initial_state_mean", "initial_state_covariance", "filtered_state_means", "filtered_state_covariances", "loglikelihoods",
        "smoothed_state_means", "smoothed_state_covariances", "DESCR"]
OPS = ["fill " + k for k in KEYS[1:-1]] + ["set " + k for k in KEYS] + ["unmask", "mask all", "harden", "del", "clear", "update", "attr", "use", "em",
                                                                       "reshape", "numpy state"]
CWD = ["cwd tmp", "cwd /", "cwd decoy", "cwd gone"]
COPIES = ["copy", "deepcopy"] + [f"pickle{p}" for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def cases(tier):
    out = [dict(kind="consistent", part=p) for p in ("sizes", "filter", "smooth", "em")]
    out += [dict(kind="copy", way=w) for w in COPIES]
    out += [dict(kind="history", ops=[])] + [dict(kind="history", ops=[o]) for o in CWD]
    out += [dict(kind="history", ops=[o, c]) for o in OPS for c in [""] + CWD]
    if tier != "quick":
        for a, b in itertools.product(OPS, repeat=2):
            out.append(dict(kind="history", ops=[a, b]))
            if a.split()[0] not in ("fill", "set") and b.split()[0] not in ("fill", "set"):
                for c in OPS:
                    out.append(dict(kind="history", ops=[a, b, c]))
    return out


_REF = None


def reference():
    """The contents by an independent reading of the file."""
    global _REF
    if _REF is None:
        from scipy import io
        base = os.path.join(core.REPO, "pykalman", "datasets")
        m = io.loadmat(os.path.join(base, "data", "robot.mat"))
        y = np.vstack([np.zeros((1, 2)), m["y"].T])
        mk = np.zeros(y.shape, bool)
        mk[0] = True
        _REF = dict(
            n_timesteps=501, observations=(y, mk), states=m["x"].T, transition_matrix=m["A"], transition_offsets=m["b"].T,
            observation_matrix=m["C"], observation_offset=m["d"].ravel(), initial_transition_covariance=10 * np.eye(5),
            initial_observation_covariance=10 * np.eye(2), transition_covariance=m["Q"], observation_covariance=m["R"],
            initial_state_mean=m["x0"].ravel(), initial_state_covariance=m["P_0"], filtered_state_means=m["xfilt"].T,
            filtered_state_covariances=np.stack(list(m["Vfilt"].ravel())), loglikelihoods=m["ll"].ravel(),
            smoothed_state_means=m["xsmooth"].T, smoothed_state_covariances=np.stack(list(m["Vsmooth"].ravel())),
            DESCR=open(os.path.join(base, "descr", "robot.rst")).read())
        _REF = copy.deepcopy(_REF)
    return _REF


def wrong(d, others=()):
    """None, or what is wrong with a freshly loaded container."""
    ref = reference()
    if set(d.keys()) != set(ref):
        return f"entries {sorted(set(d.keys()) ^ set(ref))} missing or unexpected"
    for k, want in ref.items():
        v = d[k]
        a = getattr(d, k, None)
        if a is not v:
            return f"attribute {k} is not the item {k}"
        if k == "DESCR" or k == "n_timesteps":
            if v != want:
                return f"{k} differs"
            continue
        if k == "observations":
            if not isinstance(v, np.ma.MaskedArray) or not np.array_equal(np.ma.getmaskarray(v), want[1]):
                return "observations are not masked exactly at the first step"
            v, want = np.asarray(v.data)[1:], want[0][1:]
        if np.ma.isMaskedArray(v) or not isinstance(v, np.ndarray) or v.shape != want.shape or not np.array_equal(v, want):
            return f"{k} differs from the data file"
        if not np.asarray(v).flags.writeable:
            return f"{k} is read-only"
    arrs = [(k, np.ma.getdata(v)) for k, v in d.items() if isinstance(v, np.ndarray)]
    arrs.append(("mask", np.ma.getmask(d["observations"])))
    for (k, x), (j, y) in itertools.combinations(arrs, 2):
        if np.may_share_memory(x, y) and np.shares_memory(x, y):
            return f"{k} and {j} share memory"
    for o in others:
        if o is d:
            return "the same container is returned again"
        for j, y in o:
            for k, x in arrs:
                if np.may_share_memory(x, y) and np.shares_memory(x, y):
                    return f"{k} shares memory with {j} of a container loaded before"
    return None


def arrays(d):
    r = [(k, np.ma.getdata(v)) for k, v in d.items() if isinstance(v, np.ndarray)]
    return r + [("mask", np.ma.getmask(d["observations"]))]


def model(d, em=False):
    from pykalman import KalmanFilter
    return KalmanFilter(d.transition_matrix, d.observation_matrix, d.initial_transition_covariance if em else d.transition_covariance,
                        d.initial_observation_covariance if em else d.observation_covariance, d.transition_offsets, d.observation_offset,
                        d.initial_state_mean, d.initial_state_covariance, em_vars=["transition_covariance", "observation_covariance"])


def apply(op, d):
    verb, _, k = op.partition(" ")
    if verb == "fill":
        np.ma.getdata(d[k])[...] = 77
    elif verb == "set":
        setattr(d, k, 0)
    elif op == "unmask":
        d.observations.mask = False
    elif op == "mask all":
        d.observations[...] = np.ma.masked
    elif op == "harden":
        d.observations.harden_mask()
    elif op == "del":
        del d["states"], d["DESCR"]
    elif op == "clear":
        d.clear()
    elif op == "update":
        d.update({k: None for k in KEYS}, extra=1)
    elif op == "attr":
        d.extra = 5
    elif op == "reshape":
        d.states.shape = (5, 500)
    elif op == "use":
        model(d).filter(d.observations[:20])
        model(d).sample(5, random_state=1)
    elif op == "em":
        k = model(d, True)
        k.em(d.observations[:8], n_iter=1)
        k.transition_covariance[...] = 5
    elif op == "numpy state":
        np.random.seed(0)
        np.random.rand(3)
    elif verb == "cwd":
        if k == "/":
            os.chdir("/")
        else:
            w = tempfile.mkdtemp(prefix="mc-c20-")
            os.chdir(w)
            if k == "decoy":
                for p in ("data", "descr", "pykalman/datasets/data", "pykalman/datasets/descr"):
                    os.makedirs(p)
                    open(os.path.join(p, "robot.mat"), "w").close()
                    open(os.path.join(p, "robot.rst"), "w").close()
            if k == "gone":
                os.rmdir(w)


def run_case(case, out):
    from pykalman.datasets import load_robot
    out.sample = case
    out.traces += 1
    if case["kind"] == "consistent":
        return run_consistent(case, out, load_robot)
    if case["kind"] == "copy":
        return run_copy(case, out, load_robot)
    old = os.open(".", os.O_RDONLY)
    made = []
    try:
        def check(d, others, hist):
            out.states += 1
            out.transitions += 1
            bad = wrong(d[1], others) if d[0] else exc(d[1])
            if bad:
                out.fail("load", f"load_robot after {hist}: {bad}")
            return not bad
        first = attempt(load_robot)
        if not check(first, (), "nothing"):
            return
        hist, loaded = [], [(first[1], arrays(first[1]))]
        for op in case["ops"]:
            if not op:
                continue
            hist.append(op)
            cwd = op.startswith("cwd")
            if cwd:
                apply(op, None)
                if "tmp" in op or "decoy" in op:
                    made.append(os.getcwd())
            else:
                attempt(apply, op, loaded[-1][0])
            d = attempt(load_robot)
            if not check(d, [a for _, a in loaded], f"loading and {hist}"):
                return
            if any(d[1] is o for o, _ in loaded):
                out.fail("load", f"load_robot after {hist}: the same container again")
                return
            loaded.append((d[1], arrays(d[1])))
        out.outcome(case["ops"])
    finally:
        os.fchdir(old)
        os.close(old)
        import shutil
        for w in made:
            if os.path.basename(w).startswith("mc-c20-"):
                shutil.rmtree(w, ignore_errors=True)


def run_copy(case, out, load):
    d = load()
    w = case["way"]
    ok, c = attempt(copy.copy if w == "copy" else copy.deepcopy if w == "deepcopy" else lambda x: pickle.loads(pickle.dumps(x, int(w[6:]))), d)
    out.states += 1
    out.transitions += 1
    if not ok:
        out.fail("copy", f"{w} of the container: {exc(c)}")
        return
    bad = wrong(c, () if w == "copy" else [arrays(d)])
    if bad:
        out.fail("copy", f"{w} of the container: {bad}")
        return
    for x, y, tag in ((c, d, "copy"), (d, c, "original")):
        for how in ("attribute", "item"):
            for k in KEYS:
                before = y[k]
                if how == "attribute":
                    setattr(x, k, ("new", k))
                else:
                    x[k] = ("newer", k)
                out.states += 1
                out.transitions += 1
                if x[k] is not getattr(x, k, None) or x[k] is before:
                    out.fail("copy", f"{w}: setting the {how} {k} of the {tag} leaves attribute and item different")
                    return
                if y[k] is not before:
                    out.fail("copy", f"{w}: setting the {how} {k} of the {tag} changes the other one")
                    return
    out.outcome(w)


def run_consistent(case, out, load):
    d = load()
    bad = wrong(d)
    if bad:
        out.fail("load", bad)
        return
    part = case["part"]
    out.states += 1
    out.transitions += 1
    if part == "sizes":
        T, n, m = d.n_timesteps, 5, 2
        want = dict(observations=(T, m), states=(T - 1, n), transition_matrix=(n, n), transition_offsets=(T - 1, n), observation_matrix=(m, n),
                    observation_offset=(m,), initial_transition_covariance=(n, n), initial_observation_covariance=(m, m),
                    transition_covariance=(n, n), observation_covariance=(m, m), initial_state_mean=(n,), initial_state_covariance=(n, n),
                    filtered_state_means=(T, n), filtered_state_covariances=(T, n, n), smoothed_state_means=(T, n),
                    smoothed_state_covariances=(T, n, n))
        for k, s in want.items():
            out.states += 1
            if np.shape(d[k]) != s:
                out.fail("sizes", f"{k} has shape {np.shape(d[k])} instead of {s}")
                return
        if T != 501 or "Robot" not in d.DESCR or np.any(np.ma.getmaskarray(d.observations)[1:]) or not np.all(np.ma.getmaskarray(d.observations)[0]):
            out.fail("sizes", "number of steps, description or mask wrong")
    elif part == "em":
        k = model(d, True)
        for i in range(len(d.loglikelihoods)):
            ll = k.loglikelihood(d.observations)
            out.states += 1
            out.transitions += 1
            if not abs(ll - d.loglikelihoods[i]) <= 1e-6 * abs(ll):
                out.fail("em", f"log-likelihood before EM iteration {i}: {ll} but stored {d.loglikelihoods[i]}")
                return
            k.em(d.observations, n_iter=1)
        for p in ("transition_covariance", "observation_covariance"):
            if not np.allclose(getattr(k, p), d[p], rtol=1e-6, atol=1e-6):
                out.fail("em", f"{p} after {len(d.loglikelihoods)} iterations {getattr(k, p)} but stored {d[p]}")
                return
    else:
        r = getattr(model(d), part)(d.observations)
        pre = {"filter": "filtered", "smooth": "smoothed"}[part]
        for t in range(d.n_timesteps):
            out.states += 1
            out.transitions += 1
            for got, k in zip(r, (pre + "_state_means", pre + "_state_covariances")):
                if not np.allclose(got[t], d[k][t], rtol=1e-8, atol=1e-8):
                    out.fail(part, f"{k} at {t}: {got[t]} but stored {d[k][t]}")
                    return
    out.outcome(part)
