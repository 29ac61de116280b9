"""C13: histories of sampling, seeding and inference against a model of the random sources."""
import copy
import itertools

import numpy as np

from mc import zoo
from mc.lin import attempt, exc, masked_obs

PID = "C13"
LEVEL = "model_checking"
RULE = ("all histories up to the depth over: sample with integer seeds (0, 7, numpy integer), with one of two shared RandomState objects, "
        "without a source, with an initial state; changing the model's own source; seeding numpy's generator; sampling another model "
        "from a shared object; inference calls.  The model of the environment holds the exact state of numpy's generator and of the "
        "shared objects; each result must be the one a fresh model produces from the predicted state, and all states must then agree")
ASSUMPTIONS = ["the values drawn from a given generator state are decided by C12; here a fresh model supplies the reference values"]
OPS = ["seed7", "seed0", "npint", "objA", "objB", "own", "own x0", "attr=None", "attr=5", "attr=0", "attr=objA", "np.random.seed",
       "other objA", "infer", "np.random"]
INVALID = ["seven", 1.5, -1, 2 ** 40, [1.5], object(), {}, (1, "a"), np.float64(3.0), b"7", "generator", 3 + 0j, np.array([1.0, 2.0]), "type"]


def bounds(tier):
    return dict(depth=3 if tier == "quick" else 4, operations=len(OPS), initial_sources=5)


def cases(tier):
    out = [dict(kind="invalid", cls=name, i=i) for name in zoo.ALL for i in range(len(INVALID))]
    for name in zoo.ALL:
        forms = "ct" if name in zoo.LINEAR else ("sn", "la")
        for form in forms:
            for n, m in ((2, 2),) if tier == "quick" else ((2, 2), (1, 1), (3, 1)):
                for own in ("None", "5", "0", "objA", "absent"):
                    for first in OPS:
                        d = (3 if form == forms[0] and own in ("None", "objA") else 2) if tier == "quick" else 4
                        if tier != "quick" and ((n, m) != (2, 2) or form != forms[0]):
                            d = 3
                        out.append(dict(kind="history", cls=name, form=form, n=n, m=m, own=own, first=first, depth=d))
            for n, m in ((1, 1), (3, 1), (1, 3), (5, 4)):
                for own in ("None", "5", "objA"):
                    out += [dict(kind="history", cls=name, form=form, n=n, m=m, own=own, first=first, depth=2) for first in OPS]
    out.sort(key=lambda c: c.get("depth", 0))
    return out


def key(st):
    return (st[0], st[1].tobytes(), st[2], st[3], st[4])


class World:
    """The sources: numpy's global generator and two objects, as states (dict name -> RandomState state)."""

    def __init__(self):
        self.st = dict(glob=np.random.RandomState(99).get_state(), objA=np.random.RandomState(1).get_state(),
                       objB=np.random.RandomState(2).get_state())


def run_invalid(case, out):
    name, bad = case["cls"], INVALID[case["i"]]
    if isinstance(bad, str) and bad == "generator":
        bad = np.random.default_rng(0)
    if isinstance(bad, str) and bad == "type":
        bad = np.random.RandomState
    before = key(np.random.get_state())
    for how in ("argument", "attribute", "constructor"):
        ok, r = attempt(zoo.build, name, 2, 2, 3, "c" if name in zoo.LINEAR else "sn", **({"random_state": bad} if how == "constructor" else {}))
        if ok:
            mod = r
            if how == "attribute":
                mod.random_state = bad
            ok, r = attempt(mod.sample, 3, **({"random_state": bad} if how == "argument" else {}))
        out.states += 1
        out.transitions += 1
        out.traces += 1
        if ok or not isinstance(r, ValueError):
            out.fail(f"{name}.invalid", f"{name}.sample accepts the invalid source {bad!r} as {how}: {'result' if ok else exc(r)}")
            return
        out.outcome(name, how, case["i"])
    if key(np.random.get_state()) != before:
        out.fail(f"{name}.invalid", f"{name}.sample with the invalid source {bad!r} used numpy's global generator")


def run_case(case, out):
    saved = np.random.get_state()
    try:
        run_invalid(case, out) if case["kind"] == "invalid" else run_history(case, out)
    finally:
        np.random.set_state(saved)


def run_history(case, out):
    name, n, m, form = case["cls"], case["n"], case["m"], case["form"]
    other = zoo.ALL[(zoo.ALL.index(name) + 2) % len(zoo.ALL)]
    oform = "c" if other in zoo.LINEAR else "sn"
    x0 = np.arange(n) * 0.5
    z = zoo.obs(n, m, 3)
    X = masked_obs(z, 2)
    table = {}

    def ref(which, k, state, init):
        """What a fresh model draws from this generator state, and the state afterwards."""
        q = (which, k, key(state), init)
        if q not in table:
            mod = zoo.build(name, n, m, 3, form) if which == "self" else zoo.build(other, n, m, 3, oform)
            rs = np.random.RandomState()
            rs.set_state(state)
            r = mod.sample(k, random_state=rs, **(dict(initial_state=x0.copy()) if init else {}))
            table[q] = (np.array(r[0]), np.array(r[1]), rs.get_state())
        return table[q]

    seeded = {s: np.random.RandomState(s).get_state() for s in (0, 5, 7)}
    depth = case["depth"]
    for tail in itertools.product(OPS, repeat=depth - 1):
        hist = (case["first"],) + tail
        w = World()
        np.random.set_state(w.st["glob"])
        obj = {k: np.random.RandomState() for k in ("objA", "objB")}
        for k in obj:
            obj[k].set_state(w.st[k])
        own = case["own"]
        val = {"None": None, "5": 5, "0": 0, "objA": obj["objA"]}
        mod = zoo.build(name, n, m, 3, form, **({} if own == "absent" else {"random_state": val[own]}))
        own = "None" if own == "absent" else own
        sib = zoo.build(other, n, m, 3, oform)
        out.traces += 1
        for i, op in enumerate(hist):
            out.states += 1
            out.transitions += 1
            got, src, which, k, init = None, None, "self", 3, False
            call = None
            if op in ("seed7", "seed0", "npint"):
                s = {"seed7": 7, "seed0": 0, "npint": np.int64(7)}[op]
                call, src = (lambda: mod.sample(3, random_state=s)), int(s)
            elif op in ("objA", "objB"):
                call, src, k = (lambda: mod.sample(2, random_state=obj[op])), op, 2
            elif op == "np.random":
                call, src = (lambda: mod.sample(3, random_state=np.random)), "glob"
            elif op in ("own", "own x0"):
                src = {"None": "glob", "objA": "objA"}.get(own) or int(own)
                if own == "0":
                    src = 0
                init = op == "own x0"
                call = (lambda: mod.sample(3, initial_state=x0)) if init else (lambda: mod.sample(3))
            elif op == "other objA":
                call, src, which = (lambda: sib.sample(3, random_state=obj["objA"])), "objA", "other"
            elif op.startswith("attr="):
                own = op[5:]
                mod.random_state = val[own]
            elif op == "np.random.seed":
                np.random.seed(4)
                w.st["glob"] = np.random.get_state()
            elif op == "infer":
                last = i == len(hist) - 1
                for meth, a in [("filter", (X,)), ("smooth", (X,)), ("filter_update", (x0, np.eye(n), z[0]))][:3 if last else 1]:
                    ok, r = attempt(getattr(mod, meth), *a)
                if name in zoo.LINEAR and last:
                    attempt(mod.loglikelihood, X)
                    attempt(copy.deepcopy(mod).em, X, n_iter=1, em_vars=["transition_covariance"])
            if call:
                ok, r = attempt(call)
                if not ok:
                    out.fail(f"{name}.sample", f"{name}.sample in history {hist[:i + 1]} (own source {case['own']}): {exc(r)}")
                    return
                state = seeded[src] if isinstance(src, int) else w.st[src]
                wx, wz, after = ref(which, k, state, init)
                if not isinstance(src, int):
                    w.st[src] = after
                if not (np.array_equal(np.asarray(r[0]), wx) and np.array_equal(np.asarray(r[1]), wz)):
                    out.fail(f"{name}.sample", f"{name}.sample in history {hist[:i + 1]} (own source {case['own']}) does not follow its "
                             f"source {src}: {zoo.show(r)} instead of {zoo.show(wx)}")
                    return
            now = dict(glob=np.random.get_state(), objA=obj["objA"].get_state(), objB=obj["objB"].get_state())
            for s in now:
                if key(now[s]) != key(w.st[s]):
                    out.fail(f"{name}.source", f"{name}: after {hist[:i + 1]} (own source {case['own']}) the source {s} was "
                             f"advanced or reset unexpectedly")
                    return
        out.outcome(name, [(int(v[1][:4].sum()), v[2]) for v in w.st.values()])
    out.sample = dict(case, history=list(hist))
