"""C19: every interleaving of two calls (preempted at every line of the package), and re-entrant user functions."""
import itertools

import numpy as np

from mc import sched, zoo
from mc.lin import SHORT, attempt, exc, masked_obs, value

PID = "C19"
LEVEL = "model_checking"
RULE = ("two real threads under a controlled scheduler: the first call is stopped at each preemption point (line or byte-code event in the "
        "package, up to the stated number of occurrences per place, and the last), the second one runs (to its end, or up to each of its own "
        "points), then the first on to its end; every result must be what the same call returns alone, and the models must be unchanged; "
        "re-entrant cases: the user's function makes a complete nested call at every single one of its invocations in turn")
ASSUMPTIONS = ["between two line (thorough: byte-code) events of pykalman code a thread runs undisturbed; numpy and scipy are thread-safe"]
N, M_, T = 2, 2, 3


def bounds(tier):
    return dict(preemptions="1 at every place (first and last occurrence); 2 for pairs of the same call at 20 x 20 places" if tier == "quick" else
                "1 at every event, and at every byte code (2 occurrences); 2 at every pair of places", threads=2)


def ops(name):
    o = ["filter X", "smooth Y", "update", "predict", "sample"]
    return o + ["loglik X"] if name in zoo.LINEAR else o


def cases(tier):
    out = []
    for name in zoo.ALL:
        form = "t" if name == "KF" else "c" if name in zoo.LINEAR else "ln"
        for a, b in itertools.product(ops(name), repeat=2):
            if tier == "quick" and a != b and (ops(name).index(b) - ops(name).index(a)) % len(ops(name)) != 1 + zoo.ALL.index(name) % 4:
                continue                # itself and one other; all pairs in the thorough tier
            if {a, b} & {"update", "predict"} and form != "c" and name in zoo.LINEAR:
                f = "c"
            elif {a, b} & {"update", "predict"} and form == "ln":
                f = "sn"
            else:
                f = form
            out.append(dict(kind="pair", a=[name, f, 2, 2], b=[name, f, 2, 2], shared=True, ops=[a, b]))
    allops = [("filter X", "filter X"), ("smooth X", "smooth X"), ("filter X", "smooth X"), ("sample", "sample")]
    for x, y in itertools.product(zoo.ALL, repeat=2):
        fx, fy = ("c" if k in zoo.LINEAR else "sn" for k in (x, y))
        for a, b in allops:
            if tier == "quick" and x != y and (a != b or a == "sample" or zoo.ALL.index(x) > zoo.ALL.index(y)):
                continue
            out.append(dict(kind="pair", a=[x, fx, 2, 2], b=[y, fy, 3, 1], shared=False, ops=[a, b]))
        if x in zoo.LINEAR and (tier != "quick" or y in zoo.LINEAR):
            out.append(dict(kind="pair", a=[x, fx, 2, 2], b=[y, fy, 3, 1], shared=False, ops=["em", "em" if y in zoo.LINEAR else "smooth X"]))
        if x in zoo.LINEAR and (tier != "quick" or y == x):
            out.append(dict(kind="pair", a=[x, fx, 2, 2], b=[y, fy, 2, 2], shared=False, ops=["em", "filter X"]))
    for name in zoo.ALL:
        form = "c" if name in zoo.LINEAR else "sn"
        for a in ops(name):
            for shared in (True, False):
                if tier == "quick" and (not shared or a.split()[0] not in ("filter", "update", "sample") or name in ("Chol", "AUKF")):
                    continue
                out.append(dict(kind="two", a=[name, form, 2, 2], b=[name, form, 2 if shared else 1, 2], shared=shared, ops=[a, a]))
        if tier != "quick":
            for a, b in itertools.permutations(ops(name), 2):
                out.append(dict(kind="two", a=[name, form, 2, 2], b=[name, form, 2, 2], shared=True, ops=[a, b]))
            for a in ops(name):
                for b in ("filter X", "update", "sample"):
                    out.append(dict(kind="opcode", a=[name, form, 2, 2], b=[name, form, 2, 2], shared=True, ops=[a, b]))
    for name in zoo.UNSCENTED:
        for form in ("sn", "ln"):
            for outer in ("filter X", "smooth Y", "sample", "update"):
                if outer == "update" and form == "ln":
                    continue
                for inner in zoo.ALL:
                    for same in (False, True) if inner == name else (False,):
                        for nested in ("filter X", "smooth X", "sample", "update") + (("em",) if inner in zoo.LINEAR else ()):
                            out.append(dict(kind="reenter", a=[name, form, 2, 2], inner=inner, same=same, ops=[outer, nested]))
    for i, c in enumerate(out):
        c["tier"] = tier
    return out


class World:
    """Models and arguments of a scenario, rebuilt for every execution."""

    def __init__(self, case):
        self.a = zoo.build(*case["a"][:1], *case["a"][2:], T, case["a"][1])
        self.b = self.a if case.get("shared") else zoo.build(*case["b"][:1], *case["b"][2:], T, case["b"][1])
        self.case = case

    def op(self, which):
        mod = (self.a, self.b)[which]
        d = self.case["ab"[which]]
        return call(d[0], mod, d[2], d[3], self.case["ops"][which], which)


def call(name, mod, n, m, op, salt):
    """A thunk making one call, with its own arguments."""
    z = zoo.obs(n, m, T) + 0.25 * salt
    if op.endswith("Y"):
        z = masked_obs(z[:2 + salt], 1 << salt)
    verb = op.split()[0]
    if verb == "update":
        mu, P = np.linspace(0.5, 1, n) + salt, np.eye(n) * (1.5 + salt)
        kw = dict(observation_covariance=value("R", "g", 40 + salt, n, m), transition_covariance=value("Q", "g", 40 + salt, n, m))
        return lambda: tuple(np.array(x) for x in mod.filter_update(mu, P, z[0], **kw))
    if verb == "predict":
        mu, P = np.linspace(0.5, 1, n) + salt, np.eye(n) * (1.5 + salt)
        return lambda: tuple(np.array(x) for x in mod.filter_update(mu, P))
    if verb == "sample":
        return lambda: tuple(np.array(x) for x in mod.sample(3 - salt, random_state=4 + salt))
    if verb == "em":
        def em():
            mod.em(z, n_iter=1, em_vars=[SHORT[k] for k in ("AQm", "CRP")[salt]])
            return tuple(np.array(getattr(mod, SHORT[k])) for k in "AbQCdRmP")
        return em
    if verb == "loglik":
        return lambda: float(mod.loglikelihood(z))
    return lambda: tuple(np.array(x) for x in getattr(mod, verb)(z))


def bits(r):
    ok, v = r
    if not ok:
        return "raises " + exc(v)
    if isinstance(v, tuple):
        return tuple((x.shape, x.tobytes()) for x in v)
    return v


def state(mod):
    return tuple((k, np.asarray(v).tobytes() if isinstance(v, np.ndarray) else repr(v) if not callable(v) and not isinstance(v, list) else id(v))
                 for k, v in sorted(vars(mod).items()))


STUCK = False               # a call in this process never ended: what it holds it holds for good


def run_case(case, out):
    if STUCK:
        out.note("not run where a call never ended")
        return
    if case["kind"] == "reenter":
        return run_reenter(case, out)
    tier = case["tier"]
    opc = case["kind"] == "opcode"
    most = 1 if tier == "quick" else {"pair": None, "two": 1, "opcode": 2}[case["kind"]]
    W = World(case)
    out.sample = case
    alone, pts = [], []
    for i in (0, 1):
        w = World(case)
        r = attempt(w.op(i))
        if not r[0]:
            out.fail(f"{case['ops'][i].split()[0]}.alone", f"{case['a'][0]}: {case['ops'][i]} raises {exc(r[1])}")
            return
        alone.append(bits(r))
        p, n, r2 = sched.points(World(case).op(i), most, opc)
        pts.append(p)
        out.note("events", n)
        if bits(r2) != alone[i]:
            out.fail("thread", f"{case['a'][0]}: {case['ops'][i]} in a thread differs from the main thread")
            return
    writes = "em" in case["ops"]
    second = pts[1] if case["kind"] == "two" else [None]
    first = pts[0]
    if case["kind"] == "two" and tier == "quick":
        first, second = thin(first), thin(second)
    for k in first:
        for j in second:
            w = World(case) if writes else W
            before = None if writes else (state(w.a), state(w.b))
            tasks = sched.run([w.op(0), w.op(1)], [k, j], opc)
            out.traces += 1
            out.transitions += 2 if j is None else 3
            out.states += 1
            what = (f"{'the same model' if case['shared'] else 'two models'} {case['a'][0]}/{case['b'][0]}: {case['ops'][0]} preempted at event {k} "
                    f"({tasks[0].where}) by {case['ops'][1]}" + (f", itself preempted at event {j} ({tasks[1].where})" if j is not None else ""))
            for i in (0, 1):
                if tasks[i].result is None:
                    stuck()
                    out.fail("deadlock", f"{what}: call {i} never ends", stops=[k, j])
                    return
                if bits(tasks[i].result) != alone[i]:
                    r = tasks[i].result
                    out.fail(f"{case['a'][0]}.{case['ops'][i].split()[0]}", f"{what}: {case['ops'][i]} "
                             f"{'raises ' + exc(r[1]) if not r[0] else 'gives another result than alone'}", stops=[k, j])
                    return
            if not writes and (state(w.a), state(w.b)) != before:
                out.fail(f"{case['a'][0]}.state", f"{what}: the model is left changed", stops=[k, j])
                return
    out.outcome(case["a"], case["b"], case["ops"], alone)


def stuck():
    global STUCK
    STUCK = True


def thin(p, most=20):
    """At most `most` of the places, evenly spread, with the first and the last."""
    return [p[round(i * (len(p) - 1) / (most - 1))] for i in range(most)] if len(p) > most else p


class Nesting:
    """A user function that makes a complete nested call at its `at`-th invocation (None: at every one)."""
    box = None

    def __init__(self, f, box):
        self.f, self.box = f, box

    def __call__(self, *a):
        b = self.box
        if not b["inside"]:
            i = b["calls"]
            b["calls"] += 1
            if b["on"] and (b["at"] is None or b["at"] == i):
                b["inside"] = True
                try:
                    b["results"].append(bits((True, b["nested"]())))
                finally:
                    b["inside"] = False
        return self.f(*a)


def run_reenter(case, out):
    name, form, n, m = case["a"]
    inner, (outer, nested) = case["inner"], case["ops"]
    out.sample = case

    def world(on, at):
        box = dict(inside=False, calls=0, on=on, at=at, results=[], nested=None)
        f, g = zoo.functions(name, n, m, T, form)
        wrap = (lambda x: [Nesting(y, box) for y in x]) if isinstance(f, list) else (lambda x: Nesting(x, box))
        mod = zoo.build(name, n, m, T, form, transition_functions=wrap(f), observation_functions=wrap(g))
        if case["same"]:
            imod, d = mod, (n, m)
            if nested == "update" and form == "ln":
                return None
        else:
            d = (3, 1) if inner != name else (2, 2)
            imod = zoo.build(inner, d[0], d[1], T, "c" if inner in zoo.LINEAR else "sn")
        box["nested"] = call(inner, imod, d[0], d[1], nested, 1)
        if nested == "em":
            start = {k: getattr(imod, SHORT[k]) for k in "AbQCdRmP"}
            em = box["nested"]

            def again():
                for k, v in start.items():
                    setattr(imod, SHORT[k], np.array(v))
                return em()
            box["nested"] = again
        return box, call(name, mod, n, m, outer, 0)
    w = world(False, None)
    if w is None:
        return
    box, f = w
    box["inside"] = True
    want_inner = bits(attempt(box["nested"]))
    box["inside"] = False
    want = bits(attempt(f))
    calls = box["calls"]
    if isinstance(want, str) or isinstance(want_inner, str):
        out.fail(f"{name}.alone", f"{name}/{inner}: {want if isinstance(want, str) else want_inner}")
        return
    step = 1 if case["tier"] != "quick" or calls <= 24 else 2
    for at in [None] + list(range(0, calls, step)):
        box, f = world(True, at)
        t = sched.Task(lambda: attempt(f))
        if not t.alone(60):                     # takes milliseconds
            stuck()
            out.fail(f"{name}.reenter", f"{name}.{outer} whose functions call {nested} of {'the same model' if case['same'] else inner} at "
                     f"{'every invocation' if at is None else f'invocation {at}'}: never ends (deadlock)", at=at)
            return
        got = bits(t.result[1])
        out.traces += 1
        out.states += 1
        out.transitions += 1 + len(box["results"])
        if got != want or any(r != want_inner for r in box["results"]) or not box["results"]:
            out.fail(f"{name}.reenter", f"{name}.{outer} whose functions call {nested} of {'the same model' if case['same'] else inner} at "
                     f"{'every invocation' if at is None else f'invocation {at}'}: "
                     f"{got if isinstance(got, str) else 'outer result differs' if got != want else 'nested result differs'}", at=at)
            return
    out.outcome(name, form, inner, outer, nested, case["same"])
