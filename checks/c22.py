"""C22: every point at which a call can fail or be interrupted, and what is left behind."""
import pickle
import copy
import os
import sys
import warnings

import numpy as np

from checks.c14 import MM, N, QUERIES, T, Run, snap
from mc import core, zoo
from mc.lin import attempt, exc, masked_obs

PID = "C22"
LEVEL = "model_checking"
RULE = ("every fault point of every operation: an interrupt at each source line (thorough: byte-code instruction) the package executes, an "
        "exception in each invocation of each user function and of each draw from the random source, and every kind of refused argument; "
        "(thorough: pairs of faults); afterwards the model, all arguments and numpy's global state are compared byte for byte with what they "
        "were, and the calls that follow with those of a fresh model; after EM each parameter must be that of a whole number of iterations")
ASSUMPTIONS = ["an interrupt arrives between two source lines (thorough: byte-code instructions) of the package; numpy and scipy calls are atomic"]
PKG = os.path.join(os.path.realpath(core.REPO), "pykalman") + os.sep
CALLS = QUERIES + ["sample own"]
EMS = ["em X", "em all Y", "em some Y"]
AFTER = ["filter X", "smooth Y", "loglik Y", "update over", "update None", "sample"]


class Interrupt(KeyboardInterrupt):
    pass


class UserError(Exception):
    pass


def forms(name, tier):
    if name in zoo.LINEAR:
        return ("c", "t", "d") if name == "KF" or tier != "quick" else ("t", "d")
    return ("ln", "sn") if tier == "quick" else ("sn", "ln", "la", "sng" if name == "UKF" else "sa")


def bounds(tier):
    return dict(T=T, faults=1 if tier == "quick" else 2, granularity="source line" if tier == "quick" else "byte code and source line",
                points="first 2 occurrences and the last one of each place per call" if tier == "quick" else "every line event; byte-code: first and last")


def calls_of(name):
    return [c for c in CALLS if name in zoo.LINEAR or not c.startswith("loglik")] + (EMS if name in zoo.LINEAR else [])


def cases(tier):
    out = []
    for name in zoo.ALL:
        for form in forms(name, tier):
            for op in calls_of(name) + ["new"]:
                if op == "update" and form in ("t", "ln"):
                    continue                                    # refused: see 'arguments'
                out.append(dict(kind="interrupt", cls=name, form=form, op=op, grain="line"))
            out.append(dict(kind="arguments", cls=name, form=form))
            for op in calls_of(name):
                if name in zoo.UNSCENTED:
                    out.append(dict(kind="user", cls=name, form=form, op=op))
                if op.startswith("sample"):
                    out.append(dict(kind="source", cls=name, form=form, op=op))
    out.append(dict(kind="dataset", grain="line"))
    if tier != "quick":
        out += [dict(c, grain="opcode") for c in out if c.get("grain")]
        out += [dict(c, kind="pair", second=op2) for c in list(out) if c["kind"] == "interrupt" and c["grain"] == "line" and c["op"] != "new"
                for op2 in ("smooth Y", "em all Y") if c["form"] in ("t", "ln") if op2 in calls_of(c["cls"])]
    for c in out:
        c["tier"] = tier
    return out


class Tracer:
    """Runs a call and raises Interrupt at its stop-th event inside the package (or records all events)."""

    def __init__(self, stop=None, opcodes=False):
        self.stop, self.op, self.n, self.trail, self.fired, self.where = stop, opcodes, 0, [], False, None

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(PKG) or "/tests/" in f:
            return None
        if self.op:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.op else "line"):
            if self.stop is None:
                self.trail.append((frame.f_code, frame.f_lasti if self.op else frame.f_lineno))
            elif self.n == self.stop:
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise Interrupt()
            self.n += 1
        return self.local

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return True, f()
        except Interrupt as e:
            return False, e
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "Watchdog":
                raise
            return False, e
        finally:
            sys.settrace(old)


def points(f, opcodes, tier):
    if opcodes:
        Tracer(None, True).run(f)           # the interpreter needs one run to switch opcode events on
    t = Tracer(None, opcodes)
    t.run(f)
    most = 1 if tier == "first" or opcodes else 2 if tier == "quick" else None
    seen, last, pts = {}, {}, set()
    for i, w in enumerate(t.trail):
        seen[w] = seen.get(w, 0) + 1
        last[w] = i
        if most is None or seen[w] <= most:
            pts.add(i)
    return sorted(pts | set(last.values()))


def numpy_state():
    s = np.random.get_state()
    return (np.geterr(), s[0], s[1].tobytes(), s[2:], str(np.get_printoptions()), tuple(map(str, warnings.filters)), os.getcwd())


class Scene(Run):
    """A model with its arguments; snapshots before, comparison after."""

    def begin(self):
        self.start()
        self.globals = numpy_state()

    def invoke(self, op):
        if op == "new":
            return zoo.cls(self.name)(**self.kw)
        if op == "em X":
            return self.mod.em(self.X, n_iter=2)
        if op == "em all Y":
            return self.mod.em(self.Y, n_iter=2, em_vars="all")
        if op == "em some Y":
            return self.mod.em(self.Y, n_iter=2, em_vars=["transition_matrices", "observation_covariance", "initial_state_mean"])
        if op == "sample own":
            self.mod.random_state = 3
            return self.mod.sample(3)
        return self.call(op, self.mod, lambda v: v)

    def stages(self, op):
        """Parameters after 0, 1, 2 iterations of an EM call that is left alone."""
        key = ("stages", op)
        if key not in self.table:
            self.start()
            sel = {"em X": None, "em all Y": "all", "em some Y": ["transition_matrices", "observation_covariance", "initial_state_mean"]}[op]
            out = []
            for k in range(3):
                self.mod.em(self.X if op == "em X" else self.Y, n_iter=min(k, 1), em_vars=sel)
                out.append({a: copy.deepcopy(getattr(self.mod, a)) for a in self.names.values()})
            self.table[key] = out
        return self.table[key]

    def left(self, op):
        """What the failed call left behind, or None."""
        if op.startswith("em "):
            stages = self.stages_
            attrs = list(self.names.values())
            odd = [a for a in attrs if not any(zoo.same(getattr(self.mod, a), s[a], 1e-9) for s in stages if getattr(self.mod, a) is not None)
                   and not (self.kw.get(a) is None and getattr(self.mod, a) is None)]
            if odd:
                return f"{', '.join(odd)} as after no whole number of iterations"
            for a in attrs:
                self.par[a] = getattr(self.mod, a)
                self.exp[a] = snap(self.par[a])
        bad = self.frame(op)
        if bad:
            return bad
        if numpy_state() != self.globals:
            return "the state of numpy or of warnings changed"
        return None

    def later(self, tier):
        """The calls that follow against a fresh model."""
        for q in AFTER if tier == "quick" else QUERIES:
            if not self.lin and q.startswith("loglik"):
                continue
            try:
                bad = self.do(q) or self.frame(q)
            except StopIteration:
                continue
            if bad:
                return "later " + bad
        return self.later_em() if self.lin else None

    def later_em(self):
        """The EM call that follows (with data of its own) against a fresh model with the same parameters."""
        now = {a: getattr(self.mod, a) for a in sorted(self.names.values())}
        key = ("later em", self.mod.em_vars if isinstance(self.mod.em_vars, str) else repr(self.mod.em_vars)) + tuple(snap(v) for v in now.values())
        if key not in self.table:
            fresh = zoo.cls(self.name)(**copy.deepcopy(now), n_dim_state=self.mod.n_dim_state, n_dim_obs=self.mod.n_dim_obs)
            fresh.em_vars = copy.deepcopy(self.mod.em_vars)
            ok, r = attempt(fresh.em, self.X.copy(), n_iter=1)
            self.table[key] = ok, {a: getattr(fresh, a) for a in now} if ok else r
        wok, want = self.table[key]
        ok, r = attempt(self.mod.em, self.X.copy(), n_iter=1)
        if ok != wok:
            return f"later em {'gives a result' if ok else exc(r)} instead of {'a result' if wok else exc(want)}"
        bad = [a for a in now if ok and not zoo.same(getattr(self.mod, a), want[a], 1e-9)]
        return f"later em differs in {bad}" if bad else None


def scene(case, out):
    s = Scene(case["cls"], case["form"], out)
    if case.get("op", "").startswith("em"):
        s.stages_ = s.stages(case["op"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
    return s


def check_after(s, case, out, what):
    out.states += 1
    out.transitions += 1
    out.traces += 1
    bad = s.left(case.get("op", "")) or s.later(case["tier"])
    if bad:
        out.fail(f"{case['kind']}:{case['cls']}.{case.get('op', what).split()[0]}", f"{case['cls']} ({case['form']}) {what}: {bad}")
    return bad


def interrupt(case, out):
    s = scene(case, out)
    op, opc = case["op"], case["grain"] == "opcode"
    s.begin()
    pts = points(lambda: s.invoke(op), opc, case["tier"])
    s.begin()
    pts = sorted(set(pts) | set(points(lambda: s.invoke(op), opc, case["tier"])))
    for k in pts:
        s.begin()
        t = Tracer(k, opc)
        ok, r = t.run(lambda: s.invoke(op))
        if not t.fired:
            out.note("call took another course (point not reached)")
            continue
        out.outcome(hash((op, t.where)))
        if ok:
            out.fail(f"swallowed:{case['cls']}.{op.split()[0]}", f"{case['cls']} ({case['form']}) {op} interrupted at {t.where}: the interrupt was swallowed")
            return
        if check_after(s, case, out, f"{op} interrupted at {t.where}"):
            return


def pair(case, out):
    """Two interrupts: one in a call, one in the call after it (at the first occurrence of each place)."""
    s = scene(case, out)
    s2 = case["second"]
    st2 = s.stages(s2) if s2.startswith("em") else None
    s.begin()
    p1 = points(lambda: s.invoke(case["op"]), False, "first")
    s.begin()
    p2 = points(lambda: s.invoke(s2), False, "first")
    for a in p1[::3]:
        for b in p2[::3]:
            s.begin()
            t = Tracer(a)
            ok, r = t.run(lambda: s.invoke(case["op"]))
            bad = s.left(case["op"])
            if bad:
                break
            if s2.startswith("em") and case["op"].startswith("em"):
                break
            t2 = Tracer(b)
            ok, r = t2.run(lambda: s.invoke(s2))
            if s2.startswith("em"):
                s.stages_ = st2
            out.states += 2
            out.transitions += 2
            out.traces += 1
            bad = s.left(s2) or s.later("quick")
            if bad:
                out.fail(f"pair:{case['cls']}.{case['op'].split()[0]}", f"{case['cls']} ({case['form']}) {case['op']} interrupted at {t.where}, then {s2} at {t2.where}: {bad}")
                return


class Raising(zoo.Fun):
    """A user function that raises in its k-th invocation from now (counted over all functions of the model)."""
    count = None

    def __call__(self, *a):
        Raising.seen += 1
        if Raising.seen == Raising.stop:
            raise UserError(Raising.seen)
        return super().__call__(*a)


def user(case, out):
    s = scene(case, out)
    wrap = lambda f: Raising(f.M, f.c, f.nl, f.G, f.mod)
    for k in ("transition_functions", "observation_functions"):
        v = s.base[k]
        s.base[k] = [wrap(f) for f in v] if isinstance(v, list) else wrap(v)
    k = 0
    while True:
        k += 1
        s.begin()
        if case["op"] == "update over":
            s.over = {a: wrap(v) if isinstance(v, zoo.Fun) else v for a, v in s.over.items()}
            s.args = s.arg_snap()
        Raising.seen, Raising.stop = 0, k
        try:
            ok, r = attempt(s.invoke, case["op"])
        finally:
            Raising.stop = None
        if Raising.seen < k:
            break
        if ok:
            out.fail(f"swallowed:{case['cls']}", f"{case['cls']} ({case['form']}) {case['op']}: the exception raised in invocation {k} of the user's functions was swallowed")
            return
        e, chain = r, []
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if not any(isinstance(x, UserError) for x in chain):
            out.fail(f"user:{case['cls']}", f"{case['cls']} ({case['form']}) {case['op']}: invocation {k} of the user's functions raised UserError, the caller saw {exc(r)}")
            return
        if check_after(s, case, out, f"{case['op']} with invocation {k} of the user's functions raising"):
            return
    if k == 1:
        out.note("no user function called")


Raising.seen, Raising.stop = 0, None


class Source(np.random.RandomState):
    seen, stop = 0, None


def _raising(name):
    orig = getattr(np.random.RandomState, name)

    def f(self, *a, **k):
        self.seen += 1
        if self.seen == self.stop:
            raise UserError(self.seen)
        return orig(self, *a, **k)
    return f


for _n in ("standard_normal", "normal", "multivariate_normal", "randn", "random_sample", "uniform", "rand", "randint", "standard_gamma", "gamma", "chisquare"):
    setattr(Source, _n, _raising(_n))


def source(case, out):
    s = scene(case, out)
    k = 0
    while True:
        k += 1
        s.begin()
        src = Source(5)
        src.stop = k
        kw = dict(initial_state=s.x0) if case["op"] == "sample x0" else {}
        if case["op"] == "sample own":
            s.mod.random_state = src
            ok, r = attempt(s.mod.sample, 3)
        else:
            ok, r = attempt(s.mod.sample, 3, random_state=src, **kw)
        if src.seen < k:
            break
        if ok:
            out.fail(f"swallowed:{case['cls']}", f"{case['cls']} ({case['form']}) {case['op']}: the exception raised by draw {k} was swallowed")
            return
        if check_after(s, case, out, f"{case['op']} with draw {k} raising"):
            return


def refused(s):
    """(label, call) of all the wrong arguments tried on a model."""
    X, Y, z = s.X, s.Y, s.z
    bad_obs = {"too wide": np.hstack([z, z]), "too narrow": z[:, :1].copy(), "three-dimensional": np.stack([z, z]), "text": "abc", "list of text": ["a", "b"],
               "None": None, "object": object(), "complex": z * 1j, "ragged": [[1.0, 2.0], [1.0]], "masked too wide": masked_obs(np.hstack([z, z]), 2),
               "too long": np.vstack([z] * 4), "NaN": np.full_like(z, np.nan), "dict": {"a": 1}}
    out = []
    methods = ["filter", "smooth"] + (["loglikelihood"] if s.lin else [])
    for lab, v in bad_obs.items():
        for meth in methods:
            out.append((f"{meth} of {lab}", lambda meth=meth, v=v: getattr(s.mod, meth)(v), v))
        if s.lin and lab not in ("NaN", "complex"):
            out.append((f"em of {lab}", lambda v=v: s.mod.em(v, n_iter=1), v))
    wrong = {"mean": np.zeros(N + 1), "covariance": np.eye(N + 1), "observation": np.zeros(MM + 3), "mean text": "m", "covariance vector": np.zeros(N)}
    for lab, v in wrong.items():
        mu, P, o = s.mu, s.P, s.o
        if lab.startswith("mean"):
            mu = v
        elif lab.startswith("cov"):
            P = v
        else:
            o = v
        out.append((f"filter_update with wrong {lab}", lambda mu=mu, P=P, o=o: s.mod.filter_update(mu, P, o), v))
        out.append((f"filter_update with overrides and wrong {lab}", lambda mu=mu, P=P, o=o: s.mod.filter_update(mu, P, o, **s.over), v))
    for k in s.over:
        for lab, v in (("text", "abc"), ("wrong shape", np.zeros((N + 2, N + 3))), ("object", object())):
            out.append((f"filter_update with {k} as {lab}", lambda k=k, v=v: s.mod.filter_update(s.mu, s.P, s.o, **{k: v}), v))
    out.append(("filter_update with an unknown keyword", lambda: s.mod.filter_update(s.mu, s.P, s.o, nonsense=1), None))
    out.append(("filter_update", lambda: s.mod.filter_update(s.mu, s.P, s.o), None))
    for lab, kw in (("negative length", dict(n_timesteps=-1)), ("text length", dict(n_timesteps="a")), ("fractional length", dict(n_timesteps=2.5)),
                    ("length beyond the parameters", dict(n_timesteps=40)), ("wrong state", dict(n_timesteps=2, initial_state=np.zeros(N + 1))),
                    ("text state", dict(n_timesteps=2, initial_state="x")), ("text source", dict(n_timesteps=2, random_state="x")),
                    ("negative seed", dict(n_timesteps=2, random_state=-1)), ("unknown keyword", dict(n_timesteps=2, nonsense=1))):
        kw = dict(dict(random_state=4), **kw)
        out.append((f"sample with {lab}", lambda kw=kw: s.mod.sample(**kw), None))
    if s.lin:
        for v in ("nonsense", ["nonsense"], 3, [1, 2], object()):
            out.append((f"em with em_vars={v if not type(v) is object else 'object'}", lambda v=v: s.mod.em(s.X, n_iter=0 if v == ["nonsense"] else 1, em_vars=v), None))
        for v in ("a", 1.5, None, -1):
            out.append((f"em with n_iter={v!r}", lambda v=v: s.mod.em(s.X, n_iter=v), None))
    return out


def arguments(case, out):
    s = scene(case, out)
    s.begin()
    count = len(refused(s))
    for i in range(count):
        s.begin()
        lab, f, v = refused(s)[i]
        before = snap(v) if isinstance(v, (np.ndarray, list)) else None
        ok, r = attempt(f)
        out.note("argument refused" if not ok else "argument accepted")
        out.outcome(hash((lab, ok)))
        if before is not None and snap(v) != before:
            out.fail(f"argument:{case['cls']}", f"{case['cls']} ({case['form']}) {lab}: the argument changed")
            return
        if lab.startswith("em"):
            if ok:
                continue            # what EM does to a model is the business of C07 and C08
            # a refused EM leaves the values of the parameters as they were (defaults may have been filled in)
            s.start_ = zoo.cls(s.name)(**s.kw)
            attempt(s.start_.em, s.X, n_iter=0)
            for a in s.names.values():
                now = getattr(s.mod, a)
                if now is None and s.kw.get(a) is None:
                    continue
                if not zoo.same(now, getattr(s.start_, a), 1e-12):
                    out.fail(f"arguments:{case['cls']}.em", f"{case['cls']} ({case['form']}) {lab} was refused ({exc(r)}) but changed {a} to {zoo.show(now)}")
                    return
                s.par[a], s.exp[a] = now, snap(now)
        if check_after(s, case, out, f"{lab} ({'accepted' if ok else exc(r)})"):
            return


def in_child(f):
    """The value of f() in a process of its own, in which the library is imported afresh."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for name in [n for n in sys.modules if n.split(".")[0] == "pykalman"]:
                del sys.modules[name]
            try:
                v = f()
            except BaseException as e:
                v = RuntimeError(repr(e))
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        v = pickle.loads(fh.read())
    os.waitpid(pid, 0)
    if isinstance(v, Exception):
        raise v
    return v


def interrupted_load(k, opc):
    """(where, what is wrong with the load after one that was interrupted at the k-th point)"""
    import pykalman.datasets
    from checks import c20
    t = Tracer(k, opc)
    ok, r = t.run(pykalman.datasets.load_robot)
    if not t.fired:
        return None
    if ok:
        return t.where, "swallowed: the interrupt was swallowed"
    ok, d = attempt(pykalman.datasets.load_robot)
    bad = exc(d) if not ok else c20.wrong(d)
    return t.where, bad and f"dataset: the load after it gives {bad}"


def dataset(case, out):
    opc, tier = case["grain"] == "opcode", case["tier"]

    def where():
        import pykalman.datasets
        return points(pykalman.datasets.load_robot, opc, tier)

    # the first load of a process, in a process of its own; and loads after earlier ones, here
    for cold in (True, False):
        for k in in_child(where) if cold else where():
            r = in_child(lambda: interrupted_load(k, opc)) if cold else interrupted_load(k, opc)
            if r is None:
                out.note("call took another course (point not reached)")
                continue
            out.states += 1
            out.transitions += 1
            out.traces += 1
            out.outcome(hash(("load", cold, r[0])))
            if r[1]:
                out.fail(r[1].split(":")[0] + ":load_robot", f"{'first' if cold else 'later'} load_robot interrupted at {r[0]}: {r[1]}")
                return


def run_case(case, out):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"interrupt": interrupt, "pair": pair, "user": user, "source": source, "arguments": arguments, "dataset": dataset}[case["kind"]](case, out)
    out.sample = case
