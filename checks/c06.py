"""C06: Cholesky and Bierman filters against KalmanFilter on every explored model."""
import itertools

import numpy as np

from mc.lin import KEYS, SHORT, Joint, Model, attempt, exc, masked_obs
from mc.lincheck import context, rel
from mc.linspace import ALLC, ALLN, ALLV_CQ, both_bases, kinds_dict, mask_list, sqrt_ok
from mc import units, zoo

PID = "C06"
LEVEL = "model_checking"
RULE = ("the three classes are executed side by side on every configuration of the bounded space with constant positive definite "
        "noise covariances (filter, smooth), on integer-typed parameters, on filter_update chains with overrides, and on em for "
        "every way of naming the variables; every state of the traces must agree in value and shape")
ASSUMPTIONS = ["KalmanFilter itself is judged by C01, C02, C05, C07"]
PARAMS = [SHORT[k] for k in KEYS]


def bounds(tier):
    return dict(space="both_bases restricted to constant positive definite noise covariances", em="all subsets of <=2 variables, "
                "default, 'all', attribute" if tier == "quick" else "all 256 subsets, default, 'all', attribute")


def em_sets(tier):
    if tier == "quick":
        s = [list(c) for k in range(3) for c in itertools.combinations(PARAMS, k)]
    else:
        s = [list(c) for k in range(9) for c in itertools.combinations(PARAMS, k)]
    return ["default", "all", "attr-all", "attr-two"] + s


def cases(tier):
    out = [dict(kind="run", **c) for c in both_bases(tier) if sqrt_ok(c)]
    quick = tier == "quick"
    for ev in em_sets(tier):
        for n, m, T, k in ((2, 2, 4, ALLC), (2, 2, 4, ALLV_CQ), (3, 2, 5, ALLC), (1, 1, 3, ALLC), (2, 3, 4, ALLN)) if quick else \
                ((2, 2, 4, ALLC), (2, 2, 4, ALLV_CQ), (3, 2, 5, ALLC), (1, 1, 3, ALLC), (2, 3, 4, ALLN), (3, 3, 6, ALLV_CQ), (1, 2, 4, ALLV_CQ)):
            out.append(dict(kind="em", n=n, m=m, T=T, kinds=k, em=ev))
    for n, m in [(1, 1), (2, 2), (3, 2), (2, 3), (4, 1)]:
        for ints in subsets_of_ints(quick):
            for base in (ALLC, ALLV_CQ):
                out.append(dict(kind="int", n=n, m=m, T=3, kinds=base, ints=ints))
    for n, m in [(2, 2), (3, 1), (1, 2), (4, 3)]:
        for s in ["".join(c) for k in range(7) for c in itertools.combinations("AbQCdR", k)]:
            out.append(dict(kind="update", n=n, m=m, T=3, kinds=ALLC, over=s))
    return out


def subsets_of_ints(quick):
    if quick:
        return ["".join(c) for k in (1, 2) for c in itertools.combinations(KEYS, k)] + [KEYS]
    return ["".join(c) for k in range(1, 9) for c in itertools.combinations(KEYS, k)]


def mods(kw):
    res = []
    for name in zoo.LINEAR:
        ok, mod = attempt(zoo.cls(name), **{k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()})
        if not ok:
            return name, mod
        res.append((name, mod))
    return res


def compare(out, what, got, want, tol):
    """got, want: (ok, result).  True if they agree."""
    if not want[0]:
        out.note("standard filter refuses (skipped)")
        return True
    if not got[0]:
        out.fail(what, f"{what}: {exc(got[1])}")
        return False
    try:
        a, b = tuple(got[1]), tuple(want[1])
    except TypeError:
        out.fail(what, f"{what}: result {got[1]!r}")
        return False
    if not zoo.same(a, b, tol):
        out.fail(what, f"{what}: shapes {[np.shape(x) for x in a]} {zoo.show(a[0])} {zoo.show(a[1])}; standard gives "
                 f"{[np.shape(x) for x in b]} {zoo.show(b[0])} {zoo.show(b[1])}")
        return False
    return True


def well_posed(kw, ev, X, iters):
    """EM on a handful of observations may run into singular covariances, where nothing is promised."""
    ok, mod = attempt(zoo.cls("KF"), **kw)
    if not ok:
        return True
    evs = dict(default=PARAMS_DEFAULT, all="all").get(ev, ev) if isinstance(ev, str) else ev
    evs = {"attr-all": "all", "attr-two": ["transition_matrices", "observation_offsets"]}.get(evs, evs) if isinstance(evs, str) else evs
    for _ in range(iters):
        ok, r = attempt(mod.em, X, n_iter=1, em_vars=evs)
        if not ok:
            return True
        for k in "QRP":
            w = np.linalg.eigvalsh(np.asarray(getattr(mod, SHORT[k]), float))
            if not w[0] > 1e-4 * max(w[-1], 1e-2):
                return False
    return True


PARAMS_DEFAULT = ["transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]
INT = dict(b=lambda n, m, t: np.arange(1, n + 1) + t, d=lambda n, m, t: np.arange(m) - 2 - t,
           A=lambda n, m, t: np.eye(n, dtype=int) + np.tri(n, dtype=int).T * (t % 2), m=lambda n, m, t: 2 * np.arange(n) - 1,
           C=lambda n, m, t: np.fromfunction(lambda i, j: 1 + (i + 2 * j + t) % 3, (m, n), dtype=int),
           Q=lambda n, m, t: 3 * np.eye(n, dtype=int) + np.ones((n, n), int) + np.diag(np.arange(n)),
           R=lambda n, m, t: 5 * np.eye(m, dtype=int) + 2 * np.ones((m, m), int) - 3 * (np.arange(m)[:, None] != np.arange(m)),
           P=lambda n, m, t: 4 * np.eye(n, dtype=int) + 3 * np.ones((n, n), int))


def run_case(case, out):
    n, m, T = case["n"], case["m"], case["T"]
    kinds = kinds_dict(case["kinds"])
    M = Model(n, m, T, kinds, case.get("variants"))
    z = M.obs(case.get("z", "g"))
    kw = M.kwargs()
    kind = case["kind"]
    tol = 1e-8
    un = units.of(case)
    if un:
        kw, z = un.kwargs(kw), un.obs(z)
    if kind == "run":
        J = Joint(M.full, n, m, T)
        tol = rel(J.cond(list(range(T)))[2]) * max(1.0, np.abs(J.Pxx).max())
        tol = max(tol, un.tol) if un else tol
    if kind == "int":
        for k in case["ints"]:
            if kinds[k] == "V":
                steps = len(M.given[k])
                kw[SHORT[k]] = np.array([INT[k](n, m, t) for t in range(steps)])
            else:
                kw[SHORT[k]] = INT[k](n, m, 0)
            assert kw[SHORT[k]].dtype.kind == "i"
    ms = mods(kw)
    if isinstance(ms, tuple):
        out.fail("new", f"{ms[0]}: {exc(ms[1])}")
        return
    if kind != "run" or case["what"] != "kinds":
        out.sample = case
    if kind in ("run", "int"):
        for bits in mask_list(T, case.get("masks", "all")):
            X = masked_obs(z, bits)
            for meth in ("filter", "smooth"):
                old = un.back if un else lambda r: r
                want = attempt(lambda mod: old(getattr(mod, meth)(X)), ms[0][1])
                for name, mod in ms[1:]:
                    out.states += T
                    out.transitions += T
                    out.traces += 1
                    if not compare(out, f"{name}.{meth}", attempt(lambda mod: old(getattr(mod, meth)(X)), mod), want, tol):
                        out.fails[-1]["msg"] += f" [{case} missing={bits:b}]"
                        return
                out.outcome(np.round(np.asarray(want[1][0], float), 5).tobytes() if want[0] else 0)
    elif kind == "update":
        f = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance", C="observation_matrix",
                 d="observation_offset", R="observation_covariance")
        from mc.lin import value
        for bits in range(4):
            state = {name: (kw["initial_state_mean"].copy(), kw["initial_state_covariance"].copy()) for name, _ in ms}
            for t in range(2):
                ovr = {f[k]: value(k, "g", 800 + t, n, m) for k in case["over"]}
                o = None if bits >> t & 1 else z[t]
                res = {name: attempt(mod.filter_update, *state[name], o, **ovr) for name, mod in ms}
                for name, _ in ms[1:]:
                    out.states += 1
                    out.transitions += 1
                    out.traces += 1
                    if not compare(out, f"{name}.filter_update", res[name], res["KF"], tol):
                        out.fails[-1]["msg"] += f" [{case} missing={bits:b} t={t}]"
                        return
                if not res["KF"][0]:
                    break
                state = {name: r[1] for name, r in res.items()}
            out.outcome(case["over"], bits)
    else:
        ev = case["em"]
        for bits in (0, 1, 2, 1 << (T - 1), 3):
            X = masked_obs(z, bits)
            for iters in (1, 2) if ev not in ("default",) else (None, 1):
                if not well_posed(kw, ev, X, iters or 10):
                    out.note("EM degenerates (skipped)")
                    continue
                res = []
                ms = mods(kw)
                for name, mod in ms:
                    args = {} if iters is None else dict(n_iter=iters)
                    if ev == "attr-all":
                        mod.em_vars = "all"
                    elif ev == "attr-two":
                        mod.em_vars = ["transition_matrices", "observation_offsets"]
                    elif ev != "default":
                        args["em_vars"] = ev
                    ok, r = attempt(mod.em, X, **args)
                    if ok:
                        r = tuple(np.asarray(getattr(mod, p), float) for p in PARAMS)
                    res.append((ok, r))
                for (name, _), got in zip(ms[1:], res[1:]):
                    out.states += T * (iters or 10)
                    out.transitions += iters or 10
                    out.traces += 1
                    # several steps of EM amplify rounding
                    if not compare(out, f"{name}.em", got, res[0], 1e-7 if iters else 1e-6):
                        out.fails[-1]["msg"] += f" [{case} missing={bits:b} n_iter={iters}]"
                        return
                out.outcome(str(ev), bits, iters, np.round(res[0][1][2], 5).tobytes() if res[0][0] else 0)
