"""C08: em histories over every selection of parameters, every way of selecting, every split of the iterations."""
import copy
import itertools

import warnings

import numpy as np

from mc import zoo
from mc.lin import KEYS, SHORT, Model, attempt, exc, masked_obs
from mc.linspace import ALLC, ALLL, ALLL_CQ, ALLN, ALLV, ALLV_CQ, kinds_dict

PID = "C08"
LEVEL = "model_checking"
RULE = ("for each linear class, form of the parameters (default, constant, per step, longer than needed), each of the 256 selections "
        "and each way to make it (argument as list/tuple/set/iterator/dictionary/array, constructor, attribute set later, argument against a different "
        "setting, 'all', default), every history of em calls whose iterations add up to the bound is run; a state is the model after "
        "a call: its frame, the form of its parameters and its values are compared with the same number of single iterations")
ASSUMPTIONS = ["the values of an iteration themselves are decided by C07 (and C06 for the square-root classes)"]
SINGLE = dict(A=2, b=1, Q=2, C=2, d=1, R=2, m=1, P=2)
DEFAULT = "QRmP"


def bounds(tier):
    return dict(selections=256, classes=list(zoo.LINEAR), iterations=3 if tier == "quick" else 4,
                histories="all compositions of the number of iterations, with zero-iteration calls before and after")


def cases(tier):
    out = []
    quick = tier == "quick"
    subsets = ["".join(c) for k in range(9) for c in itertools.combinations(KEYS, k)]
    for name in zoo.LINEAR:
        forms = [ALLN, ALLC, ALLV if name == "KF" else ALLV_CQ, ALLL if name == "KF" else ALLL_CQ]
        for n, m, T in ((2, 2, 4),) if quick else ((2, 2, 4), (1, 1, 4), (3, 2, 5), (2, 3, 4), (1, 2, 3)):
            for f, kinds in enumerate(forms):
                for k in range(9):
                    if quick and f != 2 and 1 < k < 7 and (f or name != "KF"):
                        continue
                    if quick and name != "KF" and 2 < k < 6:
                        continue
                    for c in itertools.combinations(KEYS, k):
                        out.append(dict(cls=name, n=n, m=m, T=T, kinds=kinds, em="".join(c),
                                        iters=(3 if k < 2 or k > 6 else 2) if quick else 4))
        for n, m, T in ((1, 1, 4), (3, 2, 5), (1, 3, 4), (2, 1, 6)):
            for kinds in forms:
                for em in ("", KEYS, DEFAULT, "A", "C", "Ab", "Rd"):
                    out.append(dict(cls=name, n=n, m=m, T=T, kinds=kinds, em=em, iters=3 if quick else 4))
        for em in subsets:
            out.append(dict(cls=name, n=2, m=2, T=1, kinds=ALLC, em=em, iters=1))
        for kinds in forms[2:]:
            for em in subsets if not quick else [e for e in subsets if len(e) < 3 or len(e) > 6]:
                for n, m, T in ((2, 2, 1), (1, 1, 2)) if quick else ((2, 2, 1), (1, 1, 2), (2, 1, 2)):
                    out.append(dict(cls=name, n=n, m=m, T=T, kinds=kinds, em=em, iters=1))
        for n, m, T, k in ((1, 1, 5, 500), (2, 2, 5, 200)) if quick else ((1, 1, 5, 2000), (2, 2, 5, 1000), (2, 1, 12, 500), (1, 2, 6, 500)):
            for em in (DEFAULT, "Q", "R", "A", "mP", "bd"):
                if em in (DEFAULT, "Q", "A") or not quick:
                    out.append(dict(cls=name, n=n, m=m, T=T, kinds=ALLC, em=em, iters=k, long=1))
    out.sort(key=lambda c: ("long" in c, len(c["em"])))
    return out


def ways(em, iters):
    """(constructor em_vars, attribute set afterwards or '-', argument or '-')"""
    names = [SHORT[k] for k in em]
    other = [SHORT[k] for k in KEYS if k not in em]
    w = [(None, "-", list(names)), (None, "-", tuple(reversed(names))), (None, "-", set(names)), (None, "-", "iter"),
         (list(names), "-", "-"), (tuple(names), "-", None), (set(names), "-", "-"), (other, list(names), "-"), (other, "-", list(names)),
         ("all", "-", list(names)), ("all", frozenset(names), None), (list(names), other, list(names)), (None, "all", tuple(names)),
         (None, "-", np.array(names, dtype=str)), (np.array(names, dtype=str), "-", None), ("all", "-", dict.fromkeys(names)),
         (None, "-", np.array(names, dtype=object))]
    if em == KEYS:
        w += [(None, "-", "all"), ("all", "-", "-"), (None, "all", "-"), ([], "-", "all"), ([SHORT["A"]], "all", None)]
    if em == DEFAULT:
        w += [("absent", "-", "-"), (None, "-", "-"), (None, "-", None), (list(other), None, "-"), ("all", None, None)]
    return w


def compositions(k):
    if k == 0:
        return [[]]
    return [[a] + r for a in range(1, k + 1) for r in compositions(k - a)]


def state(mod):
    return {k: np.array(getattr(mod, SHORT[k]), copy=True) for k in KEYS}


def check_state(mod, before, em, n, m, T, moved=True):
    """Frame of one call: the reason it is broken, or None."""
    shape = dict(A=(n, n), b=(n,), Q=(n, n), C=(m, n), d=(m,), R=(m, m), m=(n,), P=(n, n))
    for k in KEYS:
        v = getattr(mod, SHORT[k])
        if k not in em or not moved:
            if v is None or np.shape(v) != before[k].shape or not np.array_equal(np.asarray(v), before[k]):
                return f"{SHORT[k]} was not selected but became {zoo.show(v) if v is not None else v} (was {zoo.show(before[k])})"
        else:
            if v is None or np.shape(v) != shape[k]:
                return f"{SHORT[k]} was estimated but has shape {np.shape(v)}"
            if not np.all(np.isfinite(np.asarray(v, float))):
                return f"{SHORT[k]} was estimated as {zoo.show(v)}"
            if before[k].shape == shape[k] and np.array_equal(np.asarray(v), before[k]):
                return f"{SHORT[k]} was selected but is unchanged"
    if (mod.n_dim_state, mod.n_dim_obs) != (n, m):
        return f"dimensions became {(mod.n_dim_state, mod.n_dim_obs)}"
    return None


def run_long(case, out):
    """Many iterations at once, against as many single ones: EM must not stop by itself."""
    n, m, T, em, name, iters = (case[k] for k in ("n", "m", "T", "em", "cls", "iters"))
    M = Model(n, m, T, kinds_dict(case["kinds"]), salt="c08")
    names = [SHORT[k] for k in em]
    for bits in (0b10,):
        X = masked_obs(M.obs(), bits)
        one = zoo.cls(name)(**M.kwargs())
        for done in range(1, iters + 1):
            before = state(one)
            ok, r = attempt(one.em, X, n_iter=1, em_vars=names)
            now = state(one) if ok else before
            if not ok or any(not np.all(np.isfinite(v)) or np.abs(v).max() > 1e8 for v in now.values()) or \
                    any(np.linalg.cond(now[p]) > 1e8 for p in "QRP"):
                out.note("EM degenerates (history shortened)")
                done -= 1
                one = zoo.cls(name)(n_dim_state=n, n_dim_obs=m, **{SHORT[k]: v for k, v in before.items()})
                break
        for hist in ([done], [done // 2, done - done // 2]):
            mod = zoo.cls(name)(em_vars=names, **M.kwargs())
            for k in hist:
                ok, r = attempt(mod.em, X, n_iter=k)
                out.transitions += k
                out.states += 1
                if not ok:
                    out.fail(f"{name}.em long", f"{name}.em({k} iterations): {exc(r)} [{case} missing={bits:b}]")
                    return
            a, b = state(mod), state(one)
            for p in KEYS:
                if not zoo.same(a[p], b[p], 1e-9):
                    out.fail(f"{name}.em long", f"{name}.em selection {em!r}, calls {hist}: {SHORT[p]} is {zoo.show(a[p])} but {done} single "
                             f"iterations give {zoo.show(b[p])} [{case} missing={bits:b}]")
                    return
            out.traces += 1
        out.outcome(name, em, bits, "long", done)


def run_case(case, out):
    if case.get("long"):
        run_long(case, out)
        return
    n, m, T, em, name, iters = (case[k] for k in ("n", "m", "T", "em", "cls", "iters"))
    M = Model(n, m, T, kinds_dict(case["kinds"]), salt="c08")
    z = M.obs()
    start = {k: (np.asarray(M.given[k]) if k in M.given else M.full[k][0]) for k in KEYS}
    out.sample = case
    patterns = (0, 0b10) if len(em) in (0, 1, 7, 8) or em == DEFAULT else (0b10,)
    for bits in patterns:
        X = masked_obs(z, bits)

        def new(ctor=None, attr="-"):
            kw = M.kwargs()
            if not (isinstance(ctor, str) and ctor == "absent"):
                kw["em_vars"] = copy.copy(ctor)
            mod = zoo.cls(name)(**kw)
            if not (isinstance(attr, str) and attr == "-"):
                mod.em_vars = copy.copy(attr)
            return mod

        def call(mod, k, arg="-"):
            kw = {}
            if isinstance(arg, str) and arg == "iter":
                kw["em_vars"] = iter([SHORT[c] for c in em])
            elif not (isinstance(arg, str) and arg == "-"):
                kw["em_vars"] = copy.copy(arg)
            out.states += 1
            out.transitions += 1
            varying = {SHORT[p] for p in em if getattr(mod, SHORT[p]) is not None and np.ndim(getattr(mod, SHORT[p])) > np.ndim(M.full[p][0])}
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                if isinstance(arg, tuple):
                    ok, r = attempt(mod.em, X, "ignored", k, kw["em_vars"])
                else:
                    ok, r = attempt(mod.em, X, n_iter=k, **kw)
            if not ok:
                return exc(r)
            named = {v for v in SHORT.values() if any(v in str(w.message) for w in seen)}
            if k and named != varying:
                return f"em warned about {sorted(named)}; the selected per-step parameters are {sorted(varying)}"
            if r is not mod:
                return f"em returned {type(r).__name__} {'(another model)' if type(r) is type(mod) else ''} instead of the model"
            return None

        # the reference history: single iterations with the selection as argument
        ok, ref = attempt(new)
        if not ok:
            out.fail(f"{name}.new", exc(ref))
            return
        chain = [start]
        names = [SHORT[k] for k in em]
        for i in range(iters):
            bad = call(ref, 1, names) or check_state(ref, chain[-1], em, n, m, T, True)
            if bad and "is unchanged" in bad and i > 0:
                bad = None                # a fixed point is fine later on
            if bad and i > 0 and ("Error" in bad or "estimated as" in bad):
                out.note("EM degenerates (history shortened)")
                iters = i
                break
            if bad:
                out.fail(f"{name}.em frame", f"{name}.em(em_vars={em!r}) iteration {i}: {bad} [{case} missing={bits:b}]")
                return
            chain.append(state(ref))

        def reached(mod, k):
            s = state(mod)
            for p in KEYS:
                if not zoo.same(s[p], chain[k][p], 1e-8):
                    return f"{SHORT[p]} is {zoo.show(s[p])} but {k} single iterations give {zoo.show(chain[k][p])}"

        def check(mod, k, what):
            bad = reached(mod, k)
            if not bad:
                s = state(mod)
                for p in KEYS:
                    if p not in em and not np.array_equal(s[p], start[p]):
                        bad = f"{SHORT[p]} was not selected but changed"
            if bad:
                out.fail(f"{name}.em history", f"{name}.em selection {em!r} {what}: {bad} [{case} missing={bits:b}]")
            return not bad

        # every way of selecting; every history of calls for the first of them
        for w, (ctor, attr, arg) in enumerate(ways(em, iters)):
            hists = [[0, iters], [1] * min(2, iters)] if w else [h for k in range(iters + 1) for h in compositions(k)] + [[0], [0, 1, 0], [0, iters, 0]]
            if iters == 0:
                hists = [[0]]
            for h in hists:
                if isinstance(arg, str) and arg == "-" and sum(h) > iters:
                    continue
                mod = new(ctor, attr)
                sel = copy.copy(mod.em_vars)
                for k in h:
                    bad = call(mod, k, arg)
                    if bad:
                        out.fail(f"{name}.em", f"{name}.em({k} iterations, em_vars set as {(ctor, attr, arg)}): {bad} [{case} missing={bits:b}]")
                        return
                if h and sum(h) == 0:
                    bad = check_state(mod, start, em, n, m, T, False)
                    if bad:
                        out.fail(f"{name}.em zero", f"{name}.em(n_iter=0): {bad} [{case} missing={bits:b}]")
                        return
                if sum(h) <= iters and (h or w == 0) and sum(h) > 0:
                    if not check(mod, sum(h), f"set as {(ctor, attr, arg)}, calls {h}"):
                        return
                if type(mod.em_vars) is not type(sel) or not np.array_equal(mod.em_vars, sel):
                    out.fail(f"{name}.em_vars", f"{name}.em changed the model's em_vars from {sel} to {mod.em_vars} [{case}]")
                    return
                out.traces += 1
        # the documented default number of iterations is ten
        if em in ("QR", "A", "m") and iters:
            a, b = new(), new()
            bad = call(b, 10, names)
            ok, r = attempt(a.em, X, em_vars=names)
            if ok and not bad:
                if any(not zoo.same(getattr(a, SHORT[p]), getattr(b, SHORT[p]), 1e-6) for p in KEYS):
                    out.fail(f"{name}.em default", f"{name}.em without n_iter differs from 10 iterations [{case}]")
                    return
        # later calls use the estimates
        if iters:
            fresh = zoo.cls(name)(n_dim_state=n, n_dim_obs=m, **{SHORT[k]: chain[iters][k].copy() for k in KEYS})
            for meth in ("filter", "smooth", "loglikelihood"):
                ok1, r1 = attempt(getattr(ref, meth), X)
                ok2, r2 = attempt(getattr(fresh, meth), X)
                if ok2 and not (ok1 and zoo.same(r1, r2, 1e-8)):
                    out.fail(f"{name}.{meth} after em", f"{name}.{meth} after em differs from a model built with the estimates: "
                             f"{exc(r1) if not ok1 else zoo.show(r1)} [{case} missing={bits:b}]")
                    return
        out.outcome(name, case["kinds"], em, bits, np.round(chain[-1]["m"], 6).tobytes())
