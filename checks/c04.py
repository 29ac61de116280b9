"""C04: every pattern of masked components, with every kind of number stored under (and beside) the mask."""
import itertools

import numpy as np

from mc import zoo
from mc.lin import attempt, exc

PID = "C04"
LEVEL = "model_checking"
RULE = ("for each class and method, all assignments of {observed, every non-empty subset of components masked} to the time steps "
        "are executed with each filling of the missing steps; each must equal the run in which those steps are masked entirely "
        "over zeros (and, with nothing masked, the run on the plain array); that baseline itself must be the pure prediction")
ASSUMPTIONS = ["filter_update with observation None is the pure prediction of the model (C05, C01, C10 decide that)"]
FILL = {"zero": 0.0, "big": 1e9, "nan": np.nan, "inf": -np.inf}


def bounds(tier):
    return dict(sizes=sizes(tier), fillings=list(FILL) + ["(fillings also written to the unmasked components of a missing step)"])


def sizes(tier):
    return [(1, 1, 4), (2, 2, 3), (1, 3, 2)] if tier == "quick" else [(1, 1, 6), (2, 2, 4), (3, 3, 2), (2, 2, 3), (1, 3, 3)]


def cases(tier):
    out = []
    for n, m, T in sizes(tier):
        for name in zoo.ALL:
            forms = ["c", "t"] if name in zoo.LINEAR else ["sa", "ln"]
            for form in forms:
                # one case per pattern of missing steps
                for bits in range(2 ** T):
                    out.append(dict(n=n, m=m, T=T, cls=name, form=form, bits=bits))
    # long sequences and many components: every missing step has the same components masked
    for n, m, T, patterns in ((1, 1, 40, None), (2, 2, 40, None), (1, 6, 2, range(1, 4)), (6, 1, 3, range(1, 8)), (3, 2, 4, range(1, 16)), (2, 3, 1, (0, 1))):
        for name in zoo.ALL:
            for form in ["c", "t"] if name in zoo.LINEAR else ["sa", "ln"]:
                for bits in patterns or (1, 1 << T - 1, 2 ** T - 1 - (1 << 20), sum(1 << t for t in range(0, T, 2)), 2 ** (T // 2) - 1, 3 << 17):
                    out.append(dict(n=n, m=m, T=T, cls=name, form=form, bits=bits, same=1))
    out.sort(key=lambda c: (c["n"] * c["m"] * c["T"], bin(c["bits"]).count("1")))
    return out


EMV = ["transition_covariance", "observation_covariance", "observation_matrices", "observation_offsets",
       "transition_matrices", "transition_offsets", "initial_state_mean", "initial_state_covariance"]


def methods(name, form):
    ms = ["filter", "smooth"]
    if name in zoo.LINEAR:
        ms += ["loglikelihood"]
        if form == "c":
            ms += ["em"]
    return ms


def call(name, n, m, T, form, meth, X):
    mod = zoo.build(name, n, m, T, form)
    if meth == "em":
        mod.em(X, n_iter=1, em_vars=EMV)
        return tuple(np.asarray(getattr(mod, p)) for p in EMV)
    return getattr(mod, meth)(X)


def run_case(case, out):
    n, m, T, name, form, bits = (case[k] for k in ("n", "m", "T", "cls", "form", "bits"))
    z = zoo.obs(n, m, T)
    missing = [t for t in range(T) if bits >> t & 1]
    zero = z.copy()
    zero[missing] = 0.0
    full = np.zeros((T, m), bool)
    full[missing] = True
    base = {}
    out.sample = case
    for meth in methods(name, form):
        if meth == "em" and len(missing) == T:
            continue
        ok, r = attempt(call, name, n, m, T, form, meth, np.ma.array(zero.copy(), mask=full))
        out.traces += 1
        if not ok:
            out.fail(f"{name}.{meth}", f"{name}.{meth} form={form} missing={missing}: {exc(r)}")
            return
        base[meth] = r
        if not missing:
            for what, X in (("plain array", z.copy()), ("nomask", np.ma.array(z.copy())), ("list", z.tolist())):
                ok, r = attempt(call, name, n, m, T, form, meth, X)
                out.traces += 1
                if not ok or not zoo.same(r, base[meth], 1e-9):
                    out.fail(f"{name}.{meth}", f"{name}.{meth} on {what}: {exc(r) if not ok else zoo.show(r)} instead of {zoo.show(base[meth])}")
                    return
    subsets = [s for k in range(1, m + 1) for s in itertools.combinations(range(m), k)]
    # a missing step is passed over: the baseline is the prediction from the step before it
    if form in ("c", "sa"):
        mod = zoo.build(name, n, m, T, form)
        fm, fP = base["filter"]
        for t in range(1, T):
            args = [None, np.ma.masked_all(m)] if t in missing else [z[t].copy()]
            if t in missing:
                for s in subsets:
                    for f in FILL.values():
                        for beside in (False, True):
                            v = np.array(z[t])
                            mk = np.zeros(m, bool)
                            mk[list(s)] = True
                            v[:] = np.where(mk | beside, f, v)
                            args.append(np.ma.array(v, mask=mk))
            for a in args:
                ok, r = attempt(mod.filter_update, fm[t - 1].copy(), fP[t - 1].copy(), a)
                out.traces += 1
                out.states += 1
                if not ok or not zoo.same((r[0], np.asarray(r[1]).reshape(n, n)), (fm[t], fP[t]), 1e-7):
                    out.fail(f"{name}.filter_update", f"{name}.filter_update({a!r}) at t={t}: "
                             f"{exc(r) if not ok else zoo.show(r)} instead of {zoo.show(fm[t])}")
                    return
    # what is not masked is used, even if it is not a number: the answer is not the one for a missing observation.  (Not claimed of
    # loglikelihood: a test of the repository wants a finite one of observations with NaN in them.)
    for t in range(T) if "same" not in case else ():
        if t in missing:
            continue
        for comps in subsets:
            for v in (np.nan, np.inf, -np.inf):
                data = z.copy()
                data[t, list(comps)] = v
                X = np.ma.array(data, mask=full) if missing else data
                for meth in base:
                    if meth in ("em", "loglikelihood"):
                        continue
                    ok, r = attempt(call, name, n, m, T, form, meth, X)
                    out.traces += 1
                    if ok and np.all(np.isfinite(r[0][t])):
                        out.fail(f"{name}.{meth}.unused", f"{name}.{meth} form={form} missing={missing}: an observation of {v} at t={t}, "
                                 f"which is not masked, was not used: {zoo.show(r)}")
                        return
                if form in ("c", "sa"):
                    mod = zoo.build(name, n, m, T, form)
                    ok, r = attempt(mod.filter_update, base["filter"][0][t].copy(), base["filter"][1][t].copy(), data[t])
                    if ok and np.all(np.isfinite(r[0])):
                        out.fail(f"{name}.filter_update.unused", f"{name}.filter_update with an observation of {v}, which is not masked: {zoo.show(r)}")
                        return
    if not missing:
        return
    for combo in [(s,) * len(missing) for s in subsets] if "same" in case else itertools.product(subsets, repeat=len(missing)):
        mk = np.zeros((T, m), bool)
        for t, s in zip(missing, combo):
            mk[t, list(s)] = True
        # the same observations collected in a list, one masked array (or number, or the constant `masked`) per step
        if T > 1:
            rows = np.ma.array(z.copy(), mask=mk)
            lists = [[rows[t] for t in range(T)], tuple(rows[t].copy() for t in range(T))]
            if m == 1:
                lists.append([np.ma.masked if t in missing else float(z[t, 0]) for t in range(T)])
                lists.append([np.ma.array(z[t, 0], mask=t in missing) for t in range(T)])
            for X in lists:
                for meth, b in base.items():
                    ok, r = attempt(call, name, n, m, T, form, meth, X)
                    out.traces += 1
                    if not ok or not zoo.same(r, b, 1e-9):
                        out.fail(f"{name}.{meth}.list", f"{name}.{meth} form={form} mask={mk.astype(int).tolist()} as {type(X).__name__} of "
                                 f"{type(X[0]).__name__}: {exc(r) if not ok else zoo.show(r)} instead of {zoo.show(b)}")
                        return
        for fill, v in FILL.items():
            for beside in (False, True):
                data = z.copy()
                for t in missing:
                    data[t] = np.where(mk[t] | beside, v, z[t])
                for meth, b in base.items():
                    ok, r = attempt(call, name, n, m, T, form, meth, np.ma.array(data.copy(), mask=mk.copy()))
                    out.states += T
                    out.transitions += T
                    out.traces += 1
                    if not ok or not zoo.same(r, b, 1e-9):
                        out.fail(f"{name}.{meth}", f"{name}.{meth} form={form} mask={mk.astype(int).tolist()} filling={fill}"
                                 f"{' beside the mask too' if beside else ''}: {exc(r) if not ok else zoo.show(r)} instead of {zoo.show(b)}")
                        return
    out.outcome(name, form, bits, zoo.show(base["filter"]))
