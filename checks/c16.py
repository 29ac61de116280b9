"""C16: every subset of parameters and explicit dimensions, every single inconsistency."""
import itertools

import numpy as np

from mc import zoo
from mc.lin import DEFAULT, KEYS, SHORT, Model, attempt, exc, masked_obs, value

PID = "C16"
LEVEL = "model_checking"
RULE = ("for each class, every subset of the parameters and of the two explicit dimensions, as constants or per step, is built; the "
        "inferred dimensions, defaults and results of every method are compared with the fully specified model; then every "
        "source of a dimension in turn is made one larger or one smaller than the others, and every square matrix non-square, which "
        "must be refused with ValueError")
ASSUMPTIONS = []
STATE = "AbQmPC"       # sources of the state dimension (and 'n', the explicit one)
OBS = "CdR"
UKEYS = "QRmP"


def bounds(tier):
    return dict(dims=dims(tier), subsets="all 2^8 x 4 (linear), all 2^4 x 4 (unscented)", inconsistency="one source, +1 and -1")


def dims(tier):
    return [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)] if tier == "quick" else [(n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]


def cases(tier):
    out = []
    for name in zoo.ALL:
        keys = KEYS if name in zoo.LINEAR else UKEYS
        for n, m in dims(tier):
            for k in range(len(keys) + 1):
                if tier == "quick" and 3 <= k <= 6 and (n, m) != (2, 3) and (name != "KF" or (n, m) != (1, 2)):
                    continue
                for s in itertools.combinations(keys, k):
                    out.append(dict(cls=name, n=n, m=m, given="".join(s)))
    for name in zoo.ALL:
        out.append(dict(cls=name, n=2, m=3, positional=True))
        out.append(dict(cls=name, n=1, m=1, positional=True))
    out.sort(key=lambda c: len(c.get("given", "")))
    return out


T = 5           # per-step arrays have 4 or 5 entries: never the size of a state or observation of the quick tier


def val(p, n, m, per):
    if not per:
        return value(p, "g", 0, n, m, "dim")
    return np.array([value(p, "g", 10 + t, n, m, "dim") for t in range(T if p in "CdR" else T - 1)])


def run_case(case, out):
    if case.get("positional"):
        return run_positional(case, out)
    name, n0, m0, given = case["cls"], case["n"], case["m"], case["given"]
    lin = name in zoo.LINEAR
    keys = KEYS if lin else UKEYS
    ns = STATE if lin else "QmP"
    ms = OBS if lin else "R"
    out.sample = case
    for explicit in ("", "n", "m", "nm"):
        ssrc = [k for k in given if k in ns] + (["n"] if "n" in explicit else [])
        osrc = [k for k in given if k in ms] + (["o"] if "m" in explicit else [])
        n, m = n0 if ssrc else 1, m0 if osrc else 1
        if not ssrc and n0 > 1 and "C" in given:
            raise AssertionError
        for per in ("", "V") if lin and any(k in "AbCdQR" for k in given) else ("",):
            if per and len(given) % 2 and len(given) > 3:
                continue
            tv = "AbQCdR" if name == "KF" else "AbCd"
            kw = {}
            full = {}
            for k in keys:
                if k in given:
                    v = val(k, n, m, bool(per) and k in tv)
                    kw[SHORT[k]] = v
                    full[SHORT[k]] = v.copy()
                else:
                    full[SHORT[k]] = DEFAULT[k](n, m)
            ex = {}
            if "n" in explicit:
                ex["n_dim_state"] = n
            if "m" in explicit:
                ex["n_dim_obs"] = m
            what = f"{name} with {given!r}{' per step' if per else ''}, explicit {explicit!r}, n={n} m={m}"
            if not lin:
                if n != m:
                    f, g = zoo.functions(name, n, m, T, "sn")
                    kw.update(observation_functions=g)
                    full.update(observation_functions=g)
                idf = [zoo.Fun(np.eye(n), np.zeros(n)) for _ in range(2)]
                full["transition_functions"] = idf[0]
                full.setdefault("observation_functions", idf[1])
            ok, a = attempt(zoo.cls(name), **kw, **ex)
            ok2, b = attempt(zoo.cls(name), n_dim_state=n, n_dim_obs=m, **full)
            out.states += 1
            out.traces += 1
            if not ok or not ok2:
                out.fail(f"{name}.new", f"{what}: {exc(a if not ok else b)}")
                return
            if (a.n_dim_state, a.n_dim_obs) != (n, m):
                out.fail(f"{name}.dims", f"{what}: dimensions inferred as {(a.n_dim_state, a.n_dim_obs)}")
                return
            z = Model(n, m, T, salt="dim").obs()
            X = masked_obs(z, 2)
            mu, P = np.linspace(0.5, 1, n), np.eye(n) * 2
            calls = [("filter", (X,), {}), ("smooth", (X,), {}), ("sample", (3,), dict(random_state=3)), ("filter_update", (mu, P, z[0]), {}),
                     ("filter_update", (mu, P), {})]
            if lin:
                calls.append(("loglikelihood", (X,), {}))
            for meth, args, k in calls:
                ok, r = attempt(getattr(a, meth), *args, **k)
                ok2, w = attempt(getattr(b, meth), *args, **k)
                out.transitions += 1
                out.states += 1
                if meth == "sample" and ok and ok2:
                    r, w = (r[0], np.asarray(r[1])), (w[0], np.asarray(w[1]))
                if not ok2:
                    if ok:
                        out.fail(f"{name}.{meth}", f"{what}: {meth} works only with the partial specification ({exc(w)})")
                        return
                    continue
                r = tuple(r) if isinstance(r, (list, tuple)) else r
                if not ok or not zoo.same(r, w, 1e-9):
                    out.fail(f"{name}.{meth}", f"{what}: {meth} gives {exc(r) if not ok else zoo.show(r)} but fully specified {zoo.show(w)}")
                    return
            if lin and not per and len(given) in (0, 1, 2, 7, 8):
                sel = [SHORT[k] for k in "AdQm"]
                ok, r = attempt(a.em, X, n_iter=1, em_vars=sel)
                ok2, w = attempt(b.em, X, n_iter=1, em_vars=sel)
                out.transitions += 1
                for k in KEYS:
                    if ok2 and not (ok and zoo.same(getattr(a, SHORT[k]), getattr(b, SHORT[k]), 1e-8)):
                        out.fail(f"{name}.em", f"{what}: em gives {SHORT[k]} {exc(r) if not ok else zoo.show(getattr(a, SHORT[k]))} but fully "
                                 f"specified {zoo.show(getattr(b, SHORT[k]))}")
                        return
            out.outcome(name, n, m, given, explicit, per)
            # one matrix that is not square
            for s in given:
                if s not in "AQRP":
                    continue
                d0 = m if s == "R" else n
                for d in (d0 + 1, d0 - 1):
                    if d < 1:
                        continue
                    for axis in (0, 1) if len(given) + len(explicit) > 1 else (1,):
                        v = kw[SHORT[s]]
                        w = np.ones(v.shape[:-2] + ((d0, d) if axis else (d, d0)))
                        w[..., :min(d, d0), :min(d, d0)] = v[..., :min(d, d0), :min(d, d0)]
                        ok, r = attempt(zoo.cls(name), **dict(kw, **{SHORT[s]: w}), **ex)
                        out.states += 1
                        out.transitions += 1
                        if ok or not isinstance(r, ValueError):
                            out.fail(f"{name}.square", f"{what}: {SHORT[s]} of shape {w.shape} is {'accepted' if ok else 'refused with ' + exc(r)}")
                            return
            # one inconsistent source
            for src, dim in ((ssrc, "n"), (osrc, "o")):
                if len(src) < 2:
                    continue
                for s in src:
                    for delta in (1, -1):
                        d = (n if dim == "n" else m) + delta
                        if d < 1:
                            continue
                        kw2, ex2 = dict(kw), dict(ex)
                        if s == "n":
                            ex2["n_dim_state"] = d
                        elif s == "o":
                            ex2["n_dim_obs"] = d
                        else:
                            nn, mm = (d, m) if dim == "n" else (n, d)
                            kw2[SHORT[s]] = val(s, nn, mm, bool(per) and s in tv)
                        ok, r = attempt(zoo.cls(name), **kw2, **ex2)
                        out.states += 1
                        out.transitions += 1
                        if ok or not isinstance(r, ValueError):
                            out.fail(f"{name}.refuse", f"{what}: {'state' if dim == 'n' else 'observation'} dimension {d} from "
                                     f"{SHORT.get(s, 'the explicit dimension')} is {'accepted' if ok else 'refused with ' + exc(r)}")
                            return


def run_positional(case, out):
    """The documented order of the constructor's arguments."""
    name, n, m = case["cls"], case["n"], case["m"]
    if name in zoo.LINEAR:
        order = [SHORT[k] for k in "ACQRbdmP"]
        kw = {SHORT[k]: val(k, n, m, False) for k in KEYS}
    else:
        order = ["transition_functions", "observation_functions"] + [SHORT[k] for k in "QRmP"]
        f, g = zoo.functions(name, n, m, T, "sn")
        kw = dict({SHORT[k]: val(k, n, m, False) for k in "QRmP"}, transition_functions=f, observation_functions=g)
    z = Model(n, m, T, salt="dim").obs()
    for k in range(len(order) + 1):
        ok, a = attempt(zoo.cls(name), *[kw[x] for x in order[:k]], **{x: kw[x] for x in order[k:]})
        ok2, b = attempt(zoo.cls(name), **kw)
        r = attempt(a.filter, z) if ok else (ok, a)
        w = attempt(b.filter, z)
        out.states += 1
        out.transitions += 1
        out.traces += 1
        if not r[0] or not w[0] or not zoo.same(tuple(r[1]), tuple(w[1])):
            out.fail(f"{name}.positional", f"{name} with the first {k} arguments positional: {exc(r[1]) if not r[0] else zoo.show(r[1])}")
            return
    out.sample = case
