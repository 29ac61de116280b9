"""C05: filter_update histories against the batch filter, with every subset of per-step overrides."""
import itertools

import numpy as np

from mc import ukf, units, zoo
from mc.lin import Joint, Model, attempt, exc, masked_obs, masks, value
from mc.linspace import OBS, deviations, kinds_dict, mask_list, sqrt_ok, structured, words

PID = "C05"
LEVEL = "model_checking"
RULE = ("(chain) for each class, every per-step/constant choice of the parameters and every missing pattern, the history of "
        "filter_update calls is executed and every state compared with filter on the whole sequence; (override) the tree of all "
        "histories of two filter_update events, an event being an observation or None with any subset of the parameters overridden by generic values or by zeros, "
        "is executed and each state compared with the exact (linear) or reference (unscented) result; (refuse) for every set of "
        "per-step parameters and every set of overrides the call must succeed exactly if every per-step parameter is overridden")
ASSUMPTIONS = ["exact reference: joint Gaussian (mc/lin.py); unscented reference recursions (mc/ukf.py)"]
ARG = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance", C="observation_matrix",
           d="observation_offset", R="observation_covariance")
UARG = dict(A="transition_function", Q="transition_covariance", C="observation_function", R="observation_covariance")


def subsets(keys):
    return ["".join(c) for k in range(len(keys) + 1) for c in itertools.combinations(keys, k)]


def bounds(tier):
    return dict(chain_dims=chain_dims(tier), T="2..4" if tier == "quick" else "2..6", override_depth=2 if tier == "quick" else 3)


def chain_dims(tier):
    return [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 1)] if tier == "quick" else \
        [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)] + [(4, 1), (5, 2), (2, 5)]


def tv_of(name):
    return "AbQCdR" if name == "KF" else "AbCd" if name in zoo.LINEAR else "AC"


def cases(tier):
    out = []
    quick = tier == "quick"
    for n, m in chain_dims(tier):
        for T in (2, 3, 4) if quick else (2, 3, 4, 5, 6):
            for name in zoo.ALL:
                full = tv_of(name)
                for tv in ("", full) if name in zoo.LINEAR else ("", "A", "C", "AC"):
                    out.append(dict(kind="chain", n=n, m=m, T=T, cls=name, tv=tv))
    for n, m in ((1, 1), (2, 2), (3, 2)) + (() if quick else ((2, 3), (4, 4))):
        for name in zoo.ALL:
            for tv in ("", tv_of(name)):
                for u in units.UNIFORM + units.MIXED + units.SHIFTED:
                    for T in (3,) if quick else (2, 3, 4):
                        out.append(dict(kind="chain", n=n, m=m, T=T, cls=name, tv=tv, units=u))
    for n, m in ((1, 1), (2, 2), (3, 1)):
        for name in zoo.ALL:
            for tv in ("", tv_of(name)):
                for z in OBS if name in zoo.LINEAR else [z for z in OBS if z != "fill"]:
                    out.append(dict(kind="chain", n=n, m=m, T=3, cls=name, tv=tv, z=z))
        for name in zoo.UNSCENTED:
            for tv in ("", tv_of(name)):
                out.append(dict(kind="chain", n=n, m=m, T=3, cls=name, tv=tv, impure=True))
    for name in zoo.LINEAR:
        tvs = tv_of(name)
        for c in words("quick", tvs) + structured() + deviations(2, 2, 3, 1 if quick else 2, lowest=1):
            if name == "KF" or sqrt_ok(c):
                tv = "".join(k for k, v in kinds_dict(c["kinds"]).items() if v == "V")
                out.append(dict(kind="chain", n=c["n"], m=c["m"], T=c["T"], cls=name, tv=tv, variants=c["variants"], masks=c["masks"]))
    for n, m, T in ((1, 1, 24), (2, 1, 24), (1, 2, 150)) if quick else ((1, 1, 24), (2, 1, 24), (2, 2, 150), (1, 1, 150)):
        for name in zoo.ALL:
            for tv in ("", tv_of(name)):
                out.append(dict(kind="chain", n=n, m=m, T=T, cls=name, tv=tv, masks="1" if T < 100 else "0"))
    for n, m in ((8, 3), (3, 8)):
        for name in zoo.ALL:
            for tv in ("", tv_of(name)):
                out.append(dict(kind="chain", n=n, m=m, T=3, cls=name, tv=tv))
    for name in zoo.LINEAR:
        for tv in subsets(tv_of(name)):
            out.append(dict(kind="chain", n=2, m=2, T=3, cls=name, tv=tv))
    for name in zoo.ALL:
        for n, m in ((2, 2),) if quick else ((2, 2), (1, 1), (3, 2), (1, 3)):
            for first in subsets("AbQCdR" if name in zoo.LINEAR else "AQCR"):
                for miss in (0, 1):
                    for zero in (0, 1):
                        out.append(dict(kind="override", n=n, m=m, cls=name, first=first, miss=miss, zero=zero))
        for tv in subsets("AbQCdR" if name == "KF" else tv_of(name)):
            if tv:
                out.append(dict(kind="refuse", n=2, m=2, cls=name, tv=tv))
    if not quick:
        for name in zoo.UNSCENTED:
            for first in subsets("AQCR"):
                for second in subsets("AQCR"):
                    out.append(dict(kind="deep", n=2, m=1, cls=name, first=first, second=second))
    return out


def shape_ok(r, n):
    try:
        return np.shape(r[0]) == (n,) and np.shape(r[1]) == (n, n) and len(r) == 2
    except Exception:
        return False


def uspec(name, n, m, T, tv, form="n"):
    kw = zoo.kwargs(name, n, m, T, "l" + form)
    fs, gs = kw["transition_functions"], kw["observation_functions"]
    if "A" not in tv:
        kw["transition_functions"] = fs[0]
        fs = [fs[0]] * max(T - 1, 1)
    if "C" not in tv:
        kw["observation_functions"] = gs[0]
        gs = [gs[0]] * T
    return kw, fs, gs


def run_chain(case, out):
    n, m, T, name, tv = (case[k] for k in ("n", "m", "T", "cls", "tv"))
    if name in zoo.LINEAR:
        kinds = {k: "V" if k in tv else "C" for k in "AbQCdRmP"}
        M = Model(n, m, T, kinds, case.get("variants"))
        kw = M.kwargs()
        over = lambda t: {ARG[k]: M.full[k][t - 1 if k in "AbQ" else t].copy() for k in tv}
        z = M.obs(case.get("z", "g"))
    else:
        kw, fs, gs = uspec(name, n, m, T, tv)
        z = Model(n, m, T, salt="zoo").obs(case.get("z", "g"))
        over = lambda t: {UARG[k]: fs[t - 1] if k == "A" else gs[t] for k in tv}
    un = units.of(case)
    if un:
        z, kw = un.obs(z), un.kwargs(kw)
        over = lambda t, old=over: un.kwargs(old(t), update=True)
    if case.get("impure"):
        kw, over = zoo.impure(kw), lambda t, old=over: zoo.impure(old(t))
    tol = max(1e-8, un.tol if un else 0)
    for bits in mask_list(T, case["masks"]) if "masks" in case else masks(T):
        X = masked_obs(z, bits)
        ok, mod = attempt(zoo.cls(name), **kw)
        ok, batch = attempt(mod.filter, X) if ok else (ok, mod)
        if not ok:
            if name in zoo.UNSCENTED and type(batch).__name__ == "LinAlgError":
                out.note("batch not positive definite (skipped)")
                continue
            out.fail(f"{name}.filter", f"{name}.filter: {exc(batch)} {case}")
            return
        bm, bP = batch
        for style in (0, 1, 2, 3) if m == 1 else (0, 1, 2):   # missing steps as None, as a masked array; observations as lists, as numbers
            if style == 1 and not bits:
                continue
            mu, P = bm[0], bP[0]
            for t in range(1, T):
                o = z[t].copy() if style < 2 else z[t].tolist() if style == 2 else z[t, 0]
                if bits >> t & 1:
                    o = np.ma.masked_all(m) if style == 1 else np.ma.masked if style == 3 else None
                kw_t = over(t)
                ok, r = attempt(mod.filter_update, mu, P, o, **kw_t)
                out.states += 1
                out.transitions += 1
                bad = exc(r) if not ok else None if shape_ok(r, n) else f"shapes {[np.shape(x) for x in r]}"
                if not bad and not zoo.same(*[tuple(un.back(x) if un else x) for x in (r, (bm[t], bP[t]))], tol):
                    bad = f"{zoo.show(r[0])} {zoo.show(r[1])} but filter gives {zoo.show(bm[t])} {zoo.show(bP[t])}"
                if bad:
                    out.fail(f"{name}.chain", f"{name}.filter_update n={n} m={m} T={T} per-step={tv!r}{case.get('variants') or ''}{units.label(case)} t={t} missing={bits:b}: {bad}")
                    return
                mu, P = r
            out.traces += 1
        out.outcome(np.round(un.back((bm, bP))[0] if un else bm, 6).tobytes())
    out.sample = case


def linear_parts(n, m):
    M = Model(n, m, 1, salt="base")
    return M, {k: M.full[k][0] for k in "AbQCdRmP"}


def events(name):
    return [(s, miss) for s in subsets("AbQCdR" if name in zoo.LINEAR else "AQCR") for miss in (0, 1)]


def ov(k, t, n, m):
    return value(k, "g", 500 + 7 * t, n, m)


def run_override(case, out):
    n, m, name = case["n"], case["m"], case["cls"]
    hist1 = (case["first"], case["miss"])
    linear = name in zoo.LINEAR
    z = Model(n, m, 3, salt="ov").obs()
    if linear:
        M, base = linear_parts(n, m)
        ok, mod = attempt(zoo.cls(name), **M.kwargs())
        mu0, P0 = base["m"], base["P"]
    else:
        kw = zoo.kwargs(name, n, m, 1, "sn")
        ok, mod = attempt(zoo.cls(name), **kw)
        base = dict(A=kw["transition_functions"], C=kw["observation_functions"], Q=kw["transition_covariance"],
                    R=kw["observation_covariance"])
        mu0, P0 = kw["initial_state_mean"], kw["initial_state_covariance"]
        ofs, ogs = zoo.functions(name, n, m, 8, "ln")
        step = ukf.step_augmented if name == "UKF" else ukf.step_additive
    if not ok:
        out.fail(f"{name}.new", f"{name}: {exc(mod)}")
        return

    zeros = case.get("zero") and ("AbQCd" if name == "KF" else "AbCd")

    def par(k, t):
        if linear or k in "QR":
            v = ov(k, t, n, m)
            return np.zeros_like(v) if zeros and k in zeros else v
        if zeros:
            return [lambda x, w=0: np.zeros(n) + w, lambda x, v=0: np.zeros(m) + v][k == "C"]
        return ofs[t + 1] if k == "A" else ogs[t + 1]

    def apply(mu, P, ev, t):
        names = ARG if linear else UARG
        kw = {names[k]: (par(k, t).copy() if linear or k in "QR" else par(k, t)) for k in ev[0]}
        return attempt(mod.filter_update, mu, P, None if ev[1] else z[t].copy(), **kw)

    def expect(hist, mu, P):
        """Result of the last event given the history (exact) or the previous state (reference)."""
        if linear:
            full = {k: [base[k]] for k in "CdR"}
            full.update({k: [] for k in "AbQ"}, m=[mu0], P=[P0])
            for t, (s, _) in enumerate(hist, 1):
                for k in "AbQ":
                    full[k].append(par(k, t) if k in s else base[k])
                for k in "CdR":
                    full[k].append(par(k, t) if k in s else base[k])
            T = len(hist) + 1
            zz = np.vstack([np.zeros((1, m)), z[1:T]])
            J = Joint(full, n, m, T)
            mean, C, _ = J.posterior(zz, [t for t in range(1, T) if not hist[t - 1][1]])
            return J.block(mean, C, T - 1)
        s, miss = hist[-1]
        t = len(hist)
        g = {k: par(k, t) if k in s else base[k] for k in "AQCR"}
        return step(mu, P, g["A"], g["C"], g["Q"], g["R"], None if miss else z[t])

    def visit(hist, mu, P):
        ok, r = apply(mu, P, hist[-1], len(hist))
        out.states += 1
        out.transitions += 1
        try:
            want = expect(hist, np.asarray(mu, float), np.asarray(P, float))
            if not linear and np.linalg.eigvalsh(want[1])[0] < 1e-5:
                raise np.linalg.LinAlgError
        except np.linalg.LinAlgError:
            out.note("reference not positive definite (skipped)")
            return None
        bad = exc(r) if not ok else None if shape_ok(r, n) else f"shapes {[np.shape(x) for x in r]}"
        if not bad and not zoo.same(tuple(r), tuple(want), 1e-7):
            bad = f"{zoo.show(r[0])} {zoo.show(r[1])} instead of {zoo.show(want[0])} {zoo.show(want[1])}"
        if bad:
            out.fail(f"{name}.override", f"{name}.filter_update n={n} m={m} history (overrides, missing)={hist}: {bad}")
            return None
        return r

    r1 = visit([hist1], mu0, P0)
    if r1 is None:
        return
    seconds = [(case["second"], x) for x in (0, 1)] if "second" in case else events(name)
    for ev in seconds:
        r2 = visit([hist1, ev], r1[0], r1[1])
        if out.fails:
            return
        if "second" in case and r2 is not None:
            for ev3 in events(name):
                visit([hist1, ev, ev3], r2[0], r2[1])
                if out.fails:
                    return
                out.traces += 1
        out.traces += 1
        if r2 is not None:
            out.outcome(np.round(np.asarray(r2[0], float), 6).tobytes())
    out.sample = case


def run_refuse(case, out):
    n, m, name, tv = case["n"], case["m"], case["cls"], case["tv"]
    T = 3
    if name in zoo.LINEAR:
        M = Model(n, m, T, {k: "V" if k in tv else "C" for k in "AbQCdRmP"})
        ok, mod = attempt(zoo.cls(name), **M.kwargs())
        names, par = ARG, lambda k: ov(k, 1, n, m)
    else:
        kw, fs, gs = uspec(name, n, m, T, tv)
        ok, mod = attempt(zoo.cls(name), **kw)
        names, par = UARG, lambda k: ov(k, 1, n, m) if k in "QR" else fs[1] if k == "A" else gs[1]
    if not ok:
        out.fail(f"{name}.new", f"{name}: {exc(mod)}")
        return
    z = zoo.obs(n, m, T)
    for given in subsets("AbQCdR" if name in zoo.LINEAR else "AQCR"):
        for o in (z[1], None):
            ok, r = attempt(mod.filter_update, np.zeros(n), np.eye(n), o, **{names[k]: par(k) for k in given})
            out.states += 1
            out.transitions += 1
            out.traces += 1
            should = set(tv) <= set(given)
            if ok != should:
                out.fail(f"{name}.refuse", f"{name}.filter_update with per-step {tv!r}, overriding {given!r}, observation "
                         f"{'None' if o is None else 'given'}: {'accepted' if ok else exc(r)}")
                return
            out.outcome(name, tv, given, ok)


def run_case(case, out):
    if case["kind"] == "chain":
        run_chain(case, out)
    elif case["kind"] == "refuse":
        run_refuse(case, out)
    else:
        run_override(case, out)
