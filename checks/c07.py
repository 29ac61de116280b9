"""C07: every EM iteration against the exact M-step; the likelihood never falls."""
import itertools

import numpy as np

from mc import units
from mc.lin import KEYS, SHORT, Joint, Model, attempt, close, err, exc, masked_obs, observed, partly_masked
from mc.linspace import ALLC, ALLN, ALLV, ALLV_CQ, deviations, kinds_dict, structured, words

PID = "C07"
LEVEL = "model_checking"
RULE = ("for every subset of the eight parameters, every missing pattern and several models, EM is run one iteration at a time on "
        "the real class; after each iteration every estimated parameter must equal the documented closed form evaluated with the "
        "exact moments of the joint Gaussian, and the exact log-likelihood must not have fallen; a state is the model after an iteration")
ASSUMPTIONS = ["documented order of the updates: C with the old d, R with the new C and old d, A with the old b, Q with the new A "
               "and old b, mu_0, Sigma_0 with the new mu_0, b with the new A, d with the new C",
               "iterations after which a covariance is nearly singular (tiny data) end the exploration of that run and are counted"]
PARAMS = [SHORT[k] for k in KEYS]
SHAPE = dict(A="nn", b="n", Q="nn", C="mn", d="m", R="mm", m="n", P="nn")


def bounds(tier):
    return dict(subsets=256, iterations=3 if tier == "quick" else 6, models=len(models(tier)))


def models(tier):
    ms = [(2, 2, 4, ALLC), (2, 2, 4, ALLV), (1, 1, 4, ALLC), (3, 2, 4, ALLV_CQ), (2, 3, 3, ALLN), (2, 1, 5, ALLC)]
    return ms if tier == "quick" else ms + [(3, 3, 5, ALLC), (1, 2, 5, ALLV_CQ), (4, 2, 5, ALLC), (2, 2, 5, ALLV), (2, 2, 6, ALLC), (2, 2, 2, ALLC),
                                            (2, 2, 12, ALLV_CQ)]


def cases(tier):
    out = []
    iters = 3 if tier == "quick" else 6
    for i, (n, m, T, kinds) in enumerate(models(tier)):
        for k in range(9):
            for c in itertools.combinations(KEYS, k):
                out.append(dict(n=n, m=m, T=T, kinds=kinds, em="".join(c), iters=iters, how="list"))
        out.append(dict(n=n, m=m, T=T, kinds=kinds, em=KEYS, iters=iters, how="all"))
        out.append(dict(n=n, m=m, T=T, kinds=kinds, em="QRmP", iters=iters, how="default"))
    # the shortest sequences: one transition, or none (then only what the first state and its observation determine)
    for n, m, T, kinds in [(1, 1, 2, ALLC), (2, 2, 2, ALLV), (2, 1, 2, ALLN), (3, 2, 3, ALLV_CQ), (1, 1, 1, ALLC), (2, 2, 1, ALLC), (2, 3, 1, ALLV)]:
        keys = KEYS if T > 1 else "CdRmP"
        for k in range(len(keys) + 1):
            for c in itertools.combinations(keys, k):
                out.append(dict(n=n, m=m, T=T, kinds=kinds, em="".join(c), iters=min(iters, 3), how="list"))
    for n, m, T, kinds in [(2, 2, 3, ALLC), (1, 1, 3, ALLV_CQ), (3, 2, 4, ALLC)] + ([] if tier == "quick" else [(2, 3, 4, ALLC)]):
        for u in units.UNIFORM + units.MIXED:
            for c in ("QRmP", KEYS, "A", "b", "Q", "C", "d", "R", "m", "P", "AQ", "CR"):
                out.append(dict(n=n, m=m, T=T, kinds=kinds, em=c, iters=1 if u in units.MIXED else 2, how="list", units=u))     # learned covariances are ill-conditioned in mixed units
    # starting models of particular structure; parameters that are not estimated varying over time in every pattern
    for c in structured() + [c for c in deviations(2, 2, 3, 1, lowest=1)] + [c for c in words("quick") if set(c["variants"]) - set("QR")]:
        if c["n"] > 3 or c["m"] > 3 or "0" in c["variants"].values() or "diag0" in c["variants"].values():
            continue
        tv = [k for k, v in kinds_dict(c["kinds"]).items() if v == "V"]
        for em in ("QRmP", KEYS, "Q", "R", "A", "C", "P") if not tv else ("".join(k for k in e if k not in tv) for e in ("QR", "AC", "bd", "QRmP")):
            if em:
                out.append(dict(n=c["n"], m=c["m"], T=c["T"] + 1, kinds=c["kinds"], em=em, iters=1, how="list", few=1,
                                variants={k: v + ".g1" if "." in v else v for k, v in c["variants"].items()}))
    for n, m, T, kinds in [(2, 2, 30, ALLC), (2, 1, 40, ALLN), (1, 1, 25, ALLC), (3, 2, 30, ALLC)]:
        for c in ("QRmP", KEYS, "AC", "Ab", "Cd", "Rd", "QR", "A", "R", "mP"):
            out.append(dict(n=n, m=m, T=T, kinds=kinds, em=c, iters=10 if tier == "quick" else 40, how="list"))
    return out


def mstep(full, J, z, obs, em, S):
    """The documented updates with exact moments (and how close to singular the second moments of states in units S are)."""
    n, T = J.n, J.T
    mean, P, kap = J.posterior(z, obs)
    E = [mean[t * n:t * n + n] for t in range(T)]
    V = lambda t, s: P[t * n:t * n + n, s * n:s * n + n]
    xx = [V(t, t) + np.outer(E[t], E[t]) for t in range(T)]
    new = {}
    scale = np.outer(S, S)
    worst = max([np.linalg.cond(scale * sum(xx[t] for t in ts)) for k, ts in (("C", obs), ("A", range(T - 1))) if k in em and len(ts)] or [1.0])
    C = full["C"]
    if "C" in em:
        a = sum(np.outer(z[t] - full["d"][t], E[t]) for t in obs)
        new["C"] = np.linalg.solve(sum(xx[t] for t in obs).T, a.T).T
        C = [new["C"]] * T
    if "R" in em:
        acc = 0
        for t in obs:
            e = z[t] - C[t].dot(E[t]) - full["d"][t]
            acc = acc + np.outer(e, e) + C[t].dot(V(t, t)).dot(C[t].T)
        new["R"] = acc / len(obs)
    A = full["A"]
    if "A" in em:
        a = sum(V(t, t - 1) + np.outer(E[t] - full["b"][t - 1], E[t - 1]) for t in range(1, T))
        new["A"] = np.linalg.solve(sum(xx[t - 1] for t in range(1, T)).T, a.T).T
        A = [new["A"]] * T
    if "Q" in em:
        acc = 0
        for t in range(1, T):
            B = A[t - 1]
            e = E[t] - B.dot(E[t - 1]) - full["b"][t - 1]
            acc = acc + np.outer(e, e) + B.dot(V(t - 1, t - 1)).dot(B.T) + V(t, t) - V(t, t - 1).dot(B.T) - B.dot(V(t - 1, t))
        new["Q"] = acc / (T - 1)
    mu0 = full["m"][0]
    if "m" in em:
        mu0 = new["m"] = E[0]
    if "P" in em:
        new["P"] = V(0, 0) + np.outer(E[0] - mu0, E[0] - mu0)
    if "b" in em:
        new["b"] = sum(E[t] - A[t - 1].dot(E[t - 1]) for t in range(1, T)) / (T - 1)
    if "d" in em:
        new["d"] = sum(z[t] - C[t].dot(E[t]) for t in obs) / len(obs)
    return new, kap, worst


def well(full, em):
    for k in "QRP":
        for M in full[k]:
            w = np.linalg.eigvalsh((M + M.T) / 2)
            if not w[0] > 1e-5 * max(w[-1], 1e-3):
                return False
    return all(np.all(np.abs(v) < 1e4) for k in KEYS for v in full[k])


def run_case(case, out):
    from mc import zoo
    n, m, T, em = case["n"], case["m"], case["T"], case["em"]
    kinds = kinds_dict(case["kinds"])
    M = Model(n, m, T, kinds, case.get("variants"), salt="em")
    z = M.obs()
    const_noise = all(kinds[k] not in "VL" or k in em for k in "QR")
    masks = range(2 ** T - 1) if T <= 6 else (0, 1, 1 << (T - 1), 0b101101, (1 << T // 2) - 1)
    if T == 5 and case["iters"] <= 3:
        masks = [b for b in masks if bin(b).count("1") <= 2]
    if case.get("few"):
        masks = [0] + [1 << t for t in range(T)] + [3]
    un = units.of(case)
    kwargs = un.kwargs(M.kwargs()) if un else M.kwargs()
    out.sample = case
    for bits, part in [(b, p) for b in masks for p in (0, 1) if not p or m > 1 and b]:
        obs = observed(T, bits)
        X = (partly_masked if part else masked_obs)(un.obs(z) if un else z, bits)
        ok, mod = attempt(zoo.cls("KF"), **{k: v.copy() if hasattr(v, "copy") else v for k, v in kwargs.items()})
        if not ok:
            out.fail("new", exc(mod))
            return
        full = {k: list(v) for k, v in M.full.items()}
        ll = None
        # the first iteration may have to replace a per-step estimate by a constant: no ascent is due there
        comparable = not any(kinds[k] in "VL" for k in em)
        out.traces += 1
        for it in range(1 if part else case["iters"]):
            J = Joint(full, n, m, T)
            now = J.loglik(z, obs)
            tv = all(np.array_equal(full[k][0], x) for k in "QR" for x in full[k])
            if ll is not None and comparable and now < ll - 1e-7 * (1 + abs(ll)):
                out.fail("likelihood", f"log-likelihood fell from {ll} to {now} in iteration {it} [{case} missing={bits:b}]")
                return
            ll = now if tv else None
            args = dict(n_iter=1)
            if case["how"] == "all":
                args["em_vars"] = "all"
            elif case["how"] == "list":
                args["em_vars"] = [SHORT[k] for k in em]
            ok, r = attempt(mod.em, X, **args)
            out.states += 1
            out.transitions += 1
            if not ok:
                out.fail("raise", f"em: {exc(r)} [{case} missing={bits:b} iteration={it}]")
                return
            want, kap, worst = mstep(full, J, z, obs, em, un.S if un else np.ones(n))
            if worst > 1e12:
                out.note("second moments of the states singular up to rounding (run ended)")
                break
            tol = max(min(max(1e-7, 1e-12 * kap), 1e-4), un.tol if un else 0)
            for k, w in want.items():
                got = getattr(mod, SHORT[k])
                if un and np.shape(got) == np.shape(w):
                    got = got / un.f[k]
                if not close(got, w, tol * (1 + np.abs(w).max())):
                    out.fail(f"M-step {k}", f"{SHORT[k]} after iteration {it}: {err(got, w)} [{case} missing={bits:b}]")
                    return
                full[k] = [(got + got.T) / 2 if k in "QRP" else got] * max(1, T)
            comparable = it > 0 or comparable
            if not well(full, em):
                out.note("EM degenerates (run ended)")
                break
        out.outcome(em, bits, None if ll is None else round(ll, 5))
