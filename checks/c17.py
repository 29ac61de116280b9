"""C17: valid covariances, ordered by information, over the whole lattice of missing patterns; accuracy of square-root forms."""
import itertools

import numpy as np

from mc import exact, units, zoo
from mc.lin import TOLX, Model, attempt, exc, masked_obs, observed, value
from mc.linspace import ALLC, ALLL, ALLL_CQ, ALLN, ALLV, ALLV_CQ, deviations, kinds_dict, mask_list, structured, words

PID = "C17"
LEVEL = "model_checking"
RULE = ("lattice cases: filter and smooth are run for every missing pattern of the sequence, and filter_update along every pattern; every "
        "covariance is checked for symmetry and positive semidefiniteness, and every edge of the lattice (one more observation) and every "
        "filtered/smoothed pair for the ordering of covariances; ill-conditioned cases: every combination of noise level, observation rows, "
        "initial and process covariance, length and missing pattern is run and compared with exact rational filtering")
ASSUMPTIONS = ["positive semidefiniteness and ordering are judged up to rounding (1e-9 of the largest covariance of the model)",
               "Bierman's accuracy and validity on ill-conditioned problems are claimed when process noise is not negligible or for a single step; "
               "the square-root unscented filter's only as validity, plus accuracy at the mildest noise level"]


def bounds(tier):
    return dict(lattice="T<=4, all 2^T patterns and all edges; 24 steps with runs of missing steps",
                ill="dims (1,1)..(3,3), R down to 2^-50, rows equal up to 2^-20, P up to 2^20, T<=3, all patterns")


DIMS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]


def cases(tier):
    quick = tier == "quick"
    out = []
    for n, m in DIMS if quick else DIMS + [(3, 3), (4, 2), (5, 1), (2, 5)]:
        for T in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            for k in (ALLN, ALLC, ALLV, ALLL, ALLV_CQ, ALLL_CQ):
                out.append(dict(kind="linear", n=n, m=m, T=T, kinds=k, variants={}, masks="all"))
    for n, m, b in [(2, 2, 1), (1, 1, 1), (3, 1, 1)] if quick else [(2, 2, 2), (1, 1, 2), (3, 1, 1), (3, 2, 1), (2, 3, 1)]:
        out += [dict(kind="linear", n=n, m=m, T=3, kinds=ALLC, variants=c["variants"], masks="all") for c in deviations(n, m, 3, b, lowest=1)]
    for c in words("quick") + words("quick", "AbCd") + structured():
        out.append(dict(kind="linear", n=c["n"], m=c["m"], T=c["T"], kinds=c["kinds"], variants=c["variants"], masks="all" if c["masks"] == "all" else "1"))
    for k in (ALLC, ALLV, ALLV_CQ):
        out.append(dict(kind="linear", n=2, m=2, T=24, kinds=k, variants={}, masks="1"))
        out.append(dict(kind="linear", n=2, m=2, T=150, kinds=k, variants={}, masks="0"))
    for n, m in DIMS:
        for u in units.UNIFORM + units.MIXED + units.SHIFTED:
            for k in (ALLC, ALLV, ALLV_CQ):
                out.append(dict(kind="linear", n=n, m=m, T=3, kinds=k, variants={}, masks="all", units=u))
            for form in ("sa", "ln"):
                out.append(dict(kind="unscented", n=n, m=m, T=3, form=form, masks="all", units=u))
    for n, m in DIMS + [(4, 2), (5, 1)]:
        for T in (1, 2, 3, 4):
            for form in ("sa", "la", "sn", "ln", "sag", "lnm"):
                out.append(dict(kind="unscented", n=n, m=m, T=T, form=form, masks="all"))
    for n, m in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)]:
        for rexp in (20, 30, 40, 50):
            for T in (1, 2, 3) if quick else (1, 2, 3, 4):
                out.append(dict(kind="ill", n=n, m=m, T=T, rexp=rexp))
    return out


def sym(P):
    return 0.5 * (P + P.T)


def bad_cov(P, scale, few=1e-9):
    """None, or why P is not a valid covariance."""
    if np.ma.is_masked(P):
        return "masked"
    P = np.asarray(P, float)
    if P.ndim != 2 or not np.all(np.isfinite(P)):
        return "not a finite matrix"
    a = np.abs(P - P.T).max()
    if a > few * TOLX * scale:
        return f"asymmetric by {a:.3g}"
    w = np.linalg.eigvalsh(sym(P))[0]
    if w < -few * TOLX * scale:
        return f"smallest eigenvalue {w:.3g} (scale {scale:.3g})"
    return None


def above(P, Q, scale, few=1e-9):
    """P >= Q up to rounding."""
    w = np.linalg.eigvalsh(sym(np.asarray(P, float) - np.asarray(Q, float)))[0]
    return w >= -few * TOLX * scale


def run_case(case, out):
    if case["kind"] == "ill":
        return run_ill(case, out)
    n, m, T = case["n"], case["m"], case["T"]
    un = units.of(case)
    few = max(1e-9, un.tol if un else 0)
    here = un.kwargs if un else lambda kw: kw
    back = (lambda P: np.asarray(P) / np.outer(un.S, un.S)) if un else np.asarray
    if case["kind"] == "linear":
        M = Model(n, m, T, kinds_dict(case["kinds"]), case["variants"])
        z = M.obs()
        kd = kinds_dict(case["kinds"])
        names = ["KF"]
        if kd["Q"] in "NC" and kd["R"] in "NC" and not {case["variants"].get(k) for k in "QP"} & {"0", "diag0"}:
            names += ["Chol", "Bier"]
        mods = [(k, attempt(zoo.cls(k), **here(M.kwargs())), True) for k in names]
        from mc.lin import Joint
        scale = max(np.abs(Joint(M.full, n, m, T).Pxx).max(), 1e-12)
    else:
        form = case["form"]
        z = zoo.obs(n, m, T)
        mods = []
        for k in zoo.UNSCENTED:
            affine = "n" not in form and "m" not in form
            if k != "UKF" and ("g" in form or "m" in form):
                continue
            if not affine and (k == "UKF" or (k == "AUKF" and n > 3)):
                continue            # a negative centre weight may legitimately give an indefinite matrix
            mods.append((k, attempt(zoo.cls(k), **here(zoo.kwargs(k, n, m, T, form))), affine))
        scale = None
    out.sample = case
    if un:
        z = un.obs(z)
    bitss = mask_list(T, case["masks"])
    for name, (ok, mod), ordered in mods:
        what = f"{name} {case}"
        if not ok:
            out.fail(f"{name}.new", f"{what}: {exc(mod)}")
            continue
        F, S = {}, {}
        for bits in bitss:
            X = masked_obs(z, bits)
            for meth, res in (("filter", F), ("smooth", S)):
                ok, r = attempt(getattr(mod, meth), X)
                out.traces += 1
                if not ok:
                    out.fail(f"{name}.{meth}", f"{what}: {exc(r)} (missing {observed(T, ~bits)})")
                    return
                res[bits] = back(r[1])
        sc = scale or max(np.abs(F[b]).max() for b in bitss)
        for bits in bitss:
            for meth, res in (("filter", F), ("smooth", S)):
                for t in range(T):
                    out.states += 1
                    bad = bad_cov(res[bits][t], sc, few)
                    if bad:
                        out.fail(f"{name}.{meth}", f"{what}: {meth} covariance at {t}: {bad} (missing {observed(T, ~bits)})")
                        return
            if ordered:
                for t in range(T):
                    out.transitions += 1
                    if not above(F[bits][t], S[bits][t], sc, few):
                        out.fail(f"{name}.order", f"{what}: smoothed covariance at {t} exceeds the filtered one (missing {observed(T, ~bits)})")
                        return
                for s in range(T):
                    more = bits | 1 << s
                    if more == bits or more not in F:
                        continue
                    for t in range(T):
                        out.transitions += 1
                        for meth, res in (("filter", F), ("smooth", S)):
                            if not above(res[more][t], res[bits][t], sc, few):
                                out.fail(f"{name}.order", f"{what}: {meth} covariance at {t} grows when step {s} is observed (missing {observed(T, ~bits)})")
                                return
            out.outcome(np.round(F[bits] / sc, 6).tobytes())
        if case["kind"] == "linear" and case["kinds"] not in (ALLC, ALLN):
            continue            # filter_update refuses parameters that vary over time
        if case["kind"] == "unscented" and "l" in case["form"]:
            continue
        for bits in bitss:
            mu, P = None, None
            X = masked_obs(z, bits)
            ok, r = attempt(mod.filter, X[:1])
            if not ok:
                continue
            mu, P = r[0][0], r[1][0]
            for t in range(1, T):
                ok, pr = attempt(mod.filter_update, mu, P, None)
                ok2, up = attempt(mod.filter_update, mu, P, X[t])
                out.transitions += 1
                if not ok or not ok2:
                    if case["kind"] == "linear" and case["variants"]:
                        break           # a prior that became singular is refused by the factorised forms
                    out.fail(f"{name}.filter_update", f"{what}: {exc(up if not ok2 else pr)} at {t} (missing {observed(T, ~bits)})")
                    return
                for w, c in (("prediction", pr[1]), ("update", up[1])):
                    bad = bad_cov(back(c), sc, few)
                    if bad:
                        out.fail(f"{name}.filter_update", f"{what}: filter_update {w} at {t}: {bad} (missing {observed(T, ~bits)})")
                        return
                if ordered and not above(back(pr[1]), back(up[1]), sc, few):
                    out.fail(f"{name}.filter_update", f"{what}: filter_update at {t} exceeds the prediction (missing {observed(T, ~bits)})")
                    return
                mu, P = up


# ---------------------------------------------------------------- ill-conditioned problems

def ill(n, m, T, rexp, cvar, pvar, qvar):
    A = value("A", "g", 0, n, m, "ill")
    C = value("C", "g", 0, n, m, "ill")
    if cvar == "near":
        C[-1] = C[0]
        C[-1, -1] += 2.0 ** -20
    if cvar == "ones":
        C = np.ones((m, n))
        for i in range(m):
            C[i, i % n] += 2.0 ** -20 * i
    R = (value("R", "g", 0, n, m, "ill") if cvar == "g" else np.eye(m)) * 2.0 ** -rexp
    P = value("P", "g", 0, n, m, "ill") * 2.0 ** pvar
    Q = value("Q", "g", 0, n, m, "ill") * 2.0 ** qvar
    return dict(A=[A] * T, b=[np.zeros(n)] * T, Q=[Q] * T, C=[C] * T, d=[np.zeros(m)] * T, R=[R] * T, m=[np.zeros(n)], P=[P])


def build(name, f, n, m):
    A, C, Q, R, m0, P0 = (f[k][0] for k in "ACQRmP")
    if name in zoo.LINEAR:
        return zoo.cls(name)(A, C, Q, R, initial_state_mean=m0, initial_state_covariance=P0, n_dim_state=n, n_dim_obs=m)
    return zoo.cls(name)(lambda x: A.dot(x), lambda x: C.dot(x), Q, R, m0, P0)


def run_ill(case, out):
    n, m, T, rexp = case["n"], case["m"], case["T"], case["rexp"]
    z = zoo.obs(n, m, T)
    out.sample = case
    for cvar, pvar, qvar in itertools.product(("g", "near", "ones"), (0, 20), (0, -20, -rexp)):
        if cvar != "g" and m == 1 or qvar and T == 1:
            continue
        f = ill(n, m, T, rexp, cvar, pvar, qvar)
        e = rexp + pvar
        tol = 3e-13 * 2.0 ** (e / 2) + (0 if cvar == "g" else 1e-7)
        mods = []
        for name in ("Chol", "Bier", "SAUKF"):
            acc = valid = True
            if name == "Bier" and qvar:
                acc = valid = False
            if name == "SAUKF":
                acc = e == 20
            if acc or valid:
                mods.append((name, build(name, f, n, m), acc))
        for bits in mask_list(T, "all"):
            ex = [(exact.fl(x).ravel(), exact.fl(P)) for x, P, _, _ in exact.filter_exact(f, z, bits)]
            for name, mod, acc in mods:
                ok, r = attempt(mod.filter, masked_obs(z, bits))
                out.traces += 1
                what = f"{name} n={n} m={m} R=2^-{rexp} C:{cvar} P=2^{pvar} Q=2^{qvar} missing {observed(T, ~bits)}"
                if not ok:
                    out.fail(f"{name}.ill", f"{what}: {exc(r)}")
                    return
                for t in range(T):
                    out.states += 1
                    out.transitions += 1
                    x, P = ex[t]
                    G = np.asarray(r[1][t], float)
                    bad = "not finite" if not np.all(np.isfinite(G)) else None
                    if not bad:
                        w = np.linalg.eigvalsh(sym(G))
                        s = max(abs(w[0]), abs(w[-1]))
                        if np.abs(G - G.T).max() > 1e-13 * s or w[0] < -1e-13 * s:
                            bad = f"not positive semidefinite: eigenvalues {w}"
                    if bad:
                        out.fail(f"{name}.ill", f"{what}: covariance at {t} {bad}")
                        return
                    if acc:
                        tl = (tol if name != "SAUKF" else 1e-6) * TOLX
                        em = np.abs(r[0][t] - x).max() / max(1, np.abs(z).max(), np.abs(x).max())
                        ec = np.abs(G - P).max() / np.abs(P).max()
                        if not em <= tl or not ec <= tl:
                            out.fail(f"{name}.ill", f"{what}: at {t} relative errors {em:.2g} (mean), {ec:.2g} (covariance), allowed {tl:.2g}")
                            return
                out.outcome(name, cvar, pvar, qvar, bits, rexp, n, m)
