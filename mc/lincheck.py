"""Comparison of the linear filters with the joint-Gaussian reference over one case of the space."""
import numpy as np

from . import units
from .lin import Joint, Model, attempt, close, err, exc, masked_obs, observed
from .linspace import kinds_dict, mask_list

SINGULAR = ("noise-free", "deterministic")


def setup(case):
    M = Model(case["n"], case["m"], case["T"], kinds_dict(case["kinds"]), case["variants"], salt=case.get("salt", ""))
    z = M.obs(case["z"])
    J = Joint(M.full, M.n, M.m, M.T)
    return M, z, J


def rel(kappa):
    """Relative tolerance: rounding only, growing with the conditioning of the exact answer."""
    return min(max(1e-8, 1e-13 * kappa, 1e-16 * kappa ** 2), 1e-3)


def context(case, bits):
    return f"n={case['n']} m={case['m']} T={case['T']} kinds(AbQCdRmP)={case['kinds']} variants={case['variants']} missing={observed(case['T'], ~bits)}" + units.label(case)


def moments_ok(means, covs, want_m, want_P, kappa, mscale, pscale, floor=0.0):
    """None if both match, else a message."""
    r = max(rel(kappa), floor)
    for t in range(len(want_m)):
        if not close(means[t], want_m[t], r * mscale):
            return f"mean at t={t}: {err(means[t], want_m[t])}"
        if not close(covs[t], want_P[t], r * pscale):
            return f"covariance at t={t}: {err(covs[t], want_P[t])}"
    return None


def shapes(res, T, n):
    try:
        a, b = res
        sa, sb = np.shape(a), np.shape(b)
    except Exception:
        return "result is not a pair of arrays"
    if sa != (T, n) or sb != (T, n, n):
        return f"shapes {sa}, {sb} instead of {(T, n)}, {(T, n, n)}"
    return None


def separated(J, obs):
    """Whether every predicted covariance is safely regular or exactly singular, so that its range is decided by more than rounding."""
    for t in range(1, J.T):
        _, P, _ = J.cond([s for s in obs if s < t])
        w = np.linalg.eigvalsh(P[t * J.n:(t + 1) * J.n, t * J.n:(t + 1) * J.n])
        if np.any((np.abs(w) > 1e-13 * w[-1]) & (np.abs(w) < 1e-9 * w[-1])):
            return False
    return True


def expected(J, z, bits, smooth, gap=False):
    """Exact means and covariances per step and the worst conditioning."""
    T, n = J.T, J.n
    obs = observed(T, bits)
    wm, wP, kap = [], [], 1.0
    if smooth:
        mean, P, kap = J.posterior(z, obs)
        if gap and not separated(J, obs):
            kap = np.inf
    for t in range(T):
        if not smooth:
            mean, P, k = J.posterior(z, [s for s in obs if s <= t])
            kap = max(kap, k)
        a, b = J.block(mean, P, t)
        wm.append(a)
        wP.append(b)
    return wm, wP, kap


def scales(J, z):
    ms = max(1.0, np.abs(J.mx).max(), np.abs(z).max())
    return ms, max(np.abs(J.Pxx).max(), 1e-12)


def run_moments(case, out, classes, smooth, tag):
    M, z, J = setup(case)
    ms, ps = scales(J, z)
    out.sample = M.spec() if case["what"] != "kinds" else None
    meth = "smooth" if smooth else "filter"
    un = units.of(case)
    kwargs = un.kwargs(M.kwargs()) if un else M.kwargs()
    for bits in mask_list(M.T, case["masks"]):
        try:
            want_m, want_P, kap = expected(J, z, bits, smooth, gap=case["what"] in SINGULAR)
        except np.linalg.LinAlgError:
            kap = np.inf
        if case["what"] in SINGULAR and not kap < 1e7:
            out.note("singular up to rounding only (pattern skipped)")
            continue
        X = masked_obs(un.obs(z) if un else z, bits)
        for name, cls in classes.items():
            ok, mod = attempt(cls, **{k: v.copy() if hasattr(v, "copy") else v for k, v in kwargs.items()})
            if ok:
                ok, res = attempt(getattr(mod, meth), X)
                if ok and un:
                    res = un.back(res)
            else:
                res = mod
            out.states += M.T
            out.transitions += M.T
            out.traces += 1
            bad = exc(res) if not ok else shapes(res, M.T, M.n)
            bad = bad or moments_ok(res[0], res[1], want_m, want_P, kap, ms, ps, un.tol if un else 0.0)
            if bad:
                out.fail(f"{tag}:{name}:{case['what']}", f"{name}.{meth}: {bad} [{context(case, bits)}]",
                         missing=bits)
                return
            out.outcome(np.round(np.asarray(want_m) / ms, 7).tobytes())
