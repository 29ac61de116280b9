"""C03: loglikelihood of the three linear classes against the joint Gaussian density."""
import numpy as np

from mc import units
from mc.lin import attempt, exc, masked_obs, observed
from mc.lincheck import SINGULAR, context, setup
from mc.linspace import both_bases, mask_list, sqrt_ok

PID = "C03"
LEVEL = "model_checking"
RULE = ("every configuration of the bounded space (dimensions, lengths, parameter forms, value variants, missing patterns) is "
        "executed on the real classes and the returned log-likelihood compared with the log-density of the joint Gaussian of "
        "the observed vectors; a state is one (configuration, missing pattern, time step)")
ASSUMPTIONS = ["the joint-Gaussian reference model (mc/lin.py) is the documented model",
               "Cholesky and Bierman are judged on constant positive definite covariances, as their documentation requires",
               "parameter values come from a finite dyadic alphabet; comparison up to rounding scaled by conditioning"]


def bounds(tier):
    return dict(dims="n<=5,m<=5", T="1..4, 24" if tier == "quick" else "1..7, 24, 60", classes=3)


def cases(tier):
    return both_bases(tier)


def run_case(case, out):
    import pykalman
    from pykalman.sqrt import BiermanKalmanFilter, CholeskyKalmanFilter
    classes = [pykalman.KalmanFilter]
    if sqrt_ok(case):
        classes += [CholeskyKalmanFilter, BiermanKalmanFilter]
    M, z, J = setup(case)
    out.sample = M.spec() if case["what"] != "kinds" else None
    un = units.of(case)
    kwargs = un.kwargs(M.kwargs()) if un else M.kwargs()
    for bits in mask_list(M.T, case["masks"]):
        obs = observed(M.T, bits)
        try:
            want = J.loglik(z, obs)
            kap = J.cond(obs)[2]
        except np.linalg.LinAlgError:
            kap = np.inf
        if case["what"] in SINGULAR and not kap < 1e7:
            out.note("singular up to rounding only (pattern skipped)")
            continue
        tol = max(1e-7, 1e-12 * kap, 1e-15 * kap ** 2)
        tol = min(tol, 1e-2) * (1 + abs(want))
        if un:
            tol = max(tol, un.tol * (1 + abs(want)))
        X = masked_obs(un.obs(z) if un else z, bits)
        for cls in classes:
            ok, mod = attempt(cls, **{k: v.copy() if hasattr(v, "copy") else v for k, v in kwargs.items()})
            ok, res = attempt(mod.loglikelihood, X) if ok else (ok, mod)
            if ok and un:
                res = un.loglik(res, len(obs))
            out.states += M.T
            out.transitions += M.T
            out.traces += 1
            bad = None
            if not ok:
                bad = exc(res)
            elif np.ndim(res) != 0 or np.ma.is_masked(res) or not abs(float(res) - want) <= tol:
                bad = f"got {res!r} want {want!r}"
            if bad:
                out.fail(f"loglik:{cls.__name__}:{case['what']}", f"{cls.__name__}.loglikelihood: {bad} [{context(case, bits)}]",
                         missing=bits)
                return
            out.outcome(round(float(want), 6))
