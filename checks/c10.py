"""C10: unscented filters against independently written unscented recursions, with per-step functions."""
import numpy as np

from mc import ukf, units, zoo
from mc.lin import attempt, exc, masked_obs
from mc.linspace import mask_list

PID = "C10"
LEVEL = "model_checking"
RULE = ("every combination of class, dimensions, length, missing pattern, function form (single or list, affine or non-linear, "
        "noise additive, through a matrix or modulated by the state), start and noise deviations is executed for filter and smooth "
        "and compared with reference recursions written from the documentation; the functions record which of them is called with "
        "what, so that each step's own function is provably the one used")
ASSUMPTIONS = ["the reference recursions (mc/ukf.py) are the documented ones",
               "functions come from a finite family of smooth bounded non-linearities; configurations where the reference itself "
               "leaves the positive definite cone are skipped and counted"]


def bounds(tier):
    return dict(dims=dims(tier), T="1..4" if tier == "quick" else "1..6", masks="all; at most one and runs for T=12")


def dims(tier):
    d = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 1)]
    return d if tier == "quick" else d + [(3, 3), (2, 4), (6, 2), (4, 4)]


def cases(tier):
    out = []
    for n, m in dims(tier):
        for T in range(1, 5 if tier == "quick" else 7):
            for name in zoo.UNSCENTED:
                for form in ("sn", "ln", "la", "sa", "lnx", "sap", "lnp", "se") + (("sng", "lnm", "lngm", "snm") if name == "UKF" else ()):
                    for scale in (1.0, 0.05, 8.0):
                        out.append(dict(n=n, m=m, T=T, cls=name, form=form, scale=scale))
        if n == m or (n, m) in ((2, 1), (3, 2), (1, 2)):
            for T in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                for name in zoo.UNSCENTED:
                    for form in ("sf", "snf", "lnf", "snz", "lnz", "sk", "lk", "sr", "lr", "sq") + (("sno", "lno") if n == m else ()) + \
                            (("sngf", "snmf", "lgmf", "lmk", "smr") if name == "UKF" else ()):
                        for scale in (1.0, 0.05):
                            out.append(dict(n=n, m=m, T=T, cls=name, form=form, scale=scale))
    for n, m in ((9, 3), (3, 9), (7, 7)):
        for T in (1, 3):
            for name in zoo.UNSCENTED:
                for form in ("sn", "ln") + (("lngm",) if name == "UKF" else ()):
                    out.append(dict(n=n, m=m, T=T, cls=name, form=form, scale=0.05))
    for n, m in ((1, 1), (2, 2), (3, 1)):
        for name in zoo.UNSCENTED:
            for form in ("sn", "ln"):
                out.append(dict(n=n, m=m, T=12, cls=name, form=form, scale=1.0))
                out.append(dict(n=n, m=m, T=3, cls=name, form=form, scale=1.0, impure=True))
    for name in zoo.UNSCENTED:
        for T in (150,) if tier == "quick" else (150, 600):
            for form in ("la", "ln"):
                out.append(dict(n=1, m=1, T=T, cls=name, form=form, scale=1.0))
    # change of units (uniform factors: a non-linear model keeps its sigma points under any, but rounding grows with mixed ones)
    for n, m in ((1, 1), (2, 2), (3, 2)) + (() if tier == "quick" else ((2, 3), (4, 4))):
        for name in zoo.UNSCENTED:
            for form in ("sn", "ln") + (("snm", "lngm") if name == "UKF" else ()):
                for u in units.UNIFORM + units.MIXED + units.SHIFTED:
                    for T in (3,) if tier == "quick" else (1, 2, 3, 4):
                        out.append(dict(n=n, m=m, T=T, cls=name, form=form, scale=1.0, units=u))
    out.sort(key=lambda c: (c["n"] + c["m"], c["T"], "units" in c))
    return out


def run_case(case, out):
    n, m, T, name, form, scale = (case[k] for k in ("n", "m", "T", "cls", "form", "scale"))
    kw = zoo.kwargs(name, n, m, T, form)
    kw["initial_state_covariance"] = kw["initial_state_covariance"] * scale
    if "e" in form:
        kw["initial_state_mean"] = np.zeros(n)
    z = zoo.obs(n, m, T)
    fs, gs = ukf.picker(kw["transition_functions"]), ukf.picker(kw["observation_functions"])
    un = units.of(case)
    akw = un.kwargs(kw) if un else zoo.impure(kw) if case.get("impure") else kw
    tol = max(1e-7, un.tol if un else 0)
    for bits in mask_list(T, "all" if T < 9 else "1" if T < 100 else "0"):
        Z = [None if bits >> t & 1 else z[t] for t in range(T)]
        X = masked_obs(un.obs(z) if un else z, bits)
        for meth in ("filter", "smooth"):
            try:
                wm, wP = ukf.run("UKF" if name == "UKF" else "A", kw["initial_state_mean"], kw["initial_state_covariance"],
                                 fs, gs, kw["transition_covariance"], kw["observation_covariance"], Z, meth == "smooth")
                good = all(np.linalg.eigvalsh(p)[0] > 1e-4 * np.linalg.eigvalsh(p)[-1] for p in wP)
            except np.linalg.LinAlgError:
                good = False
            if not good:
                out.note("reference not positive definite (skipped)")
                continue
            ok, mod = attempt(zoo.cls(name), **akw)
            ok, r = attempt(getattr(mod, meth), X) if ok else (ok, mod)
            if ok and un:
                r = un.back(r)
            out.states += T
            out.transitions += T
            out.traces += 1
            if not ok or not zoo.same(tuple(r), (wm, wP), tol):
                out.fail(f"{name}.{meth}:{form}", f"{name}.{meth} n={n} m={m} T={T} form={form} missing bits={bits:b} scale={scale}{units.label(case)}{" impure functions" if case.get("impure") else ""}: "
                         f"{exc(r) if not ok else zoo.show(r)} instead of {zoo.show(wm)}")
                return
            out.outcome(np.round(wm, 6).tobytes())
    out.sample = case
