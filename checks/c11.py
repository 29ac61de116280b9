"""C11: square-root AdditiveUnscentedKalmanFilter against the plain one on every explored model."""
import numpy as np

from mc import units, zoo
from mc.lin import attempt, exc, masked_obs, value
from mc.linspace import mask_list

PID = "C11"
LEVEL = "model_checking"
RULE = ("both implementations are executed side by side on every combination of dimensions, length, non-linearity, function form, "
        "covariance and function variants and missing pattern (filter, smooth, and the filter_update chain); a state is one step of "
        "the pair of traces, which must agree in value and shape")
ASSUMPTIONS = ["pairs where the plain filter fails or leaves the positive definite cone (eigenvalue ratio below 1e-5) are skipped "
               "and counted, as the property only speaks of positive definite covariances"]
VAR = dict(A=["I", "0", "nil", "big", "cv"], Q=["tiny", "huge", "I"], C=["0", "row0", "dup", "neg", "I", "last"], R=["diag", "tiny", "huge"],
           P=["tiny", "huge", "I"])


def dims(tier):
    d = [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)] + [(4, 1), (4, 3), (5, 2), (6, 1), (2, 5)]
    return d if tier == "quick" else d + [(4, 4), (5, 5), (7, 2), (8, 8), (1, 6)]


def bounds(tier):
    return dict(dims=dims(tier), T="1..4 all masks, 20 with <=1 missing" if tier == "quick" else "1..6 all masks, 20 with <=2 missing")


def cases(tier):
    out = []
    quick = tier == "quick"
    for n, m in dims(tier):
        for T in range(1, 5 if quick else 7):
            for form in ("s", "l", "lx"):
                for nl in (0.0, 0.4, 1.5):
                    out.append(dict(n=n, m=m, T=T, form=form, nl=nl, var={}, masks="all"))
    for n, m in ((2, 2), (4, 2)) if quick else ((1, 1), (2, 2), (3, 1), (2, 3), (4, 2), (5, 3)):
        for nl in (0.0, 0.4):
            for p, vs in VAR.items():
                for v in vs:
                    out.append(dict(n=n, m=m, T=3, form="s", nl=nl, var={p: v}, masks="all"))
                    for p2 in VAR:
                        if p2 > p:
                            for v2 in VAR[p2]:
                                out.append(dict(n=n, m=m, T=3, form="s", nl=nl, var={p: v, p2: v2}, masks="1" if quick else "all"))
            out.append(dict(n=n, m=m, T=20, form="l", nl=nl, var={}, masks="1" if quick else "2"))
    for n, m in ((9, 3), (3, 9), (7, 7), (12, 1), (1, 12)):
        for T in (1, 3):
            for form in "sl":
                for nl in (0.0, 0.4):
                    out.append(dict(n=n, m=m, T=T, form=form, nl=nl, var={}, masks="1"))
    for n, m in ((1, 1), (2, 1)):
        for nl in (0.0, 0.4):
            out.append(dict(n=n, m=m, T=150, form="l", nl=nl, var=dict(A="half"), masks="0"))
    for n, m in ((1, 1), (2, 2), (3, 2), (2, 3)) + (() if quick else ((1, 3), (4, 3), (5, 5))):
        for T in (2, 3) if quick else (1, 2, 3, 4, 5):
            for form in "sl":
                for nl in (0.0, 0.4):
                    for u in units.UNIFORM + units.MIXED + units.SHIFTED:
                        out.append(dict(n=n, m=m, T=T, form=form, nl=nl, var={}, masks="all", units=u))
    out.sort(key=lambda c: (c["n"] + c["m"], c["T"], len(c["var"])))
    return out


def build(case):
    n, m, T, var = case["n"], case["m"], case["T"], case["var"]
    v = lambda p, t: value(p, var.get(p, "g"), t, n, m)
    k = T + 2 * (case["form"] == "lx") if case["form"] != "s" else 1
    fs = [zoo.Fun(v("A", 90 + t), v("b", 90 + t), case["nl"]) for t in range(max(k - 1, 1))]
    gs = [zoo.Fun(v("C", 90 + t), v("d", 90 + t), case["nl"]) for t in range(k)]
    return dict(transition_functions=fs if k > 1 else fs[0], observation_functions=gs if k > 1 else gs[0],
                transition_covariance=v("Q", 0), observation_covariance=v("R", 0), initial_state_mean=v("m", 0),
                initial_state_covariance=v("P", 0))


def pd(P):
    P = np.asarray(P, float).reshape(-1, P.shape[-1], P.shape[-1])
    if not np.all(np.isfinite(P)):
        return False
    w = np.linalg.eigvalsh(P)
    return bool(np.all(w[:, 0] > 1e-5 * w[:, -1]))


def run_case(case, out):
    n, m, T = case["n"], case["m"], case["T"]
    kw = build(case)
    z = zoo.obs(n, m, T)
    scale = 1 + max(np.abs(kw["initial_state_covariance"]).max(), np.abs(kw["transition_covariance"]).max())
    scale = 1 if scale < 100 else scale / 100
    tol = 3e-7 * scale
    un = units.of(case)
    back = un.back if un else lambda r: r
    if un:
        kw, z, tol = un.kwargs(kw), un.obs(z), max(tol, un.tol)
    out.sample = case
    for bits in mask_list(T, case["masks"]):
        X = masked_obs(z, bits)
        okp, plain = attempt(zoo.cls("AUKF"), **kw)
        oks, sq = attempt(zoo.cls("SAUKF"), **kw)
        if not okp or not oks:
            out.fail("construct", f"constructor: {exc(plain) if not okp else exc(sq)}")
            return
        filt = None
        for meth in ("filter", "smooth"):
            ok, want = attempt(getattr(plain, meth), X)
            if not ok or not pd(back(want)[1]) or (filt is not None and not pd(back(filt)[1])):
                out.note("plain not positive definite (skipped)")
                continue
            if meth == "filter":
                filt = want
            ok, got = attempt(getattr(sq, meth), X)
            out.states += T
            out.transitions += T
            out.traces += 1
            if not ok or not zoo.same(tuple(back(got)), tuple(back(want)), tol):
                out.fail(f"{meth}", f"sqrt AUKF {meth} {case} missing={bits:b}: {exc(got) if not ok else zoo.show(got[0]) + zoo.show(got[1])} "
                         f"plain gives {zoo.show(want[0])}{zoo.show(want[1])}", missing=bits)
                return
            out.outcome(np.round(want[0], 5).tobytes())
        if filt is None or case["form"] != "s" or T > 4:
            continue
        mu, P = filt[0][0], filt[1][0]
        for t in range(1, T):
            o = None if bits >> t & 1 else z[t]
            ok, want = attempt(plain.filter_update, mu, P, o)
            if not ok or not pd(back(want)[1]):
                break
            ok, got = attempt(sq.filter_update, mu, P, o)
            out.traces += 1
            out.states += 1
            if not ok or not zoo.same(tuple(back(got)), tuple(back(want)), tol):
                out.fail("filter_update", f"sqrt AUKF filter_update {case} t={t} missing={bits:b}: {exc(got) if not ok else zoo.show(got[1])} "
                         f"plain gives {zoo.show(want[1])}")
                return
            mu, P = want
