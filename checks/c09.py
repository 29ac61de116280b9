"""C09: the three unscented classes on affine models against the exact conditional distribution."""
import numpy as np

from mc import units, zoo
from mc.lin import Joint, Model, attempt, exc, masked_obs, value
from mc.lincheck import expected, moments_ok, rel, scales, shapes
from mc.linspace import kinds_dict, mask_list

PID = "C09"
LEVEL = "model_checking"
RULE = ("every combination of class, dimensions, length, form of the functions (default, single, per step; affine noise maps for "
        "UnscentedKalmanFilter), value variants and missing pattern is executed for filter and smooth and compared with the "
        "conditional distribution of the joint Gaussian; a state is one filtered or smoothed step")
ASSUMPTIONS = ["the joint-Gaussian reference model (mc/lin.py) is the documented model",
               "covariances are positive definite (the unscented classes factorise them)"]
VAR = dict(A=["I", "0", "nil", "big", "cv"], b=["big"], Q=["tiny", "huge", "I"], C=["0", "row0", "dup", "neg", "I", "last"], d=["big"],
           R=["diag", "tiny", "huge"], m=["big"], P=["tiny", "huge", "I"])


def bounds(tier):
    return dict(dims=dims(tier), T="1..4 all masks, 16 with <=1 missing" if tier == "quick" else "1..6 all masks, 30 with <=1 missing")


def dims(tier):
    d = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (5, 2), (6, 1)]
    return d if tier == "quick" else d + [(3, 3), (4, 4), (1, 5), (8, 3)]


def cases(tier):
    out = []
    quick = tier == "quick"
    for n, m in dims(tier):
        for T in range(1, 5 if quick else 7):
            for name in zoo.UNSCENTED:
                # kinds of A, b, C, d together: N default functions, C single, V per step
                for fk in "CV" + ("N" if n == m else ""):
                    for gk in "CV" + ("N" if n == m else ""):
                        for G in ((0, 1) if name == "UKF" and (fk, gk) in (("C", "C"), ("V", "V")) else (0,)):
                            out.append(dict(n=n, m=m, T=T, cls=name, f=fk, g=gk, G=G, var={}, masks="all"))
    for name in zoo.UNSCENTED:
        for n, m in ((2, 2), (3, 1)) if quick else ((1, 1), (2, 2), (3, 1), (2, 3), (4, 2)):
            for p, vs in VAR.items():
                for v in vs:
                    out.append(dict(n=n, m=m, T=3, cls=name, f="C", g="C", G=0, var={p: v}, masks="all"))
                    for p2 in VAR if not quick or (n, m) == (2, 2) else ():
                        if p2 > p:
                            for v2 in VAR[p2]:
                                out.append(dict(n=n, m=m, T=3, cls=name, f="C", g="C", G=0, var={p: v, p2: v2},
                                                masks="1" if quick else "all"))
        for n, m in ((2, 2), (4, 1)):
            out.append(dict(n=n, m=m, T=16 if quick else 30, cls=name, f="V", g="V", G=0, var={}, masks="1"))
        for n, m in ((1, 1), (2, 1)):
            for a in ("half", "rot"):
                for fg in "CV":
                    out.append(dict(n=n, m=m, T=150, cls=name, f=fg, g=fg, G=0, var=dict(A=a), masks="0"))
        for n, m in ((1, 1), (2, 2), (1, 2), (3, 2)):
            for T in (1, 3):
                for z in ("0", "alt", "same"):
                    out.append(dict(n=n, m=m, T=T, cls=name, f="V", g="V", G=0, var={}, masks="all", z=z))
        for n, m in ((1, 1), (2, 1), (2, 2)):
            for T in (1, 2, 3):
                out.append(dict(n=n, m=m, T=T, cls=name, f="V", g="V", G=0, var={}, masks="all", more=2))     # lists longer than the data
        for n, m in ((7, 7), (12, 2), (2, 12), (1, 30), (25, 1)):
            for fg in "CV":
                out.append(dict(n=n, m=m, T=3, cls=name, f=fg, g=fg, G=0, var={}, masks="1"))
    # defaults for the covariances and the initial state
    for name in zoo.UNSCENTED:
        for init in ("CC", "CN", "NC", "NN"):
            for qr in ("CC", "CN", "NC", "NN"):
                out.append(dict(n=2, m=2, T=3, cls=name, f="C", g="C", G=0, var={}, masks="all", nn=qr + init))
    # change of units of states and observations
    for n, m in ((1, 1), (2, 2), (3, 2), (2, 3)) + (() if quick else ((4, 4), (5, 1))):
        for name in zoo.UNSCENTED:
            for T in (1, 3) if quick else (1, 2, 3, 4, 6):
                for fg in ("CC", "VV"):
                    for u in units.UNIFORM + units.MIXED + units.SHIFTED:
                        for v in ({}, dict(Q="tiny"), dict(R="tiny"), dict(P="tiny")) if fg == "CC" else ({},):
                            out.append(dict(n=n, m=m, T=T, cls=name, f=fg[0], g=fg[1], G=0, var=v, masks="all", units=u))
    out.sort(key=lambda c: (c["n"] + c["m"], c["T"], len(c["var"]), "units" in c))
    return out


def run_case(case, out):
    n, m, T, name = case["n"], case["m"], case["T"], case["cls"]
    nn = case.get("nn", "CCCC")
    kinds = kinds_dict(case["f"] * 2 + nn[0] + case["g"] * 2 + nn[1] + nn[2:])
    M = Model(n, m, T, kinds, case["var"])
    full = dict(M.full)
    G = H = None
    if case["G"]:
        G, H = value("A", "g", 77, n, n) + 1.5 * np.eye(n), value("A", "g", 78, m, m) + 1.5 * np.eye(m)
        full["Q"] = [G.dot(q).dot(G.T) for q in full["Q"]]
        full["R"] = [H.dot(q).dot(H.T) for q in full["R"]]
    z = M.obs(case.get("z", "g"))
    J = Joint(full, n, m, T)
    ms, ps = scales(J, z)
    kw = dict(n_dim_state=n, n_dim_obs=m)
    for p, k in (("Q", "transition_covariance"), ("R", "observation_covariance"), ("m", "initial_state_mean"),
                 ("P", "initial_state_covariance")):
        if p in M.given:
            kw[k] = M.given[p].copy()
    if case["f"] == "C":
        kw["transition_functions"] = zoo.Fun(M.full["A"][0], M.full["b"][0], G=G)
    elif case["f"] == "V":
        kw["transition_functions"] = [zoo.Fun(a, b, G=G) for a, b in zip(M.full["A"], M.full["b"])]
        kw["transition_functions"] += [zoo.Fun(M.full["A"][0] + 1 + t, M.full["b"][0] - t, G=G) for t in range(case.get("more", 0))]
    if case["g"] == "C":
        kw["observation_functions"] = zoo.Fun(M.full["C"][0], M.full["d"][0], G=H)
    elif case["g"] == "V":
        kw["observation_functions"] = [zoo.Fun(a, b, G=H) for a, b in zip(M.full["C"], M.full["d"])]
        kw["observation_functions"] += [zoo.Fun(M.full["C"][0] + 1 + t, M.full["d"][0] - t, G=H) for t in range(case.get("more", 0))]
    un = units.of(case)
    if un:
        kw = un.kwargs(kw)
    out.sample = case
    for bits in mask_list(T, case["masks"]):
        X = masked_obs(un.obs(z) if un else z, bits)
        for smooth in (False, True):
            wm, wP, kap = expected(J, z, bits, smooth)
            meth = "smooth" if smooth else "filter"
            ok, mod = attempt(zoo.cls(name), **kw)
            ok, r = attempt(getattr(mod, meth), X) if ok else (ok, mod)
            if ok and un:
                r = un.back(r)
            out.states += T
            out.transitions += T
            out.traces += 1
            bad = exc(r) if not ok else shapes(r, T, n)
            bad = bad or moments_ok(r[0], r[1], wm, wP, kap, 10 * ms, 10 * ps, un.tol if un else 0.0)
            if bad:
                out.fail(f"{name}.{meth}", f"{name}.{meth}: {bad} [{case} missing={bits:b}]", missing=bits)
                return
            out.outcome(np.round(np.asarray(wm) / ms, 6).tobytes())
