"""C12: sample under an enumerated noise source - the map from unit normals to the sample determines its distribution."""
import itertools

import numpy as np

from mc import units, zoo
from mc.lin import DEFAULT, SHORT, Model, attempt, exc, value
from mc.linspace import ALLC, ALLL, ALLL_CQ, ALLN, ALLV, ALLV_CQ, deviations, kind_product, kinds_dict, sqrt_ok, structured, words
from mc.noise import Source

PID = "C12"
LEVEL = "model_checking"
RULE = ("for every model of the bounded space the random source is replaced by one whose unit normal draws are chosen; the sample is "
        "produced for every choice of the draws from the origin, the signed basis and all pairs of basis vectors (a complete "
        "test of affinity), the noises are recovered from the sample by inverting the model equations, and their linear map J "
        "must satisfy J J' = diag(P0, Q_0, .., R_0, ..) with zero mean: this decides the joint distribution exactly")
ASSUMPTIONS = ["sample draws Gaussian noise through its random source (numpy RandomState); numpy's own generator is trusted to "
               "produce independent unit normals"]
ORDERS = ("=", ">", "<", "int", ">i", "f4", ">f4")


def bounds(tier):
    return dict(steps="1..4" if tier == "quick" else "1..6", inputs="origin, +-e_i, e_i+e_j for all pairs")


def cases(tier):
    out = []
    quick = tier == "quick"
    dims = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] if quick else [(n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    for n, m in dims:
        for T in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
            for name in zoo.LINEAR:
                for kinds in [ALLN, ALLC, ALLV, ALLL] if name == "KF" else [ALLN, ALLC, ALLV_CQ, ALLL_CQ]:
                    out.append(dict(cls=name, n=n, m=m, T=T, kinds=kinds, variants={}, order="="))
            for name in zoo.UNSCENTED:
                for form in ["sa", "la", "sn", "ln"] + (["sng", "lng", "snm", "lngm"] if name == "UKF" else []) + (["d"] if n == m else []):
                    out.append(dict(cls=name, n=n, m=m, T=T, form=form, order="="))
    for n, m, T in ((8, 6, 2), (2, 9, 2), (2, 1, 12), (1, 1, 40)):
        for name in zoo.LINEAR:
            for kinds in (ALLC, ALLV if name == "KF" else ALLV_CQ):
                out.append(dict(cls=name, n=n, m=m, T=T, kinds=kinds, variants=dict(A="half") if T > 9 else {}, order="=", brief=quick))
        for name in zoo.UNSCENTED:
            for form in ("la", "ln") if T < 9 else ("ln",):
                out.append(dict(cls=name, n=n, m=m, T=T, form=form, order="=", brief=quick))
    # longer than buffers and blocks of random numbers are likely to be
    for name in zoo.ALL:
        for T in (150,) if quick else (150, 600):
            extra = dict(kinds=ALLV_CQ, variants=dict(A="half")) if name in zoo.LINEAR else dict(form="la")
            out.append(dict(cls=name, n=1, m=1, T=T, order="=", brief=1, long=1, **extra))
    for T in (300,) if quick else (300, 1200):
        out.append(dict(cls="KF", n=1, m=1, T=T, order="=", brief=1, long=1, kinds=ALLC, variants=dict(A="half")))
    out += [dict(kind="length", cls=name) for name in zoo.ALL]
    out += [dict(cls=name, n=n, m=m, T=3, form=f, order="=", impure=True) for name in zoo.UNSCENTED for n, m in ((1, 1), (2, 2), (3, 2)) for f in ("sn", "ln")]
    for n, m in ((1, 1), (2, 2), (3, 2)):
        for u in units.UNIFORM + units.MIXED + units.SHIFTED:
            for name in zoo.LINEAR:
                for kinds in [ALLC, ALLV if name == "KF" else ALLV_CQ]:
                    out.append(dict(cls=name, n=n, m=m, T=3, kinds=kinds, variants={}, order="=", units=u))
            for name in zoo.UNSCENTED:
                out.append(dict(cls=name, n=n, m=m, T=3, form="lnm" if name == "UKF" else "ln", order="=", units=u))
    for c in kind_product(2, 2, 3):
        out.append(dict(cls="KF", n=2, m=2, T=3, kinds=c["kinds"], variants={}, order="=", brief=quick, pairs=0 if quick else 20))
    for name in zoo.LINEAR:
        for c in deviations(2, 2, 3, 1 if quick else 2, ALLC, lowest=1) + deviations(2, 2, 3, 1, ALLV if name == "KF" else ALLV_CQ, lowest=1):
            out.append(dict(cls=name, n=2, m=2, T=3, kinds=c["kinds"], variants=c["variants"], order="=", brief=quick))
        for c in words("quick", "AbQCdR" if name == "KF" else "AbCd") + structured():
            if name == "KF" or sqrt_ok(c):
                out.append(dict(cls=name, n=c["n"], m=c["m"], T=c["T"], kinds=c["kinds"], variants=c["variants"], order="=", brief=quick))
        for n, m in ((2, 2), (3, 3)) + (() if quick else ((1, 2), (4, 3), (2, 4))):
            for v in itertools.product(("g", "sing"), repeat=3):
                for kinds in (ALLC, ALLV if name == "KF" else ALLV_CQ, ALLL if name == "KF" else ALLL_CQ):
                    out.append(dict(cls=name, n=n, m=m, T=3, kinds=kinds, variants=dict(zip("QRP", v)), order="=", brief=quick))
        for order in ORDERS[1:]:
            for kinds in [ALLC, ALLV] if name == "KF" else [ALLC, ALLV_CQ]:
                for n, m in ((1, 1), (2, 2), (3, 1)):
                    out.append(dict(cls=name, n=n, m=m, T=3, kinds=kinds, variants={}, order=order))
    for name in zoo.UNSCENTED:
        for order in ORDERS[1:]:
            for n, m in ((1, 1), (2, 2), (3, 1)):
                out.append(dict(cls=name, n=n, m=m, T=3, form="sn", order=order))
        for qr in itertools.product(("g", "0", "diag0", "tiny", "sing"), ("g", "diag", "tiny", "sing"), ("g", "0", "diag0", "sing")):
            out.append(dict(cls=name, n=2, m=2, T=3, form="ln", order="=", qrp=qr))
    return out


def encode(v, order):
    """The same numbers (after rounding for integers) in another type."""
    v = np.asarray(v, float)
    if order == "=":
        return v
    if "i" in order:
        k = np.round(4 * v)
        if v.ndim >= 2 and v.shape[-1] == v.shape[-2]:
            k = np.round(2 * v)
        return k.astype(">i8" if ">" in order else "i8")
    if "f4" in order:
        return v.astype(order)
    return v.astype(order + "f8")


def setup(case):
    """(constructor kwargs, per-step mean and noise-map inverse of transition and observation, covariances)."""
    n, m, T, name = case["n"], case["m"], case["T"], case["cls"]
    order = case["order"]
    if name in zoo.LINEAR:
        M = Model(n, m, T, kinds_dict(case["kinds"]), case["variants"], salt="smp")
        kw, full = M.kwargs(), {}
        for p in "AbQCdRmP":
            if p in M.given:
                v = encode(M.given[p], order)
                if "i" in order and p in "QRP":
                    k = v.shape[-1]
                    v = (np.tile(3 * np.eye(k), v.shape[:-2] + (1, 1)) + np.ones((k, k))).astype(v.dtype)
                kw[SHORT[p]] = v
                f = np.asarray(v, float)
                full[p] = list(f) if M.kinds[p] in "VL" else [f] * max(T, 1)
            else:
                full[p] = M.full[p] * max(T, 1)
        tr = lambda t: (lambda x: full["A"][t].dot(x) + full["b"][t], lambda x, w: w)
        ob = lambda t: (lambda x: full["C"][t].dot(x) + full["d"][t], lambda x, w: w)
        return kw, tr, ob, full["Q"], full["R"], full["m"][0], full["P"][0]
    form = case["form"]
    if form == "d":
        kw = dict(n_dim_state=n, n_dim_obs=m)
        tr = ob = lambda t: (lambda x: x, lambda x, w: w)
        return kw, tr, ob, [np.eye(n)] * T, [np.eye(m)] * T, np.zeros(n), np.eye(n)
    kw = zoo.kwargs(name, n, m, T, form)
    if "qrp" in case:
        for k, p, v in zip(("transition_covariance", "observation_covariance", "initial_state_covariance"), "QRP", case["qrp"]):
            kw[k] = value(p, v, 3, n, m)
    for p in ("transition_covariance", "observation_covariance", "initial_state_covariance", "initial_state_mean"):
        v = encode(kw[p], order)
        if "i" in order and v.ndim == 2:
            v = (3 * np.eye(len(v)) + np.ones(v.shape)).astype(v.dtype)
        kw[p] = v

    def side(fs):
        def at(t):
            f = fs[t] if isinstance(fs, list) else fs

            def undo(x, w):
                if f.mod:
                    w = w / (1.0 + f.mod * np.resize(np.sin(x), len(w)))
                return w if f.G is None else np.linalg.solve(f.G, w)
            return f.mean, undo
        return at
    Q, R = (np.asarray(kw[k], float) for k in ("transition_covariance", "observation_covariance"))
    return (kw, side(kw["transition_functions"]), side(kw["observation_functions"]), [Q] * T, [R] * T,
            np.asarray(kw["initial_state_mean"], float), np.asarray(kw["initial_state_covariance"], float))


def run_length(case, out):
    """The number of rows asked for, given as any kind of integer, down to none."""
    name = case["cls"]
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 3)):
        for form in ("c", "t", "d") if name in zoo.LINEAR else ("sn", "ln"):
            for k in (0, 1, 2, 3, np.int64(2), np.int32(3), np.uint8(1)):
                mod = zoo.build(name, n, m, 3, form)
                if form == "d":
                    mod = zoo.cls(name)(n_dim_state=n, n_dim_obs=m)
                ok, r = attempt(mod.sample, k, random_state=1)
                out.states += 1
                out.transitions += 1
                out.traces += 1
                want = ((int(k), n), (int(k), m))
                got = exc(r) if not ok else tuple(np.shape(a) for a in r)
                if got != want or np.ma.is_masked(r[0]) or np.ma.is_masked(r[1]):
                    out.fail(f"{name}.length", f"{name}.sample({k!r}) n={n} m={m} ({form}): {got} instead of {want}")
                    return
    out.sample = case


def run_case(case, out):
    if case.get("kind") == "length":
        return run_length(case, out)
    n, m, T, name = case["n"], case["m"], case["T"], case["cls"]
    kw, tr, ob, Q, R, m0, P0 = setup(case)
    un = units.of(case)
    if un:
        kw = un.kwargs(kw)
    if case.get("impure"):
        kw = zoo.impure(kw)
    S, U, s0, u0 = (un.S, un.U, un.s, un.u) if un else (np.ones(n), np.ones(m), 0.0, 0.0)
    ulp = 1e-5 if un and un.shifted else 1e-9       # rounding of the sample itself
    out.sample = {k: v for k, v in case.items()}
    ok, mod = attempt(zoo.cls(name), **kw)
    if not ok:
        out.fail(f"{name}.new", f"{name}: {exc(mod)} [{case}]")
        return
    inits = [None, np.arange(n) * 0.5 - 0.25, np.zeros(n)]
    if case.get("brief"):
        inits = inits[:2]
    for x0 in inits[:1] if "long" in case else inits[:2] if case.get("brief") else inits + [list(np.arange(n) + 0.5)] + ([np.arange(n) - 3] if case["order"] == "=" else []):
        src = {}

        def draw(u):
            """The noises behind the sample produced from unit normals u; or the reason there is none."""
            s = Source(u)
            ok, r = attempt(mod.sample, T, random_state=s, **({} if x0 is None else dict(initial_state=S * x0 + s0 if un else x0)))
            out.states += T
            out.transitions += T
            out.traces += 1
            if not ok:
                return exc(r)
            if s.other:
                return f"draws from {s.other[0]}"
            src["k"] = s.k
            if not (isinstance(r, tuple) and len(r) == 2 and np.shape(r[0]) == (T, n) and np.shape(r[1]) == (T, m)):
                return f"shapes {[np.shape(a) for a in r]}"
            if np.ma.is_masked(r[0]) or np.ma.is_masked(r[1]):
                return "masked entries"
            x, z = (np.asarray(r[0], float) - s0) / S, (np.asarray(np.ma.getdata(r[1]), float) - u0) / U
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(z))):
                return "not finite"
            res = [x[0] - (m0 if x0 is None else np.asarray(x0, float))]
            for t in range(1, T):
                f, undo = tr(t - 1)
                res.append(undo(x[t - 1], x[t] - f(x[t - 1])))
            for t in range(T):
                g, undo = ob(t)
                res.append(undo(x[t], z[t] - g(x[t])))
            big = max(1.0, np.abs(x).max(), np.abs(z).max())
            src["big"] = max(src.get("big", 1.0), big)
            return np.concatenate(res)

        def bad(msg):
            out.fail(f"{name}.sample", f"{name}.sample({T}, initial_state={None if x0 is None else list(x0)}): {msg} [{case}]")

        r0 = draw(())
        if isinstance(r0, str):
            return bad(r0)
        K = src["k"]
        cols = []
        for i in range(K):
            for sg in (1.0,) if "long" in case else (1.0, -2.0):
                u = np.zeros(K)
                u[i] = sg
                r = draw(u)
                if isinstance(r, str):
                    return bad(r)
                if src["k"] != K:
                    return bad("number of draws depends on the draws")
                if sg == 1.0:
                    cols.append(r - r0)
                elif not np.allclose(r - r0, -2.0 * cols[-1], rtol=0, atol=ulp * src["big"]):
                    return bad(f"noise is not linear in draw {i}")
        if np.abs(r0).max() > 0.1 * ulp * src["big"]:
            return bad(f"noise has mean {r0}")
        J = np.array(cols).T if cols else np.zeros((len(r0), 0))
        for i in range(0 if "long" not in case else K, K):
            for j in range(i + 1, K) if x0 is None and K <= case.get('pairs', 14) else range(i + 1, min(i + 2, K)):
                u = np.zeros(K)
                u[i] = u[j] = 1.0
                r = draw(u)
                if isinstance(r, str):
                    return bad(r)
                if not np.allclose(r - r0, J[:, i] + J[:, j], rtol=0, atol=ulp * src["big"]):
                    return bad(f"draws {i} and {j} interact")
        want = np.zeros((len(r0), len(r0)))
        blocks = [P0 if x0 is None else np.zeros((n, n))] + Q[:T - 1] + R[:T]
        i = 0
        for B in blocks:
            want[i:i + len(B), i:i + len(B)] = B
            i += len(B)
        got = J.dot(J.T)
        if not np.allclose(got, want, rtol=0, atol=max(1e-9, un.tol if un else 0) * (np.abs(want).max() + src["big"])):
            a, b = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
            return bad(f"joint covariance of the noises (x0, transitions, observations) entry {(int(a), int(b))} is {got[a, b]:.6g} "
                       f"instead of {want[a, b]:.6g}")
        out.outcome(name, T, np.round(np.diag(want), 4).tobytes(), K)
