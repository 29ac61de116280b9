"""The bounded space of linear-Gaussian configurations shared by several checks, simplest first."""
import itertools

from .lin import KEYS, TV, VARIANTS
from .units import MIXED, SHIFTED, UNIFORM


def case(n, m, T, kinds="", variants=None, zs="g", masks="all", what=""):
    return dict(n=n, m=m, T=T, kinds=kinds, variants=variants or {}, z=zs, masks=masks, what=what)


def kinds_str(d):
    return "".join(d[k] for k in KEYS)


def kinds_dict(s):
    return dict(zip(KEYS, s)) if s else {k: "C" for k in KEYS}


ALLC = "C" * 8
ALLV = "VVVVVVCC"
ALLL = "LLLLLLCC"
ALLN = "N" * 8
# the square-root classes take constant noise covariances
ALLV_CQ = "VVCVVCCC"
ALLL_CQ = "LLCLLCCC"


def kind_product(n, m, T, tv=TV, masks="all"):
    """Every combination of default / constant / per-step for every parameter."""
    out = []
    for combo in itertools.product("NCV", repeat=6):
        for init in itertools.product("NC", repeat=2):
            ks = dict(zip(TV, combo))
            if any(v == "V" and k not in tv for k, v in ks.items()):
                continue
            ks.update(m=init[0], P=init[1])
            out.append(case(n, m, T, kinds_str(ks), masks=masks, what="kinds"))
    out.sort(key=lambda c: (sum(x != "N" for x in c["kinds"]), c["kinds"]))
    return out


def deviations(n, m, T, bound, base=ALLC, zs=("g",), variants=None, lowest=0, masks="all", what="variants"):
    """All assignments of non-generic variants to between `lowest` and `bound` parameters."""
    V = variants or VARIANTS
    out = []
    for k in range(lowest, bound + 1):
        for ps in itertools.combinations(KEYS, k):
            for vs in itertools.product(*[V[p][1:] for p in ps]):
                for z in zs:
                    out.append(case(n, m, T, base, dict(zip(ps, vs)), z, masks, what))
    return out


def mask_list(T, how):
    """Bit patterns of missing steps: 'all', or 'k' = at most k missing steps plus whole runs of them."""
    if how == "all":
        return sorted(range(2 ** T), key=lambda b: (bin(b).count("1"), b))
    k = int(how)
    res = []
    for j in range(k + 1):
        for c in itertools.combinations(range(T), j):
            res.append(sum(1 << t for t in c))
    for a in range(0, T, 5 if T <= 60 else 31 if T <= 150 else 101):            # runs of missing steps, and everything up to / from a step
        for b in (a + 7, T):
            res.append(sum(1 << t for t in range(a, min(b, T))))
        res.append(sum(1 << t for t in range(a)))
    return list(dict.fromkeys(res))


def noise_free(n, m, T, base, bound, masks="all"):
    """Observations without noise (in all or one component), with up to `bound` further deviations."""
    return [dict(c, variants=dict(c["variants"], R=r), what="noise-free")
            for r in ("0", "diag0") for c in deviations(n, m, T, bound, base, masks=masks) if "R" not in c["variants"]]


def very_long(tier, bases):
    """Long enough for recursions that settle down, blocks, buffers and counters to show."""
    return [case(n, m, T, b, {"A": a}, masks="0", what="long") for T in ((150, 300) if tier == "quick" else (150, 300, 600))
            for n, m in ((1, 1), (2, 1)) if n * T <= 600 and (n == 1 or T < 300 or tier != "quick") for a in ("half", "rot") for b in bases]


def deterministic(salts):
    """Dynamics without (all) process noise, where the covariances of predicted states become singular."""
    out = []
    for n, m in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2)):
        for v in ({"Q": "0"}, {"Q": "diag0"}, {"Q": "0", "P": "diag0"}, {"Q": "diag0", "P": "diag0"}, {"Q": "0", "P": "0"}):
            for r in ("g", "0"):
                for s in range(salts):
                    out.append(dict(case(n, m, 4, ALLC, dict(v, R=r), what="deterministic"), salt=f"det{s}"))
    return out


def steps_of(p, T):
    return T if p in "CdR" else T - 1


def words(tier, tv=TV, dims=((2, 2),), T=3, letters=True):
    """Per-step parameters as words over the alphabet: every recurrence of two values, and every word over the letters."""
    out = []
    for n, m in dims:
        for p in tv:
            base = "".join("V" if k == p else "C" for k in KEYS)
            k = steps_of(p, T + 1)
            for w in itertools.product(("g1", "g2"), repeat=k):
                if w[0] == "g1":
                    out.append(case(n, m, T + 1, base, {p: ".".join(w)}, masks="1", what="words"))
            if letters:
                for w in itertools.product(["g1", "g2"] + VARIANTS[p][1:], repeat=steps_of(p, T)):
                    if w[0] != "g2" and set(w) - {"g1", "g2"}:
                        out.append(case(n, m, T, base, {p: ".".join(w)}, masks="1", what="words"))
        full = "".join("V" if k in tv else "C" for k in KEYS)
        for w in itertools.product(("g1", "g2"), repeat=T + 1):
            if w[0] == "g1":
                out.append(case(n, m, T + 1, full, {p: ".".join(w[:steps_of(p, T + 1)]) for p in tv}, masks="1", what="words"))
                out.append(case(n, m, T + 1, full, {p: ".".join(w[T + 1 - steps_of(p, T + 1):]) for p in tv}, masks="1", what="words"))
    return out


def structured(definite=False):
    """Every pattern of zeros of small matrices, and every set of correlated pairs of three components."""
    out = []
    for p in "AC":
        out += [case(2, 2, 3, ALLC, {p: f"z{k}"}, what="structure") for k in range(16)]
        out += [case(3, 3, 3, ALLC, {p: f"z{511 - (1 << k)}"}, masks="1", what="structure") for k in range(9)]
        out += [case(3, 3, 3, ALLC, {p: f"z{273 | 1 << k}"}, masks="1", what="structure") for k in range(9)]
    for ps in ("Q", "R", "P", "QR", "PR", "QP", "QRP"):
        for k in range(8):
            out.append(case(3, 3, 3, ALLC, {p: f"e{k}" for p in ps}, masks="1", what="structure"))
            if ps == "R":
                out.append(case(2, 3, 3, ALLC, {"R": f"e{k}"}, what="structure"))
                out.append(case(2, 3, 3, ALLV_CQ, {"R": f"e{k}"}, what="structure"))
    for k in range(64):
        out.append(case(2, 4, 2, ALLC, {"R": f"e{k}"}, what="structure"))
        out.append(case(4, 2, 2, ALLC, {"Q": f"e{k}", "P": f"e{63 - k}"}, what="structure"))
    return out


def with_units(cases, units):
    return [dict(c, units=u, what="units") for u in units for c in cases]


def unit_space(tier, bases, variants=None):
    """Models in other units; singular or zero matrices only under uniform changes, where rounding is unaffected."""
    quick = tier == "quick"
    dims = [(1, 1), (2, 2), (3, 2), (2, 3)] if quick else [(n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3)]
    plain = [case(n, m, 3, b) for n, m in dims for b in bases]
    dev = deviations(2, 2, 3, 1, ALLC, variants=variants, lowest=1)
    if not quick:
        dev += deviations(3, 2, 3, 1, ALLC, variants=variants, lowest=1) + deviations(2, 2, 3, 2, ALLC, variants=variants, lowest=2, masks="1")
    regular = [case(n, m, 3, b, v, masks="1") for n, m in ((2, 2), (3, 2)) for b in (ALLC,) for v in
               ({"A": "I"}, {"A": "cv"}, {"A": "rot"}, {"A": "cv", "C": "I"}, {"A": "cv", "C": "last"}, {"A": "cv", "Q": "I"}, {"Q": "I", "P": "I"}, {"R": "I"}, {"R": "diag"},
                {"Q": "e1"}, {"R": "e0"}, {"P": "e1"}, {"A": "z13", "C": "z9"} if n == 2 else {"A": "z279"})]
    return with_units(plain, UNIFORM + MIXED + SHIFTED) + with_units(dev, UNIFORM) + with_units(regular, MIXED + SHIFTED)


OBS = ("0", "alt", "fill", "same")
LARGE = [(7, 7), (12, 2), (2, 12), (1, 50), (50, 1)]


def large(tier, bases, T=3):
    """Many components: in ordinary units, and so small or large that products over the components leave the range of floats."""
    dims = LARGE if tier == "quick" else LARGE + [(8, 3), (3, 8), (20, 20), (2, 100), (100, 2)]
    out = [case(n, m, T, b, masks="1", what="large") for n, m in dims for b in bases]
    out += with_units([case(n, m, 2, bases[0], masks="1") for n, m in ((1, 50), (2, 50), (50, 2), (25, 25))], UNIFORM)
    return out


def linear_space(tier, tv=TV, variants=None, V=ALLV, L=ALLL):
    """The space explored by the checks of the linear classes."""
    out = []
    quick = tier == "quick"
    dims = [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)] + [(4, 2), (5, 1), (2, 5), (1, 4)]
    for n, m in dims:
        for T in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            for base in (ALLN, ALLC, V, L):
                out.append(case(n, m, T, base, what="dims"))
    out += kind_product(2, 2, 3, tv, masks="2" if quick else "all")
    out += deviations(2, 2, 3, 2, ALLC, variants=variants, lowest=1)
    for n, m in [(1, 1), (2, 1), (1, 2), (3, 2)]:
        out += deviations(n, m, 3, 1, ALLC, variants=variants, lowest=1)
    out += deviations(2, 2, 3, 1, V, zs=("g", "big"), variants=variants, lowest=1)
    out += [case(2, 2, 24, b, masks="1", what="long") for b in (ALLC, V)]
    out += [case(3, 1, 24, b, masks="1", what="long") for b in (ALLC, V)]
    out += very_long(tier, (ALLC, V))
    out += unit_space(tier, (ALLC, V), variants)
    out += large(tier, (ALLC, V))
    out += deterministic(6 if quick else 40)
    out += words(tier, tv, ((2, 2), (1, 1), (3, 2)) if not quick else ((2, 2),)) + structured()
    for n, m in [(1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (3, 1)]:
        for b in (ALLC, V):
            out += noise_free(n, m, 3, b, 1 if quick else 2, "all" if quick else "1")
    out += [case(n, m, T, b, zs=z, what="observations") for n, m in ((1, 1), (2, 2), (1, 2), (3, 2)) for T in (1, 3, 4)
            for b in (ALLN, ALLC, V) for z in OBS]
    if not quick:
        for n, m in [(1, 1), (2, 1), (1, 2), (3, 2), (3, 3)]:
            out += kind_product(n, m, 3, tv, masks="all")
            out += deviations(n, m, 3, 2, ALLC, variants=variants, lowest=2)
        out += deviations(2, 2, 3, 2, V, variants=variants, lowest=2)
        out += deviations(2, 2, 3, 3, ALLC, variants=variants, lowest=3, masks="1")
        out += deviations(2, 2, 4, 2, ALLC, variants=variants, lowest=1)
        for b in (ALLC, V):
            for n, m in [(2, 2), (1, 1), (3, 2)]:
                out.append(case(n, m, 6, b, what="dims"))
                out.append(case(n, m, 7, b, what="dims"))
            out.append(case(2, 2, 60, b, masks="1", what="long"))
            out.append(case(2, 1, 24, b, masks="2", what="long"))
    return out


def sqrt_ok(case):
    """The square-root classes are documented for constant, positive definite covariances."""
    k = kinds_dict(case["kinds"])
    return (k["Q"] in "NC" and k["R"] in "NC"
            and case["variants"].get("R") not in ("0", "diag0") and case["variants"].get("Q") not in ("0", "diag0") and case["variants"].get("P") not in ("0", "diag0"))


def both_bases(tier, tv=TV):
    """linear_space, plus the same shapes with everything but the noise covariances varying over time."""
    out = linear_space(tier, tv)
    quick = tier == "quick"
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for T in (2, 3, 4) if quick else (2, 3, 4, 5):
                for base in (ALLV_CQ, ALLL_CQ):
                    out.append(case(n, m, T, base, what="dims"))
    out += deviations(2, 2, 3, 1 if quick else 2, ALLV_CQ, lowest=1)
    out += [case(2, 2, 24, ALLV_CQ, masks="1", what="long")]
    out += large(tier, (ALLV_CQ,))
    return out
