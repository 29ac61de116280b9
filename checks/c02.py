"""C02: KalmanFilter.smooth against the exact conditional distribution, over the whole bounded space."""
from mc import lincheck
from mc.linspace import linear_space

PID = "C02"
LEVEL = "model_checking"
RULE = ("every configuration of the bounded space (dimensions, lengths, default/constant/per-step/over-long parameters, "
        "value variants, missing patterns) is executed on the real KalmanFilter and every step of its trace is compared with "
        "the conditional distribution computed from the joint Gaussian; a state is one smoothed step")
ASSUMPTIONS = ["the joint-Gaussian reference model (mc/lin.py) is the documented model",
               "parameter values come from a finite dyadic alphabet; comparison up to rounding scaled by conditioning"]


def bounds(tier):
    return dict(dims="n<=5,m<=5", T="1..4 exhaustively masked, 24 with <=1 missing or runs" if tier == "quick"
                else "1..7 exhaustively masked, 24 with <=2 missing, 60 with <=1 missing",
                kinds="all 2916 combinations of default/constant/per-step at (2,2,3)", variants="<=2 deviations (3 thorough)")


def cases(tier):
    return linear_space(tier)


def run_case(case, out):
    import pykalman
    lincheck.run_moments(case, out, {"KalmanFilter": pykalman.KalmanFilter}, True, "smooth")
