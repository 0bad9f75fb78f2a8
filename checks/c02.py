"""C02: prob is non-negative, vanishes outside the support, and ln_prob is its logarithm."""
import math

import numpy as np

from symx.api import harness
import priors_common as pc

BOUNDS = pc_bounds = ["hyper-parameters and the evaluation point are symbolic reals in the stated ranges",
                      "power-law exponents: " + ", ".join("%g" % a for a in pc.ALPHAS)]


def logsafe(p):
    return np.log(p)


@harness("C02", "inside", params=pc.params())
def inside(e, mk):
    p, lo, hi = mk(e)
    x = e.real("x", -10, 10)
    if lo is not None:
        e.assume(x > lo)
    if hi is not None:
        e.assume(x < hi)
    if mk is pc.symlog:
        e.assume((x < -e_min(p)) | (x > e_min(p)))
    pr = pc.scalar(p.prob(x))
    e.check_le("prob >= 0", 0., pr)
    e.check("prob > 0 in the interior of the support", pr > 0)
    e.check_eq("ln_prob = log(prob)", pc.scalar(p.ln_prob(x)), np.log(pr), rtol=1e-6, atol=1e-7)


def e_min(p):
    return p.minimum


OUT = [n for n in pc.TABLE if n not in ("gaussian", "studentt", "logistic", "cauchy")]


@harness("C02", "outside", params=pc.params(OUT))
def outside(e, mk):
    p, lo, hi = mk(e)
    x = e.real("x", -20, 20)
    if e.choice("side", ["below", "above"] if hi is not None else ["below"]) == "below":
        e.assume(x < lo)
    else:
        e.assume(x > hi)
    e.check_eq("prob = 0 outside the support", pc.scalar(p.prob(x)), 0., rtol=0, atol=1e-300)
    e.check_eq("ln_prob = -inf outside the support", pc.scalar(p.ln_prob(x)), -math.inf)


@harness("C02", "symlog-gap")
def gap(e):
    p, lo, hi = pc.symlog(e)
    x = e.real("x", -20, 20)
    e.assume((x > -p.minimum) & (x < p.minimum) & ((x > 0) | (x < 0)))
    e.check_eq("prob = 0 in the excluded gap", pc.scalar(p.prob(x)), 0.)
    e.check_eq("ln_prob = -inf in the excluded gap", pc.scalar(p.ln_prob(x)), -math.inf)
