"""C11: a slab-and-spike prior is the stated mixture of its slab and an atom."""
import math

import numpy as np

from symx.api import harness
from bilby.core import prior as bp
from common import use_rng
import priors_common as pc

BOUNDS = ["slabs: Uniform, PowerLaw(2), LogUniform, TruncatedGaussian, Sine, Beta(2,3); symbolic support, spike location and height",
          "scalar and length-two array arguments"]
OUTSIDE = ["unit-cube coordinates within 1e-6 of the edges of the spike (decided by float rounding)", "the value of the cdf exactly at the spike"]


def slabs():
    def beta(e):
        return bp.Beta(alpha=2., beta=3.), 0., 1.
    return [("uniform", pc.uniform), ("powerlaw", pc.powerlaw(2)), ("loguniform", pc.loguniform), ("truncgauss", pc.truncgauss),
            ("sine", pc.sine_range), ("beta", beta)]


def make(e, mk):
    slab, lo, hi = mk(e)
    at = e.choice("at", ["minimum", "inside", "maximum", "default"])
    if at == "inside":
        loc = e.real("loc", -6, 8)
        e.assume((loc > lo) & (loc < hi))
    else:
        loc = hi if at == "maximum" else lo
    h = e.real("h", 0, 1, shi=True)
    ref, _, _ = slab, lo, hi
    return slab, lo, hi, loc, h, bp.SlabSpikePrior(slab=slab, spike_location=None if at == "default" else loc, spike_height=h)


@harness("C11", "density", params=slabs())
def density(e, mk):
    slab, lo, hi, loc, h, p = make(e, mk)
    x = e.real("x", -10, 10)
    e.assume((x < loc) | (x > loc))
    s = pc.scalar(slab.prob(x))
    e.check_eq("prob is (1 - height) slab", pc.scalar(p.prob(x)), s * (1 - h))
    if bool(s > 0):
        e.check_eq("ln_prob", pc.scalar(p.ln_prob(x)), pc.scalar(slab.ln_prob(x)) + np.log(1 - h))
    else:
        e.check_eq("ln_prob outside", pc.scalar(p.ln_prob(x)), -math.inf)
    e.check_eq("infinite density at the spike", [pc.scalar(p.prob(loc)), pc.scalar(p.ln_prob(loc))], [math.inf, math.inf])
    e.check_eq("arrays", p.prob(e.array([x, loc])), [pc.scalar(p.prob(x)), math.inf])


@harness("C11", "cdf", params=slabs())
def cdf(e, mk):
    slab, lo, hi, loc, h, p = make(e, mk)
    x = e.real("x", -10, 10)
    y = e.real("y", -10, 10)
    e.assume((x < loc) & (y > loc))
    below, above = pc.scalar(p.cdf(x)), pc.scalar(p.cdf(y))
    e.check_eq("cdf below the spike", below, (1 - h) * pc.scalar(slab.cdf(x)))
    e.check_eq("cdf above the spike", above, (1 - h) * pc.scalar(slab.cdf(y)) + h)
    e.check_eq("array cdf", p.cdf(e.array([x, y])), [below, above])


@harness("C11", "rescale", params=slabs())
def rescale(e, mk):
    slab, lo, hi, loc, h, p = make(e, mk)
    u, v = e.real("u", 0, 1, slo=True, shi=True), e.real("v", 0, 1, slo=True, shi=True)
    x = pc.scalar(p.rescale(u))
    c0 = (1 - h) * pc.scalar(slab.cdf(loc))
    for t in (u, v):
        for edge in (c0, c0 + h):
            e.assume((t < edge - 1e-6) | (t > edge + 1e-6))
    if bool(u < c0):
        e.check_eq("below the spike", x, pc.scalar(slab.rescale(u / (1 - h))))
    elif bool(u > c0 + h):
        e.check_eq("above the spike", x, pc.scalar(slab.rescale((u - h) / (1 - h))))
    else:
        e.check_eq("the spike has probability `height`", x, loc)
    e.check_le("not below the minimum", lo, x)
    e.check_le("not above the maximum", x, hi)
    y = pc.scalar(p.rescale(v))
    e.check_eq("array rescale", p.rescale(e.array([u, v])), [x, y], rtol=1e-6)


@harness("C11", "invalid")
def invalid(e):
    a, b = pc.interval(e)
    s = e.real("s", -9, 9)
    h = e.real("h", -1, 2)
    bad = bool((s < a) | (s > b)) or bool((h < 0) | (h > 1))
    ex = e.raises(lambda: bp.SlabSpikePrior(slab=bp.Uniform(a, b), spike_location=s, spike_height=h), ValueError)
    e.check_eq("an invalid spike is refused, a valid one accepted", ex is not None, bad)


@harness("C11", "history", params=[s for s in slabs() if s[0] in ("uniform", "powerlaw", "sine")])
def history(e, mk):
    """moving the spike or changing its height afterwards gives the prior made with these values"""
    slab, lo, hi, loc, h, p = make(e, mk)
    loc2 = e.real("loc2", -6, 8)
    h2 = e.real("h2", 0, 1, shi=True)
    e.assume((loc2 > lo) & (loc2 < hi))
    which = e.choice("change", ["location", "height", "both"])
    if which != "height":
        p.spike_location = loc2
    if which != "location":
        p.spike_height = h2
    loc, h = (loc if which == "height" else loc2), (h if which == "location" else h2)
    u = e.real("u", 0, 1, slo=True, shi=True)
    c0 = (1 - h) * pc.scalar(slab.cdf(loc))
    for edge in (c0, c0 + h):
        e.assume((u < edge - 1e-6) | (u > edge + 1e-6))
    x = pc.scalar(p.rescale(u))
    if bool(u < c0):
        e.check_eq("below the moved spike", x, pc.scalar(slab.rescale(u / (1 - h))))
    elif bool(u > c0 + h):
        e.check_eq("above the moved spike", x, pc.scalar(slab.rescale((u - h) / (1 - h))))
    else:
        e.check_eq("the moved spike", x, loc)
    y = e.real("y", -10, 10)
    e.assume((y < loc) | (y > loc))
    e.check_eq("cdf", pc.scalar(p.cdf(y)), (1 - h) * pc.scalar(slab.cdf(y)) + (h if bool(y > loc) else 0))
    e.check_eq("density", pc.scalar(p.prob(y)), (1 - h) * pc.scalar(slab.prob(y)))
