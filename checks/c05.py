"""C05: a PriorDict is the product of its priors, with zero probability where a constraint fails."""
import math

import numpy as np

from symx.api import harness
from bilby.core import prior as bp
from common import use_rng
import priors_common as pc

BOUNDS = ["three or four priors (Uniform, Gaussian, PowerLaw, DeltaFunction, Constraint) with symbolic hyper-parameters",
          "scalar samples and arrays of length 2",
          "the constraint normalisation factor is an arbitrary positive number (its Monte Carlo estimate is checked separately "
          "for batches of two draws)"]
OUTSIDE = ["the statistical accuracy of the Monte Carlo estimate of the constraint normalisation"]


def conv(sample):
    out = dict(sample)
    if "a" in out and "b" in out:
        out["s"] = out["a"] + out["b"]
        out["d"] = out["a"] - out["b"]
    return out


def make(e, constraint=True):
    a, b = pc.interval(e)
    d = dict(a=bp.Uniform(minimum=a, maximum=b), b=bp.Gaussian(mu=e.real("mu", -3, 3), sigma=e.pos("sigma")),
             c=bp.PowerLaw(alpha=2, minimum=1, maximum=e.real("cmax", 2, 5)))
    if constraint:
        d["s"] = bp.Constraint(minimum=e.real("smin", -3, 0), maximum=e.real("smax", 1, 4))
        d["d"] = bp.Constraint(minimum=e.real("dmin", -3, 0), maximum=e.real("dmax", 1, 4))
    p = bp.PriorDict(d, conversion_function=conv)
    ratio = e.pos("ratio") if constraint else 1
    if constraint:
        p._cached_normalizations[("a", "b", "c")] = ratio
    else:
        p._cached_normalizations[("a", "b", "c")] = 1
    return p, ratio


def ok(p, x):
    s, d = x["a"] + x["b"], x["a"] - x["b"]
    return bool((s > p["s"].minimum) & (s < p["s"].maximum) & (d > p["d"].minimum) & (d < p["d"].maximum))


@harness("C05", "joint-scalar", params=[("plain", False), ("constrained", True)])
def scalar(e, constraint):
    p, ratio = make(e, constraint)
    x = dict(a=e.real("xa", -6, 6), b=e.real("xb", -6, 6), c=e.real("xc", 0, 6))
    keep = ok(p, x) if constraint else True
    pr = [pc.scalar(p[k].prob(x[k])) for k in x]
    lp = [pc.scalar(p[k].ln_prob(x[k])) for k in x]
    inside = bool(pr[0] > 0) and bool(pr[2] > 0)
    P, L = p.prob(x), p.ln_prob(x)
    if keep and inside:
        e.check_eq("prob is the product", P, pr[0] * pr[1] * pr[2] * ratio)
        e.check_eq("ln_prob is the sum", L, lp[0] + lp[1] + lp[2] + (np.log(ratio) if constraint else 0))
        e.check_eq("unnormalised ln_prob is the sum", p.ln_prob(x, normalized=False), lp[0] + lp[1] + lp[2])
        e.check_eq("ln_prob = log(prob)", L, np.log(P), rtol=1e-6, atol=1e-6)
    else:
        e.check_eq("prob is zero", P, 0.)
        e.check_eq("ln_prob is -inf", L, -math.inf)
        e.check_eq("unnormalised ln_prob is -inf", p.ln_prob(x, normalized=False), -math.inf)


@harness("C05", "joint-array", params=[("plain", False), ("constrained", True)], max_paths=4000, cost=5)
def array(e, constraint):
    p, ratio = make(e, constraint)
    xs = [dict(a=e.real("xa%d" % i, -6, 6), b=e.real("xb%d" % i, -6, 6), c=2.) for i in range(2)]
    x = {k: e.array([xs[0][k], xs[1][k]]) for k in "abc"}
    P, L = p.prob(x, axis=0), p.ln_prob(x, axis=0)
    e.check_eq("shape", np.shape(P), (2,))
    for i in range(2):
        keep = ok(p, xs[i]) if constraint else True
        pr = [pc.scalar(p[k].prob(xs[i][k])) for k in "abc"]
        if keep and bool(pr[0] > 0):
            e.check_eq("prob[%d] is the product" % i, P[i], pr[0] * pr[1] * pr[2] * ratio)
            e.check_eq("ln_prob[%d] is its logarithm" % i, L[i], sum(pc.scalar(p[k].ln_prob(xs[i][k])) for k in "abc")
                       + (np.log(ratio) if constraint else 0))
        else:
            e.check_eq("prob[%d] is zero" % i, P[i], 0.)
            e.check_eq("ln_prob[%d] is -inf" % i, L[i], -math.inf)
    e.check_eq("the sample is unchanged", [x["a"][0], x["a"][1], x["b"][0], x["b"][1]],
               [xs[0]["a"], xs[1]["a"], xs[0]["b"], xs[1]["b"]])


@harness("C05", "constraints")
def constraints(e):
    p, _ = make(e)
    x = dict(a=e.real("xa", -6, 6), b=e.real("xb", -6, 6), c=2.)
    e.check_eq("evaluate_constraints", bool(p.evaluate_constraints(x)), ok(p, x))
    e.check_eq("the sample is unchanged", sorted(x), ["a", "b", "c"])
    e.check_eq("constraint keys", p.constraint_keys, ["s", "d"])
    e.check_eq("free keys", p.non_fixed_keys, ["a", "b", "c"])
    e.check_eq("an open interval", [bool(p["s"].prob(p["s"].minimum)), bool(p["s"].prob(p["s"].maximum))], [False, False])


@harness("C05", "rescale-cdf")
def rescale(e):
    p, _ = make(e)
    u = e.reals("u", 3, 0, 1, slo=True, shi=True)
    order = e.choice("order", [("a", "b", "c"), ("c", "a", "b"), ("b", "c", "a")])
    r = p.rescale(order, u)
    e.check_eq("rescale is per-parameter, in the order of the keys", r, [p[k].rescale(v) for k, v in zip(order, u)])
    c = p.cdf(dict(zip(order, r)))
    e.check_eq("cdf undoes rescale", [c[k] for k in order], u, rtol=1e-6)
    arr = [e.array([u[0], u[1]]), e.array([u[1], u[2]])]
    r2 = p.rescale(("a", "c"), arr)
    e.check_eq("array rescale", r2, [p["a"].rescale(u[0]), p["a"].rescale(u[1]), p["c"].rescale(u[1]), p["c"].rescale(u[2])])


@harness("C05", "fixed", params=[("int", 0), ("float", 1), ("delta", 2)])
def fixed(e, kind):
    f = e.real("peak", -3, 3) if kind == 2 else None
    a, b = pc.interval(e)
    val = [2, 1.5, bp.DeltaFunction(peak=f) if kind == 2 else None][kind]
    p = bp.PriorDict(dict(a=bp.Uniform(minimum=a, maximum=b), f=val))
    peak = [2, 1.5, f][kind]
    e.check_eq("a number is a fixed parameter", p.fixed_keys, ["f"])
    e.check_eq("free keys", p.non_fixed_keys, ["a"])
    rng = use_rng(e)
    s = p.sample()
    e.check_eq("the fixed value is returned", pc.scalar(s["f"]), peak)
    e.check_eq("the other value is drawn from its prior", s["a"], a + (b - a) * rng.log[0])


@harness("C05", "normalisation-estimate")
def normalisation(e):
    """the estimate is (number of draws) / (number of draws satisfying the constraints)"""
    a, b = -1., 1.
    p = bp.PriorDict(dict(a=bp.Uniform(a, b), b=bp.Uniform(a, b), s=bp.Constraint(minimum=e.real("smin", -1, 0), maximum=5.),
                          d=bp.Constraint(minimum=-5, maximum=5)), conversion_function=conv)
    draws = []
    real_rng = use_rng(e)
    inner = bp.PriorDict.sample_subset

    def record(keys=iter([]), size=None):
        s = inner(p, keys=keys, size=size)
        draws.append(s)
        if len(draws) > 2:
            e.skip()
        return s
    p.sample_subset = record
    try:
        f = p._estimate_normalization(("a", "b"), 1, 2)
    finally:
        del p.sample_subset
    if len(draws) > 2:
        e.skip()
    n = acc = 0
    # the first batch decides whether a second one is needed
    used = draws[:1] if len(draws) == 1 else draws[1:]
    for d in used:
        for i in range(2):
            n += 1
            acc += int(bool(d["a"][i] + d["b"][i] > p["s"].minimum))
    e.check_eq("estimate", f, n / acc)
