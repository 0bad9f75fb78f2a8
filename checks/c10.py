"""C10: the multivariate Gaussian prior: density, sampling and rescaling describe the same distribution."""
import math

import numpy as np
from scipy.special import erf

from symx.api import harness
from bilby.core import prior as bp
from common import use_rng
import priors_common as pc

BOUNDS = ["two or three parameters, one or two modes, symbolic means and standard deviations",
          "correlation coefficients from a finite list (0, 1/2, -3/5)", "one or two points per call"]
OUTSIDE = ["symbolic correlation matrices (the eigen-decomposition is LAPACK's)"]

CORR = {"0": [[1., 0.], [0., 1.]], "0.5": [[1., .5], [.5, 1.]], "-0.6": [[1., -.6], [-.6, 1.]]}


def gauss(x, mu, sig, corr):
    """log density of N(mu, D corr D), written down directly"""
    inv = np.linalg.inv(np.array(corr))
    d = [(a - m) / s for a, m, s in zip(x, mu, sig)]
    q = sum(float(inv[i, j]) * d[i] * d[j] for i in range(len(d)) for j in range(len(d)))
    n = len(d)
    out = -q / 2 - (n * math.log(2 * math.pi) + math.log(np.linalg.det(np.array(corr)))) / 2
    for s in sig:
        out = out - np.log(s)
    return out


def single(e, corr, n=2):
    mu = e.reals("mu", n, -3, 3)
    sig = [e.pos("sig%d" % i) for i in range(n)]
    names = ["p%d" % i for i in range(n)]
    return names, mu, sig, bp.MultivariateGaussianDist(names, mus=[mu], sigmas=[sig], corrcoefs=[corr])


@harness("C10", "density", params=[(k, k) for k in CORR])
def density(e, k):
    names, mu, sig, d = single(e, CORR[k])
    x = e.reals("x", 2, -5, 5)
    y = e.reals("y", 2, -5, 5)
    e.check_eq("ln_prob", d.ln_prob(e.array(x)), gauss(x, mu, sig, CORR[k]))
    e.check_eq("prob", d.prob(e.array(x)), np.exp(gauss(x, mu, sig, CORR[k])))
    two = d.ln_prob(e.array([e.array(x), e.array(y)]))
    e.check_eq("two points", two, [gauss(x, mu, sig, CORR[k]), gauss(y, mu, sig, CORR[k])])


@harness("C10", "density-cov")
def density_cov(e):
    """a covariance matrix and (standard deviations, correlation coefficients) are the same thing"""
    mu = e.reals("mu", 2, -3, 3)
    s = e.choice("s", [(1., 2.), (.5, 4.)])
    r = e.choice("r", [0., .5, -.6])
    cov = [[s[0]**2, r * s[0] * s[1]], [r * s[0] * s[1], s[1]**2]]
    d1 = bp.MultivariateGaussianDist(["a", "b"], mus=[mu], covs=[cov])
    x = e.reals("x", 2, -5, 5)
    e.check_eq("ln_prob", d1.ln_prob(e.array(x)), gauss(x, mu, s, [[1, r], [r, 1]]), rtol=1e-6)
    d2 = bp.MultivariateGaussianDist(["a", "b"], mus=[mu], sigmas=[list(s)], corrcoefs=[[[1., r], [r, 1.]]])
    e.check_eq("covariances agree", d2.covs[0], np.array(cov), rtol=1e-6)
    e.check_eq("standard deviations agree", d1.sigmas[0], list(s))
    u = e.reals("u", 2, 0, 1, slo=True, shi=True)
    x1, x2 = d1.rescale(e.array(u)), d2.rescale(e.array(u))
    e.check_eq("rescale agrees", x1, x2, rtol=1e-6, atol=1e-6)


@harness("C10", "bounds", params=[("one", 1), ("two", 2)])
def bounds(e, npt):
    """zero density exactly when some parameter is outside its bounds, for each point of the array separately"""
    lo, hi = [e.real("lo%d" % i, -3, 0) for i in range(2)], [e.real("hi%d" % i, 1, 3) for i in range(2)]
    d = bp.MultivariateGaussianDist(["a", "b"], mus=[[0., 0.]], sigmas=[[1., 2.]], corrcoefs=[CORR["0.5"]],
                                    bounds=[(lo[0], hi[0]), (lo[1], hi[1])])
    pts = [e.reals("x%d_" % i, 2, -5, 5) for i in range(npt)]
    L = np.atleast_1d(d.ln_prob(e.array([e.array(p) for p in pts])))
    P = np.atleast_1d(d.prob(e.array([e.array(p) for p in pts])))
    for i, x in enumerate(pts):
        inside = bool((x[0] >= lo[0]) & (x[0] <= hi[0])) and bool((x[1] >= lo[1]) & (x[1] <= hi[1]))
        if inside:
            e.check_eq("density inside", L[i], gauss(x, [0, 0], [1., 2.], CORR["0.5"]))
        else:
            e.check_eq("ln_prob outside", L[i], -math.inf)
            e.check_eq("prob outside", P[i], 0.)


@harness("C10", "mixture")
def mixture(e):
    """the density of a mixture is the weighted mean of the densities of its modes"""
    w = e.choice("w", [[1., 1.], [1., 3.], [.2, .8]])
    mus = [e.reals("m%d_" % i, 2, -2, 2) for i in range(2)]
    sigs = [[1., 2.], [.5, .5]]
    d = bp.MultivariateGaussianDist(["a", "b"], nmodes=2, mus=mus, sigmas=sigs, corrcoefs=[CORR["0.5"], CORR["0"]], weights=w)
    x = e.reals("x", 2, -3, 3)
    W = sum(w)
    dens = [np.exp(gauss(x, mus[0], sigs[0], CORR["0.5"])), np.exp(gauss(x, mus[1], sigs[1], CORR["0"]))]
    e.check_eq("prob", d.prob(e.array(x)), dens[0] * (w[0] / W) + dens[1] * (w[1] / W), rtol=1e-6)
    rng = use_rng(e)
    u = e.reals("u", 2, 0, 1, slo=True, shi=True)
    got = d.rescale(e.array(u))
    m = 0 if bool(rng.log[0] < w[0] / W) else 1
    e.check_eq("the mode is chosen with the probability of its weight", got, d.rescale(e.array(u), mode=m))


def std_cdf(z):
    return 0.5 * (1 + erf(z / math.sqrt(2)))


@harness("C10", "rescale", params=[(k, k) for k in CORR])
def rescale(e, k):
    """rescale maps independent uniforms to correlated normals: x = mu + sig * (R z) with R R^T = corr"""
    names, mu, sig, d = single(e, CORR[k])
    u = e.reals("u", 2, 0, 1, slo=True, shi=True)
    x = d.rescale(e.array(u))
    z = [pc.bp.Gaussian(0, 1).rescale(v) for v in u]
    y = [(x[i] - mu[i]) / sig[i] for i in range(2)]
    inv = np.linalg.inv(np.array(CORR[k]))
    q = sum(float(inv[i, j]) * y[i] * y[j] for i in range(2) for j in range(2))
    e.check_eq("the Mahalanobis norm of the result is that of the standard normals", q, z[0] * z[0] + z[1] * z[1], rtol=1e-6,
               atol=1e-6)
    both = d.rescale(e.array([e.array(u), e.array([u[1], u[0]])]))
    e.check_eq("rows are independent", both[0], x)
    e.check_eq("rows are independent (2)", both[1], d.rescale(e.array([u[1], u[0]])))
    mid = d.rescale(np.array([.5, .5]))
    e.check_eq("the median is the mean", mid, mu)


@harness("C10", "sample-bounds")
def sample(e):
    """samples respect the bounds and are the rescaled draws"""
    rng = use_rng(e)
    hi = e.real("hi", 0, 3)
    d = bp.MultivariateGaussianDist(["a", "b"], mus=[[0., 0.]], sigmas=[[1., 2.]], corrcoefs=[CORR["0"]],
                                    bounds=[(-100, hi), (-100, 100)])
    n = [0]
    inner = rng.uniform

    def limited(*a, **k):
        n[0] += 1
        if n[0] > 2:
            e.skip()
        return inner(*a, **k)
    rng.uniform = limited
    d.sample(size=1)
    for u in rng.log:
        e.assume((u > 0) & (u < 1))
    s = d.current_sample
    e.check_le("within the bounds", s["a"], hi)
    last = rng.log[-2:]
    e.check_eq("the accepted draw", [s["a"], s["b"]], d.rescale(e.array(last)))
    if n[0] == 2:
        y = d.rescale(e.array(rng.log[:2]))
        e.check("a rejected draw was out of bounds", (y[0] > hi) | (y[0] < -100) | (y[1] < -100) | (y[1] > 100))


def protocol_setup(e):
    names, mu, sig, d = single(e, CORR["0.5"])
    p = bp.PriorDict({k: bp.MultivariateGaussian(d, k) for k in names})
    p["c"] = bp.Uniform(-10., 10.)
    p._cached_normalizations = {t: 1 for t in [("p0", "p1", "c"), ("p1", "p0", "c"), ("c", "p1", "p0")]}
    return names, mu, sig, d, p


@harness("C10", "in-a-prior-dict")
def in_dict(e):
    """the shared distribution contributes its joint density exactly once, in any order of the parameters, on every call"""
    names, mu, sig, d, p = protocol_setup(e)
    order = e.choice("order", [("p0", "p1", "c"), ("p1", "p0", "c"), ("c", "p1", "p0")])
    for rep in range(2):
        x = dict(p0=e.real("x0_%d" % rep, -5, 5), p1=e.real("x1_%d" % rep, -5, 5), c=e.real("xc_%d" % rep, -5, 5))
        ref = gauss([x["p0"], x["p1"]], mu, sig, CORR["0.5"]) - math.log(20.)
        s = {k: x[k] for k in order}
        e.check_eq("ln_prob", p.ln_prob(s), ref)
        e.check_eq("prob", p.prob(s), np.exp(ref))
    u = dict(p0=e.real("u0", 0, 1, slo=True, shi=True), p1=e.real("u1", 0, 1, slo=True, shi=True), c=e.real("uc", 0, 1))
    for rep in range(2):
        r = p.rescale(("p0", "p1", "c"), [u["p0"], u["p1"], u["c"]])
        e.check_eq("rescale", r, [*d.rescale(e.array([u["p0"], u["p1"]])), -10 + 20 * u["c"]])


@harness("C10", "array-in-a-prior-dict")
def array_in_dict(e):
    names, mu, sig, d, p = protocol_setup(e)
    xs = [e.reals("x%d_" % i, 3, -5, 5) for i in range(2)]
    s = dict(p0=e.array([xs[0][0], xs[1][0]]), p1=e.array([xs[0][1], xs[1][1]]), c=e.array([xs[0][2], xs[1][2]]))
    L = p.ln_prob(s, axis=0)
    e.check_eq("ln_prob", L, [gauss(x[:2], mu, sig, CORR["0.5"]) - math.log(20.) for x in xs])


@harness("C10", "joint-samples")
def joint_samples(e):
    """the parameters of one joint sample come from one draw of the distribution"""
    rng = use_rng(e)
    names, mu, sig, d, p = protocol_setup(e)
    for rep in range(2):
        n0 = len(rng.log)
        s = p.sample_subset(keys=["p0", "p1"])
        e.check_eq("one draw per sample", len(rng.log) - n0, 2)
        e.check_eq("sample", [s["p0"], s["p1"]], d.rescale(e.array(rng.log[n0:n0 + 2])))
