"""C13: the core likelihoods are the stated closed forms, and joint likelihoods add up."""
import math

import numpy as np
from scipy.special import gammaln

from bilby.core import likelihood as bl
from symx.api import harness
import priors_common as pc

BOUNDS = ["three data points at symbolic abscissae, symbolic data, parameters and widths; count data from finite lists"]
OUTSIDE = ["celerite and george likelihoods (the packages are external)"]


def line(x, m, c):
    return m * x + c


def scaled(x, m, c, k):
    return k * (m * x + c)


def data(e, n=3, pos=False):
    x = e.array(e.reals("x", n, -3, 3))
    y = e.array([e.pos("y%d" % i) for i in range(n)] if pos else e.reals("y", n, -5, 5))
    return x, y


@harness("C13", "gaussian", params=[(k, k) for k in ("scalar", "array", "sampled", "fixed-argument")])
def gaussian(e, kind):
    x, y = data(e)
    m, c = e.real("m", -2, 2), e.real("c", -2, 2)
    s = e.pos("s")
    k = 1
    if kind == "array":
        sig = [e.pos("s%d" % i) for i in range(3)]
        like = bl.GaussianLikelihood(x, y, line, sigma=e.array(sig))
    elif kind == "sampled":
        sig = [s] * 3
        like = bl.GaussianLikelihood(x, y, line)
    elif kind == "fixed-argument":
        k = e.real("k", -2, 2)
        sig = [s] * 3
        like = bl.GaussianLikelihood(x, y, scaled, sigma=s, k=k)
        e.check_eq("sampled arguments", sorted(like.function_keys), ["c", "m"])
    else:
        sig = [s] * 3
        like = bl.GaussianLikelihood(x, y, line, sigma=s)
    like.parameters.update(m=m, c=c)
    if kind == "sampled":
        like.parameters["sigma"] = s
    ref = sum(-((y[i] - k * (m * x[i] + c)) / sig[i]) ** 2 / 2 - np.log(sig[i]) - math.log(2 * math.pi) / 2 for i in range(3))
    e.check_eq("log likelihood", like.log_likelihood(), ref)
    e.check_eq("again", like.log_likelihood(), ref)
    # a sampled width takes precedence over the fixed one
    t = e.pos("t")
    like.parameters["sigma"] = t
    ref = sum(-((y[i] - k * (m * x[i] + c)) / t) ** 2 / 2 - np.log(t) - math.log(2 * math.pi) / 2 for i in range(3))
    e.check_eq("sampled width takes precedence", like.log_likelihood(), ref)


@harness("C13", "new-data")
def new_data(e):
    """data and parameters may change between evaluations"""
    x, y = data(e)
    s = e.pos("s")
    like = bl.GaussianLikelihood(x, y, line, sigma=s)
    like.parameters.update(m=e.real("m", -2, 2), c=e.real("c", -2, 2))
    like.log_likelihood()
    y2 = e.reals("z", 3, -4, 4)
    m, c = e.real("mm", -2, 2), e.real("cc", -2, 2)
    like.y = e.array(y2)
    like.parameters["m"] = m
    like.parameters["c"] = c
    ref = sum(-((y2[i] - m * x[i] - c) / s) ** 2 / 2 - np.log(s) - math.log(2 * math.pi) / 2 for i in range(3))
    e.check_eq("log likelihood of the new data", like.log_likelihood(), ref)
    e.check_eq("residual", like.residual, [y2[i] - m * x[i] - c for i in range(3)])


def rate(x, a, b, c):
    return np.array([a, b, c])


@harness("C13", "poisson", params=[("0,3,1", (0, 3, 1)), ("2,0,7", (2, 0, 7))])
def poisson(e, counts):
    r = e.reals("r", 3, -2, 6)
    like = bl.PoissonLikelihood(np.array([0., 1., 2.]), np.array(counts),
                                rate)
    like.parameters.update(a=r[0], b=r[1], c=r[2])
    if bool((r[0] < 0) | (r[1] < 0) | (r[2] < 0)):
        e.check("negative rate is refused", e.raises(like.log_likelihood, ValueError) is not None)
        return
    got = like.log_likelihood()
    if bool((r[0] == 0) | (r[1] == 0) | (r[2] == 0)):
        e.check_eq("zero rate", got, -np.inf)
        return
    e.check_eq("log likelihood", got, sum(n * np.log(v) - v - math.lgamma(n + 1) for n, v in zip(counts, r)))


@harness("C13", "poisson-data")
def poisson_data(e):
    def make(y):
        return lambda: bl.PoissonLikelihood(np.array([0., 1.]), y, rate)
    e.check("negative counts are refused", e.raises(make(np.array([1, -1])), ValueError) is not None)
    e.check("fractional counts are refused", e.raises(make(np.array([1., 2.])), ValueError) is not None)
    n = e.choice("n", [0, 1, 4])
    like = bl.PoissonLikelihood(np.array([0.]), n, lambda x, a: np.array([a]))
    a = e.pos("a")
    like.parameters["a"] = a
    e.check_eq("single count", like.log_likelihood(), n * np.log(a) - a - math.lgamma(n + 1))


@harness("C13", "exponential")
def exponential(e):
    r = [e.real("r%d" % i, -2, 5) for i in range(3)]
    for v in r:
        e.assume((v < 0) | (v > 0))
    y = [e.real("y%d" % i, 0, 5) for i in range(3)]
    like = bl.ExponentialLikelihood(np.array([0., 1., 2.]), e.array(y), rate)
    like.parameters.update(a=r[0], b=r[1], c=r[2])
    got = like.log_likelihood()
    if bool((r[0] < 0) | (r[1] < 0) | (r[2] < 0)):
        e.check_eq("negative mean", got, -np.inf)
    else:
        e.check_eq("log likelihood", got, -sum(np.log(v) + w / v for v, w in zip(r, y)))


@harness("C13", "studentt", params=[("fixed", False), ("sampled", True)])
def studentt(e, sampled):
    x, y = data(e, 2)
    m, c = e.real("m", -2, 2), e.real("c", -2, 2)
    s = e.pos("s")
    nu = e.real("nu", -2, 30)
    like = bl.StudentTLikelihood(x, y, line, nu=None if sampled else nu, sigma=s)
    like.parameters.update(m=m, c=c)
    if sampled:
        like.parameters["nu"] = nu
    if bool(nu <= 0):
        e.check("refused", e.raises(like.log_likelihood, ValueError) is not None)
        return
    z = [(y[i] - m * x[i] - c) / s for i in range(2)]
    ref = sum(gammaln((nu + 1) / 2) - gammaln(nu / 2) - np.log(nu * math.pi * s ** 2) / 2
              - (nu + 1) / 2 * np.log(1 + z[i] ** 2 / nu) for i in range(2))
    e.check_eq("log likelihood", like.log_likelihood(), ref)


@harness("C13", "multinomial", params=[("3", (1, 0, 4)), ("2", (3, 2))])
def multinomial(e, counts):
    n = len(counts)
    like = bl.Multinomial(data=list(counts), n_dimensions=n, base="p")
    p = [e.real("p%d" % i, 0, 1, slo=True, shi=True) for i in range(n - 1)]
    last = 1 - sum(p)
    e.assume(last > 0)
    for i, v in enumerate(p):
        like.parameters["p%d" % i] = v
    p = p + [last]
    ref = math.lgamma(sum(counts) + 1) + sum(k * np.log(v) - math.lgamma(k + 1) for k, v in zip(counts, p))
    e.check_eq("log likelihood", like.log_likelihood(), ref)
    noise = math.lgamma(sum(counts) + 1) + sum(k * math.log(1 / n) - math.lgamma(k + 1) for k in counts)
    e.check_eq("noise: equal probabilities", like.noise_log_likelihood(), noise)
    e.check_eq("ratio", like.log_likelihood_ratio(), ref - noise)


COV = [[2., .5], [.5, 1.]]


def mvn(x, mu):
    inv = np.linalg.inv(np.array(COV))
    d = [a - b for a, b in zip(x, mu)]
    q = sum(float(inv[i, j]) * d[i] * d[j] for i in range(2) for j in range(2))
    return -q / 2 - math.log(2 * math.pi) - math.log(np.linalg.det(np.array(COV))) / 2


@harness("C13", "covariant-gaussian", params=[("one", 1), ("two", 2)])
def covariant(e, modes):
    x = e.reals("x", 2, -3, 3)
    if modes == 1:
        like = bl.AnalyticalMultidimensionalCovariantGaussian(mean=[1., -1.], cov=COV)
        ref = mvn(x, (1., -1.))
    else:
        like = bl.AnalyticalMultidimensionalBimodalCovariantGaussian(mean_1=[1., -1.], mean_2=[0., 2.], cov=COV)
        one, two = like.pdf_1.logpdf(e.array(x)), like.pdf_2.logpdf(e.array(x))
        e.check_eq("modes", [one, two], [mvn(x, (1., -1.)), mvn(x, (0., 2.))])
        ref = np.log((np.exp(one) + np.exp(two)) / 2)
    e.check_eq("parameter names", sorted(like.parameters), ["x0", "x1"])
    like.parameters.update(x0=x[0], x1=x[1])
    e.check_eq("log likelihood", like.log_likelihood(), ref)
    e.check_eq("dimension", like.dim, 2)


class Toy(bl.Likelihood):
    def __init__(self, keys, noise):
        super().__init__({k: None for k in keys})
        self.keys = keys
        self.noise = noise

    def log_likelihood(self):
        return sum((i + 1) * self.parameters[k] ** 2 for i, k in enumerate(self.keys))

    def noise_log_likelihood(self):
        return self.noise


@harness("C13", "joint")
def joint(e):
    n = e.reals("noise", 3, -5, 5)
    keys = [["a"], ["a", "b"], ["b", "c"]]
    parts = [Toy(k, v) for k, v in zip(keys, n)]
    k = e.choice("count", [1, 2, 3])
    like = bl.JointLikelihood(*parts[:k])
    want = sorted({q for p in keys[:k] for q in p})
    e.check_eq("all parameters are exposed", sorted(like.parameters), want)
    for step in (0, 1):
        v = {q: e.real("%s%d" % (q, step), -3, 3) for q in want}
        like.parameters.update(v)
        ref = sum((i + 1) * v[q] ** 2 for p in keys[:k] for i, q in enumerate(p))
        e.check_eq("sum of the parts (%d)" % step, like.log_likelihood(), ref)
        e.check_eq("noise adds up (%d)" % step, like.noise_log_likelihood(), sum(n[:k]))
        e.check_eq("ratio (%d)" % step, like.log_likelihood_ratio(), ref - sum(n[:k]))
    e.check("the given likelihoods are untouched", all(p.parameters[q] is None for p in parts for q in p.parameters))
    e.check("only likelihoods are accepted", e.raises(lambda: bl.JointLikelihood(parts[0], 3), ValueError) is not None)


@harness("C13", "zero")
def zero(e):
    t = Toy(["a"], e.real("noise", -5, 5))
    t.parameters["a"] = e.real("a", -3, 3)
    z = bl.ZeroLikelihood(t)
    e.check_eq("zero", [z.log_likelihood(), z.noise_log_likelihood(), z.log_likelihood_ratio()], [0, 0, 0])
    e.check("same parameters, other attributes are the parent's", z.parameters is t.parameters and z.keys is t.keys)
    m = bl.Likelihood(dict(a=1))
    e.check("meta data must be a dictionary", e.raises(lambda: setattr(m, "meta_data", 3), ValueError) is not None)
