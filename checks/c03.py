"""C03: the density is the derivative of the cdf, and the cdf runs from 0 to 1."""
import numpy as np

from symx.api import harness
import priors_common as pc

BOUNDS = ["hyper-parameters and the evaluation point are symbolic reals in the stated ranges",
          "power-law exponents: " + ", ".join("%g" % a for a in pc.ALPHAS)]


def interior(e, p, mk, lo, hi):
    x = e.real("x", -10, 10)
    if lo is not None:
        e.assume(x > lo)
    if hi is not None:
        e.assume(x < hi)
    if mk is pc.symlog:
        e.assume((x < -p.minimum) | (x > p.minimum))
    if mk is pc.triangular:
        e.assume((x < p.mode) | (x > p.mode))
    return x


@harness("C03", "density", params=pc.params(skip=("fermi", "chisq")))
def density(e, mk):
    p, lo, hi = mk(e)
    x = interior(e, p, mk, lo, hi)
    e.check_eq("prob = d cdf / dx", pc.scalar(p.prob(x)), e.deriv(lambda y: pc.scalar(p.cdf(y)), x), rtol=3e-5, atol=1e-6)
    c = pc.scalar(p.cdf(x))
    e.check_le("cdf >= 0", 0., c)
    e.check_le("cdf <= 1", c, 1.)


@harness("C03", "chisq")
def chisq(e):
    nu = e.choice("nu", [1, 2, 3, 4, 7])
    x = e.real("x", -5, 20)
    p = pc.bp.ChiSquared(nu=nu)
    q = pc.bp.Gamma(k=nu / 2, theta=2.)
    e.check_eq("nu", p.nu, nu)
    if bool(x < 0) or bool(x > 0):
        e.check_eq("prob is that of Gamma(nu/2, 2)", p.prob(x), q.prob(x))
        e.check_eq("cdf is that of Gamma(nu/2, 2)", p.cdf(x), q.cdf(x))
        e.check_eq("ln_prob is that of Gamma(nu/2, 2)", p.ln_prob(x), q.ln_prob(x))


@harness("C03", "jacobian", params=pc.params(["fermi", "uniform", "loguniform", "exponential", "logistic", "cauchy",
                                              "gaussian", "lognormal", "powerlaw_2", "powerlaw_-2", "symlog"]))
def jacobian(e, mk):
    p, lo, hi = mk(e)
    v = e.real("v", 0.05, 0.95)
    if mk is pc.symlog:
        e.assume((v < 0.49) | (v > 0.51))
    x = p.rescale(v)
    e.check_eq("prob(rescale(v)) d rescale / dv = 1", pc.scalar(p.prob(x)) * e.deriv(lambda u: pc.scalar(p.rescale(u)), v), 1.,
               rtol=1e-4)


ENDS = [n for n in pc.TABLE if n not in ("gaussian", "studentt", "logistic", "cauchy", "fermi")]


@harness("C03", "tails", params=pc.params(ENDS))
def tails(e, mk):
    p, lo, hi = mk(e)
    x = e.real("x", -20, 20)
    e.assume(x < lo)
    e.check_eq("cdf = 0 below the support", pc.scalar(p.cdf(x)), 0.)
    e.check_eq("cdf(minimum) = 0", pc.scalar(p.cdf(lo)), 0.)
    if hi is not None:
        y = e.real("y", -20, 20)
        e.assume(y > hi)
        e.check_eq("cdf = 1 above the support", pc.scalar(p.cdf(y)), 1.)
        e.check_eq("cdf(maximum) = 1", pc.scalar(p.cdf(hi)), 1.)
