"""C01: rescale is the inverse of the cdf and stays inside the support."""
from symx.api import harness
import priors_common as pc

BOUNDS = ["every hyper-parameter and unit-cube coordinate is a symbolic real inside the range given by the harness "
          "(checks/priors_common.py)", "power-law exponents: " + ", ".join("%g" % a for a in pc.ALPHAS),
          "ChiSquared nu in {1,2,3,4,7}"]


@harness("C01", "inverse", params=pc.params(skip=("fermi",)))
def inverse(e, mk):
    p, lo, hi = mk(e)
    v = e.real("v", 0, 1, slo=True, shi=True)
    x = p.rescale(v)
    e.check_eq("cdf(rescale(v)) == v", pc.scalar(p.cdf(x)), v, rtol=1e-6)
    if lo is not None:
        e.check_le("rescale(v) >= minimum", lo, x)
    if hi is not None:
        e.check_le("rescale(v) <= maximum", x, hi)


@harness("C01", "endpoints", params=pc.params(["uniform", "loguniform", "cosine", "sine", "cosine_range", "sine_range",
                                               "triangular", "symlog", "truncgauss", "exponential",
                                               "powerlaw_2", "powerlaw_-1", "powerlaw_-2", "powerlaw_0.5"]))
def endpoints(e, mk):
    p, lo, hi = mk(e)
    e.check_eq("rescale(0) is the lower end of the support", pc.scalar(p.rescale(0.)), lo)
    if hi is not None:
        e.check_eq("rescale(1) is the upper end of the support", pc.scalar(p.rescale(1.)), hi)
