"""C04: evaluating a prior on an array equals evaluating it elementwise, and does not change its argument."""
import numpy as np

from symx.api import harness
import priors_common as pc

BOUNDS = ["arrays of length 2 (and 1 for the thorough tier) with independent symbolic entries",
          "power-law exponents: " + ", ".join("%g" % a for a in pc.ALPHAS)]


def extra(name):
    def mk(e):
        if name == "categorical":
            return pc.bp.Categorical(ncategories=3), 0, 2
        if name == "delta":
            return pc.bp.DeltaFunction(peak=e.real("peak", -3, 3)), None, None
    return mk


EX = [("categorical", extra("categorical")), ("delta", extra("delta"))]


@harness("C04", "values", params=pc.params() + EX)
def values(e, mk):
    p, lo, hi = mk(e)
    x, y = e.real("x", -10, 10), e.real("y", -10, 10)
    for f in ("prob", "ln_prob", "cdf"):
        if f == "cdf" and mk in (pc.fermi, EX[0][1]):
            continue
        arr = e.array([x, y])
        r = getattr(p, f)(arr)
        e.check_eq(f + " keeps the shape", np.shape(r), (2,))
        e.check_eq(f + "(array) is elementwise", r, [pc.scalar(getattr(p, f)(x)), pc.scalar(getattr(p, f)(y))], rtol=1e-6)
        e.check_eq(f + " leaves its argument unchanged", arr, [x, y])


@harness("C04", "rescale", params=pc.params() + EX)
def rescale(e, mk):
    p, lo, hi = mk(e)
    x, y = e.real("u", 0, 1, slo=True, shi=True), e.real("w", 0, 1, slo=True, shi=True)
    arr = e.array([x, y])
    r = p.rescale(arr)
    e.check_eq("rescale keeps the shape", np.shape(r), (2,))
    e.check_eq("rescale(array) is elementwise", r, [pc.scalar(p.rescale(x)), pc.scalar(p.rescale(y))], rtol=1e-6)
    e.check_eq("rescale leaves its argument unchanged", arr, [x, y])
