"""C12: interpolated and Dirichlet priors are normalised and self-consistent."""
import math

import numpy as np

from symx.api import harness
from bilby.core import prior as bp
import priors_common as pc

BOUNDS = ["interpolated priors on three or four equally spaced nodes with symbolic density values",
          "Dirichlet priors with 2 to 4 elements"]
OUTSIDE = ["between nodes the tabulated cdf is linear while the density is linear: cdf and density agree at the nodes only"]


def nodes(e, n):
    return list(np.linspace(0., n - 1., n)), [e.real("y%d" % i, 0.25, 4) for i in range(n)]


@harness("C12", "interped", params=[("3", 3), ("4", 4)])
def interped(e, n):
    xx, yy = nodes(e, n)
    p = bp.Interped(xx=e.array(xx) if e.symbolic else np.array(xx), yy=e.array(yy))
    tot = sum((yy[i] + yy[i + 1]) / 2 for i in range(n - 1))
    e.check_eq("density at the nodes is the normalised table", [pc.scalar(p.prob(x)) for x in xx], [y / tot for y in yy])
    acc = 0.
    for i in range(n):
        e.check_eq("cdf at node %d is the integral of the density" % i, pc.scalar(p.cdf(xx[i])), acc / tot)
        if i < n - 1:
            acc = acc + (yy[i] + yy[i + 1]) / 2
    x = e.real("x", -2, n + 1)
    if bool((x < 0) | (x > n - 1)):
        e.check_eq("zero outside", pc.scalar(p.prob(x)), 0.)
        e.check_eq("cdf outside", pc.scalar(p.cdf(x)), 0. if bool(x < 0) else 1.)
    else:
        e.check("positive inside", pc.scalar(p.prob(x)) > 0)
        e.check_eq("rescale(cdf(x)) = x", pc.scalar(p.rescale(p.cdf(x))), x)
    u = e.real("u", 0, 1)
    r = pc.scalar(p.rescale(u))
    e.check_eq("cdf(rescale(u)) = u", pc.scalar(p.cdf(r)), u)
    e.check_le("in the support", [0., r], [r, n - 1.])


@harness("C12", "interped-range")
def interped_range(e):
    """narrowing the range gives the restriction of the table, normalised again; history: minimum, maximum, then new values"""
    xx, yy = nodes(e, 3)
    p = bp.Interped(xx=e.array(xx) if e.symbolic else np.array(xx), yy=e.array(yy))
    step = e.choice("how", ["constructor", "setters", "maximum-first"])
    lo, hi = e.choice("range", [(0., 1.), (.5, 1.5), (1., 2.), (0., 2.)])

    def table(x):
        i = 0 if x <= 1 else 1
        return yy[i] + (yy[i + 1] - yy[i]) * (x - i)
    if step == "constructor":
        p = bp.Interped(xx=e.array(xx) if e.symbolic else np.array(xx), yy=e.array(yy), minimum=lo, maximum=hi)
    elif step == "setters":
        p.minimum = lo
        p.maximum = hi
    else:
        p.maximum = hi
        p.minimum = lo
    e.check_eq("range", [p.minimum, p.maximum], [lo, hi])
    mid = (lo + hi) / 2
    vals = [table(lo), table(mid), table(hi)]
    tot = (vals[0] / 2 + vals[1] + vals[2] / 2) * (hi - lo) / 2
    e.check_eq("density is the normalised restriction", [pc.scalar(p.prob(x)) for x in (lo, mid, hi)], [v / tot for v in vals])
    e.check_eq("cdf ends", [pc.scalar(p.cdf(lo)), pc.scalar(p.cdf(hi))], [0., 1.])
    e.check_eq("no density outside", [pc.scalar(p.prob(lo - .25)), pc.scalar(p.prob(hi + .25))], [0., 0.])
    e.check_eq("rescale ends", [pc.scalar(p.rescale(0.)), pc.scalar(p.rescale(1.))], [lo, hi])


@harness("C12", "interped-new-table")
def new_table(e):
    xx, yy = nodes(e, 3)
    p = bp.Interped(xx=e.array(xx) if e.symbolic else np.array(xx), yy=e.array(yy))
    zz = [e.real("z%d" % i, 0.25, 4) for i in range(3)]
    p.yy = e.array(zz)
    q = bp.Interped(xx=e.array(xx) if e.symbolic else np.array(xx), yy=e.array(zz))
    x = e.real("x", 0, 2)
    u = e.real("u", 0, 1)
    e.check_eq("replacing the table equals starting from it", [pc.scalar(f(v)) for f, v in ((p.prob, x), (p.cdf, x), (p.rescale, u))],
               [pc.scalar(f(v)) for f, v in ((q.prob, x), (q.cdf, x), (q.rescale, u))])


class Ones(dict):
    def __getitem__(self, k):
        return 1

    def keys(self):
        return self

    def __contains__(self, k):
        return True


@harness("C12", "dirichlet", params=[("2", 2), ("3", 3), ("4", 4)])
def dirichlet(e, n):
    """uniform density (n-1)! on the simplex; rescale stays on the simplex"""
    p = bp.DirichletPriorDict(n_dim=n, label="d")
    p._cached_normalizations = Ones()
    keys = ["d%d" % i for i in range(n - 1)]
    e.check_eq("elements", sorted(p.keys()), keys)
    x = [e.real("x%d" % i, 0, 1, slo=True) for i in range(n - 1)]
    s = x[0]
    for v in x[1:]:
        s = s + v
    e.assume(s < 1)
    for i in range(n - 1):
        e.check_le("partial sums", sum(x[:i + 1]), 1.)
    e.check_eq("uniform on the simplex", p.prob(dict(zip(keys, x))), float(math.factorial(n - 1)), rtol=1e-6)
    u = [e.real("u%d" % i, 0, 1, slo=True, shi=True) for i in range(n - 1)]
    r = p.rescale(keys, u)
    tot = 0.
    for v in r:
        e.check_le("positive", 0., v)
        tot = tot + v
    e.check_le("sum at most one", tot, 1.)
    c = p.cdf(dict(zip(keys, r)))
    e.check_eq("cdf undoes rescale", [c[k] for k in keys], u, rtol=1e-6)
