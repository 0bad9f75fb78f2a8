"""C20: a grid holds likelihood and prior at its points; its marginals and evidence are trapezium integrals."""
import numpy as np

from bilby.core.grid import Grid
from bilby.core.prior import DeltaFunction, PowerLaw, PriorDict, Uniform
from bilby.core.utils import logtrapzexp
from symx.api import harness
from priors_common import scalar

BOUNDS = ["one to three parameters with one to four points each, arbitrary spacings for one parameter and fixed unequal ones for more",
          "arbitrary positive likelihoods"]
OUTSIDE = ["grids of dependent priors", "reading and writing grids", "floating-point rounding"]


class Like:
    """a likelihood known at the points of a grid"""

    def __init__(self, points, w):
        self.points, self.w, self.parameters, self.calls = points, w, {}, 0

    def log_likelihood(self):
        self.calls += 1
        i = tuple([j for j, p in enumerate(v) if bool(self.parameters[k] == p)][0] for k, v in self.points.items())
        return np.log(self.w[i])

    def noise_log_likelihood(self):
        return -3.


def weights(x):
    """of the trapezium rule"""
    n = len(x)
    if n == 1:
        return [1.]
    return [((x[i + 1] - x[i] if i < n - 1 else 0) + (x[i] - x[i - 1] if i else 0)) / 2 for i in range(n)]


def make(e, sizes):
    grids = dict(a=[0., 1., 1.5, 3.], b=[1., 1.25, 2.], c=[0.5, 2.5])
    pts = {k: np.array(grids[k][:n]) for k, n in zip("abc", sizes) if n}
    pri = PriorDict({k: p for k, p in dict(a=Uniform(0, 4), b=PowerLaw(1, 1, 3), c=Uniform(0, 4)).items() if k in pts})
    shape = tuple(len(v) for v in pts.values())
    w = {i: e.pos("w" + "".join(map(str, i)), 4, lo=0.25) for i in np.ndindex(*shape)}
    return pts, pri, w, shape


def density(k, x):
    return x / 4. if k == "b" else 0.25


@harness("C20", "grid", params=[("one", (4, 0, 0)), ("single", (1, 0, 0)), ("two", (3, 2, 0)), ("narrow", (2, 1, 0)), ("three", (2, 2, 2)), ("middle", (2, 1, 2))])
def grid(e, sizes):
    """values, marginals over any subset and the evidence"""
    pts, pri, w, shape = make(e, sizes)
    like = Like(pts, w)
    g = Grid(like, pri, grid_size=dict(pts) if e.choice("given", ["dict", "list"]) == "dict" else list(pts.values()))
    names = list(pts)
    e.check("shape", np.shape(g.ln_likelihood) == shape and np.shape(g.ln_prior) == shape)
    e.check("one evaluation per point", like.calls == len(w))
    post = {}
    for i in w:
        prior = 1.
        for k, j in zip(names, i):
            prior = prior * density(k, pts[k][j])
        post[i] = w[i] * prior
        e.check_eq("likelihood", np.exp(scalar(g.ln_likelihood[i])), w[i], rtol=1e-9)
        e.check_eq("prior", np.exp(scalar(g.ln_prior[i])), prior, rtol=1e-9)
        e.check_eq("posterior", np.exp(scalar(g.ln_posterior[i])), post[i], rtol=1e-9)

    def integral(f, keep):
        out = {}
        for i, v in f.items():
            for k, j in zip(names, i):
                if k not in keep:
                    v = v * weights(pts[k])[j]
            o = tuple(j for k, j in zip(names, i) if k in keep)
            out[o] = out.get(o, 0) + v
        return out
    e.check_eq("evidence", np.exp(scalar(g.ln_evidence)), integral(post, [])[()], rtol=1e-8)
    e.check("same evidence", bool(scalar(g.log_evidence) == scalar(g.ln_evidence)) and g.log_noise_evidence == -3.)
    for n in range(2 ** len(names)):
        keep = [k for q, k in enumerate(names) if n >> q & 1]
        gone = [k for k in names if k not in keep]
        if not keep:
            continue
        want = integral(w, keep)
        wantp = integral(post, keep)
        for got, ww, how in ((g.marginalize_ln_likelihood(parameters=list(gone)), want, "parameters"),
                             (g.marginalize_ln_likelihood(not_parameters=list(keep)), want, "not_parameters"),
                             (g.marginalize_ln_posterior(parameters=gone[::-1]), wantp, "posterior")):
            got = np.array(got, dtype=object) if np.ndim(got) == 0 else got
            e.check("%s: shape without %s" % (how, gone), np.shape(got) == tuple(len(pts[k]) for k in keep))
            for o in ww:
                e.check_eq("%s: integral over %s" % (how, gone), np.exp(scalar(got[o])), ww[o], rtol=1e-8)
        if len(keep) == 1:
            e.check_eq("one name", [scalar(v) for v in g.marginalize_ln_likelihood(not_parameters=keep[0])],
                       [scalar(v) for v in g.marginalize_ln_likelihood(not_parameters=keep)], rtol=1e-9)
    e.check("grid unchanged", np.shape(g.ln_likelihood) == shape and g.parameter_names == names)


@harness("C20", "normalised", params=[("likelihood", "likelihood"), ("posterior", "posterior")])
def normalised(e, what):
    """marginal distributions are relative to their maximum"""
    pts, pri, w, shape = make(e, (3, 2, 0))
    pri["b"] = Uniform(1, 5)
    g = Grid(Like(pts, w), pri, grid_size=dict(pts))
    keep = e.choice("keep", ["a", "b"])
    got = [scalar(v) for v in (g.marginalize_likelihood if what == "likelihood" else g.marginalize_posterior)(not_parameters=keep)]
    out = [0] * len(pts[keep])
    for (i, j), v in w.items():
        f = v * (1 / 16 if what == "posterior" else 1.)
        t = i if keep == "a" else j
        out[t] = out[t] + f * (weights(pts["b"])[j] if keep == "a" else weights(pts["a"])[i])
    top = out[0]
    for v in out[1:]:
        top = v if bool(v > top) else top
    for v, o in zip(got, out):
        e.check_eq("relative density", v * top, o, rtol=1e-8)


@harness("C20", "points", params=[("number", "number"), ("list", "list"), ("dict", "dict")])
def points(e, how):
    """a number of points means as many equal steps in probability"""
    hi = e.choice("hi", [1., 2.5, 4.])
    pri = PriorDict(dict(a=Uniform(0, hi), b=Uniform(1, 2)))
    n = dict(number=3, list=[3, 2], dict=dict(b=2, a=3))[how]
    g = Grid(None, pri, grid_size=n)
    e.check_eq("a", [scalar(v) for v in g.sample_points["a"]], [0., hi / 2, hi], rtol=1e-9)
    e.check_eq("b", list(g.sample_points["b"]), [1., 1.5, 2.] if how == "number" else [1., 2.])
    e.check("mesh", np.shape(g.mesh_grid[0]) == (3, 3 if how == "number" else 2))
    e.check_eq("mesh values", [scalar(g.mesh_grid[0][i, 0]) for i in range(3)], [0., hi / 2, hi], rtol=1e-9)
    e.check_eq("prior", [np.exp(scalar(v)) * hi for v in np.ravel(g.ln_prior)], [1.] * np.size(g.ln_prior), rtol=1e-8)
    e.check("bad size", e.raises(lambda: Grid(None, pri, grid_size="3"), TypeError) is not None)
    e.check("bad name", e.raises(lambda: g.marginalize(g.ln_prior, parameters="z"), ValueError) is not None)
    e.check("bad type", e.raises(lambda: g.marginalize(g.ln_prior, parameters=3), TypeError) is not None)


@harness("C20", "repeated", params=[("delta", "delta"), ("equal", "equal")])
def repeated(e, kind):
    """grids with equal points hold the likelihood at each"""
    w = e.pos("w", 4, lo=0.25), e.pos("v", 4, lo=0.25)

    class L(Like):
        def log_likelihood(self):
            return np.log(w[0] if self.parameters["a"] == 1. else w[1])
    if kind == "delta":
        pri, n, pts = PriorDict(dict(a=DeltaFunction(1.), b=Uniform(0, 2))), 3, [1., 1., 1.]
    else:
        pri, n, pts = PriorDict(dict(a=Uniform(0, 2), b=Uniform(0, 2))), dict(a=np.array([1., 1., 2.]), b=np.array([1., 2.])), [1., 1., 2.]
    g = Grid(L({}, w), pri, grid_size=n)
    for i, p in enumerate(pts):
        for j in range(np.shape(g.ln_likelihood)[1]):
            e.check_eq("likelihood", np.exp(scalar(g.ln_likelihood[i, j])), w[0] if p == 1. else w[1], rtol=1e-9)


@harness("C20", "trapezium", params=[("steps", "steps"), ("step", "step")])
def trapezium(e, how):
    """the logarithm of the trapezium rule for positive functions"""
    n = e.choice("n", [2, 3, 4])
    f = [e.pos("f%d" % i, 4, lo=0.25) for i in range(n)]
    dx = [e.pos("d%d" % i, 2, lo=0.125) for i in range(n - 1)]
    lf = e.array([np.log(v) for v in f])
    if how == "steps":
        got, want = logtrapzexp(lf, e.array(dx)), sum(dx[i] * (f[i] + f[i + 1]) / 2 for i in range(n - 1))
        e.check("wrong number of steps", e.raises(lambda: logtrapzexp(lf, e.array(dx + [1.])), ValueError) is not None)
    else:
        d = e.choice("d", [0.5, 2, 1.])
        got, want = logtrapzexp(lf, d), d * sum((f[i] + f[i + 1]) / 2 for i in range(n - 1))
    e.check_eq("integral", np.exp(scalar(got)), want, rtol=1e-8)
    e.check_eq("argument unchanged", [np.exp(scalar(v)) for v in lf], f, rtol=1e-9)
