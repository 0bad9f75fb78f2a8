"""C07: sampling from priors: draws are rescaled uniforms, constraints are respected, sizes are as requested."""
import numpy as np

from symx.api import harness
from bilby.core import prior as bp
from common import use_rng
import priors_common as pc

BOUNDS = ["sizes None, 1, 2, 3 and (1, 2); at most three batches of candidate draws", "constraint bounds are symbolic"]
OUTSIDE = ["the quality of the pseudo-random generator"]


def conv(sample):
    out = dict(sample)
    out["s"] = out["a"] + out["b"]
    return out


def make(e, cls):
    w = e.pos("w", 4)
    d = dict(a=bp.Uniform(0., 1.), b=bp.Uniform(0., w), s=bp.Constraint(minimum=e.real("smin", 0, 1), maximum=e.real("smax", 1, 4, slo=True)))
    order = e.choice("order", [("a", "b", "s"), ("s", "a", "b"), ("b", "s", "a")])
    if cls == "plain":
        p = bp.PriorDict({k: d[k] for k in order}, conversion_function=conv)
    else:
        d["b"] = bp.ConditionalUniform(condition_func=cond, minimum=0, maximum=w)
        p = bp.ConditionalPriorDict({k: d[k] for k in order}, conversion_function=conv)
    return p, w


def cond(reference_params, a):
    return dict(minimum=a, maximum=a + reference_params["maximum"])


def batches(e, rng, limit):
    inner, n = rng.uniform, [0]

    def limited(*a, **k):
        n[0] += 1
        if n[0] > limit:
            e.skip()
        return inner(*a, **k)
    rng.uniform = limited


@harness("C07", "constrained", params=[("plain-%s" % s, ("plain", s)) for s in (None, 1, 2)] +
         [("conditional-%s" % s, ("conditional", s)) for s in (None, 1, 2)] + [("plain-tuple", ("plain", (1, 2)))], max_paths=3000)
def constrained(e, cs):
    cls, size = cs
    rng = use_rng(e)
    p, w = make(e, cls)
    batches(e, rng, 4)
    keys = list(p.keys())
    s = p.sample_subset_constrained(keys=keys, size=size)
    n = 1 if size is None else int(np.prod(size))
    e.check_eq("parameters", sorted(s), ["a", "b"])
    shape = () if size is None else (size if isinstance(size, tuple) else (size,))
    e.check_eq("shape", [np.shape(s["a"]), np.shape(s["b"])], [shape, shape])
    a, b = [np.reshape(np.atleast_1d(s[k]), -1) for k in "ab"]
    got = []
    for i in range(n):
        t = a[i] + b[i]
        e.check("constraint satisfied", (t > p["s"].minimum) & (t < p["s"].maximum))
        e.check("inside the prior", (a[i] >= 0) & (a[i] <= 1) & (b[i] >= 0))
        got.append((a[i], b[i]))
    # candidate draws: per batch n values for each parameter, in the order of the keys
    seq = [k for k in p.keys() if k in "ab"] if cls == "plain" else ["a", "b"]
    cands = []
    for j in range(len(rng.log) // (2 * n)):
        chunk = rng.log[2 * n * j: 2 * n * (j + 1)]
        u = {seq[0]: chunk[:n], seq[1]: chunk[n:]}
        for i in range(n):
            x = u["a"][i]
            y = w * u["b"][i] + (x if cls == "conditional" else 0)
            cands.append((x, y))
    ref = []
    for x, y in cands:
        t = x + y
        if bool((t > p["s"].minimum) & (t < p["s"].maximum)):
            ref.append((x, y))
    for i in range(n):
        e.check_eq("the samples are the accepted draws, in order", list(got[i]), list(ref[i]))


@harness("C07", "as-array")
def as_array(e):
    rng = use_rng(e)
    p = bp.PriorDict(dict(a=bp.Uniform(0., e.pos("w")), b=bp.Gaussian(0, e.pos("s"))))
    keys = e.choice("keys", [["a", "b"], ["b", "a"]])
    r = p.sample_subset_constrained_as_array(keys=keys, size=2)
    e.check_eq("shape", np.shape(r), (2, 2))
    for u in rng.log:
        e.assume((u > 0) & (u < 1))
    for i, k in enumerate(keys):
        e.check_eq("row of " + k, r[i], [p[k].rescale(rng.log[2 * i]), p[k].rescale(rng.log[2 * i + 1])])


@harness("C07", "single", params=pc.params(skip=("fermi", "studentt", "beta", "beta_range", "gamma", "chisq")))
def single(e, mk):
    """one draw from any analytical prior is the rescaled uniform, and lies in the support"""
    p, lo, hi = mk(e)
    rng = use_rng(e)
    size = e.choice("size", [None, 2])
    s = np.atleast_1d(p.sample(size=size))
    e.check_eq("number of draws", len(s), 1 if size is None else 2)
    for i in range(len(s)):
        u = rng.log[i]
        e.assume((u > 0) & (u < 1))
        e.check_eq("rescaled draw", s[i], pc.scalar(p.rescale(u)))
        if lo is not None:
            e.check_le("above the minimum", lo, s[i])
        if hi is not None:
            e.check_le("below the maximum", s[i], hi)
    e.check_eq("the last sample is remembered", np.atleast_1d(p.least_recently_sampled), s)


@harness("C07", "categorical")
def categorical(e):
    n = e.choice("n", [1, 2, 3])
    p = bp.Categorical(ncategories=n)
    u = e.real("u", 0, 1)
    x = pc.scalar(p.rescale(u))
    e.check("a category", (x >= 0) & (x <= n - 1))
    for k in range(n):
        if bool((u * n > k) & (u * n < k + 1)):
            e.check_eq("equal probabilities", x, k)
    e.check_eq("prob", [pc.scalar(p.prob(k)) for k in range(n)], [1. / n] * n)
    e.check_eq("prob elsewhere", [pc.scalar(p.prob(.5)), pc.scalar(p.prob(n)), pc.scalar(p.prob(-1))], [0.] * 3)
    e.check_eq("ln_prob elsewhere", [pc.scalar(p.ln_prob(.5)), pc.scalar(p.ln_prob(n))], [-np.inf] * 2)
