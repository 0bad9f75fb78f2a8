"""C08: priors survive being written out: repr, prior files and JSON give back an equal prior."""
import json
import os
import shutil
import tempfile

import numpy as np

import bilby
from symx.api import harness
from bilby.core import prior as bp
from bilby.core.utils import BilbyJsonEncoder, decode_bilby_json
from bilby.gw import prior as gwp
import priors_common as pc

BOUNDS = ["every analytical prior, the conditional, joint, slab-and-spike and interpolated priors, DirichletPriorDict; "
          "symbolic hyper-parameters; names, labels, units, boundaries from finite lists"]
OUTSIDE = ["labels containing backslashes passed directly through repr (they are covered through the files)", "labels containing blanks, commas, parentheses or equal signs in prior files (the line format has no quoting)",
           "the decimal formatting of floating point numbers (Python's repr is exact)"]
ASSUMPTIONS = ["a number printed by repr() or json is read back unchanged"]


def scratch(e):
    d = tempfile.mkdtemp(prefix="symx_c08_")
    e.on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def delta(e):
    return bp.DeltaFunction(e.real("peak", -5, 5)), None, None


def constraint(e):
    a, b = pc.interval(e)
    return bp.Constraint(minimum=a, maximum=b), None, None


def categorical(e):
    return bp.Categorical(ncategories=e.choice("n", [2, 5])), None, None


def chirp(e):
    a, b = pc.pos_interval(e)
    return gwp.UniformInComponentsChirpMass(minimum=a, maximum=b), a, b


def massratio(e):
    a, b = e.real("a", 0.1, 0.5), e.real("b", 0.6, 1)
    return gwp.UniformInComponentsMassRatio(minimum=a, maximum=b), a, b


MORE = [("delta", delta), ("constraint", constraint), ("categorical", categorical), ("chirpmass", chirp)]
ALL = pc.params() + MORE


def decorate(e, p, how):
    """attach a name, a label, a unit and a boundary"""
    k = e.choice("decoration", [0, 1, 2])
    back = "$M_{\\odot}$" if how != "repr" else "$M_o$"
    p.name, p.latex_label, p.unit = [(None, None, None), ("mass_1", None, back), (None, back, "s")][k]
    if "boundary" in p.get_instantiation_dict():
        p.boundary = [None, "periodic", "reflective"][k]
    return k


def same(e, how, p, q, x):
    e.check(how + ": same class", type(p) is type(q) or type(p).__name__ == type(q).__name__)
    a, b = p.get_instantiation_dict(), q.get_instantiation_dict()
    e.check_eq(how + ": same arguments", sorted(a), sorted(b))
    for k in sorted(a):
        if isinstance(a[k], (str, type(None), dict, list)) or callable(a[k]):
            e.check(how + ": %s preserved" % k, a[k] == b.get(k))
        elif isinstance(a[k], bp.Prior):
            same(e, how + "." + k, a[k], b[k], x)
        else:
            e.check_eq(how + ": %s preserved" % k, a[k], b[k])
    e.check_eq(how + ": limits", [p.minimum, p.maximum], [q.minimum, q.maximum])
    e.check_eq(how + ": same density", pc.scalar(q.prob(x)), pc.scalar(p.prob(x)))
    e.check(how + ": equal", p == q)


CH = [k for k, _ in ALL if not k.startswith("powerlaw")] + ["powerlaw_2", "powerlaw_-1"]
LIST = [(k, m) for k, m in ALL if k in CH]


@harness("C08", "repr", params=LIST)
def via_repr(e, mk):
    p, _, _ = mk(e)
    decorate(e, p, "repr")
    x = e.real("x", -10, 10)
    text = repr(p)
    q = bp.PriorDict(dict(a=text))["a"]
    same(e, "repr", p, q, x)
    e.check("repr is stable", repr(q) == text)


@harness("C08", "json", params=LIST)
def via_json(e, mk):
    p, _, _ = mk(e)
    decorate(e, p, "json")
    x = e.real("x", -10, 10)
    q = json.loads(p.to_json(), object_hook=decode_bilby_json)
    same(e, "json", p, q, x)


def two(e):
    a, b = pc.interval(e)
    return dict(u=bp.Uniform(a, b, name="u", boundary=e.choice("boundary", [None, "periodic"])),
                g=bp.Gaussian(mu=e.real("mu", -3, 3), sigma=e.pos("sigma"), latex_label="$g$", unit="$M_{\\odot}$"),
                f=bp.DeltaFunction(e.real("peak", -3, 3)), c=bp.Constraint(minimum=a, maximum=b))


@harness("C08", "prior-dict", params=[("file", "file"), ("json", "json")])
def prior_dict(e, how):
    d = bp.PriorDict(two(e))
    out = scratch(e)
    if how == "file":
        d.to_file(out, "x")
        q = bp.PriorDict(filename=os.path.join(out, "x.prior"))
    else:
        d.to_json(out, "x")
        q = bp.PriorDict.from_json(os.path.join(out, "x_prior.json"))
    e.check_eq("keys in order", list(q.keys()), list(d.keys()))
    e.check("class", type(q) is bp.PriorDict)
    x = e.real("x", -10, 10)
    for k in "ugfc":
        same(e, how + " " + k, d[k], q[k], x)


def condition(reference_params, u):
    return dict(minimum=u, maximum=u + reference_params["maximum"])


@harness("C08", "conditional", params=[("file", "file"), ("json", "json")])
def conditional(e, how):
    w = e.pos("w", 4)
    d = bp.ConditionalPriorDict(dict(u=bp.Uniform(-1., 1.), b=bp.ConditionalUniform(
        condition_func=condition, minimum=0., maximum=w, name="b")))
    import sys
    sys.modules.setdefault("check_c08", sys.modules[__name__] if __name__ in sys.modules else None)
    mod = type(sys)("symx_conditions")
    mod.condition = condition
    condition.__module__ = "symx_conditions"
    sys.modules["symx_conditions"] = mod
    out = scratch(e)
    if how == "file":
        d.to_file(out, "x")
        q = bp.ConditionalPriorDict(filename=os.path.join(out, "x.prior"))
    else:
        d.to_json(out, "x")
        q = bp.ConditionalPriorDict.from_json(os.path.join(out, "x_prior.json"))
    e.check("class", type(q) is bp.ConditionalPriorDict)
    e.check_eq("sorted keys", q.sorted_keys, ["u", "b"])
    v = e.reals("v", 2, 0, 1)
    e.check_eq("rescale", q.rescale(["u", "b"], v), d.rescale(["u", "b"], v))
    e.check_eq("reference parameters", [q["b"].reference_params[k] for k in ("minimum", "maximum")], [0., w])


@harness("C08", "joint", params=[("file", "file"), ("json", "json")])
def joint(e, how):
    mu = e.reals("mu", 2, -2, 2)
    bounded = e.choice("bounds", [True, False])
    dist = bp.MultivariateGaussianDist(["a", "b"], mus=[mu], sigmas=[[1., 2.]], corrcoefs=[[[1., .5], [.5, 1.]]],
                                       bounds=[(-4., 4.), (-6., 6.)] if bounded else None)
    d = bp.PriorDict(dict(a=bp.MultivariateGaussian(dist, "a"), b=bp.MultivariateGaussian(dist, "b", latex_label="$b$"),
                          c=bp.Uniform(0., 1.)))
    out = scratch(e)
    if how == "file":
        d.to_file(out, "x")
        q = bp.PriorDict(filename=os.path.join(out, "x.prior"))
    else:
        d.to_json(out, "x")
        q = bp.PriorDict.from_json(os.path.join(out, "x_prior.json"))
    e.check_eq("keys", list(q.keys()), ["a", "b", "c"])
    e.check("one shared distribution", q["a"].dist is q["b"].dist)
    e.check_eq("means", list(q["a"].dist.mus[0]), mu)
    e.check_eq("bounds", [list(q["a"].dist.bounds[k]) for k in "ab"], [list(dist.bounds[k]) for k in "ab"])
    x = e.reals("x", 2, -3, 3)
    e.check_eq("density", q["a"].dist.ln_prob(e.array(x)), dist.ln_prob(e.array(x)))
    e.check("label", q["b"].latex_label == "$b$" and q["a"].name == "a")


@harness("C08", "slab-spike", params=[("file", "file"), ("json", "json")])
def slab(e, how):
    a, b = pc.interval(e)
    h = e.real("h", 0, 1, shi=True)
    d = bp.PriorDict(dict(a=bp.SlabSpikePrior(slab=bp.Uniform(minimum=a, maximum=b), spike_location=e.choice("at", [None, 1]) and b,
                                              spike_height=h)))
    out = scratch(e)
    if how == "file":
        d.to_file(out, "x")
        q = bp.PriorDict(filename=os.path.join(out, "x.prior"))
    else:
        d.to_json(out, "x")
        q = bp.PriorDict.from_json(os.path.join(out, "x_prior.json"))
    x = e.real("x", -10, 10)
    same(e, how, d["a"], q["a"], x)


@harness("C08", "interped")
def interped(e):
    yy = [e.real("y%d" % i, 0.25, 4) for i in range(3)]
    b = e.choice("boundary", [None, "reflective"])
    p = bp.Interped(xx=e.array([0., 1., 2.]) if e.symbolic else np.array([0., 1., 2.]), yy=e.array(yy), name="z", boundary=b)
    q = json.loads(p.to_json(), object_hook=decode_bilby_json)
    x = e.real("x", -1, 3)
    e.check_eq("density", pc.scalar(q.prob(x)), pc.scalar(p.prob(x)))
    e.check("attributes", q.name == "z" and q.boundary == b)
    e.check_eq("range", [q.minimum, q.maximum], [0., 2.])


@harness("C08", "dirichlet")
def dirichlet(e):
    n = e.choice("n", [2, 3])
    d = bp.DirichletPriorDict(n_dim=n, label="w")
    out = scratch(e)
    d.to_json(out, "x")
    q = bp.PriorDict.from_json(os.path.join(out, "x_prior.json"))
    e.check("class", type(q) is bp.DirichletPriorDict)
    e.check_eq("keys", list(q.keys()), list(d.keys()))
    u = e.reals("u", n - 1, 0, 1)
    e.check_eq("rescale", q.rescale(list(q.keys()), u), d.rescale(list(d.keys()), u))


@harness("C08", "dict-class", params=[(c, c) for c in ("PriorDict", "ConditionalPriorDict", "CBCPriorDict", "BBHPriorDict",
                                                      "BNSPriorDict", "CalibrationPriorDict")])
def classes(e, name):
    """the class of the dictionary is restored"""
    cls = getattr(bilby.gw.prior, name, None) or getattr(bp, name)
    a, b = pc.pos_interval(e)
    d = cls(dict(mass_1=bp.Uniform(a, b)))
    out = scratch(e)
    d.to_json(out, "x")
    q = bp.PriorDict.from_json(os.path.join(out, "x_prior.json"))
    e.check("class", type(q) is cls)
    e.check_eq("keys", list(q.keys()), ["mass_1"])
    e.check_eq("limits", [q["mass_1"].minimum, q["mass_1"].maximum], [a, b])


@harness("C08", "copy", params=LIST)
def copies(e, mk):
    """a copied dictionary holds equal priors and is independent of the original"""
    p, _, _ = mk(e)
    d = bp.PriorDict(dict(a=p))
    c = d.copy()
    c["b"] = bp.Uniform(0., 1.)
    e.check_eq("original unchanged", list(d.keys()), ["a"])
    e.check("equal", c["a"] == p)


def total(sample):
    out = dict(sample)
    if "a" in out and "b" in out:
        out["c"] = out["a"] + out["b"]
    return out


@harness("C08", "copy-conversion", params=[(c, c) for c in ("PriorDict", "ConditionalPriorDict", "CBCPriorDict")])
def copy_conversion(e, name):
    """a copied dictionary applies the same constraints"""
    cls = getattr(bilby.gw.prior, name, None) or getattr(bp, name)
    lo = e.real("lo", 0, 1.9)
    d = cls(dict(a=bp.Uniform(0., 1.), b=bp.Uniform(0., 1.), c=bp.Constraint(lo, 2.)), conversion_function=total)
    x, y = e.real("x", 0.01, 0.99), e.real("y", 0.01, 0.99)
    c = d.copy()
    e.check("class", type(c) is cls)
    e.check("constraint", bool(c.evaluate_constraints(dict(a=x, b=y))) == bool((x + y > lo)))
    e.check_eq("converted", c.conversion_function(dict(a=x, b=y))["c"], x + y)
    c2 = cls(dict(a=bp.Uniform(0., 1.))).copy()
    e.check("default conversion", c2.conversion_function == c2.default_conversion_function)
