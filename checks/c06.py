"""C06: ConditionalPriorDict follows the chain rule, whatever the order of its keys and its history."""
import itertools

import numpy as np

from symx.api import harness
from bilby.core import prior as bp
from bilby.core.prior import conditional as cp
from bilby.core.prior.dict import IllegalConditionsException
from common import use_rng
import priors_common as pc

BOUNDS = ["up to four parameters with a dependency chain of depth three", "every insertion order and key order of three parameters",
          "histories of two modifications (replace, delete, re-add) with evaluations in between",
          "scalar samples and arrays of length 2"]
OUTSIDE = ["modifications through dict methods that bypass item assignment and deletion (update, pop, setdefault)"]


def cond_b(reference_params, a):
    return dict(minimum=reference_params["minimum"] + a, maximum=reference_params["maximum"] + a)


def cond_c(reference_params, a, b):
    return dict(mu=a + 2 * b, sigma=reference_params["sigma"])


def cond_c_swapped(reference_params, b, a):
    return dict(mu=a + 2 * b, sigma=reference_params["sigma"])


def cond_a(reference_params, b):
    return dict(minimum=b - 1, maximum=b + 3)


def cond_d(reference_params, f):
    return dict(minimum=f, maximum=f + reference_params["maximum"])


class Ref:
    """the chain rule, written down directly"""

    def __init__(self, e):
        self.w = e.pos("w", 4)
        self.sig = e.pos("sig")
        self.lo, self.hi = e.real("lo", -2, 0), e.real("hi", 1, 3)

    def dict(self, order="abc", cond=cond_c):
        mk = dict(a=lambda: bp.Uniform(self.lo, self.hi),
                  b=lambda: bp.ConditionalUniform(condition_func=cond_b, minimum=0, maximum=self.w),
                  c=lambda: bp.ConditionalGaussian(condition_func=cond, mu=0, sigma=self.sig))
        d = bp.ConditionalPriorDict({k: mk[k]() for k in order})
        d._cached_normalizations = Ones()
        return d

    def rescale(self, u):
        a = bp.Uniform(self.lo, self.hi).rescale(u["a"])
        b = bp.Uniform(a, a + self.w).rescale(u["b"])
        c = bp.Gaussian(a + 2 * b, self.sig).rescale(u["c"])
        return dict(a=a, b=b, c=c)

    def priors(self, x):
        return dict(a=bp.Uniform(self.lo, self.hi), b=bp.Uniform(x["a"], x["a"] + self.w),
                    c=bp.Gaussian(x["a"] + 2 * x["b"], self.sig))


class Ones(dict):
    """no constraints: the normalisation is one"""

    def __getitem__(self, k):
        return 1

    def keys(self):
        return All()


class All:
    def __contains__(self, k):
        return True


ORDERS = ["".join(p) for p in itertools.permutations("abc")]


@harness("C06", "rescale", params=[(o, o) for o in ORDERS])
def rescale(e, order):
    r = Ref(e)
    p = r.dict(order, e.choice("signature", [cond_c, cond_c_swapped]))
    keys = e.choice("keys", ORDERS)
    u = {k: e.real("u" + k, 0, 1, slo=True, shi=True) for k in "abc"}
    v = {k: e.real("v" + k, 0, 1, slo=True, shi=True) for k in "abc"}
    p.rescale(list(ORDERS[0]), [v[k] for k in ORDERS[0]])
    got = p.rescale(list(keys), [u[k] for k in keys])
    ref = r.rescale(u)
    e.check_eq("rescale follows the chain rule", got, [ref[k] for k in keys])
    again = p.rescale(list(keys), [v[k] for k in keys])
    refv = r.rescale(v)
    e.check_eq("a second call does not remember the first", again, [refv[k] for k in keys])


@harness("C06", "density", params=[(o, o) for o in ORDERS])
def density(e, order):
    r = Ref(e)
    p = r.dict(order)
    keys = e.choice("keys", ["abc", "cab", "bca"])
    y = {k: e.real("y" + k, -6, 6) for k in "abc"}
    x = {k: e.real("x" + k, -6, 6) for k in "abc"}
    p.ln_prob({k: y[k] for k in "abc"})
    s = {k: x[k] for k in keys}
    ref = r.priors(x)
    lp = [pc.scalar(ref[k].ln_prob(x[k])) for k in keys]
    pr = [pc.scalar(ref[k].prob(x[k])) for k in keys]
    inside = bool(ref["a"].prob(x["a"]) > 0) and bool(ref["b"].prob(x["b"]) > 0)
    if inside:
        e.check_eq("ln_prob is the sum of the conditional terms", p.ln_prob(s), lp[0] + lp[1] + lp[2])
        e.check_eq("prob is the product of the conditional terms", p.prob(s), pr[0] * pr[1] * pr[2])
    else:
        e.check_eq("prob is zero outside", p.prob(s), 0.)
        e.check_eq("ln_prob is -inf outside", p.ln_prob(s), -np.inf)
    c = p.cdf(s)
    e.check_eq("cdf is conditional", [c[k] for k in keys], [pc.scalar(ref[k].cdf(x[k])) for k in keys])


@harness("C06", "array")
def array(e):
    r = Ref(e)
    p = r.dict(e.choice("order", ["abc", "cba"]))
    x = [{k: e.real("x%s%d" % (k, i), -3, 3) for k in "abc"} for i in range(2)]
    for i in range(2):
        e.assume((x[i]["a"] > r.lo) & (x[i]["a"] < r.hi) & (x[i]["b"] > x[i]["a"]) & (x[i]["b"] < x[i]["a"] + r.w))
    s = {k: e.array([x[0][k], x[1][k]]) for k in "abc"}
    L, P = p.ln_prob(s, axis=0), p.prob(s, axis=0)
    for i in range(2):
        ref = r.priors(x[i])
        e.check_eq("ln_prob[%d]" % i, L[i], sum(pc.scalar(ref[k].ln_prob(x[i][k])) for k in "abc"))
        pr = [pc.scalar(ref[k].prob(x[i][k])) for k in "abc"]
        e.check_eq("prob[%d]" % i, P[i], pr[0] * pr[1] * pr[2])


@harness("C06", "sample", params=[(o, o) for o in ("abc", "cba", "bac")])
def sample(e, order):
    r = Ref(e)
    p = r.dict(order)
    rng = use_rng(e)
    size = e.choice("size", [None, 2])
    s = p.sample_subset(keys=list(order), size=size)
    n = 1 if size is None else size
    draws = {k: rng.log[i * n:(i + 1) * n] for i, k in enumerate("abc")}
    if len(rng.log) != 3 * n:
        e.fail("one draw per parameter and sample")
        return
    for i in range(n):
        ref = r.rescale({k: draws[k][i] for k in "abc"})
        e.check_eq("sample %d follows the chain rule" % i, [np.atleast_1d(s[k])[i] for k in "abc"], [ref[k] for k in "abc"])


@harness("C06", "fixed-condition")
def fixed(e):
    """a parameter conditional on a fixed one, and fixed parameters not passed to rescale"""
    f, w = e.real("f", -3, 3), e.pos("w", 4)
    order = e.choice("order", ["fd", "df"])
    mk = dict(f=bp.DeltaFunction(f), d=bp.ConditionalUniform(condition_func=cond_d, minimum=0, maximum=w))
    p = bp.ConditionalPriorDict({k: mk[k] for k in order})
    u = e.real("u", 0, 1)
    e.check_eq("rescale", p.rescale(["d"], [u]), [f + w * u])
    rng = use_rng(e)
    s = p.sample_subset(keys=["d"])
    e.check_eq("sample", s["d"], f + w * rng.log[-1])
    e.check_eq("resolved order", p.sorted_keys, ["f", "d"])


def reference(r, kinds):
    mk = dict(a=dict(plain=lambda: bp.Uniform(r.lo, r.hi),
                     cond=lambda: bp.ConditionalUniform(condition_func=cond_a, minimum=0, maximum=1)),
              b=dict(plain=lambda: bp.Uniform(-1., r.w), cond=lambda: bp.ConditionalUniform(condition_func=cond_b, minimum=0,
                                                                                         maximum=r.w)))
    return {k: mk[k][v]() for k, v in kinds}


@harness("C06", "history", max_paths=5000, cost=9)
def history(e):
    """after any modification the dictionary behaves like a freshly built one with the same priors"""
    r = Ref(e)
    start = e.choice("start", [(("a", "plain"), ("b", "plain")), (("a", "plain"), ("b", "cond")), (("b", "plain"), ("a", "cond"))])
    p = bp.ConditionalPriorDict(reference(r, start))
    p._cached_normalizations = Ones()
    u = e.reals("u", 2, 0, 1, slo=True, shi=True)
    v = e.reals("v", 2, 0, 1, slo=True, shi=True)
    now = dict(start)
    keys = e.choice("keys", [["a", "b"], ["b", "a"]])
    for step in range(2):
        if all(k in now for k in "ab") and not all(x == "cond" for x in now.values()):
            if e.choice("evaluate%d" % step, [True, False]):
                p.rescale(keys, v)
        op = e.choice("op%d" % step, ["none", "a-plain", "a-cond", "b-plain", "b-cond", "del-a", "del-b"])
        if op == "none":
            continue
        if op.startswith("del"):
            k = op[-1]
            if k not in now or len(now) == 1:
                e.skip()
            del p[k]
            del now[k]
        else:
            k, kind = op.split("-")
            p[k] = reference(r, [(k, kind)])[k]
            now[k] = kind
    if len(now) < 2:
        e.skip()
    if all(x == "cond" for x in now.values()):
        ex = e.raises(lambda: p.rescale(keys, u), IllegalConditionsException)
        e.check("a circular condition is reported", ex is not None)
        return
    fresh = bp.ConditionalPriorDict(reference(r, list(now.items())))
    fresh._cached_normalizations = Ones()
    e.check_eq("rescale equals that of a fresh dictionary", p.rescale(keys, u), fresh.rescale(keys, u))
    s = dict(a=e.real("xa", -3, 3), b=e.real("xb", -3, 3))
    e.check_eq("ln_prob equals that of a fresh dictionary", p.ln_prob(s), fresh.ln_prob(s))


@harness("C06", "unresolved")
def unresolved(e):
    r = Ref(e)
    kind = e.choice("kind", ["missing", "circular"])
    if kind == "missing":
        p = bp.ConditionalPriorDict(dict(b=bp.ConditionalUniform(condition_func=cond_b, minimum=0, maximum=r.w)))
        keys = ["b"]
    else:
        p = bp.ConditionalPriorDict(reference(r, [("a", "cond"), ("b", "cond")]))
        keys = ["a", "b"]
    x = {k: e.real("x" + k, -3, 3) for k in keys}
    e.check("rescale refuses", e.raises(lambda: p.rescale(keys, [.5] * len(keys)), IllegalConditionsException) is not None)
    e.check("prob refuses", e.raises(lambda: p.prob(x), IllegalConditionsException) is not None)
    e.check("ln_prob refuses", e.raises(lambda: p.ln_prob(x), IllegalConditionsException) is not None)
    e.check("sampling refuses", e.raises(lambda: p.sample_subset(keys=keys), IllegalConditionsException) is not None)


KINDS = {
    "Uniform": dict(minimum=0., maximum=1.), "LogUniform": dict(minimum=1., maximum=2.), "Gaussian": dict(mu=0., sigma=1.),
    "PowerLaw": dict(alpha=2, minimum=1., maximum=2.), "Exponential": dict(mu=1.), "Cauchy": dict(alpha=0., beta=1.),
    "Logistic": dict(mu=0., scale=1.), "LogNormal": dict(mu=0., sigma=1.), "HalfGaussian": dict(sigma=1.),
    "Gamma": dict(k=1., theta=1.), "Beta": dict(alpha=1., beta=1.), "StudentT": dict(df=2., mu=0., scale=1.),
}


@harness("C06", "conditional-kinds", params=[(k, k) for k in KINDS])
def kinds(e, kind):
    """a conditional prior at given conditions equals the plain prior with the parameters set by the condition"""
    ref = dict(KINDS[kind])
    pars = {}
    for k in ref:
        if kind == "PowerLaw" and k == "alpha":
            continue
        if k in ("minimum", "mu") or kind == "Cauchy" and k == "alpha":
            pars[k] = e.real("p_" + k, 1, 2) if kind in ("LogUniform", "PowerLaw", "Exponential") else e.real("p_" + k, -2, 2)
        elif k == "maximum":
            pars[k] = e.real("p_" + k, 3, 5)
        else:
            pars[k] = e.pos("p_" + k)

    def condition(reference_params, z):
        e.check_eq("the reference parameters are passed unchanged", [reference_params[k] for k in sorted(ref)],
                   [ref[k] for k in sorted(ref)])
        out = dict(reference_params)
        out.update(pars)
        return out
    p = getattr(cp, "Conditional" + kind)(condition_func=condition, **ref)
    q = getattr(bp, kind)(**dict(ref, **pars))
    first = e.choice("first", ["prob", "ln_prob", "cdf", "rescale"])
    x = e.real("x", 0, 6) if first != "rescale" else e.real("u", 0, 1, slo=True, shi=True)
    e.check_eq(first + " uses the condition", pc.scalar(getattr(p, first)(x, z=1.)), pc.scalar(getattr(q, first)(x)))
    e.check_eq("required variables", sorted(p.required_variables), ["z"])
    p.reset_to_reference_parameters()
    e.check_eq("reference parameters can be restored", [getattr(p, k) for k in sorted(ref)], [ref[k] for k in sorted(ref)])
    e.check("a missing condition is reported", e.raises(lambda: p.prob(x, y=1.), Exception) is not None)
