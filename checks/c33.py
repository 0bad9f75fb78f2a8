"""C33: samplers see the priors and the likelihood they were given, and results report what they returned."""
import datetime
import sys

import numpy as np

import bilby
from bilby.core import sampler as cs
from bilby.core.prior import Constraint, DeltaFunction, PowerLaw, PriorDict, Uniform
from bilby.core.sampler.base_sampler import IllegalSamplingSetError, NestedSampler, Sampler, SamplingMarginalisedParameterError
from symx.api import harness
from common import patch, use_rng
from priors_common import scalar

BOUNDS = ["two searched parameters, one or two fixed ones and a constraint, in any order", "up to three samples; up to two rejected draws"]
OUTSIDE = ["the external samplers themselves", "pools of processes", "floating-point rounding"]


class Like(bilby.Likelihood):
    def __init__(self, noise=-3.):
        super().__init__(dict(a=None, b=None, f=None))
        self.noise, self.bad, self.calls = noise, None, []

    def log_likelihood(self):
        p = self.parameters
        self.calls.append(dict(p))
        if self.bad is not None and self.bad(p):
            return -np.inf
        return 2 * p["a"] + 5 * p["b"] * p["b"] + p["f"]

    def noise_log_likelihood(self):
        return self.noise


def lnl(a, b, f=0.5):
    return 2 * a + 5 * b * b + f


def priors(order="abf"):
    d = dict(a=Uniform(0, 2), b=PowerLaw(1, 1, 3), f=DeltaFunction(0.5))
    return PriorDict({k: d[k] for k in order})


class Given(Sampler):
    """a sampler which returns given samples"""
    default_kwargs = dict(known=1)
    sampling_seed_key = None
    fill = None

    def _verify_external_sampler(self):
        pass

    def _time_likelihood(self, n_evaluations=100):
        return 1.

    def run_sampler(self):
        type(self).fill(self, self.result)
        return self.result


class GivenNested(NestedSampler, Given):
    pass


def quiet(e):
    """no list of the environment's packages, no files, no command line"""
    patch(e, cs, "env_package_list", lambda **k: None)
    patch(e, cs, "loaded_modules_dict", lambda: {})
    patch(e, cs, "check_directory_exists_and_if_not_mkdir", lambda *a: None) if hasattr(cs, "check_directory_exists_and_if_not_mkdir") else None
    for n in sys.modules:
        if n == "bilby.core.sampler.base_sampler":
            def none(*a, **k):
                raise IOError
            patch(e, sys.modules[n], "read_in_result", none)


def make(e, cls=Given, pri=None, like=None, **k):
    quiet(e)
    return cls(like or Like(), pri or priors(), skip_import_verification=True, **dict(dict(use_ratio=False), **k))


@harness("C33", "interface", params=[("plain", "plain"), ("ratio", "ratio"), ("nested", "nested")])
def interface(e, kind):
    """arrays are taken in the order of the searched parameters; the fixed ones keep their values"""
    order = e.choice("order", ["abf", "fba", "bfa"])
    pri, like = priors(order), Like()
    limit = kind == "nested"
    if limit:
        pri["s"] = Constraint(0, 4)

        def conv(p):
            p = dict(p)
            if "a" in p and "b" in p:
                p["s"] = p["a"] + p["b"]
            return p
        pri.conversion_function = conv
    s = make(e, GivenNested if limit else Given, pri, like, use_ratio=kind == "ratio")
    keys = [k for k in order if k != "f"]
    e.check("searched", s.search_parameter_keys == keys and s.ndim == 2)
    e.check("fixed", s.fixed_parameter_keys == ["f"] and s.constraint_parameter_keys == (["s"] if limit else []))
    a, b = e.real("a", 0, 2), e.real("b", 1, 3)
    theta = e.array([dict(a=a, b=b)[k] for k in keys])
    got = s.log_likelihood(theta)
    if limit and not bool((a + b > 0) & (a + b < 4)):
        e.check("excluded", bool(got <= -1e300))
    else:
        e.check_eq("likelihood", got, lnl(a, b) + (3. if kind == "ratio" else 0.), rtol=1e-9)
        p = like.parameters
        e.check_eq("parameters", [p["a"], p["b"], p["f"]], [a, b, 0.5])
    if not limit:
        e.check_eq("prior", np.exp(scalar(s.log_prior(theta))), 0.5 * b / 4, rtol=1e-8)
    u = e.reals("u", 2, 0, 1)
    t = s.prior_transform(e.array(list(u)))
    t = {k: scalar(v) for k, v in zip(keys, t)}
    u = dict(zip(keys, u))
    e.check_eq("transform of a", t["a"], 2 * u["a"], rtol=1e-9)
    e.check_eq("transform of b", t["b"] * t["b"], 1 + 8 * u["b"], rtol=1e-8)
    e.check("unknown arguments are dropped", make(e, Given, priors(), Like(), known=2, unknown=3).kwargs == dict(known=2))


@harness("C33", "initial", params=[("good", "good"), ("prior", "prior"), ("likelihood", "likelihood")])
def initial(e, kind):
    """initial points come with their own coordinates and likelihoods; draws without finite prior and likelihood are left out"""
    s = make(e, Given, PriorDict(dict(a=Uniform(0, 2), f=DeltaFunction(0.5), b=Uniform(1, 3))))
    use_rng(e)
    log = []

    def draw(u):
        log.append((u, e.reals("t%d" % len(log), 2, 0, 2)))
        return e.array(list(log[-1][1]))
    which = e.choice("which", [0, 1]) if kind != "good" else None
    value = e.choice("value", [np.inf, -np.inf, np.nan]) if kind != "good" else None

    def number(theta, what):
        i = [k for k, (u, t) in enumerate(log) if t[0] is theta[0] or bool(t[0] == theta[0])][-1]
        return value if kind == what and i == which else 3 * theta[0] - theta[1]
    patch(e, s, "prior_transform", draw)
    patch(e, s, "log_prior", lambda t: number(t, "prior"))
    patch(e, s, "log_likelihood", lambda t: number(t, "likelihood"))
    cube, pts, l = s.get_initial_points_from_prior(2)
    used = [v for k, v in enumerate(log) if k != which]
    e.check("number", np.shape(cube) == (2, 2) and np.shape(pts) == (2, 2) and len(l) == 2 and len(used) == 2)
    for i, (u, t) in enumerate(used):
        e.check_eq("cube", [scalar(v) for v in cube[i]], list(u))
        e.check_eq("point", [scalar(v) for v in pts[i]], list(t))
        e.check_eq("likelihood", scalar(l[i]), 3 * t[0] - t[1], rtol=1e-9)


@harness("C33", "run", params=[("plain", False), ("ratio", True), ("either", None)])
def run(e, ratio):
    """evidences, samples, fixed values and converted parameters of a finished run"""
    quiet(e)
    noise = e.real("noise", -5, 5)
    like = Like(noise)
    n = 2
    a, b, l = e.reals("a", n, 0, 2), e.reals("b", n, 1, 3), e.reals("l", n, -9, 9)
    z = e.real("z", -9, 9)
    order = e.choice("order", ["abf", "fba"])
    keys = [k for k in order if k != "f"]
    lp = e.choice("log_prior", [True, False])
    t = e.choice("time", [None, datetime.timedelta(seconds=7), 7.])

    def fill(s, r):
        r.samples = e.array([v for i in range(n) for v in [dict(a=a[i], b=b[i])[k] for k in keys]]).reshape(n, 2)
        r.log_likelihood_evaluations = e.array(list(l))
        r.log_evidence, r.log_evidence_err = z, 0.25
        if lp:
            r.log_prior_evaluations = e.array([1., 2.])
        r.sampling_time = t
    patch(e, Given, "fill", fill)

    def convert(p, likelihood=None, priors=None):
        p = p.copy()
        p["a"] = p["a"] + 1
        p["ab"] = p["a"] * p["b"]
        return p
    conv = e.choice("conversion", [None, convert])
    inj = e.choice("injection", [True, False])
    r = cs.run_sampler(like, priors(order), sampler=Given, use_ratio=ratio, save=False, injection_parameters=dict(a=1., b=2.) if inj else None,
                       conversion_function=conv, outdir="none", label="x", skip_import_verification=True)
    uses = ratio is not False
    e.check_eq("noise evidence", r.log_noise_evidence, noise)
    e.check_eq("evidence", r.log_evidence, z + noise if uses else z, rtol=1e-9)
    e.check_eq("Bayes factor", r.log_bayes_factor, z if uses else z - noise, rtol=1e-9)
    e.check("ratio recorded", bool(r.use_ratio) == uses)
    post = r.posterior
    off = 1 if conv else 0
    e.check_eq("a", [scalar(v) for v in post["a"]], [v + off for v in a], rtol=1e-9)
    e.check_eq("b", [scalar(v) for v in post["b"]], list(b), rtol=1e-9)
    e.check_eq("fixed", [scalar(v) for v in post["f"]], [0.5] * n)
    e.check_eq("likelihoods", [scalar(v) for v in post["log_likelihood"]], list(l))
    if lp:
        e.check_eq("priors given", [scalar(v) for v in post["log_prior"]], [1., 2.])
    else:
        e.check_eq("priors", [np.exp(scalar(v)) for v in post["log_prior"]], [v / 8 for v in b], rtol=1e-8)
    if conv:
        e.check_eq("converted", [scalar(v) for v in post["ab"]], [(x + 1) * y for x, y in zip(a, b)], rtol=1e-9)
    want = dict(a=1. + off, b=2., **(dict(ab=4.) if conv else {})) if inj else None
    e.check("injection", r.injection_parameters == want)
    if t is not None:
        e.check_eq("seconds", r.sampling_time, 7.)
    e.check("names", r.search_parameter_keys == keys and r.fixed_parameter_keys == ["f"])


@harness("C33", "refusals")
def refusals(e):
    """marginalised parameters cannot be sampled; redundant sets and unknown samplers are refused"""
    quiet(e)
    like = Like()
    like._marginalized_parameters = ["b"]
    how = e.choice("prior", ["searched", "fixed", "number"])
    pri = priors()
    pri["b"] = dict(searched=pri["b"], fixed=DeltaFunction(2.), number=2.)[how]
    patch(e, Given, "fill", lambda s, r: (_ for _ in ()).throw(KeyError("ran")))
    go = lambda x, p=pri: cs.run_sampler(like, p, sampler=x, save=False, skip_import_verification=True)      # noqa: E731
    e.check("marginalised", e.raises(lambda: go(Given), SamplingMarginalisedParameterError if how == "searched" else KeyError) is not None)
    like._marginalized_parameters = []
    e.check("unknown name", e.raises(lambda: go("no such sampler", priors()), ValueError) is not None)
    e.check("unknown object", e.raises(lambda: go(3, priors()), ValueError) is not None)

    class Red(PriorDict):
        def test_redundancy(self, key, disable_logging=False):
            return key == "b"

        def test_has_redundant_keys(self):
            return True
    e.check("redundant", e.raises(lambda: go(Given, Red(dict(priors()))), IllegalSamplingSetError) is not None)


@harness("C33", "order")
def order(e):
    """likelihoods follow their samples when these are sorted"""
    n = 3
    x, l = e.reals("x", n, -1, 1), e.reals("l", n, -9, 9)
    e.assume((abs(x[0] - x[1]) > 1e-3) & (abs(x[0] - x[2]) > 1e-3) & (abs(x[1] - x[2]) > 1e-3))
    perm = e.choice("order", [(0, 1, 2), (1, 2, 0), (2, 1, 0), (0, 2, 1)])
    a = e.array([v for i in range(n) for v in (x[i], 1.)]).reshape(n, 2)
    s = e.array([v for i in perm for v in (x[i], 1.)]).reshape(n, 2)
    e.check_eq("likelihoods", list(NestedSampler.reorder_loglikelihoods(e.array(list(l)), a, s)), [l[i] for i in perm])
