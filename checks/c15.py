"""C15: the hyper-parameter likelihood is the stated product of importance-weighted averages."""
import numpy as np
import pandas as pd

from bilby.core import prior as bp
from bilby.hyper.likelihood import HyperparameterLikelihood
from bilby.hyper.model import Model
from symx.api import harness
from common import patch
import priors_common as pc

BOUNDS = ["two events with two samples each (one of them may have three, of which an arbitrary pair is kept); symbolic samples, "
          "prior columns and hyper-parameters; one or two model functions"]
OUTSIDE = ["models whose cache is shared between two likelihoods (documented as unsupported)",
           "populations that vanish on every sample of an event (the likelihood is then the most negative float)"]


def pop(data, mu, lam):
    return lam + (data["a"] - mu) ** 2


def other(dataset, beta):
    return 1 + beta * dataset["b"] ** 2


class Vary:
    variable_names = ["mu"]

    def __call__(self, data, mu):
        return 1 + (data["a"] - mu) ** 2


def sampling(data):
    return 1 + data["a"] ** 2


def posts(e, prior):
    """two posteriors as data frames"""
    out, ref = [], []
    for i in range(2):
        n = 2 + (e.choice("unequal", [0, 1]) if i and prior == "prior" else 0)
        a, b = e.reals("a%d" % i, n, -3, 3), e.reals("b%d" % i, n, -3, 3)
        w = [e.pos("w%d%d" % (i, j)) for j in range(n)]
        d = dict(a=e.array(a), b=e.array(b))
        if prior == "prior":
            d["prior"] = e.array(w)
        elif prior == "log_prior":
            d["log_prior"] = e.array([np.log(v) for v in w])
        else:
            w = [1 + v ** 2 for v in a]
        out.append(pd.DataFrame(d))
        ref.append((a, b, w))
    return out, ref


@harness("C15", "likelihood", params=[(k, k) for k in ("prior", "log_prior", "function", "prior-dict", "model")], max_paths=2000)
def likelihood(e, kind):
    frames, ref = posts(e, kind if kind in ("prior", "log_prior") else None)
    sp = None
    if kind == "function":
        sp = sampling
    elif kind == "model":
        sp = Model([sampling])
    elif kind == "prior-dict":
        sp = bp.PriorDict(dict(a=bp.Uniform(-4., 4.), b=bp.Uniform(-5., 5.)))
        ref = [(a, b, [1 / 80] * len(a)) for a, b, _ in ref]
    picks = []

    def sample(self, n=None, **kw):
        # an arbitrary subset of the rows, in an arbitrary order
        rows = list(range(len(self)))
        keep = []
        for j in range(n):
            k = e.choice("row%d_%d" % (len(picks), j), rows) if len(self) > n else rows[0]
            rows.remove(k)
            keep.append(k)
        picks.append(keep)
        return self.iloc[keep].copy()
    patch(e, pd.DataFrame, "sample", sample)
    fs = [pop, other] if e.choice("models", [1, 2]) == 2 else [pop]
    ev = [e.real("z0", -3, 3), e.real("z1", -3, 3)]
    like = HyperparameterLikelihood(frames, hyper_prior=Model(fs), sampling_prior=sp, log_evidences=ev)
    e.check_eq("samples per event", like.max_samples, 2)
    for step in (0, 1):
        mu, lam, beta = e.real("mu%d" % step, -2, 2), e.pos("lam%d" % step), e.pos("beta%d" % step)
        like.parameters.update(mu=mu, lam=lam)
        if len(fs) == 2:
            like.parameters["beta"] = beta
        want = 0
        for (a, b, w), keep in zip(ref, picks):
            tot = 0
            for j in keep:
                p = lam + (a[j] - mu) ** 2
                if len(fs) == 2:
                    p = p * (1 + beta * b[j] ** 2)
                tot = tot + p / w[j]
            want = want + np.log(tot / 2)
        e.check_eq("log likelihood ratio (%d)" % step, like.log_likelihood_ratio(), want)
        e.check_eq("noise", like.noise_log_likelihood(), ev[0] + ev[1])
        e.check_eq("log likelihood (%d)" % step, like.log_likelihood(), want + ev[0] + ev[1])


@harness("C15", "model-cache")
def cache(e):
    """a cached model always returns the value for its current parameters"""
    m = Model([pop, other], cache=e.choice("cache", [True, False]))
    v = Model([Vary()])
    d = dict(a=e.array(e.reals("a", 2, -3, 3)), b=e.array(e.reals("b", 2, -3, 3)))
    vals = [dict(mu=e.real("mu%d" % i, -2, 2), lam=e.pos("lam%d" % i), beta=e.pos("beta%d" % i)) for i in range(2)]
    seq = [e.choice("s%d" % i, [0, 1]) for i in range(3)]
    for n, i in enumerate(seq):
        m.parameters.update(vals[i])
        v.parameters.update(vals[i])
        want = [(vals[i]["lam"] + (a - vals[i]["mu"]) ** 2) * (1 + vals[i]["beta"] * b ** 2) for a, b in zip(d["a"], d["b"])]
        e.check_eq("probability (%d)" % n, m.prob(d), want)
        e.check_eq("variable names (%d)" % n, v.prob(d), [1 + (a - vals[i]["mu"]) ** 2 for a in d["a"]])


@harness("C15", "missing-prior")
def missing(e):
    d = [pd.DataFrame(dict(a=e.array(e.reals("a", 2, -3, 3))))]
    e.check("refused", e.raises(lambda: HyperparameterLikelihood(d, Model([pop])), ValueError) is not None)
