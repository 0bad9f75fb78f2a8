"""C43: what a result reports about its samples."""
import numpy as np
import pandas as pd

from bilby.core import result as br
from bilby.core import prior as bp
from bilby.core.utils import samples as bs
from symx.api import harness
from common import patch

BOUNDS = ["three samples (two for products of priors), every value symbolic"]
OUTSIDE = ["plots, and the kernel density estimate itself (a stand-in records the points it is asked for)"]


def make(e, n=3, **k):
    cols = {c: e.reals(c, n, -2, 2) for c in ("a", "b", "log_likelihood")}
    df = pd.DataFrame({c: e.array(v) for c, v in cols.items()})
    return cols, br.Result(label="l", search_parameter_keys=["a", "b"], priors=bp.PriorDict(dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5))),
                           posterior=df, **k)


@harness("C43", "credible-level", params=[("plain", False), ("weighted", True)])
def credible_level(e, weighted):
    """weighted fraction of samples strictly below the injected value"""
    x = e.real("inj", -2, 2)
    cols, r = make(e, injection_parameters=dict(a=x, c=1., b=0.25))
    w = [e.pos("w%d" % i) for i in range(3)] if weighted else None
    got = r.get_injection_credible_level("a", weights=None if w is None else e.array(w))
    ww = w or [1., 1., 1.]
    want = sum([ww[i] if bool(cols["a"][i] < x) else 0. for i in range(3)]) / sum(ww)
    e.check_eq("credible level", got, want)
    e.check("unknown parameter", bool(np.isnan(r.get_injection_credible_level("c"))))
    al = r.get_all_injection_credible_levels(weights=None if w is None else e.array(w))
    e.check("keys", set(al) == {"a", "b"})
    e.check_eq("all levels", al["a"], want)
    e.check_eq("all levels of the other", al["b"], sum([ww[i] if bool(cols["b"][i] < 0.25) else 0. for i in range(3)]) / sum(ww))


@harness("C43", "to-posterior", params=[(k, k) for k in ("evaluations", "prior-from-samples", "conversion", "conversion-npool", "no-priors")])
def to_posterior(e, kind):
    """rows of samples, likelihoods and priors stay together; fixed values and conversions are added"""
    s = e.array(e.reals("s", 6, -2, 2)).reshape(3, 2)
    ll, lp = e.reals("ll", 3, -2, 2), e.reals("lp", 3, -2, 2)
    k = e.real("k", 0.5, 2)
    pri = bp.PriorDict(dict(b=bp.Uniform(-5, 5), a=bp.Gaussian(0., k), c=bp.DeltaFunction(k), d=k))
    r = br.Result(label="l", search_parameter_keys=["a", "b"], priors=pri, samples=s, log_likelihood_evaluations=e.array(ll),
                  log_prior_evaluations=None if kind == "prior-from-samples" else e.array(lp))
    pri.normalize_constraint_factor = lambda *a, **k: 1  # there are no constraints
    seen = []

    def conv(df, likelihood, priors):
        seen.append((likelihood, priors))
        df = df.copy()
        df["sum"] = df["a"] + df["b"]
        return df

    def conv_npool(df, likelihood, priors, npool=1):
        seen.append(npool)
        return conv(df, likelihood, priors)
    f = dict(conversion=conv).get(kind)
    if kind == "conversion-npool":
        f = conv_npool
    r.samples_to_posterior(likelihood="like", priors=None if kind == "no-priors" else pri, conversion_function=f, npool=5)
    df = r.posterior
    e.check("rows", len(df) == 3)
    for i in range(3):
        e.check_eq("samples", [df["a"][i], df["b"][i]], [s[i, 0], s[i, 1]])
        e.check_eq("likelihood", df["log_likelihood"][i], ll[i])
        want = pri["a"].ln_prob(s[i, 0]) + pri["b"].ln_prob(s[i, 1]) if kind == "prior-from-samples" else lp[i]
        e.check_eq("prior", df["log_prior"][i], want)
        if kind != "no-priors":
            e.check_eq("fixed values", [df["c"][i], df["d"][i]], [k, k])
        if f is not None:
            e.check_eq("converted", df["sum"][i], s[i, 0] + s[i, 1])
    if kind == "no-priors":
        e.check("columns", set(df) == {"a", "b", "log_likelihood", "log_prior"})
    if kind == "conversion":
        e.check("arguments", len(seen) == 1 and seen[0][0] == "like" and seen[0][1] is pri)
    if kind == "conversion-npool":
        e.check("arguments", seen[0] == 5 and seen[1][0] == "like" and seen[1][1] is pri)


@harness("C43", "new-prior-weights", params=[(k, k) for k in ("all", "named", "constraint", "reordered")])
def new_prior_weights(e, kind):
    """the weight of sample i is the product over shared parameters of new over old density at sample i"""
    cols, r = make(e, 2)
    w1, w2 = e.real("w1", 2.1, 5), e.real("w2", 2.1, 5)
    old = bp.PriorDict(dict(a=bp.Uniform(-w1, w1), b=bp.Gaussian(0., 1.), z=bp.Uniform(0, 1)))
    new = dict(a=bp.Uniform(-1., w2), b=bp.Gaussian(1., w1), y=bp.Uniform(0, 1))
    conv = None
    if kind == "constraint":
        new["c"] = bp.Constraint(0., 9.)

        def conv(s):
            return dict(s, c=s["a"] + s["b"])
    new = bp.PriorDict(new, conversion_function=conv)
    order = [0, 1]
    if kind == "reordered":
        order = [1, 0]
        r.posterior = r.posterior.loc[order]
    got = r.get_weights_by_new_prior(old, new, prior_names=["b"] if kind == "named" else None)
    e.check("one weight per sample", len(got) == 2)
    for g, i in zip(got, order):
        a, b = cols["a"][i], cols["b"][i]
        want = new["b"].prob(b) / old["b"].prob(b)
        if kind != "named":
            want = want * (new["a"].prob(a) / old["a"].prob(a))
        if kind == "constraint" and not bool((a + b > 0) & (a + b < 9)):
            want = 0.
        e.check_eq("weight", g, want)


@harness("C43", "prior-values")
def prior_values(e):
    cols, r = make(e, 2)
    p = bp.PriorDict(dict(a=bp.Gaussian(0., e.real("s", 0.5, 2)), b=bp.DeltaFunction(1.), x=bp.Uniform(0, 1)))
    r.calculate_prior_values(p)
    e.check("columns", list(r.prior_values) == ["a"])
    e.check_eq("values", r.prior_values["a"].to_numpy(), [p["a"].prob(v) for v in cols["a"]])


@harness("C43", "quantiles")
def quantiles(e):
    cols, r = make(e, 3)
    lo, hi = e.real("lo", 0.01, 0.49), e.real("hi", 0.51, 0.99)
    s = r.get_one_dimensional_median_and_error_bar("a", fmt="", quantiles=(lo, hi))
    v = sorted(cols["a"])
    e.check_eq("median", s.median, v[1])
    e.check_eq("plus", s.plus, v[1] + (v[2] - v[1]) * (2 * hi - 1) - v[1])
    e.check_eq("minus", s.minus, v[1] - (v[0] + (v[1] - v[0]) * 2 * lo))
    e.check("two quantiles", e.raises(lambda: r.get_one_dimensional_median_and_error_bar("a", quantiles=(lo,)), ValueError) is not None)


@harness("C43", "samples-summary", params=[("median", "median"), ("mean", "mean")])
def samples_summary(e, average):
    x = e.reals("x", 3, -2, 2)
    c = e.real("c", -0.5, 1.5)
    ok = bool((c > 0) & (c < 1))
    if not ok:
        e.check("confidence refused", e.raises(lambda: bs.SamplesSummary(e.array(x), average, c), ValueError) is not None)
        return
    e.assume((c > 1e-6) & (c < 1 - 1e-6))
    s = bs.SamplesSummary(e.array(x), average, c)
    v = sorted(x)
    mid = v[1] if average == "median" else (x[0] + x[1] + x[2]) / 3
    low, up = v[0] + (v[1] - v[0]) * (1 - c), v[1] + (v[2] - v[1]) * c
    e.check_eq("median", s.median, v[1])
    e.check_eq("mean", s.mean, (x[0] + x[1] + x[2]) / 3)
    e.check_eq("average", s.average, mid)
    e.check_eq("interval", [s.lower_absolute_credible_interval, s.upper_absolute_credible_interval], [low, up])
    e.check_eq("relative interval", [s.lower_relative_credible_interval, s.upper_relative_credible_interval], [low - mid, up - mid])
    s.confidence_level = c / 2
    e.check_eq("changed level", s.upper_absolute_credible_interval, v[1] + (v[2] - v[1]) * c / 2)
    e.check("unknown average", e.raises(lambda: bs.SamplesSummary(e.array(x), "mode"), ValueError) is not None)


@harness("C43", "effective-sample-size")
def ess(e):
    lw = e.reals("lw", 3, -3, 3)
    k = bs.kish_log_effective_sample_size(e.array(lw))
    w = [np.exp(v) for v in lw]
    e.check_eq("Kish", np.exp(k), (w[0] + w[1] + w[2]) ** 2 / (w[0] ** 2 + w[1] ** 2 + w[2] ** 2))
    e.check_le("at least one", 1, np.exp(k) * (1 + 1e-9))
    e.check_le("at most the number", np.exp(k), 3 * (1 + 1e-9))


@harness("C43", "evidence")
def evidence(e):
    z, n, b, er = e.real("z", -9, 9), e.real("n", -9, 9), e.real("b", -9, 9), e.real("er", 0, 9)
    cols, r = make(e, log_evidence=z, log_noise_evidence=n, log_bayes_factor=b, log_evidence_err=er)
    ten = np.log(10)
    e.check_eq("log10", [r.log_10_evidence * ten, r.log_10_noise_evidence * ten, r.log_10_bayes_factor * ten, r.log_10_evidence_err * ten], [z, n, b, er])
    ll = cols["log_likelihood"]
    m = sum(ll) / 3
    e.check_eq("dimensionality", r.bayesian_model_dimensionality, 2 * sum([(v - m) ** 2 for v in ll]) / 3)
    e.check_eq("prior volume", br.Result.prior_volume(r.priors), 100.)


@harness("C43", "covariance")
def covariance(e):
    cols, r = make(e, 3)
    a, b = cols["a"], cols["b"]
    ma, mb = sum(a) / 3, sum(b) / 3
    c = r.covariance_matrix
    e.check_eq("covariance", [c[0, 0], c[0, 1], c[1, 0], c[1, 1]],
               [sum([(x - ma) ** 2 for x in a]) / 2] + [sum([(x - ma) * (y - mb) for x, y in zip(a, b)]) / 2] * 2 + [sum([(y - mb) ** 2 for y in b]) / 2])


class Kde:
    def __init__(self):
        self.points = None

    def __call__(self, points):
        self.points = np.atleast_2d(np.array(points, dtype=object))
        return np.ones(2)


@harness("C43", "density-points", params=[("one", 1), ("two", 2)])
def density_points(e, n):
    """the density is evaluated at the samples: one column per sample, one row per parameter"""
    cols, r = make(e, 3)
    x = [dict(b=e.real("b%d_" % i, -2, 2), a=e.real("a%d_" % i, -2, 2)) for i in range(n)]
    e.assume(x[0]["b"] > x[-1]["a"] + 0.1)
    r._kde = k = Kde()
    r.posterior_probability(x if n > 1 else x[0])
    p = k.points
    if n == 1:
        e.check_eq("point", list(p.reshape(-1)), [x[0]["a"], x[0]["b"]])
    else:
        e.check("shape", p.shape == (2, 2))
        e.check_eq("points", [p[0, 0], p[1, 0], p[0, 1], p[1, 1]], [x[0]["a"], x[0]["b"], x[1]["a"], x[1]["b"]])


class FakeKde:
    def __init__(self, data):
        self.data = data

    def __call__(self, points):
        return np.ones(1)


@harness("C43", "density-data")
def density_data(e):
    """the density is built from the current posterior: rows are the search parameters in order"""
    patch(e, br.scipy.stats, "gaussian_kde", FakeKde)
    cols, r = make(e, 3)
    d = r.kde.data
    e.check_eq("data", [list(d[0]), list(d[1])], [cols["a"], cols["b"]])
    e.check("kept", r.kde is r.kde)
    new = e.reals("new", 3, -2, 2)
    r.posterior = pd.DataFrame(dict(b=e.array(new), a=e.array(cols["a"])))
    e.check_eq("new posterior", list(r.kde.data[1]), new)
