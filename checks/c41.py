"""C41: combining results."""
import numpy as np
import pandas as pd

from bilby.core import result as br
from bilby.core import prior as bp
from symx.api import harness
from common import use_rng

BOUNDS = ["two or three results of one or two samples each, all values symbolic"]
OUTSIDE = ["the pseudo-random shuffling itself (pandas): only that it permutes the samples", "results with missing priors"]


def make(e, i, n, noise, sampler="dynesty", nested=True, keys=("a", "b"), priors=None, err=None):
    cols = {k: e.reals("%s%d" % (k, i), n, -2, 2) for k in ("a", "b", "log_likelihood")}
    z = e.real("lnz%d" % i, -5, 5)
    if err is None:
        err = np.log(e.real("exp_err%d" % i, 1.01, 7))
    pri = bp.PriorDict(priors or dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5)))
    r = br.Result(label="run%d" % i, sampler=sampler, search_parameter_keys=list(keys), priors=pri,
                  posterior=pd.DataFrame({k: e.array(v) for k, v in cols.items()}),
                  nested_samples=pd.DataFrame(dict(a=[0.])) if nested else None, log_evidence=z, log_evidence_err=err,
                  log_noise_evidence=noise, log_bayes_factor=z - noise, sampler_kwargs=dict(x=1))
    return cols, z, err, r


def rows(df):
    return [[df[k].to_numpy()[i] for k in ("a", "b", "log_likelihood")] for i in range(len(df))]


def same_rows(e, label, df, want):
    e.check(label + ": number", len(df) == len(want))
    for g, w in zip(rows(df), want):
        e.check_eq(label, g, w)


def inputs_unchanged(e, rs):
    for i, (cols, z, err, r) in enumerate(rs):
        e.check("label of the input", r.label == "run%d" % i)
        e.check_eq("evidence of the input", r.log_evidence, z)
        same_rows(e, "posterior of the input", r.posterior, [[cols[k][j] for k in ("a", "b", "log_likelihood")] for j in range(len(cols["a"]))])
        e.check("sampler arguments of the input", r.sampler_kwargs == dict(x=1))


SIZES = [("1,1", (1, 1)), ("2,1", (2, 1)), ("1,1,1", (1, 1, 1))]


@harness("C41", "nested", params=SIZES, max_paths=3000)
def nested(e, sizes):
    """samples of each run are kept with probability proportional to its evidence; the evidence is the average"""
    rng = use_rng(e)
    noise = e.real("noise", -5, 5)
    rs = [make(e, i, n, noise) for i, n in enumerate(sizes)]
    out = br.ResultList([r[3] for r in rs]).combine()
    e.check("one uniform number per sample", len(rng.log) == sum(sizes))
    zs = [r[1] for r in rs]
    top = max(zs)
    want, k = [], 0
    for (cols, z, err, r), n in zip(rs, sizes):
        for j in range(n):
            if bool(rng.log[k] < np.exp(z - top)):
                want.append([cols[c][j] for c in ("a", "b", "log_likelihood")])
            k += 1
    same_rows(e, "combined samples", out.posterior, want)
    e.check("index restarts", list(out.posterior.index) == list(range(len(want))))
    e.check_eq("evidence", np.exp(out.log_evidence), sum([np.exp(z) for z in zs]) / len(zs))
    e.check_eq("bayes factor", out.log_bayes_factor, out.log_evidence - noise)
    errs, err = [np.exp(r[2]) for r in rs], np.exp(2 * out.log_evidence_err)
    e.check_le("error not below the smallest", min(errs)**2, err * (1 + 1e-9))
    e.check_le("error not above the largest", err, max(errs)**2 * (1 + 1e-9))
    e.check("label", out.label == "run0_combined")
    inputs_unchanged(e, rs)


@harness("C41", "mcmc", params=[("%s-%s" % (s, n), (s, v)) for s in ("bilby_mcmc", "emcee") for n, v in SIZES])
def mcmc(e, arg):
    sampler, sizes = arg
    noise = e.real("noise", -5, 5)
    rs = [make(e, i, n, noise, sampler=sampler, nested=False) for i, n in enumerate(sizes)]
    out = br.ResultList([r[3] for r in rs]).combine()
    same_rows(e, "combined samples", out.posterior, [[r[0][c][j] for c in ("a", "b", "log_likelihood")] for r, n in zip(rs, sizes) for j in range(n)])
    if sampler == "bilby_mcmc":
        zs = [r[1] for r in rs]
        e.check_eq("evidence", np.exp(out.log_evidence), sum([np.exp(z) for z in zs]) / len(zs))
        e.check_eq("bayes factor", out.log_bayes_factor, out.log_evidence - noise)
    inputs_unchanged(e, rs)


@harness("C41", "shuffle")
def shuffle(e):
    """shuffling permutes the samples: every row stays together"""
    rs = [make(e, i, 2, 0., sampler="emcee", nested=False) for i in range(2)]
    out = br.ResultList([r[3] for r in rs]).combine(shuffle=True)
    want = [[r[0][c][j] for c in ("a", "b", "log_likelihood")] for r in rs for j in range(2)]
    got = rows(out.posterior)
    e.check("number", len(got) == 4)
    left = list(range(4))
    for g in got:
        hit = [i for i in left if e.known(g[0] == want[i][0])] if e.symbolic else [i for i in left if g[0] == want[i][0]]
        e.check("sample of the inputs", len(hit) >= 1)
        if not hit:
            return
        left.remove(hit[0])
        e.check_eq("row", g, want[hit[0]])


@harness("C41", "error-undefined")
def error_undefined(e):
    a, b = e.real("err0", 0.01, 2), float("nan")
    rs = [make(e, 0, 1, 0., err=a), make(e, 1, 1, 0., err=b)]
    use_rng(e)
    out = br.ResultList([r[3] for r in rs]).combine()
    e.check("label", out.label == "run0_combined")


@harness("C41", "single")
def single(e):
    cols, z, err, r = make(e, 0, 2, 0.)
    out = br.ResultList([r]).combine()
    e.check_eq("evidence", out.log_evidence, z)
    same_rows(e, "samples", out.posterior, [[cols[c][j] for c in ("a", "b", "log_likelihood")] for j in range(2)])
    e.check("empty", br.ResultList([]).combine().sampler is None)


@harness("C41", "inconsistent", params=[(k, k) for k in ("sampler", "parameters", "prior-bound", "prior-class", "prior-missing", "prior-extra", "data", "nested")])
def inconsistent(e, kind):
    """results that do not belong together are refused (or a warning is given, or nothing, as asked)"""
    use_rng(e)
    noise = e.real("noise", -5, 5)
    which = e.choice("which", [1, 2])
    lo = e.real("lo", -9, 4)
    shift = e.real("shift", -1, 1)
    e.assume((lo < -5.001) | (lo > -4.999))
    e.assume((shift < -1e-7) | (shift > 1e-7))
    rs = []
    for i in range(3):
        kw = dict(noise=noise)
        if kind == "prior-missing" and i != which:
            kw["priors"] = dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5), c=bp.Uniform(0, 1))
        if i == which:
            if kind == "sampler":
                kw["sampler"] = "nestle"
            if kind == "parameters":
                kw["keys"] = ("a",)
            if kind == "prior-bound":
                kw["priors"] = dict(a=bp.Uniform(-5, 5), b=bp.Uniform(lo, 5))
            if kind == "prior-class":
                kw["priors"] = dict(a=bp.Uniform(-5, 5), b=bp.Gaussian(0, 1))
            if kind == "prior-extra":
                kw["priors"] = dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5), c=bp.Uniform(0, 1))
            if kind == "data":
                kw["noise"] = noise + shift
            if kind == "nested":
                kw["nested"] = False
        rs.append(make(e, i, 1, **kw)[3])
    e.check("refused", e.raises(lambda: br.ResultList(rs).combine(), br.ResultListError) is not None)
    if kind != "nested":
        n = len(rs)
        e.check("allowed with a warning", br.ResultList(rs).combine(consistency_level="warning").label == "run0_combined")
        e.check("allowed when ignored", br.ResultList(rs).combine(consistency_level="ignore").label == "run0_combined")
    e.check("unknown level", e.raises(lambda: br.ResultList(rs).combine(consistency_level="x"), (ValueError, br.ResultListError)) is not None)


@harness("C41", "consistent")
def consistent(e):
    """the order of the parameters and rounding of the noise evidence do not matter"""
    use_rng(e)
    noise = e.real("noise", -5, 5)
    d = e.real("d", -9e-9, 9e-9)
    rs = [make(e, 0, 1, noise)[3], make(e, 1, 1, noise + d, keys=("b", "a"))[3]]
    e.check("accepted", br.ResultList(rs).combine().label == "run0_combined")
