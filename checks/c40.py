"""C40: reweighting and rejection sampling of results."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from bilby.core import result as br
from bilby.core import prior as bp
from symx.api import harness
from common import patch, use_rng

BOUNDS = ["posteriors of three samples (two for the crash points), symbolic values, likelihoods and priors",
          "one interruption at any prior evaluation, checkpoint interval 1 or 2"]
OUTSIDE = ["overflow of exp(ln_weights)", "the multiprocessing pool (replaced by a serial map in the same order)",
           "samples outside the support of the old prior (zero over zero)"]


class Pool:
    def __init__(self, processes=None, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def imap(self, f, it, chunksize=1):
        return [f(x) for x in it]

    map = imap


class Like:
    def __init__(self, k):
        self.k, self.parameters, self.calls = k, {}, 0

    def log_likelihood(self):
        self.calls += 1
        return -self.k * (self.parameters["a"] - 1) ** 2 + self.parameters["b"]


class Crash(Exception):
    pass


class Prior(bp.PriorDict):
    """ln_prob = -k a^2 ; may be told to fail at a given call"""
    def __init__(self, k, fail=None):
        super().__init__(dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5)))
        self.k, self.calls, self.fail = k, 0, fail

    def ln_prob(self, sample, axis=None, normalized=True):
        if set(sample) != {"a", "b"}:
            raise KeyError("sample passed to the prior: %s" % sorted(sample))
        if self.calls == self.fail:
            raise Crash()
        self.calls += 1
        return -self.k * sample["a"] ** 2 - sample["b"] / 4


def frame(e, n, tag=""):
    cols = {k: e.reals(k + tag, n, -2, 2) for k in ("a", "b", "log_likelihood", "log_prior")}
    return cols, pd.DataFrame({k: e.array(v) for k, v in cols.items()})


def make(e, n=3):
    cols, df = frame(e, n)
    z = e.real("lnz", -5, 5)
    pri = bp.PriorDict(dict(a=bp.Uniform(-5, 5), b=bp.Uniform(-5, 5)))
    res = br.Result(label="test", search_parameter_keys=["a", "b"], priors=pri, posterior=df, log_evidence=z,
                    meta_data=dict(m=1))
    return cols, z, res


def expected(cols, nl, ol, npr, opr):
    n = len(cols["a"])

    def like(k, i):
        return -k * (cols["a"][i] - 1) ** 2 + cols["b"][i]

    def prior(k, i):
        return -k * cols["a"][i] ** 2 - cols["b"][i] / 4
    o_l = [like(ol, i) if ol is not None else cols["log_likelihood"][i] for i in range(n)]
    n_l = [like(nl, i) if nl is not None else o_l[i] for i in range(n)]
    o_p = [prior(opr, i) if opr is not None else cols["log_prior"][i] for i in range(n)]
    n_p = [prior(npr, i) if npr is not None else o_p[i] for i in range(n)]
    return [n_l[i] + n_p[i] - o_l[i] - o_p[i] for i in range(n)], n_l, n_p, o_l, o_p


MODES = [("%d%d%d%d" % (a, b, c, d), (a, b, c, d)) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]


def given(e, mode):
    nl, ol, npr, opr = [e.real(k, 0, 2) if m else None for k, m in zip(("nl", "ol", "np", "op"), mode)]
    kw = dict(new_likelihood=Like(nl) if mode[0] else None, old_likelihood=Like(ol) if mode[1] else None,
              new_prior=Prior(npr) if mode[2] else None, old_prior=Prior(opr) if mode[3] else None)
    return (nl, ol, npr, opr), kw


@harness("C40", "weights", params=MODES)
def weights(e, mode):
    patch(e, br.multiprocessing, "Pool", Pool)
    cols, z, res = make(e)
    ks, kw = given(e, mode)
    got = br.get_weights_for_reweighting(res, **kw)
    want = expected(cols, *ks)
    for label, g, w in zip(("ln weights", "new log likelihood", "new log prior", "old log likelihood", "old log prior"), got, want):
        e.check_eq(label, g, w)
    for k in cols:
        e.check_eq("posterior untouched: " + k, res.posterior[k].to_numpy(), cols[k])


@harness("C40", "reweight", params=[m for m in MODES if m[0] in ("1000", "0010", "1111", "1101", "0000")], max_paths=2000)
def reweight(e, mode):
    patch(e, br.multiprocessing, "Pool", Pool)
    rng = use_rng(e)
    cols, z, res = make(e, 2)
    df, meta, pri = res.posterior, dict(res.meta_data), res.priors
    ks, kw = given(e, mode)
    lw, n_l, n_p, _, _ = expected(cols, *ks)
    new, w, g_nl, g_np, _, _ = br.reweight(res, verbose_output=True, **kw)
    e.check_eq("weights", w, [np.exp(v) for v in lw])
    top = max(w)
    u = rng.log
    e.check("one uniform number per sample", len(u) == 2)
    keep = [i for i in range(2) if bool(w[i] > u[i] * top)]
    e.check("number of samples kept", len(new.posterior) == len(keep))
    e.check("index restarts", list(new.posterior.index) == list(range(len(keep))))
    for j, i in enumerate(keep):
        row = new.posterior.iloc[j]
        e.check_eq("kept sample", [row["a"], row["b"]], [cols["a"][i], cols["b"][i]])
        e.check_eq("updated likelihood and prior of the kept sample", [row["log_likelihood"], row["log_prior"]], [n_l[i], n_p[i]])
    e.check_eq("evidence", new.log_evidence, z + np.log((np.exp(lw[0]) + np.exp(lw[1])) / 2))
    e.check("label", new.label == "test_reweighted")
    if mode[2]:
        e.check("priors of the new result", all(new.priors[k] == kw["new_prior"][k] for k in kw["new_prior"]))
    # the result that was passed in is left as it was
    e.check("same posterior object", res.posterior is df)
    for k in cols:
        e.check_eq("posterior of the input unchanged: " + k, df[k].to_numpy(), cols[k])
    e.check_eq("evidence of the input unchanged", res.log_evidence, z)
    e.check("meta data of the input unchanged", res.meta_data == meta)
    e.check("label of the input unchanged", res.label == "test")


@harness("C40", "new-priors")
def new_priors(e):
    """the priors of the reweighted result are updated, those of the input are not"""
    patch(e, br.multiprocessing, "Pool", Pool)
    use_rng(e)
    cols, z, res = make(e, 1)
    old = dict(res.priors)
    p = Prior(0.)
    lo = e.real("lo", -9, -6)
    p["a"] = bp.Uniform(lo, 6)
    p["c"] = bp.Uniform(0, 1)
    new = br.reweight(res, new_prior=p, label="other")
    e.check("label", new.label == "other")
    e.check_eq("new bound", new.priors["a"].minimum, lo)
    e.check("new keys", set(new.priors) == {"a", "b", "c"})
    e.check("old keys", set(res.priors) == {"a", "b"})
    e.check_eq("old bound", res.priors["a"].minimum, -5)


@harness("C40", "nested", max_paths=2000)
def nested(e):
    """reweighting the nested samples weights each of them by its nested-sampling weight"""
    patch(e, br.multiprocessing, "Pool", Pool)
    rng = use_rng(e)
    cols, z, res = make(e, 1)
    nc, ns = frame(e, 2, "n")
    w1 = e.real("w1", 0.01, 0.99)
    ns["weights"] = e.array([w1, 1 - w1])
    res.nested_samples = ns
    k = e.real("nl", 0, 2)
    lw = expected(nc, k, None, None, None)[0]
    new, w = br.reweight(res, new_likelihood=Like(k), use_nested_samples=True, verbose_output=True)[:2]
    want = [np.exp(lw[0]) * w1, np.exp(lw[1]) * (1 - w1)]
    e.check_eq("weights", np.array(w), want)
    e.check_eq("evidence", new.log_evidence, z + np.log(want[0] + want[1]))
    e.check_eq("nested samples of the input unchanged", res.nested_samples["log_likelihood"].to_numpy(), nc["log_likelihood"])
    e.check_eq("posterior of the input unchanged", res.posterior["a"].to_numpy(), cols["a"])


@harness("C40", "conversion")
def conversion(e):
    """the conversion function sees the new likelihood and prior and its result is kept"""
    patch(e, br.multiprocessing, "Pool", Pool)
    use_rng(e)
    cols, z, res = make(e, 1)
    seen = []

    def conv(df, likelihood, priors, npool=1):
        seen.append((likelihood, priors, npool))
        df = df.copy()
        df["c"] = df["a"] * 2
        return df

    def conv2(df, likelihood, priors):
        return conv(df, likelihood, priors)
    like, pri = Like(1.), Prior(1.)
    plain = e.choice("plain", [False, True])
    new = br.reweight(res, new_likelihood=like, new_prior=pri, conversion_function=conv2 if plain else conv, npool=3)
    e.check("arguments", seen == [(like, pri, 1 if plain else 3)])
    if len(new.posterior):
        e.check_eq("converted", new.posterior["c"].to_numpy(), [2 * cols["a"][0]])


@harness("C40", "rejection", max_paths=3000)
def rejection(e):
    rng = use_rng(e)
    v = e.reals("v", 3, -3, 3)
    w = [e.real("w%d" % i, 0, 4) for i in range(3)]
    e.assume((w[0] > 0) | (w[1] > 0) | (w[2] > 0))
    kind = e.choice("kind", ["array", "frame"])
    data = e.array(v) if kind == "array" else pd.DataFrame(dict(v=e.array(v)))
    got = br.rejection_sample(data, e.array(w))
    got = list(got if kind == "array" else got["v"].to_numpy())
    u = rng.log
    e.check("one uniform number per sample", len(u) == 3)
    top = max(w)
    keep = [i for i in range(3) if bool(w[i] > u[i] * top)]
    e.check("number kept", len(got) == len(keep))
    e.check_eq("samples kept", got, [v[i] for i in keep])


@harness("C40", "resume", params=[("n%d-fail%d-every%d%s" % (n, f, c, m[0]), (n, f, c, m[1])) for n, f in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2))
                                  for c in (1, 2) for m in [x for x in MODES if x[0] in ("1010", "0010", "1111")]])
def resume(e, arg):
    """a run interrupted at any prior evaluation and resumed gives what an uninterrupted run gives"""
    n, fail, every, mode = arg
    patch(e, br.multiprocessing, "Pool", Pool)
    cols, z, res = make(e, n)
    ks, kw = given(e, mode)
    kw["new_prior"].fail = fail
    d = tempfile.mkdtemp()
    e.on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    kw.update(resume_file=os.path.join(d, "resume.txt"), n_checkpoint=every)
    e.check("interrupted", e.raises(lambda: br.get_weights_for_reweighting(res, **kw), Crash) is not None)
    kw["new_prior"].fail = None
    got = br.get_weights_for_reweighting(res, **kw)
    want = expected(cols, *ks)
    for label, g, w in zip(("ln weights", "new log likelihood", "new log prior", "old log likelihood", "old log prior"), got, want):
        e.check_eq(label, g, w)
    # and once more, when nothing is left to be done
    again = br.get_weights_for_reweighting(res, **kw)
    e.check_eq("finished run", again[0], want[0])
