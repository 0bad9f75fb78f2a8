"""C31: MCMC proposals and the sampler's steps and swaps leave the tempered posteriors invariant."""
import types

import numpy as np

from bilby.core.prior import Gaussian, PowerLaw, PriorDict, Uniform, LogUniform
from bilby.bilby_mcmc import chain as mc, proposals as mp, sampler as ms
from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY
from bilby.core.utils import random as brandom
from symx.api import harness
from common import patch, use_rng
from priors_common import scalar

BOUNDS = ["one or two parameters, one step forth and one back, jumps of up to two widths of the prior",
          "chains of up to six samples; two internal steps; two or three temperatures; ensembles of three"]
OUTSIDE = ["Fisher-matrix and normalizing-flow proposals", "the fits of the density estimates (kernel densities, mixtures)",
           "that adaptation of scales and temperatures vanishes fast enough", "autocorrelation lengths", "floating-point rounding"]


class Draws:
    """random numbers of the forward step; `back` gives those of the step that undoes it"""

    def __init__(self, e, top=2.):
        self.e, self.top, self.log, self.replay, self.turn = e, top, [], None, {}

    def back(self, **turn):
        """start replaying, with draws of the given kinds transformed"""
        self.replay, self.turn = list(self.log), turn

    def one(self, kind, make):
        if self.replay is None:
            v = make()
            self.log.append((kind, v))
            return v
        k, v = self.replay.pop(0)
        assert k == kind
        return self.turn.get(kind, lambda x: x)(v)

    def many(self, size, f):
        if size is None:
            return f()
        n = int(np.prod(size))
        return self.e.array([f() for _ in range(n)])

    def normal(self, loc=0., scale=1., size=None):
        return self.many(size, lambda: loc + scale * self.one("normal", lambda: self.e.real("n%d" % len(self.log), -self.top, self.top)))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def uniform(self, low=0., high=1., size=None):
        return self.many(size, lambda: low + (high - low) * self.one("uniform", lambda: self.e.real("u%d" % len(self.log), 0, 1, shi=True)))

    def random(self, size=None):
        return self.uniform(size=size)

    def integers(self, low, high=None, size=None, **k):
        low, high = (0, low) if high is None else (low, high)
        return self.many(size, lambda: self.one("integer", lambda: self.e.int("i%d" % len(self.log), low, high - 1)))

    def choice(self, a, **k):
        a = list(range(a)) if isinstance(a, int) else list(a)
        return a[int(self.integers(len(a)))]


class Fake:
    """a chain at a given sample, with a queue of samples drawn from its past"""

    def __init__(self, at, past=()):
        self.at, self.past, self.position = at, list(past), 10

    @property
    def current_sample(self):
        return mc.Sample(dict(self.at))

    @property
    def random_sample(self):
        return mc.Sample(dict(self.past.pop(0)))


def draws(e, **k):
    d = Draws(e, **k)
    patch(e, brandom, "rng", d)
    return d


def rest(s):
    return dict(s, **{LOGLKEY: -1., LOGPKEY: -2.})


def start(e, pri):
    """a point of the prior's support"""
    out = {}
    for k, p in pri.items():
        lo, hi = (p.minimum, p.maximum) if np.isfinite(p.minimum) else (-3, 3)
        out[k] = e.real(k, lo, hi, shi=True, slo=p.boundary == "reflective")
    return out


def line(boundary, n=2):
    d = dict(a=Uniform(-1, 2, boundary=boundary), b=Uniform(0.5, 1.5, boundary=boundary))
    return PriorDict({k: d[k] for k in list(d)[:n]})


def inside(e, pri, s, label="in range"):
    for k, p in pri.items():
        if p.boundary is not None:
            e.check("%s: %s" % (label, k), (s[k] >= p.minimum - 1e-9) & (s[k] <= p.maximum + 1e-9))


def back(e, pri, prop, x, got, make=None):
    """the reverse step returns to the start"""
    for k in pri:
        w = pri[k].maximum - pri[k].minimum
        e.check_eq("%s returns to %s" % (prop, k), got[k], x[k], rtol=1e-8, atol=1e-8)


@harness("C31", "gaussian", params=[("%s %s" % (k, b), k, b) for k in ("fixed", "adaptive", "jump") for b in (None, "periodic")])
def gaussian(e, kind, boundary):
    """the opposite jump returns, so jumping there and back is equally likely"""
    d = draws(e)
    pri = line(boundary)
    p = dict(fixed=lambda: mp.FixedGaussianProposal(pri, sigma=dict(a=0.5, b=0.9)),
             adaptive=lambda: mp.AdaptiveGaussianProposal(pri, sigma=0.1, scale_init=3.),
             jump=lambda: mp.FixedJumpProposal(pri, jumps=dict(a=1., b=0.75), scale=0.25))[kind]()
    x = start(e, pri)
    there, lf = p(Fake(rest(x)))
    e.check_eq("factor", lf, 0.)
    inside(e, pri, there)
    e.check("likelihood and prior untouched", (there[LOGLKEY] == -1.) & (there[LOGPKEY] == -2.))
    moved = any(v is not None for _, v in d.log)
    e.check("random numbers are used", moved)
    d.back(normal=lambda n: -n, integer=lambda i: 1 - i)
    here, lf = p(Fake(rest({k: there[k] for k in x})))
    e.check_eq("factor back", lf, 0.)
    back(e, pri, kind, x, here)
    if boundary is None and kind == "fixed":
        n = [v for k, v in d.log]
        e.check_eq("jump", [there["a"] - x["a"], there["b"] - x["b"]], [1.5 * n[0], 0.9 * n[1]], rtol=1e-9)


@harness("C31", "reflective", params=[("fixed", "fixed"), ("jump", "jump")])
def reflective(e, kind):
    """at a mirror one of the two images of the jump returns"""
    d = draws(e)
    pri = line("reflective", 1)
    p = dict(fixed=lambda: mp.FixedGaussianProposal(pri, sigma=0.5),
             jump=lambda: mp.FixedJumpProposal(pri, jumps=1., scale=0.25))[kind]()
    x = start(e, pri)
    there, lf = p(Fake(rest(x)))
    inside(e, pri, there)
    ok = False
    for s in (1, -1):
        d.back(normal=lambda n: s * n, integer=lambda i: i if s == 1 else 1 - i)
        here, lf = p(Fake(rest({k: there[k] for k in x})))
        ok = (abs(here["a"] - x["a"]) <= 1e-8) | ok
    e.check("one of the jumps returns", ok)


@harness("C31", "infinite", params=[("fixed", "fixed"), ("adaptive", "adaptive"), ("uniform", "uniform")])
def infinite(e, kind):
    """unbounded priors count as of unit width; other parameters stay"""
    d = draws(e)
    pri = PriorDict(dict(a=Gaussian(0, 1), b=Uniform(0, 1), c=3.))
    p = dict(fixed=lambda: mp.FixedGaussianProposal(pri, subset=["a"], sigma=0.5),
             adaptive=lambda: mp.AdaptiveGaussianProposal(pri, subset=["a"], sigma=0.5),
             uniform=lambda: mp.UniformProposal(pri))[kind]()
    x = start(e, PriorDict(dict(a=pri["a"], b=pri["b"])))
    there, lf = p(Fake(rest(x)))
    e.check_eq("factor", lf, 0.)
    if kind == "uniform":
        e.check_eq("a stays", there["a"], x["a"])
        e.check_eq("b is drawn", there["b"], [v for k, v in d.log][0])
        return
    e.check_eq("b stays", there["b"], x["b"])
    if kind == "fixed":
        e.check_eq("a", there["a"], x["a"] + 0.5 * d.log[0][1], rtol=1e-9)
    else:
        f = 10. if bool(d.log[0][1] < 1e-3) else 100. if bool(d.log[1][1] < 1e-4) else 1.
        e.check_eq("a", there["a"], x["a"] + f * 0.5 * d.log[-1][1], rtol=1e-9)


@harness("C31", "uniform")
def uniform(e):
    """every point of the support is equally likely, wherever the chain is"""
    d = draws(e)
    pri = line(None)
    p = mp.UniformProposal(pri)
    x = start(e, pri)
    there, lf = p(Fake(rest(x)))
    e.check_eq("factor", lf, 0.)
    e.check("two draws", len(d.log) == 2)
    for k, (_, u) in zip(x, d.log):
        e.check_eq(k, there[k], pri[k].minimum + u * (pri[k].maximum - pri[k].minimum), rtol=1e-9)


@harness("C31", "adaptation")
def adaptation(e):
    """the scale grows after acceptances, shrinks after rejections, never below its floor, and stays from `stop` on"""
    draws(e)
    pri = line(None, 1)
    p = mp.AdaptiveGaussianProposal(pri, sigma=0.5, scale_init=1., stop=32, target_facc=0.25)
    s = p.scale = e.real("scale", 1 / 32, 3)
    p.accepted = a = e.choice("accepted", [0, 1, 5, 20])
    p.rejected = r = e.choice("rejected", [0, 1, 12, 27])
    p._last_accepted = last = e.choice("last", [0, 1, 5, 20])
    e.assume(last <= a)
    p(Fake(rest(dict(a=e.real("a", -1, 2)))))
    n = a + r
    if n == 0 or n >= 32:
        e.check_eq("scale", p.scale, s, rtol=1e-9)
        return
    g = (32 / n) ** 0.2 - 1
    new = s + g * 0.75 / 100 if a > last else s - g * 0.25 / 100
    e.check_eq("scale", p.scale, new if bool(new >= 1 / 32) else 1 / 32, rtol=1e-9)


@harness("C31", "differential", params=[("none", None), ("periodic", "periodic")])
def differential(e, boundary):
    """exchanging the two past samples returns"""
    d = draws(e)
    pri = line(boundary)
    p = mp.DifferentialEvolutionProposal(pri, mode_hopping_frac=e.choice("frac", [0.5, 1.]) if boundary is None else 0.)
    x, y, z = start(e, pri), {k: e.real(k + "1", pri[k].minimum, pri[k].maximum) for k in pri}, {k: e.real(k + "2", pri[k].minimum, pri[k].maximum) for k in pri}
    there, lf = p(Fake(rest(x), [rest(y), rest(z)]))
    e.check_eq("factor", lf, 0.)
    inside(e, pri, there)
    if boundary is None and len(d.log) == 1:
        for k in x:
            e.check_eq("whole step " + k, abs(there[k] - x[k]), abs(z[k] - y[k]), rtol=1e-9)
    d.back()
    here, lf = p(Fake(rest({k: there[k] for k in x}), [rest(z), rest(y)]))
    e.check_eq("factor back", lf, 0.)
    back(e, pri, "", x, here)


@harness("C31", "prior")
def prior(e):
    """drawing from the prior is compensated for by the prior's densities"""
    pri = PriorDict(dict(a=PowerLaw(alpha=1, minimum=1, maximum=2), b=LogUniform(1, 3), c=Uniform(0, 1)))
    p = mp.PriorProposal(pri, subset=["a", "b"])
    x = dict(a=e.real("a", 1, 2), b=e.real("b", 1, 3), c=e.real("c", 0, 1))
    y = dict(a=e.real("a1", 1, 2), b=e.real("b1", 1, 3))
    patch(e, p.priors, "sample", lambda *a, **k: dict(y))
    there, lf = p(Fake(rest(x)))
    e.check_eq("drawn", [there["a"], there["b"]], [y["a"], y["b"]])
    e.check_eq("others stay", there["c"], x["c"])
    # the densities are proportional to a and to 1 / b
    e.check_eq("factor", np.exp(lf), x["a"] / x["b"] * there["b"] / there["a"], rtol=1e-8)


class Density:
    """a given density: its logarithm and its draws"""

    def __init__(self, e, n):
        self.e, self.n, self.new = e, n, e.reals("new", n, -1, 1)

    def log(self, v):
        return sum((i + 1) * t * t for i, t in enumerate(v)) - 1

    logpdf = lambda self, v: self.e.array([self.log([scalar(t) for t in v])])          # noqa: E731
    score_samples = lambda self, v: self.e.array([self.log(list(v[0]))])               # noqa: E731

    def resample(self, n=None):
        return self.e.array(list(self.new)).reshape(self.n, 1)

    def sample(self, n_samples=1):
        return self.e.array(list(self.new)).reshape(1, self.n), None


@harness("C31", "density", params=[("%s %d" % (k, n), k, n) for k in ("kde", "gmm") for n in (1, 2)])
def density(e, kind, n):
    """drawing from an estimate of the density is compensated for by that estimate"""
    d = draws(e)
    pri = line(None, n)
    p = dict(kde=mp.KDEProposal, gmm=mp.GMMProposal)[kind](pri)
    p.trained, p.density = True, Density(e, n)
    x = start(e, pri)
    there, lf = p(Fake(rest(x)))
    e.check_eq("draw", [there[k] for k in x], list(p.density.new), rtol=1e-12)
    e.check_eq("factor", scalar(lf), p.density.log(list(x.values())) - p.density.log(list(p.density.new)), rtol=1e-9)


@harness("C31", "refit", params=[("%s %d" % (k, n), k, n) for k in ("kde", "gmm") for n in (1, 2)])
def refit(e, kind, n):
    """an estimate is taken up if its draws spread, in every parameter, at least a tenth as widely as the chain"""
    draws(e)
    pri = line(None, n)
    p = dict(kde=mp.KDEProposal, gmm=mp.GMMProposal)[kind](pri, first_fit=1)
    wide = [e.choice("wide%d" % i, [True, False]) for i in range(n)]
    m, old = 40, object()
    p.density = old

    class Fit:
        def resample(self, n=None):
            return np.array([[(100. * i + (1. if wide[i] else 1e-3) * (j % 5)) for j in range(int(n))] for i in range(len(wide))])

        def sample(self, n_samples=1):
            return self.resample(n_samples).T, None
    seen = []
    patch(e, p, "_fit", lambda data: seen.append(np.shape(data)) or Fit())
    names = list(pri)
    past = [rest({k: 100. * i + (j % 7) for i, k in enumerate(names)}) for j in range(2 * m)]
    ch = Fake(rest({k: 0.5 for k in names}), past)
    ch.position = m
    p.refit(ch)
    e.check("data", seen == [(n, m)])
    e.check("trained", bool(p.trained) == all(wide))
    e.check("density", (p.density is not old) == all(wide))


@harness("C31", "fallback", params=[("untrained", "untrained"), ("failing", "failing")])
def fallback(e, kind):
    """without an estimate the fallback proposes"""
    d = draws(e)
    pri = line("periodic", 1)
    p = mp.KDEProposal(pri, first_fit=1 if kind == "failing" else 1000)

    def no(*a):
        raise ValueError("no fit")
    patch(e, p, "_fit", no)
    x = start(e, pri)
    there, lf = p(Fake(rest(x), [rest(dict(a=0.))] * 40))
    e.check_eq("factor", lf, 0.)
    inside(e, pri, there)
    d.back(normal=lambda n: -n)
    p.first_fit = p.next_refit_time = 1000
    here, lf = p(Fake(rest({k: there[k] for k in x})))
    back(e, pri, kind, x, here)


def angles(phase="phase"):
    return PriorDict({phase: Uniform(0, 2 * np.pi, boundary="periodic"), "psi": Uniform(0, np.pi, boundary="periodic")})


@harness("C31", "reversal", params=[("%s %s" % (k, f), k, f) for k in ("phase", "psi", "both") for f in ("fuzz", "exact")])
def reversal(e, kind, fuzz):
    """reversing twice returns"""
    d = draws(e)
    pri = angles(e.choice("key", ["phase", "delta_phase"]))
    cls = dict(phase=mp.PhaseReversalProposal, psi=mp.PolarisationReversalProposal, both=mp.PhasePolarisationReversalProposal)[kind]
    p = cls(pri, fuzz=fuzz == "fuzz", fuzz_sigma=0.25) if fuzz == "fuzz" else cls(pri, fuzz=False)
    x = start(e, pri)
    there, lf = p(Fake(rest(x)))
    e.check_eq("factor", lf, 0.)
    inside(e, pri, there)
    key = list(pri)[0]
    if kind == "phase":
        e.check_eq("psi stays", there["psi"], x["psi"])
    if kind == "psi":
        e.check_eq("phase stays", there[key], x[key])
    if fuzz == "exact":
        if kind != "psi":
            e.check_eq("half a turn", abs(there[key] - x[key]), np.pi, rtol=1e-9)
        if kind != "phase":
            e.check_eq("half a period", abs(there["psi"] - x["psi"]), np.pi / 2, rtol=1e-9)
    d.back(normal=lambda n: -n)
    here, lf = p(Fake(rest({k: there[k] for k in x})))
    e.check_eq("factor back", lf, 0.)
    back(e, pri, kind, x, here)


@harness("C31", "correlated", params=[("phase", "phase", 0), ("facing", "delta_phase", 1.), ("away", "delta_phase", -1.)])
def correlated(e, key, cos):
    """moves along the degenerate lines can be undone by another draw of the same density"""
    d = draws(e)
    pri = angles(key)
    if cos:
        pri["cos_theta_jn"] = Uniform(-1, 1)
    p = mp.CorrelatedPolarisationPhaseJump(pri)
    x = start(e, angles(key))
    if cos:
        x["cos_theta_jn"] = cos * 0.5

    def go(at, r, wrap=True):
        """the proposal for the second draw r"""
        c = Fake(rest(at))
        d.replay, d.turn = [d.log[0], ("uniform", r)], {}
        s, lf = (p if wrap else p.propose)(c)
        e.check_eq("factor", lf, 0.)
        return s
    first = e.real("which", 0, 1, shi=True)
    r = e.real("draw", 0, 1, shi=True)
    d.log = [("uniform", first)]
    there = go(x, r)
    inside(e, angles(key), there)
    y = {k: there[k] for k in x}
    z, o = go(y, 0., False), go(y, 1., False)
    z0, o0 = go(x, 0., False), go(x, 1., False)
    slope = o["psi"] - z["psi"]
    e.check_eq("density", [slope, o[key] - z[key]], [o0["psi"] - z0["psi"], o0[key] - z0[key]], rtol=1e-9)
    e.check("moves", abs(slope) > 1e-3)
    ok = False
    for j in range(-4, 5):
        q = (x["psi"] - z["psi"] + j * np.pi) / slope
        turns = (z[key] + q * (o[key] - z[key]) - x[key]) / (2 * np.pi)
        whole = False
        for t in range(-4, 5):
            whole = (abs(turns - t) < 1e-9) | whole
        ok = ((q >= -1e-9) & (q < 1 + 1e-9) & whole) | ok
    e.check("some draw returns", ok)


@harness("C31", "stretch", params=[("own 2", "own", 2), ("ensemble 2", "ensemble", 2), ("own 1", "own", 1), ("ensemble 1", "ensemble", 1)])
def stretch(e, kind, n):
    """the affine-invariant stretch, with its power of the stretch as factor; the inverse stretch returns"""
    d = draws(e)
    pri = line("periodic" if n == 1 else None, n)
    a = e.real("scale", 1.5, 3)
    p = (mp.StretchProposal if kind == "own" else mp.EnsembleStretch)(pri, scale=a)
    x = start(e, pri)
    c = [{k: e.real("%s%d" % (k, i), pri[k].minimum, pri[k].maximum) for k in x} for i in range(2 if kind == "ensemble" else 1)]

    def go(at):
        if kind == "own":
            return p(Fake(rest(at), [rest(c[0])]))
        return p(Fake(rest(at)), [Fake(rest(s)) for s in c])
    there, lf = go(x)
    who = int(d.log[0][1]) if kind == "ensemble" else 0
    u = d.log[-1][1]
    w = u * (a - 1) + 1
    for k in x:
        e.check_eq("stretch " + k, there[k], c[who][k] + (x[k] - c[who][k]) * w * w / a, rtol=1e-8)
    e.check_eq("factor", np.exp(lf), w * w / a if n == 2 else 1., rtol=1e-8)
    d.back(uniform=lambda u: (a / w - 1) / (a - 1))
    here, lf2 = go({k: there[k] for k in x})
    back(e, pri, kind, x, here)
    e.check_eq("factors cancel", np.exp(lf) * np.exp(lf2), 1., rtol=1e-8)


# ---------------------------------------------------------------------- the sampler
class Like:
    def __init__(self, f):
        self.parameters, self.f = {}, f

    def log_likelihood(self):
        return self.f(self.parameters)

    def log_likelihood_ratio(self):
        return self.f(self.parameters) + 7.

    def noise_log_likelihood(self):
        return -7.


class Pri(dict):
    """priors with a given density"""
    non_fixed_keys = ["a"]

    def __init__(self, f, at):
        self.f, self.at = f, at

    def sample(self):
        return dict(self.at)

    def ln_prob(self, s, normalized=True, axis=None):
        return self.f(s)


class Prop:
    """proposals which add the next of the given steps"""
    accepted = rejected = 0

    def __init__(self, steps):
        self.steps = list(steps)

    def __call__(self, ch, *a, **k):
        s = ch.current_sample
        d, lf = self.steps.pop(0)
        s["a"] = s["a"] + d
        return s, lf


class Cycle(mp.ProposalCycle):
    def __init__(self, p):
        self.proposal_list, self.p = [p], p

    def get_proposal(self):
        return self.p


cycle = Cycle


def sampler(e, at, p, beta=1., lnl=None, lnp=None, L1=1, T=0, use_ratio=False):
    dump = ms._sampling_convenience_dump
    patch(e, dump, "likelihood", Like(lnl or (lambda q: 2 * q["a"])))
    patch(e, dump, "priors", Pri(lnp or (lambda q: q["a"] * 3 - 1), dict(a=at)))
    patch(e, dump, "use_ratio", use_ratio)
    small = mc.Chain
    patch(e, ms, "Chain", lambda *a, **k: small(*a, **dict(dict(block_length=3), **k)))
    ci = ms.ConvergenceInputs(**dict({k: 1 for k in ms.ConvergenceInputs._fields}, L1steps=L1, target_nsamples=100,
                                     stop_after_convergence=False, fixed_tau=None, tau_window=None))
    return ms.BilbyMCMCSampler(convergence_inputs=ci, proposal_cycle=cycle(p), beta=beta, Tindex=T, use_ratio=use_ratio)


@harness("C31", "step", params=[("prior", "prior"), ("likelihood", "likelihood"), ("ratio", "ratio")])
def step(e, kind):
    """a step is accepted with probability min(1, factor times the ratio of tempered posteriors), else the sample is repeated"""
    d = draws(e)
    beta = e.choice("beta", [1., 0.25])
    x = e.real("x", -1, 1)
    steps = [(e.real("d%d" % i, -1, 1), e.real("f%d" % i, -1, 1)) for i in range(2)]
    bad = e.choice("bad", [None, np.inf, -np.inf, np.nan]) if kind != "ratio" else None
    count = [0]

    def f(q, a, b):
        return a * q["a"] + b
    calls = dict(l=0, p=0)

    def lnl(q):
        calls["l"] += 1
        if kind == "likelihood" and bad is not None and calls["l"] == 2:
            return bad
        return f(q, 2., 1.)

    def lnp(q):
        calls["p"] += 1
        if kind == "prior" and bad is not None and calls["p"] == 2:
            return bad
        return f(q, 3., -1.)
    p = Prop(steps)
    s = sampler(e, x, p, beta, lnl, lnp, L1=2, use_ratio=kind == "ratio")
    shift = 7. if kind == "ratio" else 0.
    e.check_eq("start", [s.chain[0]["a"], s.chain[0][LOGLKEY], s.chain[0][LOGPKEY]], [x, f(dict(a=x), 2., 1.) + shift, f(dict(a=x), 3., -1.)], rtol=1e-9)
    e.check("returns itself", s.step() is s)
    at, u, acc = x, [v for _, v in d.log], 0
    for i, (dx, lf) in enumerate(steps):
        if bad is not None and i == 0:
            continue
        new = at + dx
        if bool(u.pop(0) <= np.exp(lf + (2 * beta + 3) * dx)):
            at, acc = new, acc + 1
    e.check("one sample is added", s.chain.position == 1)
    got = s.chain[-1]
    e.check_eq("sample", [got["a"], got[LOGLKEY], got[LOGPKEY]], [at, f(dict(a=at), 2., 1.) + shift, f(dict(a=at), 3., -1.)], rtol=1e-9)
    cur = s.chain.current_sample
    e.check_eq("current", [cur["a"], cur[LOGLKEY], cur[LOGPKEY]], [at, f(dict(a=at), 2., 1.) + shift, f(dict(a=at), 3., -1.)], rtol=1e-9)
    e.check("first sample stays", bool(s.chain[0]["a"] == x))
    e.check("counts", (s.accepted, s.rejected, p.accepted, p.rejected) == (acc, 2 - acc, acc, 2 - acc))


def pt(e, grid, **k):
    """a parallel-tempered sampler of given chains"""
    s = ms.BilbyPTMCMCSampler.__new__(ms.BilbyPTMCMCSampler)
    s.sampler_dictionary = {t: list(v) for t, v in enumerate(grid)}
    s.ntemps, s.nensemble = len(grid), len(grid[0])
    for a, b in k.items():
        setattr(s, a, b)
    return s


@harness("C31", "swap", params=[("two", 2, 1), ("three", 3, 1), ("ensemble", 2, 2), ("first only", 2, 2)])
def swap(e, nt, ne):
    """neighbouring temperatures exchange their samples with the ratio of posteriors' probability, and go on from them"""
    d = draws(e)
    betas = [1., 0.5, 0.125][:nt]
    x = [[e.real("x%d%d" % (t, i), -1, 1) for i in range(ne)] for t in range(nt)]
    grid = [[sampler(e, x[t][i], Prop([(0.5, 100.)]), betas[t], T=t) for i in range(ne)] for t in range(nt)]
    both = ne == 1 or e.choice("pt_ensemble", [True, False])
    s = pt(e, grid, pt_ensemble=both)
    s.swap_tempered_chains()
    u = [v for _, v in d.log]
    now = [list(r) for r in x]
    acc = [[0, 0] for _ in range(nt)]
    for i in range(ne if both else 1):
        for t in range(nt - 1):
            if bool(u.pop(0) <= np.exp((betas[t + 1] - betas[t]) * 2 * (now[t][i] - now[t + 1][i]))):
                now[t][i], now[t + 1][i] = now[t + 1][i], now[t][i]
                acc[t][i] += 1
    for t in range(nt):
        for i in range(ne):
            c = s.sampler_dictionary[t][i].chain
            e.check("length", c.position == 0)
            for label, v in (("recorded", c[-1]), ("goes on from", c.current_sample)):
                e.check_eq("%s %d" % (label, t), [v["a"], v[LOGLKEY], v[LOGPKEY]], [now[t][i], 2 * now[t][i], 3 * now[t][i] - 1], rtol=1e-9)
            if t < nt - 1:
                e.check("counts", s.sampler_dictionary[t][i].pt_accepted == acc[t][i] and
                        s.sampler_dictionary[t][i].pt_accepted + s.sampler_dictionary[t][i].pt_rejected == (1 if i == 0 or both else 0))
            e.check("temperature stays", s.sampler_dictionary[t][i].beta == betas[t])


@harness("C31", "ensemble")
def ensemble(e):
    """an ensemble's members step in turn, relative to the present others"""
    d = draws(e)
    beta = e.choice("beta", [1., 0.25])
    x = [e.real("x%d" % i, -1, 1) for i in range(3)]
    bad = e.choice("bad", [None, 0, 2])
    calls = [0]

    def lnp(q):
        calls[0] += 1
        return -np.inf if bad is not None and calls[0] == 4 + bad else q["a"] * 3 - 1
    row = [sampler(e, v, Prop([]), beta, lnp=lnp) for v in x]
    steps = [(e.real("d%d" % i, -1, 1), e.real("f%d" % i, -1, 1)) for i in range(3)]
    seen = []

    class P(Prop):
        def __call__(self, ch, others):
            seen.append([c.current_sample["a"] for c in others])
            return super().__call__(ch)
    p = P(steps)
    s = pt(e, [row], ensemble_proposal_cycle=cycle(p))
    s.ensemble_step()
    u, now, acc = [v for _, v in d.log], list(x), 0
    for i, (dx, lf) in enumerate(steps):
        e.check_eq("others", list(seen[i]), [now[j] for j in range(3) if j != i], rtol=1e-12)
        if bad != i and bool(u.pop(0) <= np.exp(lf + (2 * beta + 3) * dx)):
            now[i] = now[i] + dx
            acc += 1
    for i in range(3):
        c = s.sampler_dictionary[0][i].chain
        e.check("length", c.position == 1)
        e.check_eq("sample %d" % i, [c[-1]["a"], c.current_sample["a"], c[-1][LOGLKEY], c[0]["a"]], [now[i], now[i], 2 * now[i], x[i]], rtol=1e-9)
    e.check("counts", (p.accepted, p.rejected) == (acc, 3 - acc))


@harness("C31", "chain")
def chain(e):
    """a chain is the list of the samples appended, with replacements"""
    n = 5
    x = e.reals("x", n, -1, 1)
    l = e.reals("l", n, -5, 5)

    def sam(i):
        return mc.Sample({"a": x[i], "b": 2 * x[i], LOGLKEY: l[i], LOGPKEY: 1. * i})
    c = mc.Chain(sam(0), block_length=2)
    for i in range(1, n):
        c.append(sam(i))
    e.check("position", c.position == n - 1)
    for i in range(n):
        for j in (i, i - n):
            s = c[j]
            e.check_eq("sample", [s["a"], s["b"], s[LOGLKEY], s[LOGPKEY]], [x[i], 2 * x[i], l[i], i])
    e.check_eq("array", list(c.get_1d_array("b")), [2 * v for v in x])
    e.check_eq("current", c.current_sample["a"], x[n - 1])
    top = l[0]
    for v in l[1:]:
        top = v if bool(v > top) else top
    e.check_eq("maximum", c.max_log_likelihood, top)
    s = c.current_sample
    s["a"] = 9.
    e.check_eq("a copy", c.current_sample["a"], x[n - 1])
    k = e.choice("where", [0, 2, -1])
    y = e.real("y", -1, 1)
    c[k] = mc.Sample({"a": y, "b": 0., LOGLKEY: 1., LOGPKEY: 2.})
    want = list(x)
    want[k] = y
    e.check_eq("replaced", list(c.get_1d_array("a")), want)
    e.check_eq("current after", c.current_sample["a"], want[-1])
    e.check("past the end", bool(e.raises(lambda: c[n], Exception)))
    use_rng(e)
    got = c.random_sample["a"]
    i = int(e.rng.log[0])
    e.check_eq("past sample", got, want[i])


@harness("C31", "maximum", params=[("one", 1.), ("half", 0.5)])
def maximum(e, beta):
    """the first sample maximises the tempered posterior among the points of the prior"""
    dump = ms._sampling_convenience_dump
    pts = e.reals("p", 3, -1, 1)
    w = e.choice("out", [None, 0, 1])
    bad = pts[w] if w is not None else None
    patch(e, dump, "likelihood", Like(lambda q: 2 * q["a"]))
    pr = Pri(lambda q: -np.inf if bad is not None and q["a"] is bad else 3 * q["a"] - 1, dict(a=0.))
    pr["a"] = Uniform(-1, 1)
    patch(e, dump, "priors", pr)
    patch(e, dump, "search_parameter_keys", ["a"])
    seen = {}

    def de(f, bounds, **k):
        seen["bounds"] = list(bounds)
        best, val = None, None
        for p in pts:
            v = f([p])
            if val is None or bool(v < val):
                best, val = p, v
        return types.SimpleNamespace(success=True, x=[best])
    patch(e, ms, "differential_evolution", de)
    got = ms.get_initial_maximimum_posterior_sample(beta)["a"]
    e.check("bounds", seen["bounds"] == [(-1, 1)])
    for i, p in enumerate(pts):
        if i != w:
            e.check_le("at least as good", p, got)
    e.check("inside", bad is None or bool(got is not bad))


@harness("C31", "evidence", params=[("stepping stone", "stone"), ("thermodynamic", "thermo"), ("method", "method")])
def evidence(e, kind):
    """the sum of the log mean likelihood ratios, or the integral of the mean log likelihood over inverse temperature"""
    s = ms.BilbyPTMCMCSampler.__new__(ms.BilbyPTMCMCSampler)
    nt, n = 3, 3
    betas = [0., 0.5, 1.]
    w = [[e.pos("w%d%d" % (i, t), 4, lo=0.25) for t in range(nt)] for i in range(n)]
    if kind == "stone":      # likelihoods w squared
        lz, ratios = s._calculate_stepping_stone(np.array(betas), e.array([[2 * np.log(v) for v in r[:2]] for r in w]))
        want = 1.
        for t in range(nt - 1):
            m = sum(w[i][t] for i in range(n)) / n
            e.check_eq("ratio", np.exp(ratios[t]), m, rtol=1e-8)
            want = want * m
        e.check_eq("evidence", np.exp(lz), want, rtol=1e-8)
        return
    lnl = e.reals("l", nt, -3, 3)
    if kind == "thermo":
        b = [0., e.real("beta", 0.1, 0.9), 1.]
        lz, err = s._compute_evidence_from_mean_lnlikes(e.array(b), e.array(list(lnl)))
        want = sum((b[i + 1] - b[i]) * (lnl[i] + lnl[i + 1]) / 2 for i in range(2))
        e.check_eq("evidence", lz, want, rtol=1e-9)
        e.check_eq("error", err, abs(want - (lnl[0] + lnl[2]) / 2), rtol=1e-8)
        return
    import scipy.stats
    patch(e, scipy.stats, "sem", lambda v: 0.)
    ptc = []
    data = [e.reals("v%d" % t, 3, -3, 3) for t in range(nt)]
    mi = e.choice("discard", [0, 1])
    for t in range(nt):      # hottest last
        ch = types.SimpleNamespace(get_1d_array=lambda k, t=t: e.array(list(data[t])), minimum_index=mi)
        ptc.append(types.SimpleNamespace(chain=ch, beta=betas[::-1][t], Eindex=0))
    lz, err = s.thermodynamic_integration_evidence(ptc, "none", "none", make_plots=False)
    mean = [sum(data[t][mi:]) / (3 - mi) for t in range(nt)][::-1]
    e.check_eq("evidence", lz, (mean[0] + 2 * mean[1] + mean[2]) / 4, rtol=1e-9)


@harness("C31", "cycle")
def cyc(e):
    """proposals take turns, in the drawn order, for ever"""
    use_rng(e)
    ps = [types.SimpleNamespace(weight=w) for w in (1, 1)]
    patch(e, e.rng, "choice", lambda a, p=None, **k: picks.append(list(p)) or a[len(picks) % 2])
    picks = []
    c = mp.ProposalCycle(ps)
    e.check("weights", all(abs(v - 0.5) < 1e-12 for p in picks for v in p))
    e.check("length", c.nproposals == len(picks) == len(c.weighted_proposal_list) == 20)
    p0 = e.choice("position", [0, 7, 19])
    c.position = p0
    for i in range(3):
        e.check("turn", c.get_proposal() is c.weighted_proposal_list[(p0 + i) % 20])


@harness("C31", "reweighting", params=[("ratio", True), ("likelihood", False)])
def reweighting(e, ratio):
    """hot samples are weighted by the rest of the likelihood; the chain keeps its record"""
    beta = e.choice("beta", [0.5, 0.25])
    w = [e.pos("w%d" % i, 4, lo=0.25) for i in range(3)]      # likelihoods w to the fourth
    s = sampler(e, 0., Prop([]), beta, use_ratio=ratio)
    l = [4 * np.log(v) for v in w]
    c = mc.Chain(mc.Sample({"a": 0., LOGLKEY: l[0], LOGPKEY: 0.}), block_length=6)
    for i in (1, 2, 2):
        c.append(mc.Sample({"a": 1. * i, LOGLKEY: l[i], LOGPKEY: 0.}))
    c._last_minimum_index = (3, 0, "I")
    s.chain = c
    seen = []
    patch(e, ms, "rejection_sample", lambda h, p: seen.append((h, p)) or h)
    got = s.rejection_sample_zero_temperature_samples()
    e.check("used", len(seen) == 1 and len(got) == 3)
    p = [scalar(v) for v in list(seen[0][1])]
    k = int(4 * (1 - beta))
    for i in range(3):
        for j in range(i):
            e.check_eq("weights", p[i] * w[j] ** k, p[j] * w[i] ** k, rtol=1e-8)
    e.check_eq("record", list(c.get_1d_array(LOGLKEY)), [l[0], l[1], l[2], l[2]], rtol=1e-9)
    if not ratio:
        e.check_eq("values", [scalar(v) for v in got[LOGLKEY]], l, rtol=1e-9)


@harness("C31", "temperatures", params=[("three", 3), ("four", 4)])
def temperatures(e, n):
    """the ladder keeps its ends and its order, and opens where swaps are accepted more often than above"""
    h = e.real("beta", 0.2, 0.9)
    b = [1., h, h / 2][:n - 1] + [0.]
    r = e.reals("r", n, 0, 1)
    grid = [[types.SimpleNamespace(beta=v, acceptance_ratio=a, chain=types.SimpleNamespace(minimum_index_adapt=0, position=11))] for v, a in zip(b, r)]
    s = pt(e, grid, swap_counter=dict(temperature=e.choice("swaps", [0, 100])), adapt_t0=100, adapt_nu=10, pt_ensemble=False)
    s.adapt_temperatures()
    new = [g[0].beta for g in grid]
    e.check_eq("ends", [new[0], new[-1]], [1., 0.])
    k = 0.1 * (1. if s.swap_counter["temperature"] == 0 else 0.5)
    t = 1.
    for i in range(1, n - 1):
        gap = (1 / b[i] - 1 / b[i - 1]) * np.exp(k * (r[i - 1] - r[i]))
        e.check_eq("gap %d" % i, 1 / new[i] - t, gap, rtol=1e-8)
        t = t + gap
    e.check("burn-in restarts", s.primary_sampler.chain.minimum_index_adapt == 11)
