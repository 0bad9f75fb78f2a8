"""C28: the gravitational-wave likelihood, its marginalised forms, and the reconstruction of marginalised parameters."""
import types

import numpy as np
from scipy.special import i0e

import bilby
from bilby.core.prior import Uniform, PowerLaw, Sine
from bilby.gw.detector import calibration, interferometer, networks
from bilby.gw.likelihood import base, basic
from bilby.gw.likelihood import GravitationalWaveTransient, BasicGravitationalWaveTransient
from symx.api import harness
from common import patch, use_rng
import gw_common as gc
from c26 import build, inner, project, ri, sky

BOUNDS = ["one or two detectors, 3 to 5 frequency bins; data, signals, noise power, times and jitter symbolic",
          "2 or 3 calibration draws, 2 to 4 times, 3 distances, a 2 by 3 distance table"]
OUTSIDE = ["the waveform model", "the accuracy of the interpolated distance table and of the grids of times, distances and phases",
           "the Bessel function itself (taken as given)", "reduced order quadrature", "floating-point rounding",
           "LALSimulation"]


class Waves:
    """a waveform generator that returns given polarizations scaled by distance and turned by phase"""

    def __init__(self, ifos, fs, pols, none=False):
        self.duration, self.sampling_frequency, self.start_time = None, fs, None
        self.pols, self.none, self.asked = pols, none, []
        self.waveform_arguments = {}
        self.frequency_domain_source_model = self.time_domain_source_model = self.parameter_conversion = None

    def frequency_domain_strain(self, parameters=None):
        self.asked.append(dict(parameters))
        if self.none:
            return None
        s = 1 / parameters.get("luminosity_distance", 1)
        return {k: v * s for k, v in self.pols.items()}


def unwrap(e):
    """let the signal-to-noise ratios carry symbolic numbers"""
    if e.symbolic:
        g = GravitationalWaveTransient._CalculatedSNRs.__init__.__globals__
        old = {k: g[k] for k in g if k.startswith("__attr_converter_")}
        g.update({k: (lambda x: x) for k in old})
        e.on_cleanup(lambda: g.update(old))


# ---------------------------------------------------------------- without marginalisation

@harness("C28", "ratio", params=[("one", 1), ("two", 2)], budget=300)
def ratio(e, n):
    """log likelihood ratio = sum over detectors of Re<d,h> - <h,h>/2; the noise evidence is -<d,d>/2"""
    S, w, tau = [4., 1., 0.25, 1., 4.], 1, [0., 0.]
    if n == 1:
        S, w, tau = e.reals("S", 5, 0.5, 4), e.real("w", 0.5, 1), e.reals("tau", n, -0.02, 0.02)
    L, prod, _, s = setup(e, n, free=("d", "h"), S=S, w=w, taus=tau, none=e.choice("waveform", [False, True]) if n == 1 else False)
    wg = L.waveform_generator
    e.check("the waveform generator takes the times of the data", wg.duration == s.T and wg.start_time == s.start
            and wg.sampling_frequency == s.fs)
    p = extrinsic(geocent_time=s.start)
    L.parameters.update(p)
    noise = -sum(4 / s.T / (S[q] * w) * (np.real(s.data[i][q])**2 + np.imag(s.data[i][q])**2)
                 for i in range(n) for q in range(N + 1) if s.masks[i][q]) / 2
    e.check_eq("noise evidence", L.noise_log_likelihood(), noise, rtol=1e-9, atol=1e-9)
    got = L.log_likelihood_ratio()
    if wg.none:
        e.check("no waveform", got < -1e300)
        return
    parts = [np.real(dh) - hh / 2 for dh, hh in [prod(0, det=i) for i in range(n)]]
    e.check_eq("ratio", got, sum(parts), rtol=1e-9, atol=1e-9)
    e.check_eq("likelihood", L.log_likelihood(), sum(parts) + noise, rtol=1e-9, atol=1e-9)
    e.check_eq("the parameters are those asked for", [L.parameters[k] for k in p], list(p.values()))
    per = L.compute_per_detector_log_likelihood()
    e.check_eq("per detector", [per["X%i_log_likelihood" % i] for i in range(n)], parts, rtol=1e-9, atol=1e-9)


@harness("C28", "frame", params=[("sky", "sky"), ("pair", "H1L1"), ("list", ["H1", "V1", "L1"])])
def frame(e, ref):
    """sky position and time are those of the chosen frame and reference detector"""
    gc.compiled(e)
    fs, start = e.real("fs", 14, 17), 5.
    ifo, g = build(e, 4, name="H1", freqs=fs, start=start)
    at = e.choice("reference", ["geocent", "H1", "L1"])
    wg = Waves([ifo], fs, {})
    calls = []

    def convert(zenith, azimuth, time, ifos):
        calls.append((zenith, azimuth, time, [i.name for i in ifos]))
        return zenith + 2 * azimuth + time, zenith - azimuth
    patch(e, base, "zenith_azimuth_to_ra_dec", convert)
    L = GravitationalWaveTransient(networks.InterferometerList([ifo]), wg, reference_frame=ref if isinstance(ref, str)
                                   else list(ref), time_reference=at if at != "geocent" else e.choice("word", ["geocent", "geocenter"]))
    e.check("reference", L.time_reference == at)
    t = e.choice("time", [0., 9.])
    p = {"%s_time" % at: t}
    if ref == "sky":
        p.update(ra=e.real("ra", 0, 6.28), dec=e.real("dec", -1.57, 1.57))
        want = p["ra"], p["dec"]
    else:
        p.update(zenith=e.choice("zenith", [0.1, 1.2]), azimuth=0.3)
        want = p["zenith"] + 2 * p["azimuth"] + t, p["zenith"] - p["azimuth"]
    got = L.get_sky_frame_parameters(p)
    e.check_eq("position", [got["ra"], got["dec"]], list(want))
    if ref != "sky":
        names = ["H1", "L1"] if ref == "H1L1" else ["H1", "V1"]
        e.check("frame", calls == [(p["zenith"], p["azimuth"], t, names)])
    v = None if at == "geocent" else bilby.gw.detector.get_empty_interferometer(at).geometry.vertex
    e.check_eq("time at the centre", got["geocent_time"],
               t if at == "geocent" else t - (gc.delay if e.symbolic else interferometer.time_delay_from_geocenter)(v, want[0], want[1], t), rtol=1e-12, atol=1e-12)
    L.parameters.update(p)
    e.check_eq("the likelihood's own parameters", [L.get_sky_frame_parameters()[k] for k in ("ra", "dec", "geocent_time")],
               [got[k] for k in ("ra", "dec", "geocent_time")])


# ---------------------------------------------------------------- marginalised

N = 4          # independent times; the roots of unity are exact


def setup(e, n=1, cal=0, cls=GravitationalWaveTransient, T=8., start=16., free=("d",), S=(4., 1., 0.25, 1., 4.), w=1, taus=(0., 0.), none=False, size=2, **kw):
    """detectors seen at a fixed response; returns the likelihood and a function giving <d,h>, <h,h> at a time"""
    unwrap(e)
    fs = 2 * N / T
    F = {"X0": dict(plus=0.5, cross=-0.25), "X1": dict(plus=-1., cross=0.5)}
    tau = {"X%i" % i: t for i, t in enumerate(taus)}
    patch(e, interferometer.Interferometer, "antenna_response",
          lambda self, ra, dec, time, psi, mode: F[self.name][mode])
    patch(e, interferometer.Interferometer, "time_delay_from_geocenter", lambda self, ra, dec, time: tau[self.name])
    f = [k / T for k in range(N + 1)]
    ifos, data, masks = [], [], []
    for i in range(n):
        ifo = gc.detector(e, "X%i" % i, 0.9 / T if i == 0 else 1.5 / T, 3.5 / T, f, S)
        ifo.power_spectral_density = types.SimpleNamespace(get_power_spectral_density_array=lambda frequency_array: e.array(list(S)))
        d = e.array(e.cplxs("d%i_" % i, N + 1, lo=-size, hi=size) if "d" in free else [0.5, 1 + 1j, -2, 1j, 0.25][:N + 1])
        ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=fs, duration=T, start_time=start)
        ifo.strain_data.window_factor = w
        ifos.append(ifo)
        data.append(d)
        masks.append([0.9 / T <= x <= 3.5 / T if i == 0 else 1.5 / T <= x <= 3.5 / T for x in f])
    pols = dict(plus=e.array(e.cplxs("plus", N + 1, lo=-2, hi=2) if "h" in free else [1., 2., 6 + 9j, 3j, 1.]),
                cross=e.array([1., -2., 2j, 0.5j, 1.]))
    L = cls(networks.InterferometerList(ifos), Waves(ifos, fs, pols, none), **kw)
    c = None
    if cal:
        c = [[e.array(e.cplxs("c%i_%i_" % (i, j), sum(masks[i]), lo=0.5, hi=1.5)) for j in range(cal)] for i in range(n)]

    def products(k=0, jitter=0, j=None, det=None, scale=1, exact=None):
        """<d,h> and <h,h> for arrival k steps and the jitter after the start, with calibration draw j"""
        dh, hh = 0, 0
        for i in range(n):
            if det not in (None, i):
                continue
            r, name = 0, "X%i" % i
            for q in range(N + 1):
                if not masks[i][q]:
                    continue
                h = (F[name]["plus"] * pols["plus"][q] + F[name]["cross"] * pols["cross"][q]) * scale
                h = h * e.mkc(e.cospi(2 * q * k / N), -e.sinpi(2 * q * k / N))
                late = jitter + tau[name]
                if late is not 0 and not (isinstance(late, float) and late == 0):
                    a = 2 * np.pi * f[q] * late
                    h = h * e.mkc(np.cos(a), -np.sin(a))
                if j is not None:
                    h = h * c[i][j][r]
                r += 1
                dh = dh + 4 / T * np.conj(h) * data[i][q] / (S[q] * w)
                hh = hh + 4 / T * (np.real(h)**2 + np.imag(h)**2) / (S[q] * w)
        return dh, hh
    return L, products, c, types.SimpleNamespace(T=T, start=start, delta=T / N, fs=fs, n=n, masks=masks, data=data, ifos=ifos, pols=pols)


def lni0(x):
    return np.log(i0e(x)) + x


def lse(terms, weights=None):
    weights = weights or [1] * len(terms)
    return np.log(sum(w * np.exp(t) for w, t in zip(weights, terms)))


def times_prior(which, s):
    lo, hi = {"all": (s.start, s.start + s.T), "middle": (s.start + 0.75 * s.delta, s.start + 2.75 * s.delta),
              "one": (s.start - 0.5 * s.delta, s.start + 0.5 * s.delta), "first": (s.start - 0.5 * s.delta, s.start + 1.5 * s.delta)}[which]
    return Uniform(lo, hi), 1 / (hi - lo), lo, hi


def table(e, c=64):
    """a stand-in for the interpolated distance table"""
    def f(x, y, grid=False):
        x, y = np.broadcast_arrays(x, y) if np.ndim(x) or np.ndim(y) else (x, y)
        return x - y / 2 + x * y / c

    def put(self, lookup_table=None):
        self._interp_dist_margd_loglikelihood = f
    patch(e, GravitationalWaveTransient, "_setup_distance_marginalization", put)
    return f


class _S:
    T, start, delta = 8., 16., 2.


def extrinsic(**k):
    return dict(dict(ra=1., dec=0.5, psi=0.2), **k)


def kinds(names):
    return [("+".join(k), k) for k in names]


@harness("C28", "marginalised", params=kinds([("time",), ("time", "jitter"), ("phase",), ("time", "phase"), ("distance",), ("distance", "phase"),
                                              ("time", "distance"), ("time", "distance", "phase")]), budget=300)
def marginalised(e, kind):
    """the marginalised likelihood is the average of the likelihood over the prior of the marginalised parameters"""
    kw = {"%s_marginalization" % k: k in kind for k in ("time", "phase", "distance")}
    fix = dict(time=("geocent_time", None), phase=("phase", 0.), distance=("luminosity_distance", None))
    g = table(e)
    prior, dens, lo, hi = times_prior(e.choice("window", ["all", "middle", "first"] if kind in (("time",), ("time", "distance")) else ["middle", "first"]) if "time" in kind else "all", _S)
    priors = bilby.core.prior.PriorDict(dict(geocent_time=prior, phase=Uniform(0, 2 * np.pi, boundary="periodic"),
                                             luminosity_distance=Uniform(1., 3.)))
    L, prod, _, s = setup(e, e.choice("detectors", [1, 2]) if "time" not in kind or kind == ("time",) else 1, priors=priors, jitter_time="jitter" in kind, **kw)
    ref = priors["luminosity_distance"].rescale(0.5) if "distance" not in kind else L._ref_dist
    for k in ("time", "phase", "distance"):
        e.check("the prior of %s is fixed" % k, (fix[k][0] in L._marginalized_parameters) == (k in kind)
                and (not hasattr(priors[fix[k][0]], "minimum") or priors[fix[k][0]].is_fixed) == (k in kind))
    if "time" in kind:
        e.check("time fixed at the start", float(priors["geocent_time"].peak if hasattr(priors["geocent_time"], "peak")
                                                 else priors["geocent_time"]) == s.start)
    D = 2. if "distance" not in kind else e.choice("D", [0.5, 2.])     # where the signal is generated
    p = extrinsic(geocent_time=s.start, phase=0., luminosity_distance=D)
    j = 0
    if "jitter" in kind:
        j = e.real("jitter", -s.delta / 2, s.delta / 2)
        for k in range(-1, N + 1):
            for edge in (lo, hi):
                e.assume(abs(s.start + k * s.delta + j - edge) > 1e-6)
        p["time_jitter"] = j
    inside = [k for k in range(N if "time" in kind else 0) if bool(s.start + k * s.delta + j >= lo) and bool(s.start + k * s.delta + j <= hi)]
    if e.choice("per detector first", [False, True] if kind in (("time",), ("time", "jitter")) else [False]):
        late = dict(p, geocent_time=s.start + s.delta)     # as after reconstructing the time
        L.parameters.update(late)
        each = [L.compute_per_detector_log_likelihood() for _ in range(2)]
        for key, want in late.items():
            e.check_eq("the per-detector likelihoods leave %s" % key, each[1][key], want)
        for det in L.interferometers:
            e.check_eq("per-detector likelihood again", each[1][det.name + "_log_likelihood"], each[0][det.name + "_log_likelihood"], rtol=1e-9, atol=1e-9)
        L.parameters.update(p)
        if len(L.interferometers) == 1:
            each = [L.compute_per_detector_log_likelihood()]
            e.check_eq("one detector is the network", each[0][L.interferometers[0].name + "_log_likelihood"], L.log_likelihood_ratio(), rtol=1e-9, atol=1e-9)
    L.parameters.update(p)
    got = L.log_likelihood_ratio()

    def at(k):
        dh, hh = prod(k, j, scale=1 / D)
        if "distance" in kind:
            r = D / ref
            x = np.sqrt(np.real(dh)**2 + np.imag(dh)**2) if "phase" in kind else np.real(dh)
            return g(x * r, hh * r**2)
        if "phase" in kind:
            return lni0(np.sqrt(np.real(dh)**2 + np.imag(dh)**2)) - hh / 2
        return np.real(dh) - hh / 2
    if "time" not in kind:
        e.check_eq("marginalised", got, at(0), rtol=1e-9, atol=1e-9)
        return
    e.check_eq("marginalised", got, lse([at(k) for k in inside], [dens * s.delta] * len(inside)), rtol=1e-9, atol=1e-9)
    e.check_eq("the time parameter is left as it was", L.parameters["geocent_time"], s.start)


@harness("C28", "basic", params=[("one", 1), ("two", 2)])
def basic_likelihood(e, n):
    """the basic likelihood is the same function, written as the residual power"""
    L, prod, _, s = setup(e, n, free=("d", "h"))
    D = e.choice("D", [0.5, 2.])
    p = extrinsic(geocent_time=s.start, luminosity_distance=D)
    B = BasicGravitationalWaveTransient(L.interferometers, L.waveform_generator)
    for q in (L, B):
        q.parameters.update(p)
    dh, hh = prod(0, scale=1 / D)
    noise = L.noise_log_likelihood()
    e.check_eq("basic noise evidence", B.noise_log_likelihood(), noise, rtol=1e-9, atol=1e-9)
    e.check_eq("full", L.log_likelihood() - noise, np.real(dh) - hh / 2, rtol=1e-9, atol=1e-9)
    e.check_eq("basic", B.log_likelihood() - noise, np.real(dh) - hh / 2, rtol=1e-9, atol=1e-9)


@harness("C28", "defaults")
def defaults(e):
    """a prior that is not given is the default one; a fixed parameter is not marginalised"""
    table(e)
    which = e.choice("which", ["time", "phase", "time-fixed", "phase-fixed", "no-prior", "other-time"])
    k = which.split("-")[0]
    key = dict(time="geocent_time", phase="phase", no="phase", other="geocent_time")[k]
    priors = bilby.core.prior.PriorDict(dict(psi=Uniform(0, 3)))
    if which.endswith("fixed"):
        priors[key] = bilby.core.prior.DeltaFunction(1.)
    kw = {"phase_marginalization" if key == "phase" else "time_marginalization": True}
    make = lambda: setup(e, 1, free=(), priors=None if which == "no-prior" else priors, jitter_time=False,
                         **dict(kw, **(dict(time_reference="H1") if which == "other-time" else {})))
    if which.endswith("fixed") or which == "no-prior":
        e.check("refused", e.raises(make, ValueError) is not None)
        return
    L, prod, _, s = make()
    if which == "other-time":
        e.check("not marginalised over the time at a detector", not L.time_marginalization and "geocent_time" not in L._marginalized_parameters)
        return
    q = L.priors[key]
    e.check("default", type(q) is Uniform and (q.minimum, q.maximum) == ((s.start, s.start + s.T) if key == "geocent_time" else (0, 2 * np.pi)))


def draws(e, L, c, s, J):
    """give the likelihood the calibration draws"""
    L.calibration_draws = {"X%i" % i: e.array([list(x) for x in c[i]]) for i in range(s.n)}
    L.calibration_abs_draws = {k: np.abs(v)**2 for k, v in L.calibration_draws.items()}


@harness("C28", "calibration", params=kinds([("cal",), ("cal", "time"), ("cal", "phase"), ("cal", "distance"), ("cal", "time", "distance"), ("cal", "time", "phase")]), budget=300)
def calibration_marginalised(e, kind):
    """with calibration draws the likelihood is the mean over the draws, each multiplying the signal"""
    J = 2
    g = table(e)
    prior, dens, lo, hi = times_prior("middle", _S)
    priors = bilby.core.prior.PriorDict(dict(geocent_time=prior, phase=Uniform(0, 2 * np.pi), luminosity_distance=Uniform(1., 3.)))
    given = {}
    patch(e, calibration, "build_calibration_lookup", lambda **k: (given.update(k) or ({"X%i" % i: np.ones((J, 2)) for i in range(len(k["interferometers"]))},
                                                                                       {"X0": None, "X1": None})))
    patch(e, base, "ln_i0", lambda x: x**2 / 4)      # the real one is used in the harness above
    L, prod, c, s = setup(e, e.choice("detectors", [1, 2]) if kind == ("cal",) else 1, cal=J, free=("d",), priors=priors, jitter_time=False,
                          calibration_marginalization=True,
                          number_of_response_curves=J, starting_index=3, **{"%s_marginalization" % k: True for k in kind if k != "cal"})
    e.check("draws asked for", given["number_of_response_curves"] == J and given["starting_index"] == 3)
    draws(e, L, c, s, J)
    D = 2.
    L.parameters.update(extrinsic(geocent_time=s.start, phase=0., luminosity_distance=D))
    got = L.log_likelihood_ratio()
    ref = getattr(L, "_ref_dist", None)

    def at(k, j):
        dh, hh = prod(k, 0, j=j, scale=1 / D)
        x = np.real(dh) if "phase" not in kind else np.sqrt(np.real(dh)**2 + np.imag(dh)**2)
        if "distance" in kind:
            return g(x * D / ref, hh * (D / ref)**2)
        return (x**2 / 4 if "phase" in kind else x) - hh / 2
    if "time" in kind:
        ks = [k for k in range(N) if lo <= s.start + k * s.delta <= hi]
        want = sum(dens * s.delta * np.exp(at(k, j)) for k in ks for j in range(J))
    else:
        want = sum(np.exp(at(0, j)) for j in range(J))
    e.check_eq("mean over the draws", got, np.log(want / J), rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- reconstruction

def record(e):
    """record the densities parameters are drawn from; each draw is a new number"""
    log = []

    class Recorder:
        def __init__(self, xx, yy, *a, **k):
            self.xx, self.yy = list(xx), list(yy)
            log.append(self)

        def sample(self, size=None):
            self.drawn = e.real("drawn%i" % len(log), 1, 2)
            return self.drawn
    patch(e, base, "Interped", Recorder)
    patch(e, base, "max", lambda x: x[0])      # the first: subtracted for stability only; the density need not be normalised
    return log


def proportional(e, label, r, logs, weights=None):
    """the recorded density is proportional to weights * exp(logs)"""
    weights = weights or [1] * len(logs)
    e.check(label + ": points", len(r.yy) == len(logs) == len(r.xx))
    for i in range(1, len(logs)):
        e.check_eq("%s: density" % label, r.yy[i] * weights[0], r.yy[0] * weights[i] * np.exp(logs[i] - logs[0]), rtol=1e-9, atol=1e-12)


@harness("C28", "distance-sample", params=[("plain", False), ("phase", True)])
def distance_sample(e, phase):
    """the distance is drawn from the likelihood as a function of distance times its prior; the signal used afterwards is at that distance"""
    table(e)
    log = record(e)
    patch(e, base, "ln_i0", lambda x: x**2 / 4)
    priors = bilby.core.prior.PriorDict(dict(phase=Uniform(0, 2 * np.pi), luminosity_distance=PowerLaw(1, 1., 3.)))
    L, prod, _, s = setup(e, e.choice("detectors", [1, 2]), priors=priors, distance_marginalization=True, phase_marginalization=phase)
    e.check("distances", [L._distance_array[0], L._distance_array[-1]] == [1., 3.] and np.allclose(np.diff(L._distance_array), 2 / 9999))
    e.check("prior on the distances", np.allclose(L.distance_prior_array, L._distance_array / 4) and abs(L._ref_dist - 5**0.5) < 1e-9)
    D = L._ref_dist = 2.
    L._distance_array = np.array([0.5, 1., 2., 4.])
    L.distance_prior_array = e.array(e.reals("w", 4, 0.1, 1))
    L.parameters.update(extrinsic(geocent_time=s.start, phase=0., luminosity_distance=D))
    out = L.generate_posterior_sample_from_marginalized_likelihood()
    e.check_eq("sample", out["luminosity_distance"], log[0].drawn)
    e.check_eq("points", log[0].xx, [0.5, 1., 2., 4.])
    logs = []
    for d in (0.5, 1., 2., 4.):
        dh, hh = prod(0, scale=1 / d)
        logs.append((np.real(dh) if not phase else (np.real(dh)**2 + np.imag(dh)**2) / 4) - hh / 2)
    proportional(e, "distance", log[0], logs, list(L.distance_prior_array))
    if phase:
        dh, hh = prod(0, scale=1 / log[0].drawn)
        e.check_eq("phase sample", out["phase"], log[1].drawn)
        check_phase(e, log[1], dh)


def check_phase(e, r, dh):
    e.check("phase: the grid covers the circle", r.xx[0] == 0 and abs(r.xx[-1] - 2 * np.pi) < 1e-12 and max(np.diff(r.xx)) < 0.07 and min(np.diff(r.xx)) > 0)
    rot = np.exp(-2j * np.array(r.xx))
    pick = e.choice("phase index", [1, 7, len(r.xx) - 1])
    proportional(e, "phase", types.SimpleNamespace(xx=[0, 1], yy=[r.yy[0], r.yy[pick]]), [np.real(dh * rot[0]), np.real(dh * rot[pick])])


@harness("C28", "phase-sample", params=[("one", 1), ("two", 2)])
def phase_sample(e, n):
    log = record(e)
    priors = bilby.core.prior.PriorDict(dict(phase=Uniform(0, 2 * np.pi)))
    L, prod, _, s = setup(e, n, priors=priors, phase_marginalization=True)
    L.parameters.update(extrinsic(geocent_time=s.start, phase=0.))
    out = L.generate_posterior_sample_from_marginalized_likelihood()
    e.check_eq("sample", out["phase"], log[0].drawn)
    check_phase(e, log[0], prod(0)[0])


@harness("C28", "calibration-sample", params=kinds([("cal",), ("cal", "phase"), ("cal", "time"), ("cal", "time", "jitter"), ("cal", "distance")]))
def calibration_sample(e, kind):
    """the calibration draw is chosen with probability proportional to its likelihood, and is then used for the other parameters"""
    J = 2
    rng = use_rng(e)
    picks = []
    patch(e, rng, "choice", lambda a, p=None: (picks.append(p), e.choice("draw", list(range(a))))[1])
    g = table(e)
    log = record(e)
    patch(e, base, "ln_i0", lambda x: x**2 / 4)
    prior, dens, lo, hi = times_prior("one" if "jitter" in kind else "first", _S)
    priors = bilby.core.prior.PriorDict(dict(geocent_time=prior, phase=Uniform(0, 2 * np.pi), luminosity_distance=Uniform(1., 3.)))
    patch(e, calibration, "build_calibration_lookup", lambda **k: ({"X0": np.ones((J, 2))}, {"X0": None}))
    L, prod, c, s = setup(e, 1, cal=J, priors=priors, jitter_time="jitter" in kind, calibration_marginalization=True, number_of_response_curves=J,
                          **{"%s_marginalization" % k: True for k in kind if k not in ("cal", "jitter")})
    draws(e, L, c, s, J)
    L._ref_dist = D = 2.
    L._distance_array, L.distance_prior_array = np.array([0.5, 1., 2.]), np.array([1., 0.5, 0.25])
    jit = 0
    if "jitter" in kind:
        jit = e.real("jitter", 0.01, s.delta / 4)
    L.parameters.update(extrinsic(geocent_time=s.start, phase=0., luminosity_distance=D, time_jitter=jit))
    if "time" in kind:
        patch(e, GravitationalWaveTransient, "generate_time_sample_from_marginalized_likelihood", lambda self, signal_polarizations=None: s.start)
    out = L.generate_posterior_sample_from_marginalized_likelihood()
    e.check("one draw", len(picks) == 1)

    def at(k, j, scale=1 / D):
        dh, hh = prod(k, jit, j=j, scale=scale)
        x = np.real(dh) if "phase" not in kind else np.sqrt(np.real(dh)**2 + np.imag(dh)**2)
        if "distance" in kind:
            return g(x, hh)
        return (x**2 / 4 if "phase" in kind else x) - hh / 2
    p = picks[0]
    if "time" in kind:
        ks = [k for k in range(N) if lo <= s.start + k * s.delta + (0.1 if "jitter" in kind else 0) <= hi]
        like = [sum(np.exp(at(k, j)) for k in ks) for j in range(J)]
    else:
        like = [np.exp(at(0, j)) for j in range(J)]
    if "jitter" in kind:
        e.check_eq("log odds", np.log(p[0]) - np.log(p[1]), at(0, 0) - at(0, 1), rtol=1e-9, atol=1e-9)
        return
    e.check_eq("probabilities", p[0] * like[1], p[1] * like[0], rtol=1e-9, atol=1e-12)
    e.check_eq("probabilities sum to one", p[0] + p[1], 1)
    j = out["recalib_index"]
    jit = 0
    if "distance" in kind:
        r = log[0]
        logs = []
        for d in (0.5, 1., 2.):
            dh, hh = prod(0, j=int(j), scale=1 / d)
            logs.append(np.real(dh) - hh / 2)
        proportional(e, "distance", r, logs, [1., 0.5, 0.25])
    if "phase" in kind:
        check_phase(e, log[0], prod(0, j=int(j), scale=1 / D)[0])


@harness("C28", "time-sample", params=kinds([("time",), ("time", "jitter"), ("time", "phase"), ("time", "distance"), ("time", "cal")]))
def time_sample(e, kind):
    """the time is drawn from the likelihood as a function of time times its prior, where that is not negligible (here: everywhere)"""
    T = 8 / 16384
    g = table(e, 2.**26)
    log = record(e)
    patch(e, base, "ln_i0", lambda x: x**2 / 4)
    dt, start = 1 / 16384, 16.
    lo, hi = start + 1.5 * dt, start + 4.5 * dt
    priors = bilby.core.prior.PriorDict(dict(geocent_time=Uniform(lo, hi) if "jitter" in kind else PowerLaw(1, lo, hi), phase=Uniform(0, 2 * np.pi), luminosity_distance=Uniform(1., 3.)))
    patch(e, calibration, "build_calibration_lookup", lambda **k: ({"X0": np.ones((2, 2))}, {"X0": None}))
    L, prod, c, s = setup(e, 1, T=T, start=start, cal=2, priors=priors, jitter_time="jitter" in kind, size=1e-6, calibration_marginalization="cal" in kind,
                          number_of_response_curves=2,
                          **{"%s_marginalization" % k: True for k in kind if k not in ("cal", "jitter")})
    j = None
    D = 2.
    L._ref_dist = D
    jit = 0
    L.parameters.update(extrinsic(geocent_time=start, phase=0., luminosity_distance=D))
    if "jitter" in kind:
        jit = 0.25
        L.parameters["time_jitter"] = jit * dt
    if "cal" in kind:
        j = e.choice("draw", [0, 1])
        L.parameters["recalib_index"] = j
        draws(e, L, c, s, 2)
    t = L.generate_time_sample_from_marginalized_likelihood()
    r = log[0]
    e.check_eq("sample", t, r.drawn)
    steps = [(x - start) / dt - jit for x in r.xx]
    e.check("the times are in the prior", all(lo <= x < hi for x in r.xx) and all(abs(k - round(k)) < 1e-6 for k in steps) and list(r.xx) == sorted(r.xx))
    ks = [int(round(k)) for k in steps]
    e.check("all times of the prior", ks == [2, 3, 4])
    logs = []
    for k in ks:
        dh, hh = prod(k / 2, jit * dt, j=j, scale=1 / D)
        x = np.real(dh)
        if "phase" in kind:
            x = (x**2 + np.imag(dh)**2) / 4
        logs.append(g(x, hh) if "distance" in kind else x - hh / 2)
    for i in range(1, 3):
        e.check_eq("density", np.log(r.yy[i]) - np.log(r.yy[0]), logs[i] - logs[0] + (0 if "jitter" in kind else np.log(r.xx[i] / r.xx[0])), rtol=1e-9, atol=1e-8)


# ---------------------------------------------------------------- the distance table

class Small:
    """numpy with a smaller table at rounder places, and files kept in memory"""

    def __init__(self, np_, files):
        self.np_, self.files = np_, files

    def __getattr__(self, k):
        return getattr(self.np_, k)

    def zeros(self, shape, *a, **k):
        return self.np_.zeros((2, 3) if shape == (400, 800) else shape, *a, **k)

    def logspace(self, a, b, n):
        return np.arange(n) + 0.5

    def savez(self, name, **k):
        self.files[name] = k

    def load(self, name, *a, **k):
        return self.files[name]


@harness("C28", "table", params=[("plain", False), ("phase", True)])
def distance_table(e, phase):
    """the table of distance-marginalised likelihoods, and when a stored one is used"""
    files, made = {}, []
    patch(e, base, "np", Small(base.np, files))
    patch(e, base, "os", types.SimpleNamespace(path=types.SimpleNamespace(exists=lambda f: f in files)))
    patch(e, base, "BoundedRectBivariateSpline", lambda x, y, z, **k: made.append((x, y, z, k)))
    patch(e, base, "ln_i0", lambda x: x / 2)
    D = np.array([1., 2., 4.])
    p = e.array(e.reals("p", 3, 0.1, 1))

    def make(D=D, p=p, ref=2., phase=phase, table="t"):
        L = GravitationalWaveTransient.__new__(GravitationalWaveTransient)
        L.phase_marginalization, L._distance_array, L.distance_prior_array, L._ref_dist = phase, D, p, ref
        L._lookup_table_filename = None
        n = len(made)
        L._setup_distance_marginalization(table)
        e.check("one interpolant", len(made) == n + 1)
        return made[-1]
    x, y, z, k = make()
    e.check("axes", len(x) == 3 and len(y) == 2 and z.shape == (3, 2) and all(a < b for a, b in zip(x, x[1:])) and y[0] < y[1] and k == dict(fill_value=-np.inf))
    e.check("negative overlaps too", (x[0] > 0) == phase and x[-1] > 0 < y[0])
    norm = sum(p)
    for a in range(3):
        for b in range(2):
            terms = [(x[a] * (2 / d) / 2 if phase else x[a] * (2 / d)) - y[b] * (2 / d)**2 / 2 for d in D]
            e.check_eq("average over the distance prior", z[a][b], np.log(sum(w * np.exp(t) for w, t in zip(p, terms)) / norm), rtol=1e-9, atol=1e-9)
    e.check("stored", list(files) == ["t.npz"] and sorted(files["t.npz"]) == ["distance_array", "lookup_table", "phase_marginalization", "prior_array", "reference_distance"])
    files["t.npz"] = dict(files["t.npz"], lookup_table=np.array([[1., 2., 3.], [4., 5., 6.]]))
    used = lambda m: bool(np.all(np.equal(m[2], np.array([[1., 4.], [2., 5.], [3., 6.]])))) if not e.symbolic or not hasattr(m[2][0][0], "t") else False
    given = e.choice("given", ["file", "table"])
    src = "t" if given == "file" else dict(files["t.npz"])
    which = e.choice("differs", ["nothing", "distances", "prior", "reference", "phase"])
    if which == "nothing":
        m = make(table=src)
    elif which == "distances":
        m = make(D=np.array([1., 2., 4.25]), table=src)
    elif which == "prior":
        q = e.real("q", 0.1, 1)
        e.assume(abs(q - p[1]) > 0.01)
        m = make(p=e.array([p[0], q, p[2]]), table=src)
    elif which == "reference":
        m = make(ref=2.5, table=src)
    else:
        m = make(phase=not phase, table=src)
    e.check("a stored table is used exactly if it is for the same distances, prior, reference and phase", used(m) == (which == "nothing"))
