"""C26: signals are projected, injected and compared with the data the same way everywhere, inside the band only."""
import types

import numpy as np

from bilby.gw import utils as gwutils
from bilby.gw.detector import interferometer, networks, psd, calibration, strain_data
from bilby.core.utils import series as us
from symx.api import harness
from common import patch
import gw_common as gc

BOUNDS = ["3 to 5 frequency bins with symbolic data, signals, noise power, band, window normalisation, times and source direction",
          "one calibration model (four nodes), up to two detectors"]
OUTSIDE = ["the compiled geometry of bilby_cython (only in the concrete re-runs)", "the waveform model", "plots",
           "floating-point rounding", "time at which the sky is evaluated (three values)"]
NAN = float("nan")


def build(e, n=4, name="X1", wf=True, band=True, start=None, tag="", freqs=None):
    """a detector with symbolic data; returns it and what it was given"""
    fs = e.real(tag + "fs", 14, 17) * n / 4 if freqs is None else freqs
    freqs = [k * fs / n for k in range(n // 2 + 1)]
    S = e.reals(tag + "S", len(freqs), 0.5, 4)
    low, high = (e.real(tag + "low", 0.1, 6), e.real(tag + "high", 6, 20)) if band else (0, 100)
    for f in freqs:
        if band:
            e.assume((abs(low - f) > 1e-6) & (abs(high - f) > 1e-6))
    ifo = gc.detector(e, name, low, high, freqs, S)
    d = e.array(e.cplxs(tag + "d", len(freqs)))
    t0 = e.real(tag + "t0", -10, 10) if start is None else start
    ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=fs, duration=n / fs, start_time=t0)
    w = 1
    if wf:
        w = e.real(tag + "w", 0.5, 1)
        ifo.strain_data.window_factor = w
    m = [bool((f >= low) & (f <= high)) for f in freqs]
    return ifo, dict(fs=fs, T=n / fs, f=freqs, S=[s * w for s in S], m=m, d=d, t0=t0, w=w)


def inner(g, a, b):
    return 4 / g["T"] * sum([np.conj(x) * y / s for x, y, s, m in zip(a, b, g["S"], g["m"]) if m], 0 * g["S"][0])


def sky(e):
    return dict(ra=e.real("ra", 0, 6.28), dec=e.real("dec", -1.57, 1.57), psi=e.real("psi", 0, 3.14),
                geocent_time=e.choice("time", [0., 9.]))


def ri(z):
    return [x for c in z for x in (np.real(c), np.imag(c))]


def project(e, ifo, g, pols, p, freqs=None, mask=None, cal=None):
    f, m = (g["f"], g["m"]) if freqs is None else (freqs, [True] * len(freqs))
    dt = p["geocent_time"] - g["t0"] + gc.delay(spec_vertex(ifo), p["ra"], p["dec"], p["geocent_time"])
    F = {k: response(ifo, p, k) for k in pols}
    out = []
    for i in range(len(f)):
        if not m[i]:
            out.append(0. * g["S"][0])
            continue
        h = sum(F[k] * pols[k][i] for k in pols)
        a = 2 * np.pi * f[i] * dt
        out.append(h * e.mkc(np.cos(a), -np.sin(a)) * (1 if cal is None else cal[i]))
    return out


def spec_vertex(ifo):
    return ifo.geometry.vertex


def response(ifo, p, mode):
    if mode in ("plus", "cross", "x", "y", "breathing", "longitudinal"):
        return gc.contract(ifo.geometry.detector_tensor, gc.polarization(p["ra"], p["dec"], p["geocent_time"], p["psi"], mode))
    return 1 if mode == ifo.name else 0


@harness("C26", "response", params=[("-".join(m), m) for m in
                                    [("plus", "cross"), ("plus",), ("cross", "breathing"), ("x", "y", "longitudinal"), ("X1", "plus"), ("plus", "Y1")]])
def detector_response(e, modes):
    """sum over modes of response times amplitude, delayed to the detector, nothing outside the band"""
    gc.compiled(e)
    ifo, g = build(e, 4)
    p = sky(e)
    given = e.choice("frequencies", ["band", "list"])
    if given == "band":
        freqs, m = None, 3
    else:
        freqs = np.array([e.choice("f0", [1., 2.]), 7.5])
        m = 2
    pols = {k: e.array(e.cplxs(k, m)) for k in modes}
    want = project(e, ifo, g, pols, p, freqs)
    before = {k: list(v) for k, v in pols.items()}
    got = ifo.get_detector_response(pols, p, frequencies=freqs) if freqs is not None else ifo.get_detector_response(pols, p)
    e.check("length", len(got) == m)
    e.check_eq("signal in the detector", ri(got), ri(want), rtol=1e-9, atol=1e-9)
    e.check_eq("the given polarizations are not changed", ri([x for k in pols for x in pols[k]]), ri([x for k in pols for x in before[k]]))


@harness("C26", "response-calibration")
def response_calibration(e):
    """the calibration factor multiplies the signal at each frequency of the band"""
    gc.compiled(e)
    ifo, g = build(e, 4)
    p = sky(e)

    class Model(calibration.Recalibrate):
        def get_calibration_factor(self, frequency_array, **params):
            seen.append((list(frequency_array), params))
            return e.array([1 + params["recalib_X1_a"] * f for f in frequency_array])
    seen = []
    ifo.calibration_model = Model("recalib_X1_")
    p["recalib_X1_a"] = e.real("a", -0.01, 0.01)
    pols = {k: e.array(e.cplxs(k, 3)) for k in ("plus", "cross")}
    got = ifo.get_detector_response(pols, p)
    e.check_eq("calibrated signal", ri(got), ri(project(e, ifo, g, pols, p, cal=[1 + p["recalib_X1_a"] * f for f in g["f"]])), rtol=1e-9, atol=1e-9)
    e.check_eq("asked at the frequencies of the band", seen[0][0], [f for f, m in zip(g["f"], g["m"]) if m])


@harness("C26", "products")
def products(e):
    """inner products and signal-to-noise ratios use the band, the noise with the window normalisation, and the duration"""
    ifo, g = build(e, e.choice("n", [4, 6]))
    k = len(g["f"])
    h, q = e.array(e.cplxs("h", k)), e.array(e.cplxs("q", k))
    if not any(g["m"]):
        return
    d = g["d"]
    e.check_eq("noise power", ifo.power_spectral_density_array, g["S"], rtol=1e-9)
    e.check_eq("noise amplitude", ifo.amplitude_spectral_density_array**2, g["S"], rtol=1e-9)
    e.check_eq("optimal", ri([ifo.optimal_snr_squared(h)]), ri([inner(g, h, h)]), rtol=1e-9, atol=1e-9)
    e.check_eq("data", ri([ifo.inner_product(h)]), ri([inner(g, h, d)]), rtol=1e-9, atol=1e-9)
    e.check_eq("templates", ri([ifo.template_template_inner_product(h, q)]), ri([inner(g, h, q)]), rtol=1e-9, atol=1e-9)
    hh = np.real(inner(g, h, h))
    e.assume(hh > 1e-3)
    got = ifo.matched_filter_snr(h)
    e.check_eq("matched filter", ri([got * np.sqrt(hh)]), ri([inner(g, h, d)]), rtol=1e-9, atol=1e-9)


@harness("C26", "algebra")
def algebra(e):
    """the inner product is conjugate symmetric, additive, and positive"""
    n = 2
    a, b, c = [e.array(e.cplxs(k, n)) for k in "abc"]
    S, T = e.array(e.reals("S", n, 0.1, 5)), e.real("T", 0.1, 10)
    P = gwutils.noise_weighted_inner_product
    e.check_eq("definition", ri([P(a, b, S, T)]), ri([4 / T * sum(np.conj(x) * y / s for x, y, s in zip(a, b, S))]), rtol=1e-9)
    e.check_eq("symmetry", ri([P(a, b, S, T)]), ri([np.conj(P(b, a, S, T))]), rtol=1e-9)
    e.check_eq("additivity", ri([P(a, b + c, S, T)]), ri([P(a, b, S, T) + P(a, c, S, T)]), rtol=1e-9)
    e.check_le("positivity", 0, np.real(gwutils.optimal_snr_squared(a, S, T)))
    x, y = np.real(gwutils.optimal_snr_squared(a, S, T)), np.real(gwutils.optimal_snr_squared(b, S, T))
    z = P(a, b, S, T)
    # Lagrange's identity: the Cauchy-Schwarz deficit is a sum of squares
    r = [e.mkc(np.real(u[0]), np.imag(u[0])) for u in (a, b)]
    cross = a[0] * b[1] - a[1] * b[0]
    e.check_eq("Cauchy-Schwarz", x * y - np.real(z)**2 - np.imag(z)**2, (4 / T)**2 * np.real(cross * np.conj(cross)) / (S[0] * S[1]), rtol=1e-8, atol=1e-8)


@harness("C26", "scaling")
def scaling(e):
    """the matched filter does not depend on the size of the template; the template itself gives the optimal value"""
    n = 3
    h, d = e.array(e.cplxs("h", n)), e.array(e.cplxs("d", n))
    S, T, k = e.array(e.reals("S", n, 0.1, 5)), e.real("T", 0.1, 10), e.real("k", 0.1, 10)
    e.assume(np.real(h[0])**2 > 1e-2)
    o = np.real(gwutils.optimal_snr_squared(h, S, T))
    M = lambda a, b: gwutils.matched_filter_snr(a, b, S, T)
    e.check_eq("definition", ri([M(h, d) * np.sqrt(o)]), ri([gwutils.noise_weighted_inner_product(h, d, S, T)]), rtol=1e-9, atol=1e-9)
    e.check_eq("scaled template", ri([M(k * h, d)]), ri([M(h, d)]), rtol=1e-9, atol=1e-9)
    e.check_eq("the signal itself", ri([M(h, h)]), [np.sqrt(o), 0], rtol=1e-9, atol=1e-9)


@harness("C26", "overlap")
def overlap(e):
    """the overlap sums the bins from the lower to the upper cut-off"""
    n = 5
    a, b = e.array(e.cplxs("a", n)), e.array(e.cplxs("b", n))
    S = e.array(e.reals("S", n, 0.1, 5))
    df = e.real("df", 0.1, 4)
    lo, hi = e.choice("lo", [0, 1, 2]), e.choice("hi", [3, 4])
    na, nb = e.real("na", 0.5, 4), e.real("nb", 0.5, 4)
    got = gwutils.overlap(a, b, S, df, (lo + 0.5) * df, (hi + 0.5) * df, na, nb)
    e.check_eq("overlap", got, sum(4 * df * np.real(np.conj(a[k]) * b[k]) / S[k] for k in range(lo, hi)) / na / nb, rtol=1e-9, atol=1e-9)


@harness("C26", "outside-band")
def outside_band(e):
    """neither the data nor the signal outside the band matter"""
    ifo, g = build(e, 6)
    if not any(g["m"]) or all(g["m"]):
        return
    k = 4
    h = e.cplxs("h", k)
    x = e.cplxs("x", k)
    h2 = e.array([a if m else b for a, b, m in zip(h, x, g["m"])])
    h = e.array(h)
    one = ri([ifo.inner_product(h), ifo.optimal_snr_squared(h), ifo.template_template_inner_product(h, h2)])
    y = e.cplxs("y", k)
    ifo.frequency_domain_strain = e.array([a if m else b for a, b, m in zip(g["d"], y, g["m"])])
    two = ri([ifo.inner_product(h2), ifo.optimal_snr_squared(h2), ifo.template_template_inner_product(h2, h)])
    e.check_eq("the same products", one, two)
    e.check_eq("no strain outside the band", ri([z for z, m in zip(ifo.frequency_domain_strain, g["m"]) if not m]),
               [0.] * (2 * (k - sum(g["m"]))))


@harness("C26", "injection", params=["polarizations", "generator", "direct"])
def injection(e, how):
    """an injection adds the detector's response to the data and records its ratios"""
    ifo, g = build(e, 4)
    p = dict(geocent_time=e.real("time", -20, 20))
    pols = dict(plus=e.real("plus"))
    if not any(g["m"]):
        return
    want = [h if m else 0 * h for h, m in zip(e.cplxs("h", 3), g["m"])]
    hh = np.real(inner(g, want, want))
    e.assume(hh > 1e-3)

    def respond(self, given, parameters, frequencies=None):
        e.check("the response is asked for these polarizations and parameters", given is pols and parameters == p and frequencies is None)
        return e.array(want)
    patch(e, interferometer.Interferometer, "get_detector_response", respond)
    patch(e, interferometer.logger, "info", lambda *a: None)

    class Generator:
        def frequency_domain_strain(self, q):
            e.check("the generator is asked for the injected parameters", q == p)
            return pols
    if how == "polarizations":
        out = ifo.inject_signal(p, injection_polarizations=pols, raise_error=False)
        e.check("the polarizations are returned", out is pols)
    elif how == "generator":
        out = ifo.inject_signal(p, waveform_generator=Generator(), raise_error=False)
        e.check("the polarizations are returned", out is pols)
    else:
        ifo.inject_signal_from_waveform_polarizations(p, pols)
    after = [a * m + b for a, b, m in zip(g["d"], want, g["m"])]
    e.check_eq("data with the signal", ri(ifo.frequency_domain_strain), ri(after), rtol=1e-9, atol=1e-9)
    e.check_eq("optimal ratio", ifo.meta_data["optimal_SNR"]**2, hh, rtol=1e-9)
    e.check_eq("matched filter ratio", ri([ifo.meta_data["matched_filter_SNR"] * ifo.meta_data["optimal_SNR"]]), ri([inner(g, want, after)]), rtol=1e-8, atol=1e-9)
    e.check("parameters recorded", ifo.meta_data["parameters"] == p and ifo.meta_data["name"] == "X1")
    e.check("something is needed", e.raises(lambda: ifo.inject_signal(p, raise_error=False), ValueError) is not None)


@harness("C26", "whitening")
def whitening(e):
    """whitened data are in units of the noise, in both domains"""
    ifo, g = build(e, e.choice("n", [4, 6]))
    k = len(g["f"])
    n = 2 * (k - 1)
    h = e.array(e.cplxs("h", k))
    wh = ifo.whiten_frequency_series(h)
    for a, b, s in zip(wh, h, g["S"]):
        e.check_eq("power in units of the noise", np.real(a * np.conj(a)), 4 * np.real(b * np.conj(b)) / s / g["T"], rtol=1e-9, atol=1e-9)
        e.check_eq("phase kept", np.imag(a * np.conj(b)), 0, atol=1e-9)
    N = sum(g["m"])
    if not N:
        return
    e.check_eq("strain", ri(ifo.whitened_frequency_domain_strain), ri(ifo.whiten_frequency_series(g["d"] * np.array(g["m"]))), rtol=1e-9, atol=1e-9)
    td = ifo.whitened_time_domain_strain
    want = np.fft.irfft(ifo.whiten_frequency_series(g["d"] * np.array(g["m"])))
    e.check_eq("time domain", td, want * np.sqrt(N) * k / N, rtol=1e-9, atol=1e-9)


@harness("C26", "duration-check")
def duration_check(e):
    """too long a signal is refused, or reported if so asked"""
    ifo, g = build(e, 4, wf=False, band=False)
    t, T = e.real("t", 0, 1), g["T"]
    e.assume(abs(t - T) > 1e-3)
    asked = []
    patch(e, gwutils, "calculate_time_to_merger", lambda frequency, mass_1, mass_2: asked.append((frequency, mass_1, mass_2)) or t)
    patch(e, np, "round", lambda x, d=0: x) if e.symbolic else None
    m1, m2 = e.real("m1", 10, 30), e.real("m2", 5, 10)
    patch(e, interferometer, "generate_all_bbh_parameters", lambda p: p)
    err = e.choice("raise", [True, False])
    ex = e.raises(lambda: ifo.check_signal_duration(dict(mass_1=m1, mass_2=m2), raise_error=err), ValueError)
    # (the duration is compared after rounding to a tenth of a second)
    if t > T + 0.051:
        e.check("refused", (ex is not None) == err)
    elif t < T - 0.051:
        e.check("accepted", ex is None)
    e.check_eq("asked for the band and the masses", list(asked[0]), [ifo.minimum_frequency, m1, m2])
    ex = e.raises(lambda: ifo.check_signal_duration(dict(x=1), raise_error=err), AttributeError)
    e.check("no masses", (ex is not None) == err)


@harness("C26", "files")
def files(e):
    """the saved data and noise are those of the detector"""
    import os
    import tempfile
    import shutil
    ifo, g = build(e, 4)
    label = e.choice("label", [None, "lab"])
    out = tempfile.mkdtemp()
    e.on_cleanup(lambda: shutil.rmtree(out))
    ifo.save_data(out, label)
    pre = "X1_" if label is None else "X1_lab_"
    t = interferometer.np.genfromtxt(os.path.join(out, pre + "frequency_domain_data.dat"))
    a = interferometer.np.genfromtxt(os.path.join(out, pre + "asd.dat"))
    for i in range(3):
        e.check_eq("data", list(t[i]), [g["f"][i], np.real(g["d"][i]) * g["m"][i], np.imag(g["d"][i]) * g["m"][i]], rtol=1e-9, atol=1e-9)
        e.check_eq("noise", [a[i][0], a[i][1]**2], [g["f"][i], g["S"][i]], rtol=1e-9)


@harness("C26", "network")
def network(e):
    """every detector of a network gets the parameters, the same polarizations and the request about errors"""
    a, b = gc.detector(e, "X1"), gc.detector(e, "Y1")
    net = networks.InterferometerList([a, b])
    p, pols = dict(x=e.real("x")), dict(plus=e.real("plus"))
    calls = []
    patch(e, interferometer.Interferometer, "inject_signal",
          lambda self, parameters, injection_polarizations=None, waveform_generator=None, raise_error=True:
          calls.append((self.name, parameters, injection_polarizations, raise_error)) or injection_polarizations)
    how, err = e.choice("how", ["polarizations", "generator", "both", "nothing"]), e.choice("raise", [True, False])

    class Generator:
        def frequency_domain_strain(self, q):
            e.check("the generator is asked for the injected parameters", q is p)
            return pols
    k = dict(polarizations=dict(injection_polarizations=pols), generator=dict(waveform_generator=Generator()),
             both=dict(injection_polarizations=pols, waveform_generator=Generator()), nothing={})[how]
    if how == "nothing":
        e.check("something is needed", e.raises(lambda: net.inject_signal(p), ValueError) is not None)
        return
    out = net.inject_signal(p, raise_error=err, **k)
    e.check("one answer per detector", len(out) == 2 and all(o is pols for o in out))
    e.check("both detectors, once", [c[0] for c in calls] == ["X1", "Y1"])
    e.check("the same for both", all(c[1] is p and c[2] is pols and c[3] is err for c in calls))
    e.check("meta data by name", net.meta_data["X1"] is a.meta_data and net.meta_data["Y1"] is b.meta_data)
    e.check("number of detectors", net.number_of_interferometers == 2)


@harness("C26", "network-consistency", params=["init", "append", "extend", "insert", "append list"])
def consistency(e, how):
    """detectors with different times or sampling cannot be combined"""
    k = e.choice("what", ["start", "duration", "sampling", "none"])
    d = e.real("d", -5, 5)
    e.assume(abs(abs(d) - 1e-5) > 1e-7)
    t0 = e.real("t0", -10, 10)

    def ifo(fs, n, t):
        i = gc.detector(e, "X1")
        i.set_strain_data_from_zero_noise(fs, n / fs, t)
        return i
    if e.symbolic:
        patch(e, networks, "math", types.SimpleNamespace(
            isclose=lambda x, y, rel_tol=1e-9, abs_tol=0.: abs(x - y) <= np.maximum(rel_tol * np.maximum(abs(x), abs(y)), abs_tol)))
    a = ifo(16., 4, t0)
    b = ifo(32. if k == "sampling" else 16., 8 if k in ("sampling", "duration") else 4, t0 + (d if k == "start" else 0))
    ok = k == "none" or (k == "start" and bool(abs(d) < 1e-5))
    net = None

    def go():
        if how == "init":
            networks.InterferometerList([a, b])
        else:
            net = networks.InterferometerList([a])
            {"append": lambda: net.append(b), "extend": lambda: net.extend([b]), "insert": lambda: net.insert(0, b),
             "append list": lambda: net.append(networks.InterferometerList([b]))}[how]()
            e.check("both are there", len(net) == 2)
            e.check_eq("common times", [net.duration, net.sampling_frequency], [a.duration, a.sampling_frequency])
            e.check_le("start", abs(net.start_time - t0), 1.1e-5)
    ex = e.raises(go, ValueError)
    e.check("inconsistent detectors are refused, consistent ones accepted", (ex is None) == ok)
