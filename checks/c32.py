"""C32: relative binning (heterodyned likelihood)."""
import types

import numpy as np

import bilby
from bilby.core.prior import Uniform
from bilby.gw.detector import interferometer, networks
from bilby.gw.likelihood import GravitationalWaveTransient, RelativeBinningGravitationalWaveTransient
from symx.api import harness
from common import patch
import gw_common as gc
from c28 import unwrap, extrinsic

BOUNDS = ["nine frequency bins of arbitrary data, 2 to 6 relative bins, one or two detectors with the same or different bands, arbitrary ratios at the edges of the bins"]
OUTSIDE = ["the error made where the ratio of waveforms is not linear within a bin", "the optimizer that improves the fiducial parameters", "floating-point rounding"]

T, FS, START, M = 8., 2., 16., 9
FREQ = [k / T for k in range(M)]
H0 = dict(plus=[0, 2, -1, 1j, 0.5, -2j, 1, 4, 0.5], cross=[0, 2, -1, 1j, 0.5, -2j, 1, 4, 0.5])
F = dict(X0=dict(plus=0.5, cross=-0.25), X1=dict(plus=-1., cross=0.5))


class Fiducial:
    """a waveform generator that gives the fiducial waveform on all frequencies, or another one at the edges of the bins"""

    def __init__(self, last):
        self.duration = self.sampling_frequency = self.start_time = None
        self.waveform_arguments, self.last, self.asked = {}, last, []
        self.frequency_domain_source_model = self.time_domain_source_model = self.parameter_conversion = None
        self.frequency_array = np.array(FREQ)
        self.ratio = None

    def fid(self):
        return {k: np.array([v if i <= self.last else 0 for i, v in enumerate(w)], dtype=complex) for k, w in H0.items()}

    def frequency_domain_strain(self, parameters=None):
        self.asked.append(dict(parameters))
        if parameters["fiducial"] == 1:
            return None if self.last is None else self.fid()
        idx = [FREQ.index(f) for f in self.waveform_arguments["frequency_bin_edges"]]
        if self.ratio is None:
            return {k: v[idx] for k, v in self.fid().items()}
        return {k: v[idx] * self.ratio for k, v in self.fid().items()}


def build(e, bands, last=8, eps=1., data=True, **kw):
    unwrap(e)
    patch(e, interferometer.Interferometer, "antenna_response", lambda self, ra, dec, time, psi, mode: F[self.name][mode])
    patch(e, interferometer.Interferometer, "time_delay_from_geocenter", lambda self, ra, dec, time: 0.)
    S = [4., 1., 0.25, 1., 4., 1., 2., 1., 0.5]
    ifos, ds = [], []
    for i, (lo, hi) in enumerate(bands):
        ifo = gc.detector(e, "X%i" % i, lo / T, hi / T, FREQ, S)
        ifo.power_spectral_density = types.SimpleNamespace(get_power_spectral_density_array=lambda frequency_array: np.array(S))
        d = e.array(e.cplxs("d%i_" % i, M, lo=-2, hi=2)) if data else np.array([1., 2, 1j, -1, 0.5, 1, 2j, 1, 1])
        ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=FS, duration=T, start_time=START)
        ifos.append(ifo)
        ds.append(d)
    wg = Fiducial(last)
    p = extrinsic(geocent_time=START, luminosity_distance=1., phase=0.)
    L = RelativeBinningGravitationalWaveTransient(networks.InterferometerList(ifos), wg, fiducial_parameters=p, chi=1, epsilon=eps, **kw)
    low, high = min(b[0] for b in bands), min(max(b[1] for b in bands), last)
    ks = [k for k in range(M) if low <= k <= high]

    def h0(i, k):
        lo, hi = bands[i]
        n = "X%i" % i
        return (F[n]["plus"] * H0["plus"][k] + F[n]["cross"] * H0["cross"][k]) if lo <= k <= hi and k <= last else 0.

    def products(i, ratio):
        """<d, r h0>, and <r h0, r h0> without the square of the slope, for a ratio given as value and slope at each frequency"""
        dh = hh = 0
        for k in ks:
            r, r0, slope, df = ratio(k)
            w = 4 / T / S[k]
            dh = dh + w * np.conj(h0(i, k) * r) * ds[i][k]
            a = abs(h0(i, k))**2
            hh = hh + w * a * (np.real(r0)**2 + np.imag(r0)**2 + 2 * df * (np.real(r0) * np.real(slope) + np.imag(r0) * np.imag(slope)))
        return dh, hh
    return L, wg, p, ks, h0, products, ds, S


BANDS = {"one": [(0.9, 8.5)], "inner": [(1.5, 6.5)], "two": [(0.9, 8.5), (0.9, 8.5)], "different": [(0.9, 6.5), (2.5, 8.5)], "nested": [(0.9, 8.5), (2.5, 5.5)]}


@harness("C32", "bins", params=[(b, b) for b in BANDS])
def bins(e, band):
    """the bins cover each frequency of the band exactly once"""
    last = e.choice("last", [8, 5])
    eps = e.choice("epsilon", [4., 2., 1., 0.5])
    L, wg, p, ks, h0, products, ds, S = build(e, BANDS[band], last, eps, data=False)
    idx = [int(i) for i in L.bin_inds]
    e.check("ends", idx[0] == ks[0] and idx[-1] == ks[-1])
    e.check("increasing", all(a < b for a, b in zip(idx, idx[1:])))
    e.check("edges", list(L.bin_freqs) == [FREQ[i] for i in idx] and list(wg.waveform_arguments["frequency_bin_edges"]) == list(L.bin_freqs))
    e.check("number", L.number_of_bins == len(idx) - 1 and sum(L.bin_sizes) == len(ks) and len(L.bin_sizes) == L.number_of_bins)
    e.check("centres and widths", list(L.bin_centers) == [(FREQ[a] + FREQ[b]) / 2 for a, b in zip(idx, idx[1:])]
            and list(L.bin_widths) == [FREQ[b] - FREQ[a] for a, b in zip(idx, idx[1:])])
    e.check("the fiducial waveform was asked for once", [q["fiducial"] for q in wg.asked].count(1) == 1 and wg.asked[0]["geocent_time"] == START)
    e.check("afterwards not at the fiducial", L.parameters == dict(fiducial=0))


@harness("C32", "products", params=[(b, b) for b in BANDS], budget=200)
def inner_products(e, band):
    """inner products are those of the fiducial waveform times a ratio that is linear within each bin"""
    last = e.choice("last", [8, 5])
    L, wg, p, ks, h0, products, ds, S = build(e, BANDS[band], last, e.choice("epsilon", [2., 1.]) if band == "one" else 2.)
    idx = [int(i) for i in L.bin_inds]
    R = wg.ratio = e.array(e.cplxs("r", len(idx), lo=1, hi=1.0625))

    def ratio(k):
        b = max(i for i in range(len(idx) - 1) if idx[i] <= k)
        r0, slope = (R[b] + R[b + 1]) / 2, (R[b + 1] - R[b]) / (FREQ[idx[b + 1]] - FREQ[idx[b]])
        df = FREQ[k] - (FREQ[idx[b]] + FREQ[idx[b + 1]]) / 2
        return r0 + slope * df, r0, slope, df
    q = dict(p, fiducial=0)
    L.parameters.update(q)
    total = 0
    pols = wg.frequency_domain_strain(q)
    for i, ifo in enumerate(L.interferometers):
        dh, hh = products(i, ratio)
        snr = L.calculate_snrs(pols, ifo)
        e.check_eq("<d,h>", snr.d_inner_h, dh, rtol=1e-9, atol=1e-9)
        e.check_eq("<h,h>", snr.optimal_snr_squared, hh, rtol=1e-9, atol=1e-9)
        full = L._compute_full_waveform(pols, ifo)
        e.check_eq("waveform", list(full), [h0(i, k) * ratio(k)[0] if k in ks else 0. for k in range(M)], rtol=1e-9, atol=1e-9)
        total = total + np.real(dh) - hh / 2
    e.check_eq("likelihood", L.log_likelihood_ratio(), total, rtol=1e-9, atol=1e-9)


@harness("C32", "exact", params=[(b, b) for b in BANDS])
def exact(e, band):
    """at a constant ratio, in particular at the fiducial parameters, it is the full likelihood"""
    L, wg, p, ks, h0, products, ds, S = build(e, BANDS[band], e.choice("last", [8, 5]), e.choice("epsilon", [2., 0.5]))
    idx = [int(i) for i in L.bin_inds]
    z = e.cplx("z", lo=0.5, hi=2) if e.choice("at", ["fiducial", "scaled"]) == "scaled" else 1
    wg.ratio = e.array([z] * len(idx))
    L.parameters.update(dict(p, fiducial=0))
    parts = [products(i, lambda k: (z, z, 0, 0)) for i in range(len(ds))]
    e.check_eq("likelihood", L.log_likelihood_ratio(), sum(np.real(a) - b / 2 for a, b in parts), rtol=1e-9, atol=1e-9)


@harness("C32", "marginalised", params=[("phase", ["phase"]), ("time", ["time"])])
def marginalised(e, kinds):
    """marginalisation applies to the binned waveform; the fiducial waveform is that of the fixed values"""
    lo, hi = START + 0.5, START + 2.5
    priors = bilby.core.prior.PriorDict(dict(geocent_time=Uniform(lo, hi), phase=Uniform(0, 2 * np.pi), luminosity_distance=Uniform(1., 3.)))
    L, wg, p, ks, h0, products, ds, S = build(e, [(0.9, 6.5)], 8, 2., jitter_time=False, priors=priors, **{"%s_marginalization" % k: True for k in kinds})
    e.check("fiducial", wg.asked[0].get("geocent_time") == START and wg.asked[0]["phase"] == 0)
    idx = [int(i) for i in L.bin_inds]
    R = wg.ratio = e.array(e.cplxs("r", len(idx), lo=1, hi=1.0625) if kinds == ["phase"] else [1 + 0.5j * i for i in range(len(idx))])

    def ratio(k):
        b = max(i for i in range(len(idx) - 1) if idx[i] <= k)
        r0, slope = (R[b] + R[b + 1]) / 2, (R[b + 1] - R[b]) / (FREQ[idx[b + 1]] - FREQ[idx[b]])
        df = FREQ[k] - (FREQ[idx[b]] + FREQ[idx[b + 1]]) / 2
        return r0 + slope * df, r0, slope, df
    L.parameters.update(dict(p, fiducial=0))
    from bilby.gw.likelihood import base
    patch(e, base, "ln_i0", lambda x: x**2 / 4)
    got = L.log_likelihood_ratio()
    dh, hh = products(0, ratio)
    if kinds == ["phase"]:
        e.check_eq("phase", got, (np.real(dh)**2 + np.imag(dh)**2) / 4 - hh / 2, rtol=1e-9, atol=1e-9)
        return
    n = M - 1
    want = 0
    for j in (1, 2):
        d = 0
        for k in ks:
            d = d + 4 / T / S[k] * np.conj(h0(0, k) * ratio(k)[0] * e.mkc(e.cospi(2 * j * k / n), -e.sinpi(2 * j * k / n))) * ds[0][k]
        want = want + 0.5 * np.exp(np.real(d) - hh / 2)
    e.check_eq("time", got, np.log(want), rtol=1e-9, atol=1e-9)


@harness("C32", "none")
def none(e):
    e.check("a fiducial waveform that cannot be computed is reported", e.raises(lambda: build(e, [(0.9, 8.5)], None, data=False), ValueError) is not None)
