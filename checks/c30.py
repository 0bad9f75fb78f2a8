"""C30: waveforms are those of the source model for the present parameters, times and frequencies; the CBC source models."""
import types

import numpy as np
import lal
import lalsimulation

from bilby.core import utils
from bilby.gw import source, waveform_generator
from bilby.gw.waveform_generator import WaveformGenerator, LALCBCWaveformGenerator
from symx.api import harness
from common import patch
from c26 import ri

BOUNDS = ["sequences of three calls with any change between them; series of two to five samples",
          "waveforms of three to six frequencies returned by LALSimulation, shorter or longer than those asked for"]
OUTSIDE = ["LALSimulation: its waveforms and its spin conversion are given functions", "gwsignal", "floating-point rounding"]


def fd(frequency_array, a, b, k=1, **kw):
    return dict(plus=[a * f + b * k + 1j * b for f in frequency_array], cross=[b * f for f in frequency_array])


def models(e):
    """source models linear in their parameters"""
    def fdm(frequency_array, a, b, **kw):
        k = kw['k']

        return {n: e.array(v) for n, v in fd(frequency_array, a, b, k).items()}

    def tdm(time_array, a, b, **kw):
        k = kw['k']

        return dict(plus=e.array([a * t + b * k for t in time_array]), cross=e.array([b * t - a for t in time_array]))

    def fdm2(frequency_array, a, b, **kw):
        k = kw['k']

        return dict(plus=e.array([a - f + 1j * b for f in frequency_array]), cross=e.array([a + k * f for f in frequency_array]))
    return fdm, tdm, fdm2


def same(p):
    return p, []


def rfft(x, fs):
    """what utils.nfft is required to do: the transform over the sampling frequency"""
    n = len(x)
    out = []
    for q in range(n // 2 + 1):
        re = sum(x[j] * round(np.cos(2 * np.pi * j * q / n), 12) for j in range(n))
        im = -sum(x[j] * round(np.sin(2 * np.pi * j * q / n), 12) for j in range(n))
        out.append((re / fs, im / fs))
    if n % 2 == 1:
        raise AssertionError
    return out


def show(z):
    return [(np.real(v), np.imag(v)) for v in z]


def compare(e, label, got, want):
    e.check(label + ": polarizations", sorted(got) == sorted(want))
    for k in want:
        w = [x if isinstance(x, tuple) else (np.real(x), np.imag(x)) for x in want[k]]
        e.check(label + ": length", len(got[k]) == len(w))
        e.check_eq("%s %s" % (label, k), [x for p in show(got[k]) for x in p], [x for p in w for x in p], rtol=1e-9, atol=1e-9)


@harness("C30", "history", params=[("parameters", "parameters"), ("times", "times"), ("model", "model"), ("arguments", "arguments"), ("inplace", "inplace")],
         max_paths=1500, budget=200)
def history(e, change):
    """no earlier call shows in the waveform of a later one"""
    fdm, tdm, fdm2 = models(e)
    wg = WaveformGenerator(duration=1., sampling_frequency=4., start_time=0., frequency_domain_source_model=fdm,
                           time_domain_source_model=tdm, parameter_conversion=same, waveform_arguments=dict(k=2.))
    a, b = e.reals("a", 2, -2, 2), e.reals("b", 2, -2, 2)
    last, dur, fs, start, model, k = None, 1., 4., 0., fdm, 2.
    for i in range(3):
        if i:
            if change == "times":
                w = e.choice("set%i" % i, ["duration", "sampling_frequency", "start_time", "frequency_array", "time_array"])
                if w == "duration":
                    dur = wg.duration = 2. if dur == 1. else 1.
                elif w == "sampling_frequency":
                    fs = wg.sampling_frequency = 2. if fs == 4. else 4.
                elif w == "start_time":
                    start = wg.start_time = start + 1.
                elif w == "frequency_array":
                    dur, fs = 0.5, 8.
                    wg.frequency_array = np.array([0., 2., 4.])
                else:
                    dur, fs, start = 1., 2., 5.
                    wg.time_array = np.array([5., 5.5])
            elif change == "model":
                model = e.choice("model%i" % i, [fdm, fdm2])
                wg.frequency_domain_source_model = model
            elif change == "arguments":
                k = e.choice("k%i" % i, [2., 3.])
                wg.waveform_arguments["k"] = k
            elif change == "inplace":     # the generator's dictionary, or the caller's own, changes in place
                where = e.choice("where%i" % i, ["attribute", "update", "caller"])
                key = e.choice("key%i" % i, ["a", "b"])
                last = dict(last, **{key: dict(a=a, b=b)[key][i % 2]})
                if where == "attribute":
                    wg.parameters[key] = last[key]
                elif where == "update":
                    wg.parameters.update({key: last[key]})
                else:
                    mine.update(last)
                time = e.choice("time%i" % i, [False, True])
                got = (wg.time_domain_strain if time else wg.frequency_domain_strain)(*([mine] if where == "caller" else []))
                compare(e, "call %i" % i, got, tdm([j / fs for j in range(4)], last["a"], last["b"], k=k) if time else
                        fdm([j / dur for j in range(3)], last["a"], last["b"], k=k))
                continue
        which = e.choice("which%i" % i, ([0, None] if i else [0]) if change == "times" else [0, 1, None] if i and change != "arguments" else [0, 1] if change == "parameters" or i else [0])
        p = None if which is None else dict(a=a[which], b=b[which], other=1.)
        mine = p if i == 0 else mine
        last = dict(p) if p else last
        time = e.choice("time%i" % i, [False, True]) if change != "arguments" else False
        got = (wg.time_domain_strain if time else wg.frequency_domain_strain)(*([p] if p is not None else []))
        n = int(round(dur * fs))
        if time:
            want = tdm([start + j / fs for j in range(n)], last["a"], last["b"], k=k)
        else:
            want = model([j / dur for j in range(n // 2 + 1)], last["a"], last["b"], k=k)
        compare(e, "call %i" % i, got, want)


@harness("C30", "transform", params=[("dict", "dict"), ("array", "array"), ("none", "none")])
def transform(e, kind):
    """one domain's model gives the other domain's waveform by Fourier transform"""
    x = [e.reals(k, 4, -2, 2) for k in ("p", "c")]
    z = [e.cplxs(k, 3, lo=-2, hi=2) for k in ("q", "d")]
    for s in z:      # a real series
        s[0], s[2] = np.real(s[0]) + 0j, np.real(s[2]) + 0j
    fs = e.choice("fs", [4., 0.5])

    def td(time_array, a):
        return None if kind == "none" else e.array(x[0]) if kind == "array" else dict(plus=e.array(x[0]), cross=e.array(x[1]))

    def fdm(frequency_array, a):
        return None if kind == "none" else e.array(z[0]) if kind == "array" else dict(plus=e.array(z[0]), cross=e.array(z[1]))
    for d in ("time", "frequency"):
        for again in range(2):
            wg = wg if again else WaveformGenerator(duration=4 / fs, sampling_frequency=fs, parameter_conversion=same,
                                                    **{"%s_domain_source_model" % d: td if d == "time" else fdm})
            got = (wg.frequency_domain_strain if d == "time" else wg.time_domain_strain)(dict(a=1.))
            if kind == "none":
                e.check("no waveform from %s" % d, got is None)
                continue
            got = dict(plus=got) if kind == "array" else got
            for j, k in enumerate(["plus", "cross"][:len(got)]):
                if d == "time":
                    e.check_eq("%s spectrum" % k, [v for p in show(got[k]) for v in p], [v for p in rfft(x[j], fs) for v in p], rtol=1e-9, atol=1e-12)
                else:
                    s = z[j]
                    w = [(np.real(s[0]) + (-1)**n * np.real(s[2])
                          + 2 * (np.real(s[1]) * [1, 0, -1, 0][n] - np.imag(s[1]) * [0, 1, 0, -1][n])) * fs / 4 for n in range(4)]
                    e.check_eq("%s series" % k, list(got[k]), w, rtol=1e-9, atol=1e-12)


@harness("C30", "parameters")
def parameters(e):
    """the source model sees its own converted parameters and the waveform arguments"""
    seen = []

    def model(frequency_array, a, b, **kw):
        seen.append(dict(a=a, b=b, **kw))
        return dict(plus=frequency_array)

    def convert(p):
        p["b"] = p.pop("c") * 2
        p["junk"] = 1.
        return p, ["b"]
    dom = e.choice("domain", ["frequency", "time"])
    wg = WaveformGenerator(duration=1., sampling_frequency=4., parameter_conversion=convert, waveform_arguments=dict(k=3., a0=1.),
                           **{"%s_domain_source_model" % dom: model})
    a, c = e.reals("v", 2, -3, 3)
    given = dict(a=a, c=c, spare=5.)
    if e.choice("missing", [False, True]):
        del given["a"]
        e.check("missing parameter", bool(e.raises(lambda: getattr(wg, dom + "_domain_strain")(given), KeyError)))
        return
    getattr(wg, dom + "_domain_strain")(given)
    e.check("names", sorted(seen[0]) == ["a", "a0", "b", "k"])
    e.check_eq("values", [seen[0]["a"], seen[0]["b"], seen[0]["k"]], [a, 2 * c, 3.])
    e.check("what was given is unchanged", sorted(given) == ["a", "c", "spare"])
    e.check_eq("given values", [given["a"], given["c"]], [a, c])
    e.check("parameters must be a dictionary", bool(e.raises(lambda: setattr(wg, "parameters", [1.]), TypeError)))
    e.check("a model is needed", bool(e.raises(lambda: WaveformGenerator(duration=1., sampling_frequency=4.), AttributeError)))
    wg.frequency_domain_source_model = wg.time_domain_source_model = None
    e.check("no model", bool(e.raises(lambda: wg.frequency_domain_strain(given), RuntimeError)))


@harness("C30", "reference")
def reference(e):
    """models whose spins are defined at the starting frequency need that reference frequency"""
    app = e.choice("approximant", ["SEOBNRv4P", "IMRPhenomPv2", "NRSur7dq4", "SEOBNRv3"])
    n = lalsimulation.SimInspiralGetSpinFreqFromApproximant(lalsimulation.GetApproximantFromString(app))
    lo, ref = e.reals("f", 2, 10, 30)
    def make():
        return LALCBCWaveformGenerator(duration=1., sampling_frequency=4., frequency_domain_source_model=source.lal_binary_black_hole,
                                       waveform_arguments=dict(waveform_approximant=app, reference_frequency=ref, minimum_frequency=lo))
    if n == 1 and lo != ref:
        e.check("refused", bool(e.raises(make, ValueError)))
    else:
        make()
        e.check("accepted", True)


# ---------------------------------------------------------------- compact binaries

ARGS = ["mass_1", "mass_2", "luminosity_distance", "a_1", "tilt_1", "phi_12", "a_2", "tilt_2", "phi_jl", "theta_jn", "phase"]
RANGE = dict(mass_1=(1, 9), mass_2=(1, 9), luminosity_distance=(10, 900), a_1=(0, 1), a_2=(0, 1))


class Fail(RuntimeError):
    pass


def lalsim(e, h, deltaF=0.25, epoch=(0, 0), error=None):
    """LALSimulation is a given function: record what it is asked, return the given polarizations"""
    rec = types.SimpleNamespace(calls=[], params={}, spins=[])

    def series(v):
        return types.SimpleNamespace(data=types.SimpleNamespace(data=e.array(v)), deltaF=deltaF,
                                     epoch=types.SimpleNamespace(gpsSeconds=epoch[0], gpsNanoSeconds=epoch[1]))

    def call(name):
        def f(*a):
            rec.calls.append((name, a))
            if error is not None:
                raise error
            return series(list(h[0])), series(list(h[1]))
        return f
    for n in ("lalsim_SimInspiralFD", "lalsim_SimInspiralChooseFDWaveform", "lalsim_SimInspiralChooseFDWaveformSequence"):
        patch(e, source, n, call(n))

    def spins(**kw):
        rec.spins.append(kw)
        return tuple(0.125 * (i + 1) for i in range(7))
    patch(e, source, "bilby_to_lalsimulation_spins", spins)
    for n in ("TidalLambda1", "TidalLambda2", "PNSpinOrder", "PNTidalOrder", "PNPhaseOrder", "PNAmplitudeOrder"):
        patch(e, lalsimulation, "SimInspiralWaveformParamsInsert" + n, lambda d, v, n=n: rec.params.__setitem__(n, v))
    patch(e, lalsimulation, "SimInspiralModeArrayActivateMode", lambda d, l, m: rec.params.setdefault("modes", []).append((l, m)))
    return rec


def system(e, extra=()):
    p = {k: e.real(k, *RANGE.get(k, (0, 3))) for k in ARGS}
    p.update({k: e.real(k, 0, 500 if k != "eccentricity" else 1) for k in extra})
    return p


def asked(e, rec, p, ref, seq=False, ecc=0.):
    """masses in kilograms, distance in metres, spins from the conversion of the same system"""
    m1, m2, d = p["mass_1"] * utils.solar_mass, p["mass_2"] * utils.solar_mass, p["luminosity_distance"] * 1e6 * utils.parsec
    s = [0.125 * (i + 1) for i in range(7)]
    kw = rec.spins[0]
    e.check_eq("spin conversion", [kw[k] for k in ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2")],
               [p.get(k, 0.) for k in ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2")])
    e.check_eq("spin conversion scale", [kw["mass_1"] / m1, kw["mass_2"] / m2, kw["reference_frequency"], kw["phase"]], [1, 1, ref, p["phase"]], rtol=1e-9)
    a = rec.calls[0][1]
    if seq:
        got, want = [a[0]] + list(a[3:10]) + [a[11]], [p["phase"]] + s[1:] + [ref, s[0]]
        scaled = [a[1] / m1, a[2] / m2, a[10] / d]
    else:
        got, want = list(a[2:8]) + list(a[9:11]) + [a[12], a[17]], s[1:] + [s[0], p["phase"], ecc, ref]
        scaled = [a[0] / m1, a[1] / m2, a[8] / d]
        e.check_eq("angles of the orbit", [a[11], a[13]], [0, 0])
    e.check_eq("arguments", got, want)
    e.check_eq("units", scaled, [1, 1, 1], rtol=1e-9)
    e.check_eq("tides", [rec.params["TidalLambda1"], rec.params["TidalLambda2"]], [p.get("lambda_1", 0), p.get("lambda_2", 0)])


MODELS = dict(bbh=(source.lal_binary_black_hole, "IMRPhenomPv2", 50., 20., ()),
              bns=(source.lal_binary_neutron_star, "IMRPhenomPv2_NRTidal", 50., 20., ("lambda_1", "lambda_2")),
              ecc=(source.lal_eccentric_binary_black_hole_no_spins, "EccentricFD", 10., 10., ("eccentricity",)))


@harness("C30", "binary", params=[(k, k) for k in MODELS])
def binary(e, kind):
    """what LALSimulation returns, on the frequencies asked for and zero outside the band"""
    model, app, ref, low, extra = MODELS[kind]
    f = np.array([0., 8., 16., 24., 32., 40.])
    n = e.choice("returned", [4, 6, 8])
    h = [e.cplxs("h%s" % k, n, lo=-2, hi=2) for k in "pc"]
    rec = lalsim(e, h)
    p = system(e, extra)
    if kind == "ecc":
        for k in ("a_1", "a_2", "tilt_1", "tilt_2", "phi_12", "phi_jl"):
            del p[k]
    kw, hi = {}, 40.
    if e.choice("settings", [False, True]):
        ref, low, hi = e.real("ref", 10, 60), e.choice("low", [5., 16., 18.]), e.choice("high", [30., 32.])
        kw = dict(reference_frequency=ref, minimum_frequency=low, maximum_frequency=hi, mode_array=[[2, 2], [3, -3]])
    got = model(f, **p, **kw)
    asked(e, rec, p, ref, ecc=p.get("eccentricity", 0.))
    name, a = rec.calls[0]
    e.check("frequency-domain model", name == "lalsim_SimInspiralChooseFDWaveform" and a[19] == lalsimulation.GetApproximantFromString(app))
    e.check_eq("frequencies asked for", [a[14], a[15], a[16]], [8., low, hi])
    e.check("modes", rec.params.get("modes", []) == ([(2, 2), (3, -3)] if kw else []))
    for k, s in zip(("plus", "cross"), h):
        compare(e, k, {k: got[k]}, {k: [s[i] if i < n and low <= f[i] <= hi else 0. for i in range(6)]})


@harness("C30", "shifted")
def shifted(e):
    """a waveform made in the time domain is shifted so that it ends at the reference time"""
    f = np.array([0., 8., 16., 24., 32.])
    n = e.choice("returned", [5, 6, 4])
    h = [e.cplxs("h%s" % k, n, lo=-2, hi=2) for k in "pc"]
    df = e.choice("step", [8., 4.])
    sec, ns = e.choice("epoch", [(0, 10000000), (-1, 510000000), (-3, 260000000)])
    rec = lalsim(e, h, deltaF=df, epoch=(sec, ns))
    p = system(e)
    low = 10.
    got = source.lal_binary_black_hole(f, waveform_approximant="SEOBNRv4", minimum_frequency=low, **p)
    asked(e, rec, p, 50.)
    e.check("time-domain model", rec.calls[0][0] == "lalsim_SimInspiralFD")
    dt = 1 / df + sec + ns * 1e-9
    for k, s in zip(("plus", "cross"), h):
        want = []
        for i in range(5):
            if i >= n or f[i] < low:
                want.append((0., 0.))
                continue
            z = np.exp(-1j * 2 * np.pi * dt * f[i])
            c, q = z.real, -z.imag
            want.append((np.real(s[i]) * c + np.imag(s[i]) * q, np.imag(s[i]) * c - np.real(s[i]) * q))
        compare(e, k, {k: got[k]}, {k: want})


@harness("C30", "failure", params=[("binary", 0), ("sequence", 1)])
def failure(e, seq):
    """a waveform outside the model's domain is missing if errors are caught; any other error is raised"""
    msg = e.choice("message", ["Internal function call failed: Input domain error", "Something else"])
    lalsim(e, [[], []], error=RuntimeError(msg))
    p = {k: 1. for k in ARGS}
    p.update(mass_1=e.pos("m", 9))
    catch = e.choice("catch", [None, True, False])
    kw = {} if catch is None else dict(catch_waveform_errors=catch)
    f = np.array([0., 8., 16.])

    def go():
        if seq:
            return source.binary_black_hole_frequency_sequence(f, frequencies=f[1:], **p, **kw)
        return source.lal_binary_black_hole(f, **p, **kw)
    if catch and msg.startswith("Internal"):
        e.check("missing", go() is None)
    else:
        e.check("raised", bool(e.raises(go, RuntimeError)))


@harness("C30", "sequence", params=[("bbh", 0), ("bns", 1)])
def sequence(e, tides):
    """waveforms at given frequencies"""
    extra = ("lambda_1", "lambda_2") if tides else ()
    h = [e.cplxs("h%s" % k, 3, lo=-2, hi=2) for k in "pc"]
    rec = lalsim(e, h)
    p = system(e, extra)
    kind = e.choice("kind", ["sequence", "edges", "fiducial", "nodes", "indices"])
    ref = e.real("ref", 10, 60)
    kw = dict(reference_frequency=ref, waveform_approximant="IMRPhenomD")
    if e.choice("unused argument", [False, True]):
        kw["a_word_without_meaning"] = 1.
    f = np.array([0., 8., 16., 24.])
    pts = np.array([10., 20., 30.])
    if kind == "sequence":
        m = source.binary_neutron_star_frequency_sequence if tides else source.binary_black_hole_frequency_sequence
        got = m(f, frequencies=pts, **p, **kw)
    elif kind in ("edges", "fiducial"):
        m = source.lal_binary_neutron_star_relative_binning if tides else source.lal_binary_black_hole_relative_binning
        got = m(f, fiducial=int(kind == "fiducial"), frequency_bin_edges=pts, minimum_frequency=10., maximum_frequency=20., **p, **kw)
    else:
        m = source.binary_neutron_star_roq if tides else source.binary_black_hole_roq
        if kind == "nodes":
            got = m(f, frequency_nodes_linear=np.array([30., 10.]), frequency_nodes_quadratic=np.array([20., 10., 30.]), **p, **kw)
            lin, quad = [2, 0], [1, 0, 2]
        else:
            lin, quad = [1, 2], [0, 2, 1]
            got = m(f, frequency_nodes=pts, linear_indices=lin, quadratic_indices=quad, frequency_nodes_linear=np.zeros(1),
                    frequency_nodes_quadratic=np.zeros(1), **p, **kw)
    name, a = rec.calls[0]
    asked(e, rec, p, ref, seq=kind != "fiducial")
    if kind == "fiducial":
        e.check("whole waveform", name == "lalsim_SimInspiralChooseFDWaveform")
        for k, s in zip(("plus", "cross"), h):
            compare(e, k, {k: got[k]}, {k: [0., 0., s[2], 0.]})
        return
    e.check("frequencies", name == "lalsim_SimInspiralChooseFDWaveformSequence" and list(a[14]) == [10., 20., 30.]
            and a[13] == lalsimulation.GetApproximantFromString("IMRPhenomD"))
    if kind in ("sequence", "edges"):
        compare(e, kind, got, dict(plus=h[0], cross=h[1]))
    else:
        for part, idx in (("linear", lin), ("quadratic", quad)):
            compare(e, part, got[part], dict(plus=[h[0][i] for i in idx], cross=[h[1][i] for i in idx]))
