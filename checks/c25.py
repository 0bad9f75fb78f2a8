"""C25: the strain data of a detector are the ones set last, in both domains, masked, windowed and normalised consistently."""
import sys
import types

import numpy as np

from bilby.gw.detector import strain_data as sd
from bilby.core import utils
from bilby.core.utils import series as us
from symx.api import harness
from common import patch

BOUNDS = ["4 to 6 samples of symbolic data, symbolic sampling frequency, start time, band, notch and window roll-off",
          "histories of two changes of data or band, with any of four reads between them and either domain read first afterwards"]
OUTSIDE = ["the gwpy time series, its filter, its spectral estimate and frame files (stand-ins that return the given data)",
           "a roll-off changed after the data were transformed", "the time-domain strain computed before the band is changed",
           "floating-point rounding"]


def own_tukey(M, alpha=0.5):
    if M == 1:
        return np.ones(1)
    if alpha <= 0:
        return np.ones(M)
    if alpha >= 1:
        alpha = 1.
    w = []
    for n in range(M):
        k = min(n, M - 1 - n)
        if 2 * k < alpha * (M - 1):
            w.append(0.5 * (1 + np.cos(np.pi * (2 * k / (alpha * (M - 1)) - 1))))
        else:
            w.append(1.)
    return np.array(w)


def tukey_for(e):
    if e.symbolic:
        import scipy.signal.windows as w
        patch(e, w, "tukey", own_tukey)
    from scipy.signal.windows import tukey
    return tukey


class Value:
    def __init__(self, value):
        self.value = value


class FakeTimeSeries:
    """as much of gwpy's TimeSeries as bilby uses, with the spectral estimate and the filter recorded"""
    def __init__(self, data, sample_rate=None, t0=0, channel=None):
        self.value = data
        self.sample_rate = Value(sample_rate)
        self.duration = Value(len(data) / sample_rate)
        self.epoch = Value(t0)
        self.channel = channel

    def psd(self, **kwargs):
        FakeTimeSeries.asked = (self.value, self.sample_rate.value, kwargs)
        return types.SimpleNamespace(frequencies=Value("f"), value="p")

    def filter(self, bp, filtfilt=False):
        return FakeTimeSeries(self.value * bp, self.sample_rate.value)


def fake_gwpy(e):
    ts = types.ModuleType("gwpy.timeseries")
    ts.TimeSeries = FakeTimeSeries
    fd = types.ModuleType("gwpy.signal.filter_design")
    fd.lowpass = lambda f, fs: 0.5 + f / fs
    for name, mod in (("gwpy.timeseries", ts), ("gwpy.signal.filter_design", fd)):
        old = sys.modules.get(name)
        sys.modules[name] = mod
        e.on_cleanup(lambda name=name, old=old: sys.modules.__setitem__(name, old) if old is not None else sys.modules.pop(name))


class State:
    """what the data should be"""
    def __init__(self, low, high, roll):
        self.low, self.high, self.roll, self.notch = low, high, roll, None
        self.kind, self.any_fs = None, False

    def window(self):
        return self.tukey(self.n, alpha=2 * self.roll * self.fs / self.n)

    def freqs(self):
        return [k * self.fs / self.n for k in range(self.n // 2 + 1)]

    def mask(self):
        m = np.array([((f >= self.low) & (f <= self.high)) for f in self.freqs()])
        if self.notch:
            m = m & ~np.array([((f > self.notch[0]) & (f < self.notch[1])) for f in self.freqs()])
        return m

    def fd(self):
        if self.kind == "td":
            raw = np.fft.rfft(self.data * self.window()) / self.fs
        else:
            raw = self.data
        return raw * self.mask()

    def td(self):
        return self.data if self.kind == "td" else np.fft.irfft(self.fd()) * self.fs

    def factor(self):
        return 1 if self.origin is None else np.mean(self.origin ** 2)


def sets(e, s, st, op, i):
    """perform one operation on the strain data and on the specification"""
    n = st.n if op in ("assign", "inject") else 4 + 2 * (i % 2)
    # (bilby recovers the sampling frequency from arrays up to rounding, which decides whether the Nyquist bin is in the band:
    # where the Nyquist frequency is the upper limit, use numbers for which it is exact)
    fs = e.real("fs%d" % i, 1, 100) if st.any_fs else [16., 64.][i]
    t0 = e.real("t%d" % i, -10, 10)
    td = e.reals("td%d" % i, n, -5, 5)
    fd = e.cplxs("fd%d" % i, n // 2 + 1)
    if op in ("td", "td array", "gwpy"):
        st.kind, st.data, st.fs, st.n, st.t0 = "td", e.array(td), fs, n, t0
        st.origin = st.window()
        if op == "td":
            s.set_from_time_domain_strain(e.array(td), sampling_frequency=fs, duration=n / fs, start_time=t0)
        elif op == "td array":
            s.set_from_time_domain_strain(e.array(td), time_array=us.create_time_series(fs, n / fs, t0))
        else:
            s.set_from_gwpy_timeseries(FakeTimeSeries(e.array(td), fs, t0, "X"))
    elif op in ("fd", "fd array", "psd", "zero"):
        st.kind, st.data, st.fs, st.n, st.t0, st.origin = "fd", e.array(fd), fs, n, t0, None
        if op == "fd":
            s.set_from_frequency_domain_strain(e.array(fd), sampling_frequency=fs, duration=n / fs, start_time=t0)
        elif op == "fd array":
            s.set_from_frequency_domain_strain(e.array(fd), frequency_array=us.create_frequency_series(fs, n / fs), start_time=t0)
        elif op == "psd":
            psd = types.SimpleNamespace(get_noise_realisation=lambda a, b: (e.array(fd), us.create_frequency_series(a, b)))
            s.set_from_power_spectral_density(psd, fs, n / fs, t0)
        else:
            st.data = e.array([e.mkc(0., 0.)] * (n // 2 + 1))
            s.set_from_zero_noise(fs, n / fs, t0)
    elif op == "assign":
        st.kind, st.data = "fd", e.array(fd)
        s.frequency_domain_strain = e.array(fd)
    elif op == "inject":
        st.data, st.kind = st.fd() + e.array(fd), "fd"
        s.frequency_domain_strain += e.array(fd)
    elif op == "band":
        st.low, st.high = e.real("low%d" % i, 0, 40), e.real("high%d" % i, 0, 60)
        s.minimum_frequency, s.maximum_frequency = st.low, st.high
    elif op == "notch":
        a = e.real("a%d" % i, 0.1, 20)
        st.notch = (a, a + e.real("b%d" % i, 0.1, 20))
        s.notch_list = [st.notch]


READS = {"none": lambda s: None, "fd": lambda s: s.frequency_domain_strain, "td": lambda s: s.time_domain_strain,
         "mask": lambda s: s.frequency_mask, "factor": lambda s: s.window_factor}
FIRST = ["td", "td array", "gwpy", "fd", "fd array", "psd", "zero"]
SECOND = ["td", "fd", "gwpy", "fd array", "zero", "assign", "inject", "band", "notch"]


def start(e, limitless=False):
    fake_gwpy(e)
    low, high, roll = e.real("low", 0, 20), np.inf if limitless else e.real("high", 0, 60), e.real("roll", 0.01, 0.5)
    s = sd.InterferometerStrainData(minimum_frequency=low, maximum_frequency=high, roll_off=roll)
    st = State(low, high, roll)
    st.tukey = tukey_for(e)
    return s, st


def verify(e, s, st, first):
    for k in {"fd": ["fd", "factor", "td"], "td": ["td", "fd", "factor"], "factor": ["factor", "td", "fd"]}[first]:
        if k == "fd":
            e.check_eq("frequency-domain strain", s.frequency_domain_strain, st.fd(), rtol=1e-9, atol=1e-9)
        elif k == "td":
            e.check_eq("time-domain strain", s.time_domain_strain, st.td(), rtol=1e-9, atol=1e-9)
        else:
            e.check_eq("window normalisation", s.window_factor, st.factor(), rtol=1e-9)
    e.check_eq("mask", [1 * m for m in s.frequency_mask], [1 * m for m in st.mask()])
    e.check_eq("times", s.time_array, [st.t0 + k / st.fs for k in range(st.n)], rtol=1e-9)
    e.check_eq("frequencies", s.frequency_array, st.freqs(), rtol=1e-9)
    e.check_eq("times set", [s.start_time, s.duration, s.sampling_frequency], [st.t0, st.n / st.fs, st.fs], rtol=1e-9)


@harness("C25", "history", params=[("%s+%s" % (a, b), (a, b)) for a in FIRST for b in SECOND])
def history(e, ops):
    s, st = start(e)
    sets(e, s, st, ops[0], 0)
    READS[e.choice("read", [k for k in READS if k != "td" or ops[1] not in ("band", "notch")])](s)
    sets(e, s, st, ops[1], 1)
    verify(e, s, st, e.choice("order", ["fd", "td", "factor"]))


@harness("C25", "single", params=FIRST)
def single(e, op):
    s, st = start(e, True)
    st.any_fs = True
    sets(e, s, st, op, 0)
    READS[e.choice("read", [k for k in READS if k != "td"])](s)
    s.maximum_frequency = st.high = e.real("high", 0, 0.49) * st.fs
    verify(e, s, st, e.choice("order", ["fd", "td", "factor"]))


@harness("C25", "low-pass", params=["td", "fd"])
def low_pass(e, op):
    """a low-pass filter acts on the data of both domains, whatever was read before"""
    s, st = start(e)
    st.any_fs = op == "fd"
    sets(e, s, st, op, 0)
    e.assume(abs(2 * st.high - st.fs) > 1e-6)
    READS[e.choice("read", list(READS))](s)
    f = e.choice("cut", [None, "value"])
    if f is not None:
        f = e.real("f", 1, 100)
        e.assume(abs(2 * f - st.fs) > 1e-6)
    td = st.td()
    s.low_pass_filter(f)
    cut = np.minimum(st.high, st.fs / 2) if f is None else f
    if 2 * cut < st.fs:
        st.kind, st.data = "td", td * (0.5 + cut / st.fs)
        st.origin = st.window()
    verify(e, s, st, e.choice("order", ["fd", "td", "factor"]))


@harness("C25", "psd-segment")
def psd_segment(e):
    """the analysis segment, and nothing else, is left out of the data from which the noise is estimated"""
    s, st = start(e, True)
    fs = e.real("fs", 1, 10)
    st.kind, st.fs, st.n, st.t0 = "td", fs, 6, e.real("t0", -10, 1000)
    data = e.array(e.reals("d", 6, -5, 5))
    s.set_from_time_domain_strain(data, sampling_frequency=fs, duration=6 / fs, start_time=st.t0)
    length = e.real("length", 0.1, 3) / fs
    t = [st.t0 + k / fs for k in range(6)]
    seg = e.choice("segment", [None, "time"])
    keep = [True] * 6
    if seg is not None:
        off = e.real("seg", -9, 9)
        seg = st.t0 + off / fs
        for k in range(6):
            e.assume((abs(off - k) > 1e-6) & (abs(off + length * fs - k) > 1e-6))
        if (off > 0) & (off + length * fs < 5):
            keep = [bool((k < off) | (k > off + length * fs)) for k in range(6)]
    over = e.real("overlap", 0, 1)
    got = s.create_power_spectral_density(length, overlap=over, analysis_segment_start_time=seg)
    e.check("what the estimate returned is returned", got == ("f", "p"))
    d, rate, kw = FakeTimeSeries.asked
    want = [x for x, k in zip(data, keep) if k]
    e.check("number of samples used", len(d) == len(want))
    if len(d) == len(want) and len(d):
        e.check_eq("samples used", d, want)
    e.check_eq("sampling frequency", rate, fs)
    e.check_eq("segment length and overlap", [kw["fftlength"], kw["overlap"]], [length, over])
    e.check("window", kw["window"][0] == "tukey")
    e.check_eq("window shape", kw["window"][1], 2 * st.roll / length)


@harness("C25", "mismatch", params=["td", "fd", "assign", "psd"])
def mismatch(e, op):
    """data of another length are refused"""
    s, st = start(e)
    fs, n = e.real("fs", 1, 100), 4
    m = e.choice("length", [2, 3, 4, 5])
    d = e.array(e.reals("d", m, -1, 1))
    if op == "td":
        ex = e.raises(lambda: s.set_from_time_domain_strain(d, sampling_frequency=fs, duration=n / fs), ValueError)
        bad = m != n
    else:
        if op == "fd":
            ex = e.raises(lambda: s.set_from_frequency_domain_strain(d, sampling_frequency=fs, duration=n / fs), ValueError)
        elif op == "psd":
            psd = types.SimpleNamespace(get_noise_realisation=lambda a, b: (d, np.linspace(0, a / 2, m)))
            ex = e.raises(lambda: s.set_from_power_spectral_density(psd, 16., n / 16.), ValueError)
        else:
            s.set_from_zero_noise(fs, n / fs)
            ex = e.raises(lambda: setattr(s, "frequency_domain_strain", d), ValueError)
        bad = m != n // 2 + 1
    e.check("refused when and only when the length is wrong", (ex is not None) == bad)


@harness("C25", "time-within")
def time_within(e):
    s, st = start(e)
    fs, t0, t = e.real("fs", 1, 10), e.real("t0", -10, 10), e.real("t", -30, 30)
    s.set_from_zero_noise(fs, 4 / fs, t0)
    e.assume((abs(t - t0) > 1e-9) & (abs(t - t0 - 4 / fs) > 1e-9))
    e.check_eq("inside", s.time_within_data(t), bool((t > t0) & (t < t0 + 4 / fs)))


@harness("C25", "notch")
def notch(e):
    a, b, c, d = [e.real(k, -1, 10) for k in "abcd"]
    ex = e.raises(lambda: sd.Notch(a, b), ValueError)
    e.check_eq("a notch is an interval of positive frequencies", ex is None, bool((0 < a) & (a < b)))
    e.assume((0 < a) & (a < b) & (0 < c) & (c < d))
    nl = sd.NotchList([(a, b), (c, d)])
    f = e.real("f", -1, 11)
    e.check_eq("inside any of the notches", bool(nl.check_frequency(f)), bool(((a < f) & (f < b)) | ((c < f) & (f < d))))
    s, st = start(e, True)
    s.notch_list = [(a, b), (c, d)]
    low = s.minimum_frequency = e.real("least", -1, 5)
    s.set_from_zero_noise(16., 0.25)
    want = [1 * ((g >= low) & ~(((a < g) & (g < b)) | ((c < g) & (g < d)))) for g in (0, 4, 8)]
    e.check_eq("mask of two notches", [1 * m for m in s.frequency_mask], want)
    bad = e.choice("bad", [(1,), [1, 2], "ab", (1, 2, 3), 4])
    e.check("other notches are refused", e.raises(lambda: sd.NotchList([bad]), ValueError) is not None)


@harness("C25", "unset")
def unset(e):
    s = sd.InterferometerStrainData()
    for k in ("time_domain_strain", "frequency_domain_strain"):
        e.check("data never set are refused", e.raises(lambda: getattr(s, k), ValueError) is not None)
