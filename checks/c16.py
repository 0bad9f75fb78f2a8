"""C16: time and frequency series, their Fourier transforms and the coupled pair agree with each other."""
from fractions import Fraction

import numpy as np

from bilby.core import series, utils
from bilby.core.utils import series as us
from symx.api import harness
from common import use_rng

BOUNDS = ["2 to 9 samples, symbolic sampling frequency 0.1 to 5000, symbolic start time, symbolic data",
          "products of duration and sampling frequency up to 5e-15 from an integer",
          "histories of up to three changes with reads in between"]
OUTSIDE = ["sampling frequency and duration recovered from a frequency array of an odd number of samples (not determined by the array)",
           "floating-point rounding of the transform"]
NS = [2, 3, 4, 5, 6, 7, 8, 9]


def grid(e, n, exact=False):
    fs = e.real("fs", 0.1, 5000)
    eps = 0 if exact else e.real("eps", -5e-15, 5e-15)
    return fs, (n + eps) / fs


@harness("C16", "series", params=[(str(n), n) for n in NS])
def arrays(e, n):
    """both series have the spacing and the length of the data, also for an odd number of samples"""
    fs, T = grid(e, n)
    t0 = e.real("t0", -100, 100)
    t = us.create_time_series(fs, T, t0)
    e.check("number of times", len(t) == n)
    near(e, "times", t, [t0 + k / fs for k in range(n)], 1 / fs)
    f = us.create_frequency_series(fs, T)
    e.check("number of frequencies", len(f) == n // 2 + 1)
    near(e, "frequencies", f, [k * fs / n for k in range(n // 2 + 1)], fs)
    e.check_eq("default start", us.create_time_series(fs, T)[0], 0)


@harness("C16", "illegal")
def illegal(e):
    fs = e.real("fs", 0.1, 100)
    p = e.real("p", 0.5, 6)
    bad = bool(abs(p - np.round(p)) > 1e-12)
    if not bad:
        e.assume(abs(p - np.round(p)) < 3e-15)
    for f in (us.create_time_series, us.create_frequency_series):
        ex = e.raises(lambda: f(fs, p / fs), us.IllegalDurationAndSamplingFrequencyException)
        e.check_eq("only (nearly) integer products are accepted", ex is not None, bad)


@harness("C16", "recover", params=[(str(n), n) for n in NS])
def recover(e, n):
    """sampling frequency and duration are read back from either array"""
    fs, T = grid(e, n, True)
    t0 = e.real("t0", -100, 100)
    got = us.get_sampling_frequency_and_duration_from_time_array(us.create_time_series(fs, T, t0))
    e.check_eq("from times", list(got), [fs, T], rtol=1e-7)
    e.check_eq("sampling frequency", us.get_sampling_frequency(us.create_time_series(fs, T, t0)), fs, rtol=1e-7)
    if n % 2 == 0:
        got = us.get_sampling_frequency_and_duration_from_frequency_array(us.create_frequency_series(fs, T))
        e.check_eq("from frequencies", list(got), [fs, T], rtol=1e-7)


@harness("C16", "uneven")
def uneven(e):
    d = e.reals("d", 3, 0.01, 5)
    x = e.array([0., d[0], d[0] + d[1], d[0] + d[1] + d[2]])
    spread = [abs(d[i] - d[j]) for i in range(3) for j in range(i)]
    bad = any(bool(s > 1e-8) for s in spread)
    if not bad:
        for s in spread:
            e.assume(s < 1e-11)
    for f in (us.get_sampling_frequency, us.get_sampling_frequency_and_duration_from_time_array, us.get_sampling_frequency_and_duration_from_frequency_array):
        e.check_eq("uneven arrays are refused", e.raises(lambda: f(x), ValueError) is not None, bad)


def dft(e, x, k):
    n = len(x)
    return sum(v * e.cospi(Fraction(2 * (j * k % n), n)) for j, v in enumerate(x)), -sum(v * e.sinpi(Fraction(2 * (j * k % n), n)) for j, v in enumerate(x))


def near(e, label, got, want, scale):
    """equal up to a billionth of a spacing"""
    for x, y in zip(got, want):
        e.check_le(label, abs((x - y) / scale), 1e-9)


@harness("C16", "fft", params=[(str(n), n) for n in NS])
def fft(e, n):
    x = e.reals("x", n, -5, 5)
    fs = e.real("fs", 0.1, 5000)
    d, f = utils.nfft(e.array(x), fs)
    e.check("length", len(d) == len(f) == n // 2 + 1)
    e.check_eq("frequencies of the bins", f, [k * fs / n for k in range(n // 2 + 1)])
    for k in range(n // 2 + 1):
        re, im = dft(e, x, k)
        e.check_eq("transform", [d[k].real, d[k].imag], [re / fs, im / fs], rtol=1e-6, atol=1e-8)
    if n % 2 == 0:
        e.check_eq("inverse", utils.infft(d, fs), x, rtol=1e-6, atol=1e-8)
        power = sum(((1 if k in (0, n // 2) else 2) * abs(d[k]) ** 2) for k in range(n // 2 + 1))
        e.check_eq("Parseval", power * fs / n, sum(v ** 2 for v in x) / fs, rtol=1e-6, atol=1e-8)


@harness("C16", "white-noise", params=[(str(n), n) for n in NS])
def white(e, n):
    rng = use_rng(e)
    fs, T = grid(e, n)
    w, f = us.create_white_noise(fs, T)
    m = n // 2 + 1
    e.check("length", len(w) == len(f) == m)
    e.check("one pair of draws per frequency", len(rng.log) == 2 * m)
    e.check_eq("frequencies", f, [k * fs / n for k in range(m)], rtol=1e-9, atol=1e-9)
    e.check_eq("no constant part", [w[0].real, w[0].imag], [0, 0])
    for k in range(1, m):
        zero = n % 2 == 0 and k == m - 1
        a, b = rng.log[k], rng.log[m + k]
        s = np.sqrt(T) / 2
        e.check_eq("independent real and imaginary parts", [w[k].real, w[k].imag], [0, 0] if zero else [s * a, s * b])


OPS = ["duration", "sampling_frequency", "start_time", "time_array", "frequency_array"]


@harness("C16", "coupled", params=[("%s+%s" % (a, b), (a, b)) for a in OPS for b in OPS])
def coupled(e, ops):
    """after any sequence of changes and reads the arrays are those of the current duration, sampling frequency and start time"""
    n = 4
    fs, t0 = e.real("fs", 1, 100), e.real("t0", -10, 10)
    s = series.CoupledTimeAndFrequencySeries(duration=n / fs, sampling_frequency=fs, start_time=t0)
    T = n / fs
    for i, op in enumerate(ops):
        if e.choice("read%d" % i, [False, True]):
            s.time_array
            s.frequency_array
        f2, u = e.real("f%d" % i, 1, 100), e.real("u%d" % i, -10, 10)
        n2 = e.choice("n%d" % i, [4, 6])
        if op == "duration":
            # (from the series' own number, which recovering it from an array rounds: the product has to be an integer)
            n, T = n2, n2 / fs
            s.duration = n2 / s.sampling_frequency
        elif op == "sampling_frequency":
            n, fs = n2, n2 / T
            s.sampling_frequency = n2 / s.duration
        elif op == "start_time":
            t0 = u
            s.start_time = u
        elif op == "time_array":
            fs, T, t0, n = f2, n2 / f2, u, n2
            s.time_array = us.create_time_series(fs, T, t0)
        else:
            fs, T, n = f2, n2 / f2, n2
            s.frequency_array = us.create_frequency_series(fs, T)
    e.check_eq("duration, sampling frequency, start", [s.duration, s.sampling_frequency, s.start_time], [T, fs, t0], rtol=1e-7)
    e.check("lengths", len(s.time_array) == n and len(s.frequency_array) == n // 2 + 1)
    e.check_eq("times", s.time_array, [t0 + k / fs for k in range(n)], rtol=1e-7)
    e.check_eq("frequencies", s.frequency_array, [k * fs / n for k in range(n // 2 + 1)], rtol=1e-7)


@harness("C16", "unset")
def unset(e):
    s = series.CoupledTimeAndFrequencySeries(duration=e.choice("T", [None, 2.]), sampling_frequency=e.choice("fs", [None, 4.]))
    missing = s.duration is None or s.sampling_frequency is None
    for k in ("time_array", "frequency_array"):
        e.check_eq("an undefined series is refused", e.raises(lambda: getattr(s, k), ValueError) is not None, missing)
