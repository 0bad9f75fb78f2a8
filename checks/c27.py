"""C27: the noise spectrum in use is the one set last, and its amplitude and power never disagree."""
import os
import shutil
import tempfile

import numpy as np

from bilby.core import utils
from bilby.core.utils import series as us
from bilby.gw.detector import psd
from symx.api import harness
from common import patch, use_rng

BOUNDS = ["spectra at three or four frequencies with symbolic frequencies and values, looked up at up to two symbolic frequencies at a time",
          "histories of two ways of setting a spectrum with lookups in between"]
OUTSIDE = ["estimating a spectrum from data (gwpy)", "floating-point rounding", "lookups within 1e-6 of the first or last frequency"]


def grid(e, tag, n=3):
    f0 = e.real(tag + "f0", 0, 5)
    f = [f0]
    for k in range(1, n):
        f.append(f[-1] + e.real(tag + "df%d" % k, 0.5, 5))
    return f


def lookup(e, tag, f):
    """a place in, below or above the grid, and one of the grid's own frequencies"""
    q = e.reals(tag + "q", 1, 0, 15)
    for x in q:
        for g in f:
            e.assume(abs(x - g) > 1e-6)
    return q + [f[1]]


def value(f, S, x):
    if x < f[0] or x > f[-1]:
        return np.inf
    for k in range(1, len(f)):
        if x <= f[k]:
            return S[k - 1] + (S[k] - S[k - 1]) * (x - f[k - 1]) / (f[k] - f[k - 1])


def same(e, label, got, want, power=1):
    for g, w in zip(got, want):
        if w is np.inf:
            e.check(label + " (infinite outside)", bool(np.isinf(g)))
        else:
            e.check(label + " (finite inside)", not bool(np.isinf(g)))
            e.check_eq(label, g**power, w, rtol=1e-9)


WAYS = ["init psd", "init asd", "psd_array", "asd_array", "psd_file", "asd_file", "from psd", "from asd"]


def write(e, f, v):
    d = tempfile.mkdtemp()
    e.on_cleanup(lambda: shutil.rmtree(d))
    name = os.path.join(d, "curve.txt")
    psd.np.savetxt(name, np.array([f, v]).T if not e.symbolic else e.array([x for p in zip(f, v) for x in p]).reshape(len(f), 2))
    return name


def setting(e, p, way, f, a):
    """set the amplitude spectrum a at the frequencies f"""
    P = psd.PowerSpectralDensity
    F, A, S = e.array(f), e.array(a), e.array([x**2 for x in a])
    patch(e, psd.logger, "warning", lambda *x: None)
    if e.symbolic:
        patch(e, psd, "min", lambda x: np.minimum.reduce(x))  # without branching on the order of the values
    if way == "init psd":
        return P(frequency_array=F, psd_array=S)
    if way == "init asd":
        return P(frequency_array=F, asd_array=A)
    if way == "from psd":
        return P.from_power_spectral_density_array(F, S)
    if way == "from asd":
        return P.from_amplitude_spectral_density_array(F, A)
    if way == "psd_file":
        if p is None:
            return P.from_power_spectral_density_file(write(e, f, S))
        p.psd_file = write(e, f, S)
        return p
    if way == "asd_file":
        if p is None:
            return P.from_amplitude_spectral_density_file(write(e, f, A))
        p.asd_file = write(e, f, A)
        return p
    if p is None:
        p = P(frequency_array=F, psd_array=e.array([1. + 0 * x for x in a]))
    p.frequency_array = F
    setattr(p, way, S if way == "psd_array" else A)
    return p


@harness("C27", "history", params=[("%s+%s" % (a, b), (a, b)) for a in WAYS for b in ("psd_array", "asd_array", "psd_file", "asd_file")])
def history(e, ways):
    """after any two ways of setting the spectrum all views of it are those of the last one"""
    f1, f = grid(e, "a"), grid(e, "b")
    v1, v = e.reals("u", 3, 0.5, 3), e.reals("v", 3, 0.5, 3)
    q = lookup(e, "b", f)
    p = setting(e, None, ways[0], f1, v1)
    Q = e.array(q)
    r = e.choice("read", ["psd", "asd", "elsewhere", "none"])
    if r == "psd":
        p.get_power_spectral_density_array(Q)
    elif r == "asd":
        p.get_amplitude_spectral_density_array(Q)
    elif r == "elsewhere":
        p.get_power_spectral_density_array(e.array([f1[0], f1[2]]))
    p = setting(e, p, ways[1], f, v)
    e.check_eq("power", p.psd_array, [x**2 for x in v], rtol=1e-9)
    e.check_eq("amplitude", p.asd_array, v, rtol=1e-9)
    e.check_eq("frequencies", p.frequency_array, f)
    S = [value(f, [x**2 for x in v], x) for x in q]
    if e.choice("first", ["psd", "asd"]) == "psd":
        same(e, "power looked up", p.get_power_spectral_density_array(Q), S)
        same(e, "amplitude looked up", p.get_amplitude_spectral_density_array(Q), S, 2)
    else:
        same(e, "amplitude looked up", p.get_amplitude_spectral_density_array(Q), S, 2)
        same(e, "power looked up", p.get_power_spectral_density_array(Q), S)
    same(e, "interpolated", p.power_spectral_density_interpolated(Q), S)


@harness("C27", "lookups", max_paths=2000)
def lookups(e):
    """looking a spectrum up at several sets of frequencies gives each its own values"""
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    p = psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    qs = [e.reals("x", 1, 0, 15), e.reals("y", 1, 0, 15), [e.real("z", 0, 15), f[1] + 0.1]]
    for x in [x for q in qs for x in q]:
        for g in f:
            e.assume(abs(x - g) > 1e-6)
    order = e.choice("order", [(0, 1, 0), (0, 2, 1), (2, 2, 0)])
    asd = e.choice("amplitude at", [0, 1, 2])
    for n, i in enumerate(order):
        if n == asd:
            same(e, "amplitude", p.get_amplitude_spectral_density_array(e.array(qs[i])), [value(f, v, x) for x in qs[i]], 2)
        else:
            same(e, "power", p.get_power_spectral_density_array(e.array(qs[i])), [value(f, v, x) for x in qs[i]])


@harness("C27", "grid-in-place")
def grid_in_place(e):
    """changing the array of frequencies in place changes what a lookup with it gives"""
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    p = psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    x, y = e.reals("x", 2, 0, 15), e.real("y", 0, 15)
    for z in x + [y]:
        for g in f:
            e.assume(abs(z - g) > 1e-6)
    q = e.array(x)
    asd = [e.choice("amplitude %i" % i, [False, True]) for i in range(2)]
    for n in range(2):
        if n:
            q[0] = y
            x[0] = y
        same(e, "lookup %i" % n, (p.get_amplitude_spectral_density_array if asd[n] else p.get_power_spectral_density_array)(q),
             [value(f, v, z) for z in x], 1 + asd[n])


@harness("C27", "copies")
def copies(e):
    """the values set are copied, not shared with the caller"""
    f, v = e.array(grid(e, "a")), e.array(e.reals("v", 3, 0.5, 3))
    k = e.choice("kind", ["psd_array", "asd_array"])
    p = psd.PowerSpectralDensity(frequency_array=f, **{k: v})
    want = list(v)
    f2 = list(f)
    v[1] = v[1] + 1
    f[0] = f[0] - 1
    e.check_eq("values", getattr(p, k), want)
    e.check_eq("frequencies", p.frequency_array, f2)


@harness("C27", "mismatch", params=["psd_array", "asd_array"])
def mismatch(e, k):
    """a spectrum of another length is refused and the old one kept"""
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    p = psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    n = e.choice("n", [1, 2, 3, 4])
    new = e.reals("w", n, 0.5, 3)
    ex = e.raises(lambda: setattr(p, k, e.array(new)), ValueError)
    e.check("refused exactly when the length differs", (ex is not None) == (n != 3))
    if n != 3:
        e.check_eq("old values kept", p.psd_array, v)


@harness("C27", "missing-file", params=["psd_file", "asd_file"])
def missing(e, k):
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    p = psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    e.check("a missing file is refused", e.raises(lambda: setattr(p, k, "/nonexistent/file"), ValueError) is not None)
    e.check_eq("old values kept", p.psd_array, v)
    e.check("old file name kept", getattr(p, k) is None)
    setattr(p, k, None)
    e.check_eq("no file changes nothing", p.psd_array, v)


@harness("C27", "equality")
def equality(e):
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    g, w = list(f), list(v)
    k, i = e.choice("which", ["frequency", "value", "none"]), e.choice("index", [0, 1, 2])
    d = e.real("d", -0.2, 0.2)
    e.assume(abs(d) > 1e-6)
    if k == "frequency":
        g[i] = g[i] + d
    elif k == "value":
        w[i] = w[i] + d
    P = lambda f, v: psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    e.check("equal exactly when all numbers are", bool(P(f, v) == P(g, w)) == (k == "none"))


@harness("C27", "noise", params=[4, 5, 6], max_paths=2000)
def noise(e, n):
    """a noise realisation is white noise coloured by the amplitude spectrum, and zero where the spectrum is not known"""
    rng = use_rng(e)
    fs = e.real("fs", 4, 20)
    T = n / fs
    m = n // 2 + 1
    freqs = [k * fs / n for k in range(m)]
    f, v = grid(e, "a"), e.reals("v", 3, 0.5, 3)
    for x in freqs:
        for g in f:
            e.assume(abs(x - g) > 1e-6)
    p = psd.PowerSpectralDensity(frequency_array=e.array(f), psd_array=e.array(v))
    h, got = p.get_noise_realisation(fs, T)
    e.check_eq("frequencies", got, freqs, rtol=1e-9, atol=1e-9)
    e.check("length", len(h) == m)
    for k in range(m):
        S = value(f, v, freqs[k])
        if S is np.inf or k == 0 or (n % 2 == 0 and k == m - 1):
            e.check_eq("no noise", [np.real(h[k]), np.imag(h[k])], [0, 0])
        else:
            a, b = rng.log[k], rng.log[m + k]
            for x, y in ((np.real(h[k]), a), (np.imag(h[k]), b)):
                e.check_eq("coloured noise", x, np.sqrt(S) * np.sqrt(T) / 2 * y, rtol=1e-9, atol=1e-12)
