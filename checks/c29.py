"""C29: the calibration model of a detector, its priors, and tables of calibration draws."""
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import pandas as pd
import scipy.interpolate

import bilby
from bilby.core.prior import PriorDict, Gaussian, DeltaFunction
from bilby.gw import prior as gp
from bilby.gw.detector import calibration, interferometer
from bilby.gw.prior import CalibrationPriorDict
from symx.api import harness
from common import patch, use_rng
import gw_common as gc

BOUNDS = ["4 to 6 spline nodes; node values, draws and uncertainties symbolic; up to seven frequencies inside and outside the "
          "range of the nodes, and one symbolic frequency", "2 to 4 draws of 4 or 5 frequencies"]
OUTSIDE = ["HDF5 itself: symbolic runs use stand-ins for PyTables and pandas' HDF reader and writer, replays use them",
           "scipy's interpolating splines (taken as linear in the values)", "floating-point rounding"]

FR = np.array([16., 27., 50., 123., 300., 777., 1500.])


def cubic(lo, hi, n, f):
    """rows: what a unit value at each node contributes at frequencies f (a not-a-knot cubic spline in log frequency)"""
    x = np.linspace(np.log(lo), np.log(hi), n)
    return np.array([scipy.interpolate.CubicSpline(x, u, bc_type="not-a-knot")(np.log(f)) for u in np.eye(n)])


def factor(e, lo, hi, amp, ph, f):
    B = cubic(lo, hi, len(amp), f)
    out = []
    for j in range(len(f)):
        A, p = sum(B[i, j] * amp[i] for i in range(len(amp))), sum(B[i, j] * ph[i] for i in range(len(amp)))
        out.append((A, p))
    return out


def same(e, label, got, want, leave=()):
    """(2 - i p) F = (1 + A) (2 + i p)"""
    for j, (A, p) in enumerate(want):
        if j in leave:
            continue
        re, im = np.real(got[j]), np.imag(got[j])
        e.check_eq("%s, real part %i" % (label, j), 2 * re + p * im, 2 * (1 + A), rtol=1e-9, atol=1e-9)
        e.check_eq("%s, imaginary part %i" % (label, j), 2 * im - p * re, (1 + A) * p, rtol=1e-9, atol=1e-9)


def nodes(e, n, tag=""):
    return e.reals("A%s" % tag, n, -0.5, 0.5), e.reals("p%s" % tag, n, -1, 1)


def named(prefix, amp, ph):
    return dict({"%samplitude_%i" % (prefix, i): a for i, a in enumerate(amp)},
                **{"%sphase_%i" % (prefix, i): p for i, p in enumerate(ph)})


@harness("C29", "spline", params=[("4", 4), ("5", 5), ("6", 6)])
def spline(e, n):
    m = calibration.CubicSpline("recalib_H1_", 20., 1024., n)
    a, p = nodes(e, n)
    for k in range(2):
        other = named("recalib_L1_", [3.] * n, [2.] * n)
        d = named("recalib_H1_", a, p)
        d = dict(list(d.items())[::-1]) if k else d
        got = m.get_calibration_factor(e.array(list(FR)), **dict(other, mass_1=3., **d))
        same(e, "factor" if k == 0 else "new factor", got, factor(e, 20., 1024., a, p, FR))
        if k == 0:
            a, p = list(a[1:]) + [e.real("A", -0.5, 0.5)], list(p[1:]) + [e.real("p", -1, 1)]


@harness("C29", "size", params=[("4", 4), ("6", 6)])
def size(e, n):
    """amplitude alone gives a real factor 1 + A; phase alone a factor of modulus one"""
    m = calibration.CubicSpline("recalib_H1_", 20., 1024., n)
    a, p = nodes(e, n)
    got = m.get_calibration_factor(e.array(list(FR)), **named("recalib_H1_", a, [0.] * n))
    B = cubic(20., 1024., n, FR)
    for j in range(len(FR)):
        e.check_eq("no phase %i" % j, np.imag(got[j]), 0)
        e.check_eq("amplitude %i" % j, np.real(got[j]), 1 + sum(B[i, j] * a[i] for i in range(n)), rtol=1e-9, atol=1e-9)
    got = m.get_calibration_factor(e.array(list(FR)), **named("recalib_H1_", [0.] * n, p))
    for j in range(len(FR)):
        e.check_eq("modulus %i" % j, np.real(got[j])**2 + np.imag(got[j])**2, 1, rtol=1e-9)
    got = m.get_calibration_factor(e.array(list(FR)), **named("recalib_H1_", [0.] * n, [0.] * n))
    e.check_eq("no correction", [np.real(g) for g in got] + [np.imag(g) for g in got], [1] * len(FR) + [0] * len(FR), atol=1e-12)
    at = e.choice("node", list(range(n)))
    f = 20. * (1024. / 20.)**(at / (n - 1))
    got = m.get_calibration_factor(e.array([f]), **named("recalib_H1_", a, [0.] * n))
    e.check_le("at a node", abs(np.real(got[0]) - 1 - a[at]), 1e-9)


@harness("C29", "anywhere", params=[("4", 4), ("5", 5)])
def anywhere(e, n):
    """the same spline at any frequency, away from the nodes by one part in a thousand"""
    x = np.linspace(np.log10(16.), np.log10(1024.), n)
    k = e.choice("piece", list(range(-1, n)))
    lo, hi = (x[0] - 0.5 if k < 0 else x[k]) + 1e-3, (x[-1] + 0.5 if k == n - 1 else x[k + 1]) - 1e-3
    m = calibration.CubicSpline("recalib_H1_", 16., 1024., n)
    a = [e.choice("a", [0.25, -1.]), -0.5, 0.125, 0.5, -0.25][:n]
    z = e.real("z", float(lo), float(hi))
    f = 10**z
    got = m.get_calibration_factor(e.array([f]), **named("recalib_H1_", a, [0.] * n))
    k = min(max(k, 0), n - 2)
    c = scipy.interpolate.CubicSpline(x, a, bc_type="not-a-knot").c
    y = z - x[k]
    want = 1 + ((c[0, k] * y + c[1, k]) * y + c[2, k]) * y + c[3, k]
    e.check_le("not above", np.real(got[0]), want + 1e-8)
    e.check_le("not below", want, np.real(got[0]) + 1e-8)


@harness("C29", "rules")
def rules(e):
    n = e.int("n", 0, 6)
    k = int(n)
    if k < 4:
        e.check("too few nodes", bool(e.raises(lambda: calibration.CubicSpline("recalib_H1_", 20., 1024., k), ValueError)))
        return
    m = calibration.CubicSpline("recalib_H1_", 20., 1024., k)
    a, p = nodes(e, k)
    d = named("recalib_H1_", a, p)
    del d[e.choice("missing", ["recalib_H1_amplitude_0", "recalib_H1_phase_%i" % (k - 1)])]
    e.check("missing node", bool(e.raises(lambda: m.get_calibration_factor(e.array([50.]), **d), KeyError)))
    m = calibration.Recalibrate()
    got = m.get_calibration_factor(e.array(list(FR)), recalib_H1_amplitude_0=1.)
    e.check_eq("no model", list(got), [1] * len(FR))


@harness("C29", "response")
def response(e):
    """a detector multiplies its response by its own calibration factor"""
    fs = [0., 32., 64., 96.]
    patch(e, interferometer.Interferometer, "antenna_response", lambda self, ra, dec, time, psi, mode: 0.5)
    patch(e, interferometer.Interferometer, "time_delay_from_geocenter", lambda self, ra, dec, time: 0.)
    gc.compiled(e)
    ifo = gc.detector(e, "H1", 20., 90., fs, [1.] * 4)
    ifo.set_strain_data_from_frequency_domain_strain(np.zeros(4, dtype=complex), frequency_array=np.array(fs), start_time=0.)
    ifo.calibration_model = calibration.CubicSpline("recalib_H1_", 20., 90., 4)
    a, p = nodes(e, 4)
    h = e.cplxs("h", 4, lo=-2, hi=2)
    params = dict(ra=0.1, dec=0.2, psi=0.3, geocent_time=0., **dict(named("recalib_H1_", a, p), **named("recalib_L1_", p, a)))
    got = ifo.get_detector_response(dict(plus=e.array(h)), params)
    want = factor(e, 20., 90., a, p, np.array(fs[1:3]))
    for j, (A, q) in zip((1, 2), want):
        H, F = 0.5 * h[j], got[j]
        e.check_eq("response %i" % j, [2 * np.real(F) + q * np.imag(F), 2 * np.imag(F) - q * np.real(F)],
                   [(1 + A) * (2 * np.real(H) - q * np.imag(H)), (1 + A) * (2 * np.imag(H) + q * np.real(H))], rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- draws

def draw(e, rows, cols, name="c"):
    return [e.cplxs("%s%i_" % (name, i), cols, lo=-2, hi=2) for i in range(rows)]


@harness("C29", "precomputed")
def precomputed(e):
    """a stored curve is used for its index, on its own frequencies"""
    rows, f = 3, [20., 40., 80.]
    c = draw(e, rows, 3)
    m = calibration.Precomputed("H1", e.array(c), e.array(f) if e.symbolic else np.array(f))
    i = e.choice("index", [0, 1, 2])
    v = e.choice("kind", [int, float, np.float64])(i)
    k = e.choice("grid", ["same", "shorter", "other"])
    d = dict(recalib_index_H1=v, recalib_index_L1=(i + 1) % 3, recalib_index=(i + 2) % 3)
    grid = np.array(dict(same=f, shorter=f[:2], other=[20., 41., 80.])[k])
    if k != "same":
        e.check("other frequencies", bool(e.raises(lambda: m.get_calibration_factor(grid, **d), ValueError)))
        return
    if e.choice("without", [False, True]):
        del d["recalib_index_H1"]
        e.check("no index", bool(e.raises(lambda: m.get_calibration_factor(grid, **d), KeyError)))
        return
    got = m.get_calibration_factor(grid, **d)
    e.check_eq("curve", [np.real(g) for g in got] + [np.imag(g) for g in got], [np.real(g) for g in c[i]] + [np.imag(g) for g in c[i]])


def normal(e, priors):
    """hand out fresh numbers for each prior"""
    n = [0]
    made = {}

    def sample(self, size=None):
        if isinstance(self, DeltaFunction):
            return self.peak * np.ones(size)
        n[0] += 1
        made[self.name] = e.reals("x%i_" % n[0], size, -0.5, 0.5)
        return e.array(made[self.name])
    for c in (Gaussian, DeltaFunction):
        patch(e, c, "sample", sample)
    return made


@harness("C29", "draws", params=[("constant", "constant"), ("envelope", "envelope")])
def draws(e, kind):
    """curves drawn from a prior are the splines of their own row of parameters"""
    made = normal(e, None)
    f = np.array([20., 45., 90., 300.])
    if kind == "constant":
        m = calibration.Precomputed.constant_uncertainty_spline(0.1, 0.2, f, 4, "H1", 2)
    else:
        E = np.array([[10., 1.01, 0.01, 0.9, -0.1, 1.1, 0.2], [30., 1.02, 0.03, 0.8, -0.2, 1.2, 0.2],
                      [100., 1.01, 0.01, 0.9, -0.1, 1.1, 0.2], [200., 1.03, -0.01, 0.9, -0.3, 1.1, 0.1],
                      [1000., 1.01, 0.01, 0.9, -0.1, 1.1, 0.2]])
        d = tempfile.mkdtemp()
        e.on_cleanup(lambda: shutil.rmtree(d))
        fn = os.path.join(d, "env.txt")
        np.savetxt(fn, E)
        m = calibration.Precomputed.from_envelope_file(fn, f, 4, "H1", 2)
    for r in range(2):
        a = [made["recalib_H1_amplitude_%i" % i][r] for i in range(4)]
        p = [made["recalib_H1_phase_%i" % i][r] for i in range(4)]
        got = m.get_calibration_factor(f, recalib_index_H1=r)
        same(e, "curve %i" % r, got, factor(e, 20., 300., a, p, f), leave=(3,))
        row = m.parameters.iloc[r]
        e.check_eq("row %i" % r, [row["recalib_H1_amplitude_%i" % i] for i in range(4)] + [row["recalib_H1_phase_%i" % i] for i in range(4)], a + p)


def ius(x, y, *args, **kw):
    """an interpolating spline, as a linear map of the values"""
    B = [scipy.interpolate.InterpolatedUnivariateSpline(np.array(x, dtype=float), u, *args, **kw) for u in np.eye(len(x))]
    return lambda t: np.array([sum(float(b(q)) * v for b, v in zip(B, y)) for q in t], dtype=object)


@harness("C29", "priors", params=[("constant", "constant"), ("envelope", "envelope")])
def priors(e, kind):
    n = e.choice("n", [4, 5])
    x = np.linspace(np.log(20.), np.log(1000.), n)
    kw = e.choice("boundary", [dict(), dict(boundary=None), dict(boundary="periodic")])
    if kind == "constant":
        s, t = e.pos("s", 1), e.pos("t", 1)
        pri = CalibrationPriorDict.constant_uncertainty_spline(amplitude_sigma=s, phase_sigma=t, minimum_frequency=20.,
                                                               maximum_frequency=1000., n_nodes=n, label="H1", **kw)
        want = dict(amplitude=([0] * n, [s] * n), phase=([0] * n, [t] * n))
    else:
        f = np.array([10., 30., 100., 200., 1000.])
        med, lo, hi = [[e.reals("%s%i_" % (k, j), len(f), *b) for j in range(2)] for k, b in
                       (("m", (0.5, 1.5)), ("l", (-1, 0)), ("h", (2, 3)))]
        T = np.array([f, med[0], med[1], lo[0], lo[1], hi[0], hi[1]], dtype=object).T
        d = tempfile.mkdtemp()
        e.on_cleanup(lambda: shutil.rmtree(d))
        fn = os.path.join(d, "env.txt")
        if e.symbolic:
            patch(e, np, "genfromtxt", lambda name: e.array([list(r) for r in T]))
            patch(e, gp, "InterpolatedUnivariateSpline", ius)
            import symx.npsym as ns
        else:
            np.savetxt(fn, T.astype(float))
        pri = CalibrationPriorDict.from_envelope_file(fn, 20., 1000., n, "H1", **kw)
        e.check("source", pri.source == os.path.abspath(fn))
        want = {}
        for j, k in enumerate(("amplitude", "phase")):
            S = ius(np.log(f), [v - 1 if j == 0 else v for v in med[j]])(x)
            W = ius(np.log(f), [(h - g) / 2 for h, g in zip(hi[j], lo[j])])(x)
            want[k] = list(S), list(W)
    e.check("names", sorted(pri) == sorted("recalib_H1_%s_%i" % (k, i) for k in ("amplitude", "phase", "frequency") for i in range(n)))
    for k in want:
        ps = [pri["recalib_H1_%s_%i" % (k, i)] for i in range(n)]
        e.check("gaussian " + k, all(type(q) is Gaussian for q in ps))
        e.check("boundary " + k, all(q.boundary == kw.get("boundary", "reflective") for q in ps))
        for i, q in enumerate(ps):
            e.check_eq("mean %s %i" % (k, i), q.mu, want[k][0][i], rtol=1e-9, atol=1e-9)
            e.check_eq("width %s %i" % (k, i), q.sigma, want[k][1][i], rtol=1e-9, atol=1e-9)
    e.check("frequencies", all(type(pri["recalib_H1_frequency_%i" % i]) is DeltaFunction and
                               abs(pri["recalib_H1_frequency_%i" % i].peak - np.exp(x[i])) < 1e-9 * np.exp(x[i]) for i in range(n)))


# ---------------------------------------------------------------- tables of draws

class Tables:
    """stands in for PyTables"""
    files = {}

    class Node:
        pass

    def open_file(self, name, mode="r"):
        f = Tables.Node()
        if mode == "w":
            self.files[name] = f
            f.root, f.params = Tables.Node(), None
            open(name, "w").close()
        else:
            f = self.files[name]
        f.close = lambda: None
        f.create_group = lambda root, nm: self._make(root, nm, Tables.Node())
        f.create_carray = lambda group, nm, obj=None: self._make(group, nm, obj)
        return f

    @staticmethod
    def _make(parent, name, v):
        setattr(parent, name, v)
        return v


def lin1d(x, y, kind=None, bounds_error=None, fill_value=None):
    assert kind == "cubic" and bounds_error is False

    def at(t):
        B = np.array([scipy.interpolate.interp1d(np.array(x, dtype=float), u, kind="cubic", bounds_error=False,
                                                 fill_value=np.nan)(np.array(t, dtype=float)) for u in np.eye(len(x))])
        B = np.where(abs(B - np.round(B)) < 1e-12, np.round(B), B)
        return np.array([[fill_value if np.isnan(B[0, j]) else sum((float(B[i, j]) * r[i] for i in range(len(x)) if B[i, j] != 0), 0)
                          for j in range(len(t))] for r in y], dtype=object)
    return at


def files(e):
    d = tempfile.mkdtemp()
    e.on_cleanup(lambda: shutil.rmtree(d))
    if e.symbolic:
        T = Tables()
        T.files = {}
        patch(e, Tables, "files", T.files)
        old = sys.modules.get("tables")
        sys.modules["tables"] = T
        e.on_cleanup(lambda: sys.modules.__setitem__("tables", old) if old is not None else sys.modules.pop("tables"))
        patch(e, calibration, "interp1d", lambda x, y, **kw: (lambda t: e.array(lin1d(x, y, **kw)(t))))

        def read(filename, key=None, **kw):
            v = getattr(T.files[filename], "params", None)
            if key != "CalParams" or v is None:
                raise KeyError(key)
            return v.copy()
        patch(e, pd, "read_hdf", read)
        patch(e, calibration, "pd", types.SimpleNamespace(read_hdf=read, DataFrame=pd.DataFrame))

        def write(self, filename, key=None, **kw):
            assert key == "CalParams"
            T.files[filename].params = self.copy()
        patch(e, pd.DataFrame, "to_hdf", write)
    return d


def polar(e, rows, cols, name="q"):
    """numbers given by modulus and argument"""
    r = [e.reals("%sr%i_" % (name, i), cols, 0.5, 2) for i in range(rows)]
    t = [e.reals("%st%i_" % (name, i), cols, -1, 1) for i in range(rows)]
    return r, t


@harness("C29", "read", params=[("with", True), ("without", False)])
def read(e, params):
    """a table of draws: the rows asked for, interpolated onto the frequencies, with the parameters of the same rows"""
    d = files(e)
    fn = os.path.join(d, "cal.h5")
    import tables
    rows, f = 4, np.array([10., 20., 30., 40., 60.])
    r, t = polar(e, rows, 5)
    h = tables.open_file(fn, "w")
    g = h.create_group(h.root, "deltaR")
    h.create_carray(g, "draws_amp_rel", obj=e.array(r))
    h.create_carray(g, "draws_phase", obj=e.array(t))
    h.create_carray(g, "freq", obj=f)
    h.close()
    x = e.reals("x", rows, -1, 1)
    if params:
        pd.DataFrame(dict(recalib_H1_amplitude_0=x)).to_hdf(fn, key="CalParams", data_columns=True, format="table")
    start, n = e.choice("start", [0, 1, 2]), e.choice("number", [1, 2])
    q = np.array([5., 10., 24., 40., 60., 70.])
    got, par = calibration.read_calibration_file(fn, q, n, start)
    B = np.array([scipy.interpolate.interp1d(f, u, kind="cubic")(24.) for u in np.eye(5)])
    e.check("shape", np.shape(got) == (n, 6))
    for i in range(n):
        z = [(a * np.cos(b), a * np.sin(b)) for a, b in zip(r[start + i], t[start + i])]
        w = [(1, 0), z[0], tuple(sum(float(B[k]) * z[k][c] for k in range(5)) for c in range(2)), z[3], z[4], (1, 0)]
        e.check_eq("row %i" % i, [np.real(v) for v in got[i]] + [np.imag(v) for v in got[i]], [v[0] for v in w] + [v[1] for v in w],
                   rtol=1e-9, atol=1e-9)
    if params:
        e.check_eq("parameters", list(par["recalib_H1_amplitude_0"]), x[start:start + n])
    else:
        e.check("no parameters", par is None)


@harness("C29", "write", params=[("with", True), ("without", False)])
def write(e, params):
    """a table of draws written to a file holds their moduli and arguments"""
    d = files(e)
    fn = os.path.join(d, "cal.h5")
    f = np.array([10., 20., 30., 40., 60.])
    x = e.reals("x", 2, -1, 1)
    c = draw(e, 2, 5)
    for row in c:
        for z in row:
            e.assume(np.real(z) > 0.25)
    calibration.write_calibration_file(fn, e.array(list(f)) if e.symbolic else f, e.array(c), pd.DataFrame(dict(a=x)) if params else None)
    import tables
    h = tables.open_file(fn, "r")
    g = h.root.deltaR
    for i in range(2):
        e.check_eq("modulus %i" % i, [a**2 for a in g.draws_amp_rel[i]], [np.real(z)**2 + np.imag(z)**2 for z in c[i]], rtol=1e-9)
        e.check_eq("argument %i" % i, list(g.draws_phase[i]), [np.angle(z) for z in c[i]], rtol=1e-9, atol=1e-12)
    e.check_eq("frequencies", list(g.freq[:]), list(f))
    h.close()
    got, par = calibration.read_calibration_file(fn, f, 2)
    if params:
        e.check_eq("parameters", list(par["a"]), x)
    else:
        e.check("no parameters", par is None)


def seen(e, name):
    ifo = gc.detector(e, name, 15., 85., [0., 20., 40., 60., 80., 100.], [1.] * 6)
    ifo.set_strain_data_from_zero_noise(sampling_frequency=200., duration=0.05, start_time=0.)
    return ifo


@harness("C29", "lookup", params=[("stored", "stored"), ("bare", "bare")])
def lookup(e, kind):
    """stored curves become a table of the rows asked for"""
    d = files(e)
    patch(e, os.path, "exists", lambda p: False)
    ifo = seen(e, "H1")
    c = draw(e, 4, 4)
    x = e.reals("x", 4, -1, 1)
    ifo.calibration_model = calibration.Precomputed("H1", e.array(c), np.array([20., 40., 60., 80.]),
                                                    pd.DataFrame(dict(recalib_H1_amplitude_0=x)) if kind == "stored" else None)
    start, n = e.choice("start", [0, 1, 2]), e.choice("number", [1, 2])
    got, par = calibration.build_calibration_lookup([ifo], priors=PriorDict(), number_of_response_curves=n, starting_index=start)
    e.check("detectors", list(got) == ["H1"] and list(par) == ["H1"])
    for i in range(n):
        e.check_eq("curve %i" % i, [np.real(v) for v in got["H1"][i]] + [np.imag(v) for v in got["H1"][i]],
                   [np.real(v) for v in c[start + i]] + [np.imag(v) for v in c[start + i]])
    if kind == "stored":
        e.check_eq("parameters", list(par["H1"]["recalib_H1_amplitude_0"]), x[start:start + n])
    e.check("indices", list(par["H1"]["recalib_index_H1"]) == list(range(start, start + n)))
    e.check("the detector is left uncalibrated", type(ifo.calibration_model) is calibration.Recalibrate)


@harness("C29", "made")
def made(e):
    """draws made from the prior are stored, and found again"""
    d = files(e)
    drawn = normal(e, None)
    ifos = [seen(e, k) for k in ("H1", "L1")]
    pri = PriorDict()
    for ifo in ifos:
        pri.update(CalibrationPriorDict.constant_uncertainty_spline(0.1, 0.2, 20., 80., 4, ifo.name))
        ifo.calibration_model = calibration.CubicSpline("recalib_%s_" % ifo.name, 20., 80., 4)
    pri["mass_1"] = bilby.core.prior.Uniform(1, 2)
    fns = {k: os.path.join(d, "%s.h5" % k) for k in ("H1", "L1")}
    e.check("nothing to go on", bool(e.raises(lambda: calibration.build_calibration_lookup(ifos), ValueError)))
    e.check("no prior", bool(e.raises(lambda: calibration.build_calibration_lookup(ifos, fns), ValueError)))
    got, par = calibration.build_calibration_lookup(ifos, fns, pri, number_of_response_curves=2)
    f = np.array([20., 40., 60., 80.])
    for k in ("H1", "L1"):
        e.check("columns", sorted(par[k]) == sorted("recalib_%s_%s_%i" % (k, t, i) for t in ("amplitude", "phase", "frequency") for i in range(4)))
        for r in range(2):
            a = [drawn["recalib_%s_amplitude_%i" % (k, i)][r] for i in range(4)]
            p = [drawn["recalib_%s_phase_%i" % (k, i)][r] for i in range(4)]
            same(e, "%s curve %i" % (k, r), got[k][r], factor(e, 20., 80., a, p, f), leave=(3,))
            e.check_eq("%s row %i" % (k, r), [par[k]["recalib_%s_amplitude_%i" % (k, i)].iloc[r] for i in range(4)], a)
    e.check("stored", all(os.path.exists(v) for v in fns.values()))
    new = {k: calibration.read_calibration_file(v, f, 2) for k, v in fns.items()}
    for k in new:
        e.check_eq("%s stored parameters" % k, list(new[k][1]["recalib_%s_phase_2" % k]), drawn["recalib_%s_phase_2" % k])
    e.check("the detectors are left uncalibrated", all(type(i.calibration_model) is calibration.Recalibrate for i in ifos))
