"""C23: the priors of compact-binary parameters: masses, spins, distances, and what the prior dictionaries derive from them."""
import copy

import numpy as np
import pandas as pd

from bilby.core.prior import Uniform, Constraint, DeltaFunction, PriorDict, ConditionalPriorDict, LogUniform, Cosine
from bilby.core.result import Result
from bilby.core import result as core_result
from bilby.gw import prior as gp
from bilby.gw import source
from symx.api import harness
from common import patch
import priors_common as pc

BOUNDS = ["mass and spin priors with the listed or symbolic limits, every value inside and outside the support",
          "spin and distance tables with three nodes; two or three posterior samples; a stand-in cosmology with symbolic scale"]
OUTSIDE = ["the accuracy of the interpolation tables (1000 or 800 nodes) between their nodes", "real cosmologies (astropy)",
           "the estimated signal duration (compiled)", "sky-map priors (healpy is not installed)", "floating-point rounding"]
QS = [(0.125, 1.), (0.25, 0.8)]


class Few:
    """numpy with tables of n points"""

    def __init__(self, np_, n):
        self.np_, self.n = np_, n

    def __getattr__(self, k):
        return getattr(self.np_, k)

    def linspace(self, a, b, n=None, **k):
        return np.array([a + (b - a) * i / (self.n - 1) for i in range(self.n)])

    def clip(self, v, lo, hi):
        if np.ndim(v):
            return np.array([self.clip(x, lo, hi) for x in v])
        return lo if bool(v < lo) else hi if bool(v > hi) else v

    def gradient(self, y, x):
        """second-order differences inside, one-sided at the ends, as numpy's"""
        out = [(y[1] - y[0]) / (x[1] - x[0])]
        for i in range(1, len(x) - 1):
            a, b = x[i] - x[i - 1], x[i + 1] - x[i]
            out.append((a * a * y[i + 1] + (b * b - a * a) * y[i] - b * b * y[i - 1]) / (a * b * (a + b)))
        return np.array(out + [(y[-1] - y[-2]) / (x[-1] - x[-2])])


def few(e, n=3):
    patch(e, gp, "np", Few(gp.np, n))


def chirp(m1, m2):
    return (m1 * m2)**0.6 / (m1 + m2)**0.2


# ------------------------------------------------------------------------------------------------------------------ masses
@harness("C23", "flat-in-components", params=[("%g-%g" % q, q) for q in QS])
def flat(e, q):
    """the product of the two mass priors is uniform in the component masses: density times Jacobian is the same everywhere"""
    few(e, 4)
    lo, hi = e.real("Mmin", 1, 10), e.real("Mmax", 20, 60)
    M, Q = gp.UniformInComponentsChirpMass(lo, hi), gp.UniformInComponentsMassRatio(*q)
    out = []
    for k in range(2):
        m1, r = e.real("m%i" % k, 5, 60), e.real("q%i" % k, *q)
        mc = m1 * r**0.6 / (1 + r)**0.2
        e.assume(mc > lo + 1e-6)
        e.assume(mc < hi - 1e-6)
        out.append(pc.scalar(M.prob(mc)) * pc.scalar(Q.prob(r)) * mc / m1**2)
    e.check_eq("flat", out[0], out[1], rtol=1e-9)
    e.check("positive", out[0] > 0)


@harness("C23", "mass-ratio", params=[("%g-%g" % q, q) for q in QS])
def mass_ratio(e, q):
    """the mass-ratio density vanishes off the support, is the derivative of the cdf, and the cdf runs from 0 to 1"""
    few(e, 4)
    p = gp.UniformInComponentsMassRatio(*q)
    x = e.real("x", 0.01, 1.5)
    for edge in q:
        e.assume(abs(x - edge) > 1e-3)
    inside = bool((x > q[0]) & (x < q[1]))
    d, c = pc.scalar(p.prob(x)), pc.scalar(p.cdf(x))
    if inside:
        e.check("positive", d > 0)
        e.check_eq("density", e.deriv(lambda y: pc.scalar(p.cdf(y)), x), d, rtol=1e-6)
        e.check_eq("log density", pc.scalar(p.ln_prob(x)), np.log(d))
        # the density itself: (1+q)^(2/5) q^(-6/5) up to the norm
        y = e.real("y", q[0] + 1e-3, q[1] - 1e-3)
        e.check_eq("shape", d * y**-1.2 * (1 + y)**0.4, pc.scalar(p.prob(y)) * x**-1.2 * (1 + x)**0.4, rtol=1e-9)
    else:
        e.check_eq("no density", d, 0.)
        e.check_eq("cdf outside", c, 0. if bool(x < q[0]) else 1., atol=1e-9)
    e.check_eq("starts at 0", pc.scalar(p.cdf(q[0])), 0., atol=1e-9)
    e.check_eq("reaches 1", pc.scalar(p.cdf(q[1])), 1., rtol=1e-9)


@harness("C23", "mass-ratio-rescale", params=[("plain", False), ("folded", True)])
def mass_ratio_rescale(e, fold):
    """rescaling inverts the table of the cdf; with equal masses folded, u and 1-u give the same ratio with the same density"""
    few(e, 4)
    rec = []

    def table(x, y, **k):
        rec.append((x, y, k))
        return lambda u: np.array(y[0] + (y[-1] - y[0]) * u) if not isinstance(u, np.ndarray) else y[0] + (y[-1] - y[0]) * u
    patch(e, gp, "WrappedInterp1d", table)
    lo, hi = e.choice("range", QS)
    p = gp.UniformInComponentsMassRatio(lo, hi, equal_mass=fold)
    if not rec:
        e.skip()
    x, y, _ = rec[0]
    e.check_eq("table", list(x), [pc.scalar(p.cdf(v)) for v in y])
    e.check_eq("ends", [y[0], y[-1], x[0], x[-1]], [lo, hi, 0., 1.], atol=1e-9)
    u = e.real("u", 0, 1)
    f = lambda v: lo + (hi - lo) * v
    got = pc.scalar(p.rescale(u))
    if not fold:
        e.check_eq("rescale", got, f(u))
    elif bool(u < 0.5):
        e.check_eq("first half", got, f(2 * u))
    else:
        e.check_eq("second half", got, f(2 - 2 * u))


@harness("C23", "chirp-mass")
def chirp_mass(e):
    """the chirp-mass prior is linear on its support"""
    lo, hi = e.real("lo", 1, 10), e.real("hi", 20, 60)
    p = gp.UniformInComponentsChirpMass(lo, hi)
    x = e.real("x", 0.5, 80)
    e.assume(abs(x - lo) > 1e-6)
    e.assume(abs(x - hi) > 1e-6)
    inside = bool((x > lo) & (x < hi))
    e.check_eq("density", pc.scalar(p.prob(x)), 2 * x / (hi**2 - lo**2) if inside else 0.)
    u = e.real("u", 0, 1)
    e.check_eq("rescale", pc.scalar(p.rescale(u)), np.sqrt(lo**2 + u * (hi**2 - lo**2)))


@harness("C23", "mass-limits", params=[(k, k) for k in ("m1m2", "m1q", "Mcq", "Mc", "q", "m2-constraint")])
def mass_limits(e, kind):
    """the limits derived from a prior dictionary are those of its own parameters, at their own limits"""
    lo, hi = e.real("lo", 3, 10), e.real("hi", 20, 60)
    a, b = e.real("a", 1, 2.9), e.real("b", 11, 19)
    q = (0.125, 1.)
    few(e)
    d = dict(m1m2=lambda: dict(mass_1=Uniform(lo, hi), mass_2=Uniform(a, b)),
             m1q=lambda: dict(mass_1=Uniform(lo, hi), mass_ratio=Uniform(a / 10, b / 20)),
             Mcq=lambda: dict(chirp_mass=Uniform(lo, hi), mass_ratio=Uniform(a / 10, b / 20)),
             Mc=lambda: dict(chirp_mass=Constraint(lo, hi), mass_1=Uniform(a, 50)),
             q=lambda: dict(mass_ratio=Uniform(*q)))
    d["m2-constraint"] = lambda: dict(chirp_mass=Uniform(lo, hi), mass_ratio=Uniform(*q), mass_2=Constraint(a, b))
    pri = gp.BBHPriorDict(d[kind]())
    got = pri.minimum_chirp_mass, pri.maximum_chirp_mass, pri.minimum_component_mass
    if kind == "m1m2":
        want = chirp(lo, a), chirp(hi, b), a
    elif kind == "m1q":
        want = chirp(lo, lo * a / 10), chirp(hi, hi * b / 20), None
    elif kind == "Mcq":
        r = a / 10
        want = lo, hi, lo * (1 + r)**0.2 * r**0.4
    elif kind == "Mc":
        want = lo, hi, None
    elif kind == "q":
        want = None, None, None
    else:
        want = lo, hi, a
    for name, g, w in zip(("minimum chirp mass", "maximum chirp mass", "minimum component mass"), got, want):
        if w is None:
            e.check("no " + name, g is None)
        else:
            e.check_eq(name, g, w, rtol=1e-9)


@harness("C23", "conversion", params=[("weights", "weights"), ("refused", "refused")])
def conversion(e, kind):
    """samples are resampled by the ratio of the flat-in-component-mass prior to the old one, and the result itself is unchanged"""
    few(e)
    wide = e.real("w", 50, 100)
    pri = dict(chirp_mass=Uniform(5, 40), mass_ratio=LogUniform(0.1, 1.), mass_1=Constraint(2, wide), mass_2=Constraint(1, 60),
               luminosity_distance=Uniform(1, 2))
    if kind == "refused":
        bad = e.choice("bad", ["no chirp_mass", "no mass_ratio", "chirp_mass", "mass_ratio", "mass_1", "mass_2", "no mass_1"])
        key = bad.split()[-1]
        if bad.startswith("no"):
            del pri[key]
        else:
            pri[key] = Uniform(5, 40) if key in ("mass_1", "mass_2") else Constraint(0.1, 1)
    n = 3
    m1, q = e.reals("m", n, 10, 45), e.reals("q", n, 0.2, 0.9)
    cols = dict(mass_1=m1, mass_2=[a * b for a, b in zip(m1, q)], mass_ratio=q,
                chirp_mass=[a * b**0.6 / (1 + b)**0.2 for a, b in zip(m1, q)], luminosity_distance=e.reals("d", n, 1, 2))
    for c in cols["chirp_mass"]:
        e.assume(c > 5.01)
        e.assume(c < 39.9)
    for c in cols["mass_2"]:
        e.assume(c > 1.01)
    r = Result(label="x", search_parameter_keys=["chirp_mass", "mass_ratio"])
    old = gp.BBHPriorDict(pri)
    r.meta_data = dict()
    r.priors = old
    r.posterior = df = pd.DataFrame({k: e.array(v) for k, v in cols.items()})
    before = {k: type(v) for k, v in old.items()}
    if kind == "refused":
        e.check("refused", bool(e.raises(lambda: gp.convert_to_flat_in_component_mass_prior(r), gp.BilbyPriorConversionError)))
        e.check("the priors stay", {k: type(v) for k, v in r.priors.items()} == before)
        return
    seen = []

    def sample(self, frac=None, weights=None, replace=False, **k):
        seen.append((frac, [w for w in weights], replace))
        return self
    patch(e, pd.DataFrame, "sample", sample)
    new = gp.convert_to_flat_in_component_mass_prior(r, fraction=0.5)
    e.check("resampling", seen[-1][0] == 0.5 and bool(seen[-1][2]))
    got = seen[-1][1]
    target = [1 / pc.scalar(LogUniform(0.1, 1.).prob(q[i])) * m1[i]**2 / cols["chirp_mass"][i] for i in range(n)]
    for i in range(1, n):
        e.check_eq("weight %d" % i, got[i] * target[0], got[0] * target[i], rtol=1e-9)
    e.check("positive", got[0] > 0)
    e.check("the priors given stay", r.priors is old and {k: type(v) for k, v in r.priors.items()} == before)
    e.check("the meta data given stay", "reweighted_to_flat_in_component_mass" not in r.meta_data)
    e.check("marked", new.meta_data["reweighted_to_flat_in_component_mass"] is True)
    e.check("new priors", {k for k, v in new.priors.items() if isinstance(v, Constraint)} == {"chirp_mass", "mass_ratio"}
            and all(isinstance(new.priors[k], Uniform) for k in ("mass_1", "mass_2", "luminosity_distance")))
    e.check_eq("limits", [new.priors["mass_1"].minimum, new.priors["mass_1"].maximum, new.priors["mass_ratio"].minimum,
                          new.priors["chirp_mass"].maximum], [2., wide, 0.1, 40.])


# ------------------------------------------------------------------------------------------------------------------- spins
@harness("C23", "in-plane", params=[("interior", "interior"), ("outside", "outside"), ("rescale", "rescale")])
def in_plane(e, kind):
    """the conditional in-plane spin: density, cdf and rescaling agree, up to the magnitude limit"""
    chi = e.real("chi", 0.05, 0.45) * e.choice("sign", [1, -1])
    amax = e.real("ratio", 1.2, 5) * abs(chi)
    p = gp.ConditionalChiInPlane(0, amax, "chi_1_in_plane")
    top = np.sqrt(amax**2 - chi**2)
    L = np.log(amax / abs(chi))
    if kind == "interior":
        x = e.real("x", 0.001, 2.)
        e.assume(x < top - 1e-3)
        e.assume(np.log(1 + (x / abs(chi))**2) / 2 / L < 1)       # implied
        e.assume(np.log(1 + (x / abs(chi))**2) / 2 / L > 0)
        d = pc.scalar(p.prob(x, chi_1=chi))
        e.check_eq("density", d, x / (x**2 + chi**2) / L)
        e.check_eq("log density", pc.scalar(p.ln_prob(x, chi_1=chi)), np.log(d))
        e.check_eq("derivative of the cdf", e.deriv(lambda y: pc.scalar(p.cdf(y, chi_1=chi)), x), d, rtol=1e-6)
        e.check_eq("rescale(cdf)", pc.scalar(p.rescale(p.cdf(x, chi_1=chi), chi_1=chi)), x)
    elif kind == "outside":
        x = e.real("x", -1, 3)
        e.assume(abs(x) > 1e-6)
        e.assume(abs(x - top) > 1e-6)
        e.assume((x < 0) | (x > top))
        e.check_eq("no density", pc.scalar(p.prob(x, chi_1=chi)), 0.)
        if bool(x > 0):
            e.assume(np.log(1 + (x / abs(chi))**2) / 2 / L > 1)       # implied
        e.check_eq("cdf", pc.scalar(p.cdf(x, chi_1=chi)), 0. if bool(x < 0) else 1.)
    else:
        u = e.real("u", 0.001, 0.999)
        r = pc.scalar(p.rescale(u, chi_1=chi))
        e.check_eq("cdf(rescale)", pc.scalar(p.cdf(r, chi_1=chi)), u)
        e.check("positive", r > 0)
        e.check_eq("limits", [p.minimum, p.maximum], [0., top])
        e.check_eq("top", pc.scalar(p.rescale(1., chi_1=chi)), top)
        e.check_eq("bottom", pc.scalar(p.rescale(0., chi_1=chi)), 0.)


@harness("C23", "magnitude")
def magnitude(e):
    """the magnitude of an aligned spin is log-uniform between the aligned component and the maximum"""
    amax = e.real("amax", 0.5, 1)
    p = gp.ConditionalChiUniformSpinMagnitude(0.1, amax, "a_1")
    for i in range(2):     # a second condition replaces the first
        chi = e.real("chi%i" % i, 0.05, 0.45) * e.choice("sign%i" % i, [1, -1])
        x = e.real("x%i" % i, 0.01, 1.2)
        e.assume(abs(x - abs(chi)) > 1e-6)
        e.assume(abs(x - amax) > 1e-6)
        inside = bool((x > abs(chi)) & (x < amax))
        L = np.log(amax / abs(chi))
        e.check_eq("density %d" % i, pc.scalar(p.prob(x, chi_1=chi)), 1 / x / L if inside else 0.)
        e.check_eq("limits %d" % i, [p.minimum, p.maximum], [abs(chi), amax])
        u = e.real("u%i" % i, 0, 1)
        e.check_eq("rescale %d" % i, np.log(pc.scalar(p.rescale(u, chi_1=chi))), np.log(abs(chi)) + u * L)


@harness("C23", "spin-dictionary", params=[("in-plane", "in-plane"), ("magnitude", "magnitude")])
def spin_dictionary(e, kind):
    """in a dictionary the aligned component conditions the other, whatever the order of the keys"""
    amax = 0.9
    chi = Uniform(-0.8, 0.8)
    name = dict(magnitude="a_1")["magnitude"] if kind == "magnitude" else "chi_1_in_plane"
    other = gp.ConditionalChiUniformSpinMagnitude(0, amax, name) if kind == "magnitude" else gp.ConditionalChiInPlane(0, amax, name)
    items = [("chi_1", chi), (name, other)]
    pri = gp.CBCPriorDict(dict(items[::-1] if e.choice("order", [False, True]) else items))
    pri.normalize_constraint_factor = lambda *a, **k: 1
    c, x = e.real("c", 0.1, 0.4) * e.choice("sign", [1, -1]), e.real("x", 0.45, 0.75)
    L = np.log(amax / abs(c))
    e.check_eq("joint density", pc.scalar(pri.prob({name: x, "chi_1": c})),
               (1 / x if kind == "magnitude" else x / (x**2 + c**2)) / L / 1.6)
    u, v = e.real("u", 0.05, 0.4), e.real("v", 0.01, 0.99)
    s = dict(zip(("chi_1", name), pri.rescale(["chi_1", name], [u, v])))
    c = -0.8 + 1.6 * u
    e.check_eq("aligned", s["chi_1"], c)
    if kind == "magnitude":
        e.check_eq("other", np.log(s[name]), np.log(abs(c)) + v * np.log(amax / abs(c)))
    else:
        e.check_eq("other", (s[name] / c)**2 + 1, np.exp(2 * v * np.log(amax / abs(c))))


@harness("C23", "projected-spin", params=[(k, k) for k in ("both", "up", "down")])
def projected(e, kind):
    """the projected spin covers exactly the products of magnitude and cosine, with the density integral p(a) p(x/a) / a da"""
    a0, a1 = e.real("a0", 0.1, 0.4), e.real("a1", 0.5, 1)
    z0, z1 = dict(both=lambda: (e.real("z0", -1, -0.5), e.real("z1", 0.5, 1)), up=lambda: (e.real("z0", 0.1, 0.4), e.real("z1", 0.5, 1)),
                  down=lambda: (e.real("z0", -1, -0.5), e.real("z1", -0.4, -0.1)))[kind]()
    rec = {}

    def init(self, xx, yy, *a, **k):
        rec.update(xx=xx, yy=yy)
    patch(e, gp.Interped, "__init__", init)
    few(e, 3)
    gp.AlignedSpin(Uniform(a0, a1), Uniform(z0, z1))
    xx, yy = rec["xx"], rec["yy"]
    e.check_eq("lowest", xx[0], a1 * z0 if kind != "up" else a0 * z0)
    e.check_eq("highest", xx[-1], a1 * z1 if kind != "down" else a0 * z1)
    aas = [a0, (a0 + a1) / 2, a1]
    x = xx[1]
    vals = []
    for a in aas:
        e.assume(abs(x / a - z0) > 1e-6)
        e.assume(abs(x / a - z1) > 1e-6)
        vals.append(1 / a if bool((x / a > z0) & (x / a < z1)) else 0.)
    h = (a1 - a0) / 2
    e.check_eq("density", yy[1], ((vals[0] + vals[2]) / 2 + vals[1]) * h / (a1 - a0) / (z1 - z0))


# --------------------------------------------------------------------------------------------------------------- distances
class V:
    def __init__(self, v):
        self.value = v


class Cosmo:
    """d_L = c z (1+z), d_C = c z, dV/dz = c^3 z^2"""
    name = "stand-in"

    def __init__(self, c):
        self.c = c

    def luminosity_distance(self, z):
        return V(self.c * z * (1 + z))

    def comoving_distance(self, z):
        return V(self.c * z)

    def differential_comoving_volume(self, z):
        return V(self.c**3 * z**2)


def cosmology(e):
    c = e.real("c", 2000, 6000)
    cos = Cosmo(c)
    patch(e, gp, "get_cosmology", lambda cosmology=None: cos)

    def inverse(func, val):
        v = val.value if hasattr(val, "value") else val
        return v / c if func.__name__ == "comoving_distance" else (np.sqrt(1 + 4 * v / c) - 1) / 2
    patch(e, gp, "z_at_value", inverse)
    import astropy.units

    class Mpc:
        __array_ufunc__ = None
        __symx_foreign__ = True

        def __rmul__(self, other):
            return other

        def __mul__(self, other):
            return other
    patch(e, astropy.units, "Mpc", Mpc())
    patch(e, astropy.units, "Unit", Mpc)
    return c


@harness("C23", "distance", params=[("%s-%s" % (a[0], b), (a, b)) for a in (("volume", gp.UniformComovingVolume), ("source", gp.UniformSourceFrame))
                                    for b in ("redshift", "luminosity_distance", "comoving_distance")])
def distance(e, arg):
    """the table of a cosmological prior is dV/dz (over 1+z in the source frame) times dz/d(the parameter); limits correspond"""
    (which, cls), name = arg
    c = cosmology(e)
    few(e, 3)
    rec = {}

    def init(self, xx, yy, *a, **k):
        rec.update(xx=xx, yy=yy, kw=k)
    patch(e, gp.Interped, "__init__", init)
    zl, zh = e.real("zl", 0.05, 0.4), e.real("zh", 0.5, 2)
    to = dict(redshift=lambda z: z, luminosity_distance=lambda z: c * z * (1 + z), comoving_distance=lambda z: c * z)
    p = cls(to[name](zl), to[name](zh), name=name)
    a, b = 0.99 * zl, 1.01 * zh
    zs = [a, (a + b) / 2, b]
    e.check_eq("nodes", list(rec["xx"]), [to[name](z) for z in zs], rtol=1e-9)
    dens = [c**3 * z**2 / (1 if which == "volume" else 1 + z) for z in zs]
    x = [to[name](z) for z in zs]
    h = (b - a) / 2
    slope = [(x[1] - x[0]) / h, (x[2] - x[0]) / (2 * h), (x[2] - x[1]) / h]
    e.check_eq("density", list(rec["yy"]), [d / s for d, s in zip(dens, slope)], rtol=1e-9)
    for k, f in to.items():
        e.check_eq("limits of %s" % k, [p._minimum[k], p._maximum[k]], [f(zl), f(zh)], rtol=1e-9)
        p.boundary = p.latex_label = None
        new = p.get_corresponding_prior(k)
        e.check_eq("corresponding %s" % k, [new.minimum, new.maximum], [f(zl), f(zh)], rtol=1e-9)
        e.check("name", new.name == k and type(new) is cls)


@harness("C23", "distance-limits", params=[(k, k) for k in ("lower", "raise", "lower-max", "raise-max")])
def distance_limits(e, kind):
    """moving a limit recomputes the table when it does not reach, and the limits in every parametrisation"""
    c = cosmology(e)
    few(e, 3)
    made = []

    def init(self, xx, yy, *a, **k):
        self.xx, self._yy = xx, yy
    patch(e, gp.Interped, "__init__", init)
    patch(e, gp.Interped, "_update_instance", lambda self: made.append((list(self.xx), list(self._yy))))
    zl, zh = e.real("zl", 0.2, 0.4), e.real("zh", 0.6, 1)
    p = gp.UniformSourceFrame(zl, zh, name="redshift")
    new = dict(lower=lambda: e.real("new", 0.05, 0.19), **{"raise": lambda: e.real("new", 0.41, 0.59), "lower-max": lambda: e.real("new", 0.41, 0.59),
               "raise-max": lambda: e.real("new", 1.1, 2)})[kind]()
    patch(e, gp.Interped, "yy", property(lambda s: s._yy, lambda s, v: setattr(s, "_yy", v)))
    if "max" in kind:
        p.maximum = zh = new
    else:
        p.minimum = zl = new
    e.check_eq("limits", [p.minimum, p.maximum], [zl, zh])
    e.check_eq("distance limits", [p._minimum["luminosity_distance"], p._maximum["luminosity_distance"], p._minimum["comoving_distance"],
                                   p._maximum["comoving_distance"]], [c * zl * (1 + zl), c * zh * (1 + zh), c * zl, c * zh], rtol=1e-9)
    e.check("updated", len(made) > 0)
    xx, yy = made[-1]
    e.check_le("the table reaches both limits", [xx[0], zh], [zl, xx[-1]])
    if kind in ("lower", "raise-max"):
        e.check_eq("table", yy, [c**3 * z**2 / (1 + z) for z in xx], rtol=1e-9)


# --------------------------------------------------------------------------------------------------------- the dictionaries
@harness("C23", "redundancy", params=[("bbh", "bbh"), ("bns", "bns")])
def redundancy(e, kind):
    """a parameter is redundant exactly if it is in the dictionary or its group is already determined by sampled ones"""
    groups = [(2, ["mass_1", "chirp_mass", "mass_ratio"]), (1, ["tilt_1", "cos_tilt_1"]), (1, ["luminosity_distance", "redshift"])]
    if kind == "bns":
        groups = [(2, ["lambda_1", "lambda_2", "lambda_tilde", "delta_lambda_tilde"])]
    d = {}
    for n, keys in groups:
        for k in keys[:3]:
            how = e.choice(k, ["absent", "sampled", "fixed", "constraint"])
            if how != "absent":
                d[k] = dict(sampled=Uniform(1, 2), fixed=DeltaFunction(1), constraint=Constraint(1, 2))[how]
        if kind == "bbh":
            break
    if kind == "bbh":
        k = e.choice("second group", ["none", "tilt_1", "cos_tilt_1", "redshift"])
        if k != "none":
            d[k] = Uniform(0.1, 0.2)
    pri = (gp.BNSPriorDict if kind == "bns" else gp.BBHPriorDict)(d)
    for n, keys in groups:
        sampled = [k for k in keys if k in d and isinstance(d[k], Uniform)]
        for k in keys:
            e.check("redundant %s" % k, bool(pri.test_redundancy(k, disable_logging=True)) == (k in d or len(sampled) >= n))
    e.check("unrelated", not pri.test_redundancy("psi", disable_logging=True) and set(pri) == set(d))


FLAGS = dict(spin="spin", precession="precession_only", measured_spin="measured_spin", intrinsic="intrinsic", extrinsic="extrinsic", sky="sky",
             distance_inclination="distance_inclination", mass="mass", phase="phase")


@harness("C23", "flags", params=[(k, k) for k in ("chirp_mass", "tilt_1", "chi_1", "ra", "luminosity_distance", "phase", "psi", "geocent_time", "lambda_1")])
def flags(e, key):
    """a parameter set is reported as present exactly when one of its parameters is not fixed"""
    how = e.choice("how", ["sampled", "fixed", "constraint", "number"])
    pri = gp.BNSPriorDict({key: dict(sampled=Uniform(1, 2), fixed=DeltaFunction(1), constraint=Constraint(1, 2), number=1.5)[how], "other": Uniform(0, 1)})
    for f, s in dict(FLAGS, tidal="tidal").items():
        e.check(f, getattr(pri, f) == (how == "sampled" and key in source.PARAMETER_SETS[s]))
    e.check("set", pri.is_nonempty_intersection({key, "zz"}) == (how == "sampled"))
    e.check("unknown", bool(e.raises(lambda: pri.is_nonempty_intersection("nothing"), ValueError)))


@harness("C23", "constraints", params=[("bbh", gp.BBHPriorDict), ("bns", gp.BNSPriorDict)])
def constraints(e, cls):
    """constraints on derived masses cut the density exactly where the derived mass leaves its range"""
    few(e)
    top, low = e.real("top", 20, 50), e.real("low", 2, 6)
    pri = cls(dict(chirp_mass=Uniform(4, 30), mass_ratio=Uniform(0.2, 1.), mass_1=Constraint(low, top), total_mass=Constraint(8, 70)))
    pri.normalize_constraint_factor = lambda *a, **k: 1
    m1, q = e.real("m1", 7, 60), e.real("q", 0.21, 0.99)
    mc = m1 * q**0.6 / (1 + q)**0.2
    e.assume(mc > 4.01)
    e.assume(mc < 29.9)
    e.assume(abs(m1 - top) > 1e-6)
    e.assume(abs(m1 * (1 + q) - 70) > 1e-6)
    e.assume(abs(m1 * (1 + q) - 8) > 1e-6)
    ok = bool((m1 < top) & (m1 * (1 + q) < 70) & (m1 * (1 + q) > 8))
    s = dict(chirp_mass=mc, mass_ratio=q)
    e.check_eq("density", pc.scalar(pri.prob(dict(s))), 1 / 26 / 0.8 if ok else 0., rtol=1e-9)
    e.check("sample unchanged", sorted(s) == ["chirp_mass", "mass_ratio"])
