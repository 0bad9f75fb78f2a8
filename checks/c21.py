"""C21: mass, frame and spin conversions of compact binaries are consistent with each other."""
import numpy as np

from bilby.gw import conversion as cv
from symx.api import harness
from common import patch
import priors_common as pc

BOUNDS = ["component masses 0.1 to 100 solar masses with mass_2 <= mass_1, symbolic", "mass ratios up to 0.999 where the symmetric mass ratio is an input", "every pair of mass parameters that determines the "
          "binary, with and without redundant further parameters, detector and source frame",
          "scalars, and arrays of two entries for the array cases"]
OUTSIDE = ["the cosmology itself (replaced by a stand-in with invertible distance-redshift relations)",
           "LALSimulation's spin transformation (replaced by a stand-in)",
           "equations of state of neutron stars evaluated by LALSimulation"]


def masses(e, strict=False, n=""):
    m1, m2 = e.real("m1" + n, 0.1, 100), e.real("m2" + n, 0.1, 100)
    e.assume(m2 < m1 if strict else m2 <= m1)
    return m1, m2


def derived(m1, m2):
    return dict(mass_1=m1, mass_2=m2, total_mass=m1 + m2, chirp_mass=(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2,
                mass_ratio=m2 / m1, symmetric_mass_ratio=m1 * m2 / (m1 + m2) ** 2)


PAIRS = [("mass_1", "mass_2"), ("mass_1", "total_mass"), ("mass_1", "mass_ratio"), ("mass_1", "symmetric_mass_ratio"),
         ("mass_1", "chirp_mass"), ("mass_2", "total_mass"), ("mass_2", "mass_ratio"), ("mass_2", "symmetric_mass_ratio"),
         ("mass_2", "chirp_mass"),
         ("total_mass", "mass_ratio"), ("total_mass", "symmetric_mass_ratio"), ("total_mass", "chirp_mass"),
         ("chirp_mass", "mass_ratio"), ("chirp_mass", "symmetric_mass_ratio")]
CHIRP = [p for p in PAIRS if p in (("mass_1", "chirp_mass"), ("mass_2", "chirp_mass"))]


@harness("C21", "pair", params=[("%s+%s" % p, p) for p in PAIRS if p not in CHIRP])
def pair(e, names):
    """any pair of mass parameters gives back the component masses, and all derived ones"""
    m1, m2 = masses(e)
    e.assume(m2 <= 0.999 * m1)
    d = derived(m1, m2)
    source = e.choice("source", [False, True])
    suf = lambda k: k + "_source" if source and "ratio" not in k else k
    given = {suf(k): d[k] for k in names}
    given["other"] = 3.
    copy = dict(given)
    got = cv.generate_component_masses(given, require_add=True, source=source)
    e.check_eq("component masses", [got[suf("mass_1")], got[suf("mass_2")]], [m1, m2])
    e.check("the input is not modified", list(given) == list(copy) and all(given[k] is copy[k] for k in copy))
    e.check_eq("given values are kept", [got[k] for k in given], list(given.values()))
    full = cv.generate_mass_parameters(given, source=source)
    for k in d:
        e.check_eq("derived " + k, full[suf(k)], d[k])


@harness("C21", "pair-chirp", params=[("mass_1", 1), ("mass_2", 2), ("mass_2-unequal", 3)], budget=300)
def pair_chirp(e, which):
    """the mass ratio from a component mass and the chirp mass: q^3 = (Mc/m1)^5 (1+q), the only positive solution"""
    m = e.real("m", 0.1, 100)
    if which == 1:
        x = e.real("x", 0.01, 0.87)
        d = cv.generate_component_masses(dict(mass_1=m, chirp_mass=m * x))
        q = d["mass_ratio"]
        e.check("real and positive", q > 0)
        e.check_eq("definition of the chirp mass", q ** 3, x ** 5 * (1 + q), rtol=1e-6)
        e.check_eq("same from both functions", cv.chirp_mass_and_primary_mass_to_mass_ratio(m * x, m), q, rtol=1e-6)
        e.check_eq("secondary mass", d["mass_2"], q * m)
    else:
        x = e.real("x", 0.8706, 1.464) if which == 2 else e.real("x", 1.467, 4)
        e.assume(x ** 5 < 6.73 if which == 2 else x ** 5 > 6.77)
        d = cv.generate_component_masses(dict(mass_2=m, chirp_mass=m * x))
        q = pc.scalar(d["mass_ratio"])
        r = 1 / q
        e.check("real and positive", r > 0)
        e.check_eq("definition of the chirp mass", r ** 3, x ** 5 * (1 + r), rtol=1e-6)
        e.check_eq("primary mass", d["mass_1"], m * r)


@harness("C21", "functions")
def functions(e):
    m1, m2 = masses(e)
    d = derived(m1, m2)
    q, mt, mc, eta = d["mass_ratio"], d["total_mass"], d["chirp_mass"], d["symmetric_mass_ratio"]
    e.check_eq("total mass and mass ratio", cv.total_mass_and_mass_ratio_to_component_masses(q, mt), [m1, m2])
    e.check_eq("chirp mass and mass ratio", cv.chirp_mass_and_mass_ratio_to_component_masses(mc, q), [m1, m2])
    e.check_eq("mass ratio of symmetric mass ratio", cv.symmetric_mass_ratio_to_mass_ratio(eta), q)
    e.check_eq("symmetric mass ratio", cv.chirp_mass_and_total_mass_to_symmetric_mass_ratio(mc, mt), eta)
    e.check_eq("total mass", cv.chirp_mass_and_mass_ratio_to_total_mass(mc, q), mt)
    e.check_eq("chirp mass", cv.component_masses_to_chirp_mass(m1, m2), mc)
    e.check_eq("chirp mass is symmetric", cv.component_masses_to_chirp_mass(m2, m1), mc)
    e.check_eq("total", cv.component_masses_to_total_mass(m1, m2), mt)
    e.check_eq("eta", cv.component_masses_to_symmetric_mass_ratio(m1, m2), eta)
    e.check_le("eta is at most a quarter", cv.component_masses_to_symmetric_mass_ratio(m1, m2), 0.25)
    e.check_eq("ratio", cv.component_masses_to_mass_ratio(m1, m2), q)


@harness("C21", "arrays", params=[("%s+%s" % p, p) for p in PAIRS if p not in CHIRP])
def arrays(e, names):
    a = [masses(e, n=str(i)) for i in range(2)]
    for m1, m2 in a:
        e.assume(m2 <= 0.999 * m1)
    d = [derived(*v) for v in a]
    got = cv.generate_mass_parameters({k: e.array([v[k] for v in d]) for k in names})
    for k in d[0]:
        e.check_eq(k, got[k], [v[k] for v in d])


@harness("C21", "insufficient", params=[(k, k) for k in derived(1., 1.)])
def insufficient(e, key):
    m1, m2 = masses(e)
    v = derived(m1, m2)[key]
    e.check("refused when required", e.raises(lambda: cv.generate_component_masses({key: v}, require_add=True), KeyError) is not None)
    got = cv.generate_component_masses({key: v})
    e.check("returned unchanged otherwise", list(got) == [key])
    conv, added = cv.convert_to_lal_binary_black_hole_parameters({key: v})
    e.check_eq("conversion keeps it", conv[key], v)
    e.check("added keys", sorted(added) == ["phi_12", "phi_jl"])


class Q(float):
    pass


class Value:
    def __init__(self, v):
        self.value = v


class Cosmology:
    """distance(z) = c z (1+z), comoving c z; both invertible in closed form"""

    def __init__(self, c):
        self.c = c

    def luminosity_distance(self, z):
        return Value(self.c * z * (1 + z))

    def comoving_distance(self, z):
        return Value(self.c * z)


def cosmo(e, z):
    """a stand-in cosmology; the redshift of every distance in the harness is z"""
    c = e.real("c", 1000, 8000)
    cos = Cosmology(c)
    patch(e, cv, "get_cosmology", lambda cosmology=None: cos)

    def z_at_value(func, fval, **kw):
        v = getattr(fval, "value", fval)
        if func.__name__ == "comoving_distance":
            return v / c
        return (np.sqrt(1 + 4 * v / c) - 1) / 2
    patch(e, cv, "z_at_value", z_at_value)
    import astropy.units

    class Mpc:
        def __rmul__(self, other):
            return other

        def __mul__(self, other):
            return other
        __array_ufunc__ = None
        __symx_foreign__ = True
    patch(e, astropy.units, "Mpc", Mpc())
    return c


DIST = ["luminosity_distance", "redshift", "comoving_distance"]
SOURCE = [("mass_1_source", "mass_2_source"), ("chirp_mass_source", "mass_ratio"), ("total_mass_source", "mass_ratio"),
          ("mass_1_source", "mass_ratio"), ("chirp_mass_source", "symmetric_mass_ratio"), ("chirp_mass", "mass_ratio"),
          ("total_mass_source", "symmetric_mass_ratio")]


def given_source(e, names, dist, z, c, m1, m2):
    d = {k: v for k, v in derived(m1, m2).items()}
    for k in list(d):
        if "ratio" not in k:
            d[k + "_source"] = d[k]
            d[k] = d[k] * (1 + z)
    g = {k: d[k] for k in names}
    g[dist] = {"luminosity_distance": c * z * (1 + z), "redshift": z, "comoving_distance": c * z}[dist]
    return g, d


@harness("C21", "source-frame", params=[("%s-%s" % ("+".join(p), k), (p, k)) for p in SOURCE for k in DIST])
def source_frame(e, arg):
    names, dist = arg
    m1, m2 = masses(e)
    z = e.real("z", 0, 3, slo=True)
    c = cosmo(e, z)
    given, d = given_source(e, names, dist, z, c, m1, m2)
    before = dict(given)
    got, added = cv.convert_to_lal_binary_black_hole_parameters(given)
    e.check_eq("luminosity distance", got["luminosity_distance"], c * z * (1 + z))
    e.check_eq("detector-frame masses", [got["mass_1"], got["mass_2"]], [d["mass_1"], d["mass_2"]])
    e.check("input unchanged", list(given) == list(before) and all(given[k] is before[k] for k in before))
    e.check("added keys are exactly the new ones", sorted(added) == sorted(k for k in got if k not in given))
    again, added2 = cv.convert_to_lal_binary_black_hole_parameters(got)
    e.check("a second conversion adds nothing", added2 == [] or sorted(added2) == sorted(k for k in again if k not in got))
    for k in got:
        e.check_eq("a second conversion changes nothing: " + k, again[k], got[k])
    full = cv.generate_source_frame_parameters(cv.generate_mass_parameters(got))
    for k in ("mass_1_source", "mass_2_source", "chirp_mass_source", "total_mass_source"):
        e.check_eq("round trip: " + k, full[k], d[k])
    e.check_eq("redshift", [full["redshift"], full["comoving_distance"]], [z, c * z])


SPIN = ["chi", "chi+a", "chi+in_plane", "cos_tilt", "tilt"]


@harness("C21", "spins", params=[(k, k) for k in SPIN])
def spins(e, kind):
    m1, m2 = masses(e)
    g = dict(mass_1=m1, mass_2=m2)
    want = {}
    for i in "12":
        chi, a, plane = e.real("chi" + i, -1, 1), e.real("a" + i, 0, 1, slo=True), e.real("p" + i, 0, 1)
        ct = e.real("ct" + i, -1, 1)
        if kind == "chi":
            e.assume((chi < 0) | (chi > 0))
            g["chi_" + i] = chi
            want["a_" + i] = abs(chi)
            z = chi
        elif kind == "chi+a":
            e.assume(chi ** 2 <= a ** 2)
            g["chi_" + i], g["a_" + i] = chi, a
            want["a_" + i] = a
            z = chi
        elif kind == "chi+in_plane":
            e.assume(chi ** 2 + plane ** 2 > 0)
            g["chi_" + i], g["chi_%s_in_plane" % i] = chi, plane
            want["a_" + i] = np.sqrt(chi ** 2 + plane ** 2)
            z = chi
        elif kind == "cos_tilt":
            g["a_" + i], g["cos_tilt_" + i] = a, ct
            z = a * ct
        else:
            t = e.real("tilt" + i, 0, 3)
            g["a_" + i], g["tilt_" + i] = a, t
            z = a * np.cos(t)
        want["z" + i] = z
    got, added = cv.convert_to_lal_binary_black_hole_parameters(g)
    for i in "12":
        if "a_" + i in want:
            e.check_eq("spin magnitude " + i, got["a_" + i], want["a_" + i])
        e.check_eq("aligned component " + i, got["a_" + i] * np.cos(got["tilt_" + i]), want["z" + i])
    e.check_eq("azimuths default to zero", [got["phi_jl"], got["phi_12"]], [0, 0])
    e.check("added keys", sorted(added) == sorted(k for k in got if k not in g))


@harness("C21", "zero-spin", params=[(k, k) for k in ("chi", "chi+a", "chi+in_plane")])
def zero_spin(e, kind):
    """a vanishing spin is converted to a vanishing spin with a finite tilt"""
    m1, m2 = masses(e)
    g = dict(mass_1=m1, mass_2=m2, chi_1=0., chi_2=0.)
    if kind != "chi":
        for i in "12":
            g[dict(zip(("chi+a", "chi+in_plane"), ("a_%s", "chi_%s_in_plane")))[kind] % i] = 0.
    got, _ = cv.convert_to_lal_binary_black_hole_parameters(g)
    e.check_eq("magnitudes", [got["a_1"], got["a_2"]], [0, 0])
    e.check("finite tilts", bool(np.isfinite(got["tilt_1"]) and np.isfinite(got["tilt_2"])))


@harness("C21", "angles")
def angles(e):
    ct = e.real("ct", -1, 1)
    e.assume((ct < -1e-6) | (ct > 1e-6))
    dp, psi = e.real("dp", 0, 6), e.real("psi", 0, 3)
    got, _ = cv.convert_to_lal_binary_black_hole_parameters(dict(mass_1=2., mass_2=1., cos_theta_jn=ct, delta_phase=dp, psi=psi))
    e.check_eq("inclination", np.cos(got["theta_jn"]), ct)
    s = 1 if bool(ct > 0) else -1
    e.check_le("phase is at least 0", 0, got["phase"])
    e.check_le("phase is at most 2 pi", got["phase"], 2 * np.pi)
    turn = got["phase"] - (dp - s * psi)
    e.check("phase modulo 2 pi", (abs(turn) < 1e-9) | (abs(turn - 2 * np.pi) < 1e-9) | (abs(turn + 2 * np.pi) < 1e-9))


def fake_lal(theta_jn, phi_jl, tilt_1, tilt_2, phi_12, a_1, a_2, mass_1, mass_2, f_ref, phase):
    """stand-in for the precessing transformation: fixes the aligned components, turns the others by phi_12 and phi_jl"""
    s1, s2 = a_1 * np.sin(tilt_1), a_2 * np.sin(tilt_2)
    c, s = np.cos(phi_12), np.sin(phi_12)
    return (theta_jn + mass_1 / (mass_1 + mass_2) + f_ref + phase, s1 * 3 / 5, s1 * 4 / 5, a_1 * np.cos(tilt_1),
            s2 * c, s2 * s, a_2 * np.cos(tilt_2))


@harness("C21", "component-spins")
def component_spins(e):
    m1, m2 = masses(e)
    patch(e, cv, "lalsim_SimInspiralTransformPrecessingNewInitialConditions", fake_lal)
    g = dict(mass_1=m1, mass_2=m2, mass_ratio=m2 / m1, theta_jn=e.real("theta", 0, 3), phi_jl=e.real("phi_jl", 0, 6),
             phi_12=e.real("phi_12", 0, 6), phase=e.real("phase", 0, 6), reference_frequency=e.real("f", 10, 100),
             a_1=e.real("a1", 0, 1), a_2=e.real("a2", 0, 1), tilt_1=e.real("t1", 0, 3), tilt_2=e.real("t2", 0, 3))
    e.assume((g["tilt_1"] > 0) & (g["tilt_2"] > 0))
    got = cv.generate_spin_parameters(g)
    q = m2 / m1
    z1, z2 = g["a_1"] * np.cos(g["tilt_1"]), g["a_2"] * np.cos(g["tilt_2"])
    e.check_eq("aligned components", [got["spin_1z"], got["spin_2z"]], [z1, z2])
    e.check_eq("effective spin", got["chi_eff"], (m1 * z1 + m2 * z2) / (m1 + m2))
    p1, p2 = g["a_1"] * np.sin(g["tilt_1"]), g["a_2"] * np.sin(g["tilt_2"])
    e.check_eq("in-plane spins", [got["chi_1_in_plane"], got["chi_2_in_plane"]], [p1, p2])
    k = q * (4 * q + 3) / (4 + 3 * q) * p2
    want = p1 if bool(p1 >= k) else k
    e.check_eq("effective precession spin", got["chi_p"], want)
    e.check_eq("tilts", [got["cos_tilt_1"], got["cos_tilt_2"]], [np.cos(g["tilt_1"]), np.cos(g["tilt_2"])])


@harness("C21", "aligned-spins")
def aligned(e):
    """aligned and anti-aligned spins need no transformation and keep the inclination"""
    m1, m2 = masses(e)
    calls = []
    patch(e, cv, "lalsim_SimInspiralTransformPrecessingNewInitialConditions", lambda *a: calls.append(a) or fake_lal(*a))
    a1, a2, th = e.real("a1", 0, 1), e.real("a2", 0, 1), e.real("theta", 0, 3)
    t1, t2 = e.choice("t1", [0, np.pi]), e.choice("t2", [0, np.pi])
    got = cv.bilby_to_lalsimulation_spins(th, 0.3, t1, t2, 0.2, a1, a2, m1, m2, 20., 0.1)
    s1, s2 = (1 if t1 == 0 else -1), (1 if t2 == 0 else -1)
    e.check_eq("components", got, [th, 0, 0, s1 * a1, 0, 0, s2 * a2])
    e.check("no transformation", calls == [])
    g = cv.generate_component_spins(dict(chi_1=a1, chi_2=-a2))
    e.check_eq("from aligned spins only", [g["spin_1x"], g["spin_1y"], g["spin_1z"], g["spin_2x"], g["spin_2y"], g["spin_2z"]],
               [0, 0, a1, 0, 0, -a2])
