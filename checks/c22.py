"""C22: tidal parameters and neutron-star equations of state are converted consistently."""
import numpy as np

from bilby.gw import conversion as cv
from symx.api import harness
from common import patch, use_rng
import priors_common as pc

BOUNDS = ["component masses 1 to 3 solar masses, tidal deformabilities 0 to 5000, all symbolic",
          "scalars and arrays of two samples; every mix of scalar (pinned) and array equation-of-state parameters by class",
          "symmetric tidal deformability 2 to 3000, mass ratio 0.1 to 1 for the binary-Love relations"]
OUTSIDE = ["LALSimulation's equations of state (replaced by stand-ins that return chosen values)",
           "mass pairs for which the map to (lambda_tilde, delta_lambda_tilde) is singular to within 1e-3"]


def masses(e, n=""):
    m1, m2 = e.real("m1" + n, 1, 3), e.real("m2" + n, 1, 3)
    e.assume(m2 <= m1)
    return m1, m2


def tilde(l1, l2, m1, m2):
    """eq. 14 of Wade et al. (2014)"""
    M = m1 + m2
    return 16 * ((m1 + 12 * m2) * m1 ** 4 * l1 + (m2 + 12 * m1) * m2 ** 4 * l2) / (13 * M ** 5)


def delta_tilde(l1, l2, m1, m2):
    """eq. 15 of Wade et al. (2014), in terms of the component masses"""
    x1, x2 = m1 / (m1 + m2), m2 / (m1 + m2)
    eta = x1 * x2
    return ((x1 - x2) * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta ** 2) * (l1 + l2)
            + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta ** 2 + 3380 / 1319 * eta ** 3) * (l1 - l2)) / 2


@harness("C22", "tilde")
def tilde_definitions(e):
    m1, m2 = masses(e)
    l1, l2 = e.real("l1", 0, 5000), e.real("l2", 0, 5000)
    e.check_eq("lambda tilde", cv.lambda_1_lambda_2_to_lambda_tilde(l1, l2, m1, m2), tilde(l1, l2, m1, m2), rtol=1e-6, atol=1e-6)
    e.check_eq("delta lambda tilde", cv.lambda_1_lambda_2_to_delta_lambda_tilde(l1, l2, m1, m2), delta_tilde(l1, l2, m1, m2), rtol=1e-6, atol=1e-6)
    got = cv.generate_tidal_parameters(dict(lambda_1=l1, lambda_2=l2, mass_1=m1, mass_2=m2))
    e.check_eq("generated", [got["lambda_tilde"], got["delta_lambda_tilde"]], [tilde(l1, l2, m1, m2), delta_tilde(l1, l2, m1, m2)], rtol=1e-6, atol=1e-6)
    e.check_eq("equal binary", cv.lambda_1_lambda_2_to_lambda_tilde(l1, l1, m1, m1), l1)


@harness("C22", "inverse", params=[("functions", 0), ("dictionary", 1)])
def inverse(e, how):
    """(lambda_tilde, delta_lambda_tilde) and (lambda_1, lambda_2) determine each other"""
    m1, m2 = masses(e)
    l1, l2 = e.real("l1", 0, 5000), e.real("l2", 0, 5000)
    lt = cv.lambda_1_lambda_2_to_lambda_tilde(l1, l2, m1, m2)
    dlt = cv.lambda_1_lambda_2_to_delta_lambda_tilde(l1, l2, m1, m2)
    if how == 0:
        got = cv.lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(lt, dlt, m1, m2)
    else:
        given = dict(mass_1=m1, mass_2=m2, lambda_tilde=lt, delta_lambda_tilde=dlt)
        before = dict(given)
        out, added = cv.convert_to_lal_binary_neutron_star_parameters(given)
        got = out["lambda_1"], out["lambda_2"]
        e.check("input unchanged", list(given) == list(before) and all(given[k] is before[k] for k in before))
        e.check("added keys", sorted(added) == sorted(k for k in out if k not in given))
    e.check_eq("lambda_1, lambda_2", list(got), [l1, l2], rtol=1e-5, atol=1e-5)


@harness("C22", "lambda-tilde-only")
def tilde_only(e):
    """with lambda_tilde alone, lambda_1 m_1^5 = lambda_2 m_2^5"""
    m1, m2 = masses(e)
    lt = e.real("lt", 0, 5000)
    out, added = cv.convert_to_lal_binary_neutron_star_parameters(dict(mass_1=m1, mass_2=m2, lambda_tilde=lt))
    l1, l2 = out["lambda_1"], out["lambda_2"]
    e.check_eq("same equation of state", l1 * m1 ** 5, l2 * m2 ** 5)
    e.check_eq("lambda_tilde is kept", tilde(l1, l2, m1, m2), lt, rtol=1e-6)
    e.check_eq("and reproduced", cv.lambda_1_lambda_2_to_lambda_tilde(l1, l2, m1, m2), lt, rtol=1e-6)


LAM = ["none", "lambda_1", "lambda_1+None", "both", "lambda_2", "symmetric", "symmetric+love"]


@harness("C22", "lambdas", params=[(k, k) for k in LAM])
def lambdas(e, kind):
    m1, m2 = masses(e)
    l1, l2 = e.real("l1", 0, 5000), e.real("l2", 0, 5000)
    g = dict(mass_1=m1, mass_2=m2, extra=1.)
    if kind in ("lambda_1", "lambda_1+None", "both"):
        g["lambda_1"] = l1
    if kind == "lambda_1+None":
        g["lambda_2"] = None
    if kind in ("both", "lambda_2"):
        g["lambda_2"] = l2
    if kind.startswith("symmetric"):
        g["lambda_symmetric"] = cv.lambda_1_lambda_2_to_lambda_symmetric(l1, l2)
        g["lambda_antisymmetric"] = cv.lambda_1_lambda_2_to_lambda_antisymmetric(l1, l2)
        e.check_eq("symmetric", [g["lambda_symmetric"], g["lambda_antisymmetric"]], [(l1 + l2) / 2, (l2 - l1) / 2])
    if kind == "symmetric+love":
        g["mass_ratio"] = m2 / m1
        g["binary_love_uniform"] = 0.5
    before = dict(g)
    out, added = cv.convert_to_lal_binary_neutron_star_parameters(g)
    e.check("input unchanged", list(g) == list(before) and all(g[k] is before[k] for k in before))
    e.check("added keys", sorted(added) == sorted(k for k in out if k not in g))
    if kind == "none":
        e.check_eq("point particles by default", [out["lambda_1"], out["lambda_2"]], [0, 0])
    elif kind in ("lambda_1", "lambda_1+None"):
        e.check_eq("same equation of state", [out["lambda_1"], out["lambda_2"] * m2 ** 5], [l1, l1 * m1 ** 5])
    elif kind == "lambda_2":
        e.check_eq("kept", out["lambda_2"], l2)
    else:
        e.check_eq("both", [out["lambda_1"], out["lambda_2"]], [l1, l2])
    full = dict(out)
    if "lambda_1" in out:
        again, _ = cv.convert_to_lal_binary_neutron_star_parameters(out)
        e.check_eq("converting again changes nothing", [again["lambda_1"], again["lambda_2"]], [out["lambda_1"], out["lambda_2"]])


def love(e, u, ls, q):
    """Chatziioannou, Haster and Zimmerman (2018): fit, mean correction and scatter"""
    x = ls ** -0.2
    n = 0.743
    qn = np.power(q, 10. / (3. - n))
    F = (1 - qn) / (1 + qn)
    b = [(-27.7408, 8.42358), (122.686, -19.7551), (-175.496, 133.708)]
    c = [(-25.5593, 5.58527), (92.0337, 26.8586), (-70.247, -56.3076)]
    num = 1 + sum((b[i][0] * q + b[i][1] * q ** 2) * x ** (i + 1) for i in range(3))
    den = 1 + sum((c[i][0] * q + c[i][1] * q ** 2) * x ** (i + 1) for i in range(3))
    e.assume((den > 1e-3) | (den < -1e-3))
    return F * ls * num / den


@harness("C22", "binary-love-fit")
def love_fit(e):
    ls, q = e.real("ls", 2, 3000), e.real("q", 0.1, 1)
    want = love(e, None, ls, q)
    e.check_eq("fit", cv.binary_love_fit_lambda_symmetric_mass_ratio_to_lambda_antisymmetric(ls, q), want, rtol=1e-6)


@harness("C22", "binary-love", params=[("manual", 0), ("automatic", 1), ("automatic-array", 2), ("dictionary", 3), ("dictionary-automatic", 4)])
def binary_love(e, how):
    from scipy.special import erfinv
    rng = use_rng(e)

    class norm:
        @staticmethod
        def ppf(u, loc=0., scale=1.):
            return loc + scale * np.sqrt(2) * erfinv(2 * u - 1)
    if e.symbolic:
        patch(e, cv, "norm", norm)
    n = 2 if how == 2 else 1
    ls, q = e.reals("ls", n, 2, 3000), e.reals("q", n, 0.1, 1)
    us = [e.real("u%d" % i, 0.001, 0.999) for i in range(n)]
    patch(e, cv, "binary_love_fit_lambda_symmetric_mass_ratio_to_lambda_antisymmetric", lambda l, r: 3 * l - r)
    if how == 0:
        got = cv.binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(us[0], ls[0], q[0])
    elif how == 1:
        got = cv.binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(ls[0], q[0])
    elif how == 2:
        got = cv.binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(e.array(ls), e.array(q))
    else:
        g = dict(mass_1=2., mass_2=2 * q[0], mass_ratio=q[0], lambda_symmetric=ls[0])
        if how == 3:
            g["binary_love_uniform"] = us[0]
        out, added = cv.convert_to_lal_binary_neutron_star_parameters(g)
        got = out["lambda_1"], out["lambda_2"]
        e.check("added keys", sorted(added) == sorted(k for k in out if k not in g))
    if how in (1, 2, 4):
        draws = list(rng.log)
        for u in draws:
            e.assume((u > 0.001) & (u < 0.999))
        e.check("one draw per sample", len(draws) == n)
        us = draws
    for i in range(n):
        l, r = ls[i], q[i]
        s = np.sqrt(l)
        mean = (137.1252739 / l ** 2 - 32.8026613 / l + 0.5168637 - 11.2765281 * r ** 2 + 14.9499544 * r - 4.6638851) / 2
        sa = -0.0000739 * l * s + 0.0103778 * l + 0.4581717 * s - 0.8341913
        sb = -201.4323962 * r ** 2 + 273.9268276 * r - 71.2342246
        want = 3 * l - r + mean + norm.ppf(us[i]) * np.sqrt(sa ** 2 + sb ** 2)
        a, b = (got[0][i], got[1][i]) if how == 2 else (pc.scalar(got[0]), pc.scalar(got[1]))
        e.check_eq("symmetric part", (a + b) / 2, l, rtol=1e-6)
        e.check_eq("antisymmetric part", (b - a) / 2, want, rtol=1e-5, atol=1e-5)


EOS = dict(
    pca=["eos_spectral_pca_gamma_%d" % i for i in range(4)],
    polytrope=["eos_polytrope_gamma_0", "eos_polytrope_gamma_1", "eos_polytrope_gamma_2", "eos_polytrope_log10_pressure_1", "eos_polytrope_log10_pressure_2"],
    ratio=["eos_polytrope_gamma_0", "eos_polytrope_gamma_1", "eos_polytrope_gamma_2", "eos_polytrope_scaled_pressure_ratio", "eos_polytrope_scaled_pressure_2"],
    causal=["eos_v1", "eos_v2", "eos_v3", "eos_log10_pressure1_cgs", "eos_log10_pressure2_cgs"])
PCA = ([[0.43801, -0.76705, 0.45143, 0.12646], [-0.53573, 0.17169, 0.67968, 0.47070], [0.52660, 0.31255, -0.19454, 0.76626],
        [-0.49379, -0.53336, -0.54444, 0.41868]], [0.89421, 0.33878, -0.07894, 0.00393], [0.35700, 0.25769, 0.05452, 0.00312])


def eos_args(kind, v, m1, m2):
    """arguments of the equation-of-state function for one sample, in the order (parameters, masses)"""
    if kind == "pca":
        M, mean, std = PCA
        return [mean[i] + std[i] * sum(M[i][j] * v[j] for j in range(4)) for i in range(4)] + [m1, m2]
    a, b, c, p, q = v
    if kind == "ratio":
        p, q = 33 + p * q, 33 + q
    return [a, p, b, q, c, m1, m2]


@harness("C22", "eos", params=[("%s-%s" % (k, m), (k, m)) for k in EOS for m in ("scalars", "arrays", "one-array", "one-pinned", "masses-pinned")])
def eos(e, arg):
    """the equation of state is evaluated sample by sample, however its parameters are given"""
    kind, mix = arg
    patch(e, cv, "generate_source_frame_parameters", lambda s: dict(s, mass_1_source=s["mass_1"] / 2, mass_2_source=s["mass_2"] / 2))

    def fake(c):
        def f(*a, **kw):
            causal = kw.get("causal", a[7] if len(a) > 7 else None)
            e.check("family", causal == c)
            a = a[:7]
            return sum((i + 2) * x for i, x in enumerate(a)), sum((3 - i) * x for i, x in enumerate(a)), bool(a[0] > 1)
        return f
    patch(e, cv, "spectral_params_to_lambda_1_lambda_2", fake(None))
    patch(e, cv, "polytrope_or_causal_params_to_lambda_1_lambda_2", fake(1 if kind == "causal" else 0))
    keys = EOS[kind] + ["mass_1", "mass_2"]
    arr = {"scalars": [], "arrays": keys, "one-array": keys[1:2], "one-pinned": keys[:2] + keys[3:], "masses-pinned": keys[:-2]}[mix]
    n = 2 if arr else 1
    v = {k: e.reals(k, n if k in arr else 1, 0, 3) for k in keys}
    g = {k: e.array(v[k]) if k in arr else v[k][0] for k in keys}
    before = dict(g)
    out, added = cv.convert_to_lal_binary_neutron_star_parameters(g)
    e.check("added keys", sorted(added) == sorted(k for k in out if k not in g) and {"lambda_1", "lambda_2", "eos_check"} <= set(added))
    e.check("the parameters are kept as given", all(out[k] is before[k] and g[k] is before[k] for k in before))
    for i in range(n):
        x = [v[k][i if k in arr else 0] for k in keys]
        a = eos_args(kind, x[:-2], x[-2] / 2, x[-1] / 2)
        want = sum((j + 2) * y for j, y in enumerate(a)), sum((3 - j) * y for j, y in enumerate(a))
        if arr:
            e.check("one value per sample", len(out["lambda_1"]) == len(out["lambda_2"]) == len(out["eos_check"]) == n)
            got, ok = (out["lambda_1"][i], out["lambda_2"][i]), out["eos_check"][i]
        else:
            got, ok = (out["lambda_1"], out["lambda_2"]), out["eos_check"]
        e.check_eq("deformabilities", list(got), list(want))
        if bool((a[0] > 1.000001) | (a[0] < 0.999999)):
            e.check_eq("viability", bool(ok), bool(a[0] > 1))


@harness("C22", "eos-viability", params=[("spectral", 0), ("polytrope", 1), ("causal", 2)])
def viability(e, kind):
    """a binary is viable exactly if LALSimulation accepts the equation of state, it is causal, and it supports both masses"""
    x = e.reals("x", 5, 0, 3)
    m1, m2 = masses(e)
    gamma_ok, family_ok = e.choice("gamma", [0, 1]), e.choice("family", [0, 1])
    cs, lo, hi = e.real("cs", 0, 2), e.real("lo", 0.1, 2), e.real("hi", 1, 3)
    seen = []
    sun = cv.solar_mass

    def sub(name, f):
        patch(e, cv, name, f)

    def note(name, value):
        return lambda *a: seen.append((name,) + a) or value
    sub("lalsim_SimNeutronStarEOS4ParamSDGammaCheck", note("gamma", gamma_ok))
    sub("lalsim_SimNeutronStarEOS4ParameterSpectralDecomposition", note("make", "eos"))
    sub("lalsim_SimNeutronStarEOS4ParamSDViableFamilyCheck", note("viable", family_ok))
    sub("lalsim_SimNeutronStarEOS3PieceDynamicPolytrope", note("make-polytrope", "eos"))
    sub("lalsim_SimNeutronStarEOS3PieceCausalAnalytic", note("make-causal", "eos"))
    sub("lalsim_SimNeutronStarEOS3PDViableFamilyCheck", note("viable", family_ok))
    sub("lalsim_CreateSimNeutronStarFamily", lambda eos: ("family", eos))
    sub("lalsim_SimNeutronStarEOSMaxPseudoEnthalpy", lambda eos: 0.7)
    sub("lalsim_SimNeutronStarEOSSpeedOfSoundGeometerized", lambda h, eos: cs if h == 0.7 and eos == "eos" else None)
    sub("lalsim_SimNeutronStarFamMinimumMass", lambda fam: lo * sun)
    sub("lalsim_SimNeutronStarMaximumMass", lambda fam: hi * sun)
    sub("lalsim_SimNeutronStarRadius", lambda m, fam: 11000 + m / sun * 100)
    sub("lalsim_SimNeutronStarLoveNumberK2", lambda m, fam: m / sun / 20)
    for m in (m1, m2):
        for b in (lo, hi):
            e.assume((m < b - 1e-6) | (m > b + 1e-6))
    if kind == 0:
        l1, l2, ok = cv.spectral_params_to_lambda_1_lambda_2(x[0], x[1], x[2], x[3], m1, m2)
        good = gamma_ok == 0 and family_ok == 0
        e.check_eq("parameters of the equation of state", [c[1:] for c in seen], [x[:4]] * len(seen))
    else:
        l1, l2, ok = cv.polytrope_or_causal_params_to_lambda_1_lambda_2(x[0], x[1], x[2], x[3], x[4], m1, m2, causal=kind - 1)
        good = bool(x[1] < x[3]) and family_ok == 0
        for c in seen:
            e.check_eq("parameters, pressures in SI", c[1:6], [x[0], x[1] - 1, x[2], x[3] - 1, x[4]])
            e.check("kind", c[0] != "make-polytrope" if kind == 2 else c[0] != "make-causal")
            e.check("family", len(c) == 6 or c[6] == kind - 1)
    good = good and bool((cs <= 1.1) & (lo <= m1) & (m1 <= hi) & (lo <= m2) & (m2 <= hi))
    e.check_eq("viable", bool(ok), good)
    for m, l in ((m1, l1), (m2, l2)):
        if good:
            C = cv.gravitational_constant * m * sun / (cv.speed_of_light ** 2 * (11000 + 100 * m))
            e.check_eq("deformability", l, 2 * (m / 20) / (3 * C ** 5), rtol=1e-6)
        else:
            e.check_eq("none for binaries that are not viable", l, 0)


@harness("C22", "generate-all", params=[("bbh", 0), ("bns", 1)])
def generate_all(e, bns):
    """the added parameters follow from the given ones, fixed priors fill in missing ones, waveform arguments are recorded"""
    from bilby.core import prior as bp
    patch(e, cv, "generate_source_frame_parameters", lambda s: dict(s, redshift=1., mass_1_source=s["mass_1"] / 2, mass_2_source=s["mass_2"] / 2))
    mc, q, peak = e.real("mc", 1, 3), e.real("q", 0.2, 0.99), e.real("peak", 0, 0.9)
    l1, l2 = e.real("l1", 0, 5000), e.real("l2", 0, 5000)
    args = e.choice("arguments", [{}, dict(reference_frequency=20.), dict(waveform_approximant="A", minimum_frequency=35., other=2)])

    class WG:
        waveform_arguments = args
    pri = bp.PriorDict(dict(mass_ratio=bp.Uniform(0, 1), chi_1=bp.DeltaFunction(peak)))
    pri["chi_2"] = bp.Uniform(0, 1)
    g = dict(chirp_mass=mc, mass_ratio=q, chi_2=0.25, theta_jn=0.5, phase=0.1, lambda_1=l1, lambda_2=l2)
    before = dict(g)

    class Like:
        waveform_generator = WG()
        interferometers = []
    patch(e, cv, "compute_per_detector_log_likelihoods", lambda samples, likelihood, npool=1, block=10: samples)
    patch(e, cv, "compute_snrs", lambda sample, likelihood, npool=1: None)
    like = e.choice("likelihood", [None, Like()])
    out = (cv.generate_all_bns_parameters if bns else cv.generate_all_bbh_parameters)(g, likelihood=like, priors=pri)
    e.check("input unchanged", list(g) == list(before) and all(g[k] is before[k] for k in before))
    e.check_eq("given values are kept", [out[k] for k in g], list(g.values()))
    a = args if like is not None else {}
    e.check("waveform settings", out["reference_frequency"] == a.get("reference_frequency", 50.)
            and out["waveform_approximant"] == a.get("waveform_approximant", "TaylorF2" if bns else "IMRPhenomPv2")
            and out["minimum_frequency"] == a.get("minimum_frequency", 20.))
    m1 = mc * (1 + q) ** 0.2 / q ** 0.6
    e.check_eq("masses", [out["mass_1"], out["mass_2"], out["total_mass"], out["symmetric_mass_ratio"]], [m1, m1 * q, m1 * (1 + q), q / (1 + q) ** 2])
    e.check_eq("fixed prior", [out["chi_1"], out["a_1"], out["spin_1z"]], [peak, peak, peak])
    e.check_eq("effective spin", out["chi_eff"], (peak + 0.25 * q) / (1 + q))
    e.check_eq("source frame", [out["mass_1_source"], out["redshift"]], [m1 / 2, 1])
    if bns:
        e.check_eq("tides", [out["lambda_tilde"], out["delta_lambda_tilde"]], [tilde(l1, l2, 1, q), delta_tilde(l1, l2, 1, q)], rtol=1e-6, atol=1e-6)
        patch(e, cv, "luminosity_distance_to_redshift", lambda d: 1.)
        want = ["lambda_tilde", "mass_1", "chi_2"]
        spec = cv.generate_specific_parameters(g, want)
        e.check("specific parameters", list(spec) == want)
        e.check_eq("their values", [spec[k] for k in want], [out[k] for k in want])
        e.check("unknown parameter", e.raises(lambda: cv.generate_specific_parameters(g, ["nothing"]), KeyError) is not None)
