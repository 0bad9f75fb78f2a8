"""C24: the geometry of a detector always matches its current site and arms."""
import numpy as np

from bilby.gw import utils as gwutils
from bilby.gw.detector import geometry, interferometer, networks
from symx.api import harness
from common import patch
import gw_common as gc

BOUNDS = ["symbolic site (latitude to 89 degrees), elevation, arm azimuths and tilts, and source direction",
          "histories of two changes with any of the derived quantities read in between"]
OUTSIDE = ["the compiled geometry functions of bilby_cython (executed only in the concrete re-runs)",
           "sidereal time (the times 0, 1126259462.4 and 1e9 are used)", "floating-point rounding"]
RANGES = dict(length=(1, 40), latitude=(-89, 89), longitude=(-180, 180), elevation=(-100, 5000), xarm_azimuth=(0, 360),
              yarm_azimuth=(0, 360), xarm_tilt=(-0.1, 0.1), yarm_tilt=(-0.1, 0.1))
ATTRS = list(RANGES)
DERIVED = ["none", "vertex", "x", "y", "detector_tensor"]
D = np.pi / 180
A, B = 6378137, 6356752.314


def site(e):
    return {k: e.real(k, *RANGES[k]) for k in ATTRS}


def spec(v):
    """positions and directions from the definitions"""
    lat, lon, h = v["latitude"] * D, v["longitude"] * D, v["elevation"]
    r = A**2 / np.sqrt(A**2 * np.cos(lat)**2 + B**2 * np.sin(lat)**2)
    out = dict(vertex=[(r + h) * np.cos(lat) * np.cos(lon), (r + h) * np.cos(lat) * np.sin(lon), ((B / A)**2 * r + h) * np.sin(lat)])
    for k in "xy":
        out[k] = gc.arm(v[k + "arm_tilt"], v[k + "arm_azimuth"] * D, lon, lat)
    out["detector_tensor"] = gc.tensor(out["x"], out["y"])
    return out


def compare(e, got, v, names=("vertex", "x", "y", "detector_tensor")):
    want = spec(v)
    for k in names:
        g, w = getattr(got, k), want[k]
        if k == "detector_tensor":
            g, w = [x for r in g for x in r], [x for r in w for x in r]
        e.check_eq(k, list(g), w, rtol=1e-9, atol=1e-9 if k != "vertex" else 1e-6)


@harness("C24", "history", params=[("%s+%s" % (a, b), (a, b)) for a in ATTRS for b in ATTRS])
def history(e, ops):
    gc.compiled(e)
    v = site(e)
    through = e.choice("through", ["geometry", "detector"])
    if through == "geometry":
        g = geometry.InterferometerGeometry(**v)
    else:
        g = interferometer.Interferometer("X1", None, 20, 1000, **v)
    for i, k in enumerate(ops):
        r = e.choice("read%d" % i, DERIVED)
        if r != "none":
            getattr(g, r)
        v[k] = e.real("new%d" % i, *RANGES[k])
        setattr(g, k, v[k])
    order = e.choice("order", [0, 1, 2, 3])
    names = ["vertex", "x", "y", "detector_tensor"]
    compare(e, g, v, names[order:] + names[:order])
    e.check_eq("attributes are as set", [getattr(g, k) for k in ATTRS], [v[k] for k in ATTRS], rtol=1e-9, atol=1e-9)


@harness("C24", "ellipsoid")
def ellipsoid(e):
    """a site without elevation lies on the reference ellipsoid, an elevated one straight above it"""
    lat, lon, h = e.real("lat", -1.5, 1.5), e.real("lon", -3.14, 3.14), e.real("h", -1000, 9000)
    p, q = gwutils.get_vertex_position_geocentric(lat, lon, 0), gwutils.get_vertex_position_geocentric(lat, lon, h)
    e.check_eq("on the ellipsoid", p[0]**2 / A**2 + p[1]**2 / A**2 + p[2]**2 / B**2, 1, rtol=1e-9)
    n = [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]
    e.check_eq("elevation is along the vertical", [q[i] - p[i] for i in range(3)], [h * x for x in n], rtol=1e-9, atol=1e-6)
    # the vertical is normal to the ellipsoid
    g = [p[0] / A**2, p[1] / A**2, p[2] / B**2]
    e.check_eq("the vertical is normal to the surface", [g[1] * n[2] * A, g[2] * n[0] * A], [g[2] * n[1] * A, g[0] * n[2] * A], atol=1e-9)


@harness("C24", "arm-name")
def arm_name(e):
    gc.compiled(e)
    v = site(e)
    g = geometry.InterferometerGeometry(**v)
    k = e.choice("arm", ["x", "y", "z", ""])
    if k in ("z", ""):
        e.check("other arms are refused", e.raises(lambda: g.unit_vector_along_arm(k), ValueError) is not None)
    else:
        e.check_eq("unit vector", list(g.unit_vector_along_arm(k)), spec(v)[k], rtol=1e-9, atol=1e-12)


@harness("C24", "equality")
def equality(e):
    """two sites are equal exactly when all their numbers are"""
    v = site(e)
    w = dict(v)
    k = e.choice("which", ATTRS)
    w[k] = e.real("other", *RANGES[k])
    e.assume((w[k] == v[k]) | (abs(w[k] - v[k]) > 1e-6))
    e.check_eq("equal", geometry.InterferometerGeometry(**v) == geometry.InterferometerGeometry(**w), bool(w[k] == v[k]))


MODES = ["plus", "cross", "x", "y", "breathing", "longitudinal", "X1", "other"]


@harness("C24", "response", params=MODES)
def response(e, mode):
    """the antenna response contracts the detector tensor with the polarization tensor of the mode"""
    gc.compiled(e)
    v = site(e)
    ifo = interferometer.Interferometer("X1", None, 20, 1000, **v)
    ra, dec, psi = e.real("ra", 0, 6.28), e.real("dec", -1.57, 1.57), e.real("psi", 0, 3.14)
    t = e.choice("time", [0., 1126259462.4, 1e9])
    got = ifo.antenna_response(ra, dec, t, psi, mode)
    want = {"X1": 1, "other": 0}.get(mode)
    if want is None:
        want = gc.contract(spec(v)["detector_tensor"], gc.polarization(ra, dec, t, psi, mode))
    e.check_eq("response", got, want, rtol=1e-9, atol=1e-12)
    e.check_eq("delay from the centre of the Earth", ifo.time_delay_from_geocenter(ra, dec, t),
               gc.delay(spec(v)["vertex"], ra, dec, t), rtol=1e-9, atol=1e-12)
    e.check_eq("position", list(ifo.vertex_position_geocentric()), spec(v)["vertex"], rtol=1e-9)


def triangle(e, **k):
    v = {k: e.real(k, *RANGES[k]) for k in ATTRS}
    v.update(k)
    low, high = e.choice("low", ["number", "list"]), e.choice("high", ["number", "list"])
    f = [20., 21., 22.] if low == "list" else 20
    g = [900., 901, 902] if high == "list" else 900.
    return v, f, g, networks.TriangularInterferometer("T", [None] * 3, f, g, **v)


@harness("C24", "triangle")
def triangles(e):
    """the three detectors of a triangle share the first one's plane and are rotated by 240 degrees each"""
    v, f, g, t = triangle(e)
    e.check("three detectors", len(t) == 3 and [i.name for i in t] == ["T1", "T2", "T3"])
    for n, i in enumerate(t):
        e.check_eq("azimuths", [i.xarm_azimuth, i.yarm_azimuth], [v["xarm_azimuth"] + 240 * n, v["yarm_azimuth"] + 240 * n])
        e.check_eq("length, elevation, tilts", [i.length, i.elevation, i.xarm_tilt, i.yarm_tilt],
                   [v["length"], v["elevation"], v["xarm_tilt"], v["yarm_tilt"]])
        e.check_eq("band", [i.minimum_frequency, i.maximum_frequency],
                   [f if isinstance(f, int) else f[n], g if isinstance(g, float) else g[n]])
    e.check_eq("first corner", [t[0].latitude, t[0].longitude], [v["latitude"], v["longitude"]])


@harness("C24", "triangle-corners")
def corners(e):
    """the corners of an equilateral triangle lie at the ends of each other's arms"""
    lat, length, az = e.real("lat", -60, 60), e.real("len", 1, 40), e.real("az", 0, 360)
    t = networks.TriangularInterferometer("T", [None] * 3, 20, 900, length, lat, 10., 0., az, az + 60)
    R = 6378136.6
    dlat, dlon = [(getattr(t[1], k) - getattr(t[0], k)) * D * R for k in ("latitude", "longitude")]
    # the second detector's arms point along az + 240 and az + 300: it sits at the end of the first one's second arm
    x, y = [length * 1e3 * f((az + 60) * D) for f in (np.cos, np.sin)]
    if bool((abs(dlat + y) < 1) & (abs(dlon + x) < 1)):
        e.fail("the second corner is placed opposite to the end of the arm")
        return
    e.check_eq("second corner", [dlon * np.cos(lat * D), dlat], [x, y], atol=400)
