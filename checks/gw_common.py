"""Stand-ins for the compiled geometry of bilby_cython (a dependency), and a small detector.

The stand-ins are used only while a function is executed symbolically; every path is re-run with concrete numbers and
the compiled functions themselves, so a stand-in that differed from them would be noticed.
"""
import functools

import numpy as np

from bilby.gw.detector import geometry, interferometer, psd
from bilby.gw import utils as gwutils
from bilby_cython.time import greenwich_mean_sidereal_time
from common import patch

C = 299792458.0


@functools.lru_cache(None)
def gmst(time):
    return float(np.fmod(greenwich_mean_sidereal_time(time), 2 * np.pi))


def arm(tilt, azimuth, longitude, latitude):
    ct, st, ca, sa = np.cos(tilt), np.sin(tilt), np.cos(azimuth), np.sin(azimuth)
    cl, sl, cb, sb = np.cos(longitude), np.sin(longitude), np.cos(latitude), np.sin(latitude)
    return [-sl * ct * ca - sb * cl * ct * sa + cb * cl * st,
            cl * ct * ca - sb * sl * ct * sa + cb * sl * st,
            cb * ct * sa + sb * st]


def tensor(x, y):
    return [[(x[i] * x[j] - y[i] * y[j]) / 2 for j in range(3)] for i in range(3)]


def wave_frame(ra, dec, time, psi):
    phi, theta = ra - gmst(time), np.pi / 2 - dec
    cp, sp, ct, st, cs, ss = np.cos(phi), np.sin(phi), np.cos(theta), np.sin(theta), np.cos(psi), np.sin(psi)
    m = [-ct * cp * ss + sp * cs, -ct * sp * ss - cp * cs, st * ss]
    n = [-ct * cp * cs - sp * ss, -ct * sp * cs + cp * ss, st * cs]
    w = [m[1] * n[2] - m[2] * n[1], m[2] * n[0] - m[0] * n[2], m[0] * n[1] - m[1] * n[0]]
    return m, n, w


def polarization(ra, dec, time, psi, mode):
    m, n, w = wave_frame(ra, dec, time, psi)
    f = dict(plus=lambda i, j: m[i] * m[j] - n[i] * n[j], cross=lambda i, j: m[i] * n[j] + n[i] * m[j],
             breathing=lambda i, j: m[i] * m[j] + n[i] * n[j], longitudinal=lambda i, j: w[i] * w[j],
             x=lambda i, j: m[i] * w[j] + w[i] * m[j], y=lambda i, j: n[i] * w[j] + w[i] * n[j])[mode]
    return [[f(i, j) for j in range(3)] for i in range(3)]


def contract(a, b):
    return sum(a[i][j] * b[i][j] for i in range(3) for j in range(3))


def delay(vertex, ra, dec, time):
    phi, theta = ra - gmst(time), np.pi / 2 - dec
    return -(vertex[0] * np.sin(theta) * np.cos(phi) + vertex[1] * np.sin(theta) * np.sin(phi) + vertex[2] * np.cos(theta)) / C


def compiled(e):
    """replace the compiled functions in bilby while running symbolically"""
    if not e.symbolic:
        return
    patch(e, geometry, "calculate_arm",
          lambda arm_tilt, arm_azimuth, longitude, latitude: e.array(arm(arm_tilt, arm_azimuth, longitude, latitude)))
    patch(e, geometry, "detector_tensor", lambda x, y: e.array([v for r in tensor(x, y) for v in r]).reshape(3, 3))
    patch(e, interferometer, "get_polarization_tensor", lambda *a: e.array([v for r in polarization(*a) for v in r]).reshape(3, 3))
    patch(e, interferometer, "three_by_three_matrix_contraction", contract)
    patch(e, interferometer, "time_delay_from_geocenter", delay)


HANFORD = dict(length=4, latitude=46.46, longitude=-119.41, elevation=142.5, xarm_azimuth=126., yarm_azimuth=216.)


def detector(e, name="X1", low=0., high=np.inf, freqs=(0., 100.), values=(1., 1.), **geo):
    """a detector whose noise power is given at the given frequencies"""
    d = psd.PowerSpectralDensity(frequency_array=np.array(freqs), psd_array=e.array(values))
    return interferometer.Interferometer(name, d, low, high, **dict(HANFORD, **geo))
