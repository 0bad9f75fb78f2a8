"""Builders for the analytical priors with symbolic hyper-parameters."""
import math
from fractions import Fraction as F

import numpy as np

from bilby.core import prior as bp
from bilby.gw import prior as gwp  # noqa: F401

PI2 = math.pi / 2


def inc(e, a, b):
    e.assume(a < b)
    return a, b


def interval(e, lo=-5, hi=5):
    return inc(e, e.real("a", lo, hi), e.real("b", lo, hi))


def pos_interval(e, lo=0, hi=8):
    return inc(e, e.real("a", lo, hi, slo=True), e.real("b", lo, hi, slo=True))


ALPHAS = [-4, -3, -2.5, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3]
ALPHAS_T = ALPHAS + [-7 / 2, -1 / 4, 4, 5]


def powerlaw(al):
    def mk(e):
        a, b = pos_interval(e)
        return bp.PowerLaw(alpha=al, minimum=a, maximum=b), a, b
    return mk


def uniform(e):
    a, b = interval(e)
    return bp.Uniform(minimum=a, maximum=b), a, b


def loguniform(e):
    a, b = pos_interval(e)
    return bp.LogUniform(minimum=a, maximum=b), a, b


def symlog(e):
    a, b = pos_interval(e)
    return bp.SymmetricLogUniform(minimum=a, maximum=b), -b, b


def cosine(e):
    return bp.Cosine(), -PI2, PI2


def sine(e):
    return bp.Sine(), 0, math.pi


def cosine_range(e):
    a, b = inc(e, e.real("a", F(-3, 2), F(3, 2)), e.real("b", F(-3, 2), F(3, 2)))
    return bp.Cosine(minimum=a, maximum=b), a, b


def sine_range(e):
    a, b = inc(e, e.real("a", 0, 3), e.real("b", 0, 3))
    return bp.Sine(minimum=a, maximum=b), a, b


def gaussian(e):
    return bp.Gaussian(mu=e.real("mu", -5, 5), sigma=e.pos("sigma")), None, None


def truncgauss(e):
    a, b = interval(e, F(-3, 2), F(3, 2))
    return bp.TruncatedGaussian(mu=e.real("mu", -1, 1), sigma=e.real("sigma", F(1, 2), 4), minimum=a, maximum=b), a, b


def halfgauss(e):
    return bp.HalfGaussian(sigma=e.pos("sigma")), 0, None


def lognormal(e):
    return bp.LogNormal(mu=e.real("mu", -3, 3), sigma=e.pos("sigma")), 0, None


def exponential(e):
    return bp.Exponential(mu=e.pos("mu")), 0, None


def studentt(e):
    return bp.StudentT(df=e.pos("df"), mu=e.real("mu", -3, 3), scale=e.pos("scale")), None, None


def beta(e):
    return bp.Beta(alpha=e.pos("alpha"), beta=e.pos("beta")), 0, 1


def beta_range(e):
    a, b = interval(e)
    return bp.Beta(alpha=e.pos("alpha"), beta=e.pos("beta"), minimum=a, maximum=b), a, b


def logistic(e):
    return bp.Logistic(mu=e.real("mu", -3, 3), scale=e.pos("scale")), None, None


def cauchy(e):
    return bp.Cauchy(alpha=e.real("mu", -3, 3), beta=e.pos("scale")), None, None


def gamma(e):
    return bp.Gamma(k=e.pos("k"), theta=e.pos("theta")), 0, None


def chisq(e):
    return bp.ChiSquared(nu=e.choice("nu", [1, 2, 3, 4, 7])), 0, None


def fermi(e):
    return bp.FermiDirac(sigma=e.pos("sigma"), r=e.pos("r")), 0, None


def triangular(e):
    a, b = interval(e, -3, 3)
    m = e.real("mode", -3, 3)
    e.assume((a < m) & (m < b))
    return bp.Triangular(mode=m, minimum=a, maximum=b), a, b


def triangular_lo(e):
    a, b = interval(e, -3, 3)
    return bp.Triangular(mode=a, minimum=a, maximum=b), a, b


def triangular_hi(e):
    a, b = interval(e, -3, 3)
    return bp.Triangular(mode=b, minimum=a, maximum=b), a, b


TABLE = {"uniform": uniform, "loguniform": loguniform, "symlog": symlog, "cosine": cosine, "sine": sine,
         "cosine_range": cosine_range, "sine_range": sine_range, "gaussian": gaussian, "truncgauss": truncgauss,
         "halfgauss": halfgauss, "lognormal": lognormal, "exponential": exponential, "studentt": studentt, "beta": beta,
         "beta_range": beta_range, "logistic": logistic, "cauchy": cauchy, "gamma": gamma, "chisq": chisq, "fermi": fermi,
         "triangular": triangular, "triangular_lo": triangular_lo, "triangular_hi": triangular_hi}
for _al in ALPHAS:
    TABLE["powerlaw_%g" % _al] = powerlaw(_al)


def params(names=None, skip=()):
    return [(n, TABLE[n]) for n in (names or TABLE) if n not in skip]


def scalar(x):
    """a prior method may return a length-1 array for a scalar argument"""
    x = np.squeeze(x)
    return x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x
