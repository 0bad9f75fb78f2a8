"""numpy semantics on symbolic scalars and object arrays of them."""
import builtins
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import scipy.special as sps

from . import terms as tm
from .values import (Sym, SymBool, CSym, EngineError, Concretize, term, bterm, mkbool, decide,
                     is_symbolic, nonfinite, isnumber)

INF = math.inf
NAN = math.nan
HALF = Fraction(1, 2)


# ====================================================================== scalars
def _conv(x):
    """normalise a scalar operand: Sym | CSym | float(nonfinite) | other concrete"""
    if isinstance(x, SymBool):
        return Sym(term(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _conv(x.item())
    return x


def _iscomplex(x):
    return isinstance(x, (complex, np.complexfloating, CSym))


def parts(x):
    if isinstance(x, CSym):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0.0


def cmplx(re, im):
    if not is_symbolic(re) and not is_symbolic(im):
        return complex(re, im)
    return CSym(re, im)


def _z(x):
    """is exactly concrete zero"""
    if isinstance(x, Sym):
        return x.t is tm.ZERO
    return not is_symbolic(x) and x == 0


def s_add(a, b):
    a, b = _conv(a), _conv(b)
    if _iscomplex(a) or _iscomplex(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return cmplx(s_add(ar, br), s_add(ai, bi))
    if not is_symbolic(a) and not is_symbolic(b):
        return a + b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return b
    return Sym(tm.add(term(a), term(b)))


def s_neg(a):
    a = _conv(a)
    return -a


def s_sub(a, b):
    a, b = _conv(a), _conv(b)
    if _iscomplex(a) or _iscomplex(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return cmplx(s_sub(ar, br), s_sub(ai, bi))
    if not is_symbolic(a) and not is_symbolic(b):
        return a - b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return -b
    return Sym(tm.sub(term(a), term(b)))


def _sgn3(t):
    """fork on the sign of term t: returns 1, 0, -1"""
    if decide(tm.lt(tm.ZERO, t)):
        return 1
    if decide(tm.eq(t, tm.ZERO)):
        return 0
    return -1


def _mul_nonfinite(x, s):
    """x non-finite float, s finite Sym"""
    if math.isnan(x):
        return NAN
    k = _sgn3(s.t)
    return NAN if k == 0 else k * x


def s_mul(a, b):
    a, b = _conv(a), _conv(b)
    if _iscomplex(a) or _iscomplex(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        if _z(ai):
            return cmplx(s_mul(ar, br), s_mul(ar, bi))
        if _z(bi):
            return cmplx(s_mul(ar, br), s_mul(ai, br))
        if _z(ar) and not nonfinite(br) and not nonfinite(bi):
            return cmplx(s_neg(s_mul(ai, bi)), s_mul(ai, br))
        if _z(br) and not nonfinite(ar) and not nonfinite(ai):
            return cmplx(s_neg(s_mul(ai, bi)), s_mul(ar, bi))
        return cmplx(s_sub(s_mul(ar, br), s_mul(ai, bi)), s_add(s_mul(ar, bi), s_mul(ai, br)))
    if not is_symbolic(a) and not is_symbolic(b):
        return a * b
    if nonfinite(a):
        return _mul_nonfinite(a, b)
    if nonfinite(b):
        return _mul_nonfinite(b, a)
    return Sym(tm.mul(term(a), term(b)))


def s_div(a, b):
    a, b = _conv(a), _conv(b)
    if _iscomplex(a) or _iscomplex(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        if _z(bi):
            return cmplx(s_div(ar, br), s_div(ai, br))
        d = s_add(s_mul(br, br), s_mul(bi, bi))
        n = s_mul(cmplx(ar, ai), cmplx(br, s_neg(bi)))
        nr, ni = parts(n)
        return cmplx(s_div(nr, d), s_div(ni, d))
    if not is_symbolic(a) and not is_symbolic(b):
        with np.errstate(all="ignore"):
            return np.true_divide(a, b)
    if nonfinite(b):
        if math.isnan(b) or nonfinite(a):
            return NAN
        return 0.0
    tb = term(b)
    if nonfinite(a):
        if math.isnan(a):
            return NAN
        k = _sgn3(tb)
        return a if k == 0 else k * a
    ta = term(a)
    if tb.op == "c":
        if tb.args[0] == 0:
            k = _sgn3(ta)
            return NAN if k == 0 else k * INF
        return Sym(tm.scale(ta, 1 / tb.args[0]))
    if decide(tm.eq(tb, tm.ZERO)):
        k = _sgn3(ta)
        return NAN if k == 0 else k * INF
    return Sym(tm.mul(ta, tm.power(tb, -1)))


def s_pow(a, b):
    a, b = _conv(a), _conv(b)
    if _iscomplex(a) or _iscomplex(b):
        if not _iscomplex(b) and not is_symbolic(b) and float(b).is_integer() and abs(b) <= 12:
            n = int(b)
            r = 1.0
            for _ in range(abs(n)):
                r = s_mul(r, a)
            return r if n >= 0 else s_div(1.0, r)
        if not is_symbolic(b) and float(b) == 0.5:
            return s_sqrt(a)
        raise EngineError("complex power")
    if not is_symbolic(a) and not is_symbolic(b):
        with np.errstate(all="ignore"):
            return np.power(float(a), float(b)) if not isinstance(a, int) or not isinstance(b, int) or b < 0 else a ** b
    if nonfinite(b):
        if math.isnan(b):
            return NAN
        s = s_abs(a)
        if decide(bterm(s_eq(s, 1.0))):
            return 1.0
        big = decide(bterm(s_gt(s, 1.0)))
        return INF if big == (b > 0) else 0.0
    if nonfinite(a):
        if not is_symbolic(b):
            return float(a) ** float(b)
        k = _sgn3(term(b))
        if k == 0:
            return 1.0
        if a == INF:
            return INF if k > 0 else 0.0
        raise EngineError("(-inf)**sym")
    ta, tb = term(a), term(b)
    if tb.op == "c":
        e = tb.args[0]
        if e.denominator == 1:
            if e == 0:
                return 1.0
            if e > 0:
                return Sym(tm.power(ta, e))
            if decide(tm.eq(ta, tm.ZERO)):
                return INF
            return Sym(tm.power(ta, e))
        if e.denominator > 24:
            k = _sgn3(ta)
            return Sym(tm.gpow(ta, tb)) if k > 0 else (NAN if k < 0 else (0.0 if e > 0 else INF))
        if e > 0:
            if decide(tm.lt(ta, tm.ZERO)):
                return NAN
            return Sym(tm.power(ta, e))
        k = _sgn3(ta)
        return Sym(tm.power(ta, e)) if k > 0 else (INF if k == 0 else NAN)
    # symbolic exponent
    k = _sgn3(ta)
    if k > 0:
        return Sym(tm.gpow(ta, tb))
    if k == 0:
        kb = _sgn3(tb)
        return 0.0 if kb > 0 else (1.0 if kb == 0 else INF)
    if tm.is_int(tb):
        if decide(tm.eq(tm.floor(tm.scale(tb, HALF)), tm.scale(tb, HALF))):
            return Sym(tm.gpow(tm.neg(ta), tb))
        return Sym(tm.neg(tm.gpow(tm.neg(ta), tb)))
    return NAN


def _unary(name, domain=None, out=None, inf=None, np_f=None):
    def f(a):
        a = _conv(a)
        if not is_symbolic(a):
            if np_f is None:
                with np.errstate(all="ignore"):
                    r = getattr(np, name)(a)
            else:
                with np.errstate(all="ignore"):
                    r = np_f(a)
            return r.item() if isinstance(r, np.generic) and not isinstance(r, np.floating) else r
        if isinstance(a, CSym):
            raise EngineError("complex " + name)
        return out(a.t)
    f.__name__ = "s_" + name
    return f


def s_exp(a):
    a = _conv(a)
    if _iscomplex(a):
        re, im = parts(a)
        m = s_exp(re)
        return cmplx(s_mul(m, s_cos(im)), s_mul(m, s_sin(im)))
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.exp(a))
    return Sym(tm.exp(a.t))


def s_log(a):
    a = _conv(a)
    if _iscomplex(a):
        raise EngineError("complex log")
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.log(a))
    t = a.t
    if t.op == "i":     # numpy evaluates log of each element; keep branches separate
        pass
    k = _sgn3(t)
    return Sym(tm.log(t)) if k > 0 else (-INF if k == 0 else NAN)


def s_sqrt(a):
    a = _conv(a)
    if _iscomplex(a):
        re, im = parts(a)
        if _z(im):
            if not is_symbolic(re):
                return complex(np.sqrt(complex(re)))
            if decide(tm.le(tm.ZERO, re.t)):
                return cmplx(s_sqrt(re), 0.0)
            return cmplx(0.0, s_sqrt(-re))
        raise EngineError("complex sqrt")
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.sqrt(a))
    if decide(tm.lt(a.t, tm.ZERO)):
        return NAN
    return Sym(tm.power(a.t, HALF))


def s_cbrt(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.cbrt(a))
    if decide(tm.le(tm.ZERO, a.t)):
        return Sym(tm.power(a.t, Fraction(1, 3)))
    return Sym(tm.neg(tm.power(tm.neg(a.t), Fraction(1, 3))))


def s_abs(a):
    a = _conv(a)
    if _iscomplex(a):
        re, im = parts(a)
        if _z(im):
            return s_abs(re)
        if _z(re):
            return s_abs(im)
        return s_sqrt(s_add(s_mul(re, re), s_mul(im, im)))
    if not is_symbolic(a):
        return abs(a)
    return Sym(tm.absolute(a.t))


def s_square(a):
    return s_mul(a, a)


s_sin = _unary("sin", out=lambda t: Sym(tm.sin(t)))
s_cos = _unary("cos", out=lambda t: Sym(tm.cos(t)))
s_arctan = _unary("arctan", out=lambda t: Sym(tm.arctan(t)))


def s_tan(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.tan(a))
    return s_div(s_sin(a), s_cos(a))


def _arc(name, build):
    def f(a):
        a = _conv(a)
        if not is_symbolic(a):
            with np.errstate(all="ignore"):
                return float(getattr(np, name)(a))
        if decide(tm.lt(a.t, tm.const(-1))) or decide(tm.lt(tm.ONE, a.t)):
            return NAN
        t = a.t
        # arccos(cos x) and arcsin(sin x)
        if t.op == "f" and t.args[0] == name[3:]:
            x = t.args[1]
            if name == "arccos" and decide(tm.band(tm.le(tm.ZERO, x), tm.le(x, tm.PI))):
                return Sym(x)
            if name == "arcsin" and decide(tm.band(tm.le(tm.scale(tm.PI, -HALF), x), tm.le(x, tm.scale(tm.PI, HALF)))):
                return Sym(x)
        return Sym(build(t))
    return f


s_arccos = _arc("arccos", tm.arccos)
s_arcsin = _arc("arcsin", tm.arcsin)


def s_arctan2(y, x):
    y, x = _conv(y), _conv(x)
    if not is_symbolic(y) and not is_symbolic(x):
        return float(np.arctan2(y, x))
    ty, tx = term(y), term(x)
    if ty is tm.ZERO or (ty.op == "c" and ty.args[0] == 0):
        return 0.0 if decide(tm.le(tm.ZERO, tx)) else math.pi
    return Sym(tm.fn("arctan2", ty, tx))


def s_sinh(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.sinh(a))
    return (s_exp(a) - s_exp(-a)) / 2


def s_cosh(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.cosh(a))
    return (s_exp(a) + s_exp(-a)) / 2


def s_tanh(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.tanh(a))
    return (s_exp(a) - s_exp(-a)) / (s_exp(a) + s_exp(-a))


def s_log10(a):
    a = _conv(a)
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.log10(a))
    r = s_log(a)
    if isinstance(r, Sym):
        # log10(10**z) = z
        l2, l5 = tm.log(tm.const(2)), tm.log(tm.const(5))
        q = tm.substitute(r.t, {l2: tm.ONE, l5: tm.ZERO})
        if q is not r.t and tm.expand(tm.sub(r.t, tm.mul(q, tm.add(l2, l5)))) is tm.ZERO:
            return Sym(q)
    return s_div(r, Sym(tm.log(tm.const(10))))


def s_log2(a):
    a = _conv(a)
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.log2(a))
    return s_div(s_log(a), Sym(tm.log(tm.const(2))))


def s_log1p(a):
    a = _conv(a)
    if not is_symbolic(a):
        with np.errstate(all="ignore"):
            return float(np.log1p(a))
    return s_log(1 + a)


def s_expm1(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.expm1(a))
    return s_exp(a) - 1


def s_sign(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.sign(a))
    s = tm.sign(a.t, False)
    if s in ("+", "-", "0"):
        return {"+": 1.0, "-": -1.0, "0": 0.0}[s]
    return Sym(tm.ite(tm.lt(tm.ZERO, a.t), tm.ONE, tm.ite(tm.lt(a.t, tm.ZERO), tm.const(-1), tm.ZERO)))


def s_floor(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.floor(a))
    return Sym(tm.floor(a.t))


def s_ceil(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.ceil(a))
    return Sym(tm.neg(tm.floor(tm.neg(a.t))))


def s_rint(a):
    """round half to even; halfway points forked"""
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.rint(a))
    f = tm.floor(tm.add(a.t, tm.const(HALF)))
    if decide(tm.eq(f, tm.add(a.t, tm.const(HALF)))):
        # exactly halfway: f = a + 1/2, even of {f-1, f}
        if decide(tm.eq(tm.scale(tm.floor(tm.scale(f, HALF)), 2), f)):
            return Sym(f)
        return Sym(tm.sub(f, tm.ONE))
    return Sym(f)


def s_trunc(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(np.trunc(a))
    return Sym(tm.ite(tm.le(tm.ZERO, a.t), tm.floor(a.t), tm.neg(tm.floor(tm.neg(a.t)))))


def s_mod(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        with np.errstate(all="ignore"):
            return np.mod(a, b)
    if nonfinite(a) or nonfinite(b):
        raise EngineError("mod with non-finite")
    ta, tb = term(a), term(b)
    if decide(tm.eq(tb, tm.ZERO)):
        return NAN
    q = tm.floor(tm.div(ta, tb))
    return Sym(tm.sub(ta, tm.mul(tb, q)))


def s_floordiv(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        return a // b
    ta, tb = term(a), term(b)
    if decide(tm.eq(tb, tm.ZERO)):
        return NAN
    return Sym(tm.floor(tm.div(ta, tb)))


def s_fmod(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        return np.fmod(a, b)
    return s_sub(a, s_mul(b, s_trunc(s_div(a, b))))


# ------------------------------------------------------------------ comparisons
def _cmp(name, f, nf):
    def g(a, b):
        a, b = _conv(a), _conv(b)
        if not is_symbolic(a) and not is_symbolic(b):
            return nf(a, b)
        if isinstance(a, CSym) or isinstance(b, CSym) or _iscomplex(a) or _iscomplex(b):
            (ar, ai), (br, bi) = parts(a), parts(b)
            if name == "eq":
                return mkbool(tm.band(bterm(s_eq(ar, br)), bterm(s_eq(ai, bi))))
            if name == "ne":
                return mkbool(tm.bnot(tm.band(bterm(s_eq(ar, br)), bterm(s_eq(ai, bi)))))
            raise EngineError("complex comparison")
        if nonfinite(a):
            return np.bool_(nf(a, 0.0))
        if nonfinite(b):
            return np.bool_(nf(0.0, b))
        if not isnumber(a) and not isinstance(a, Sym) or not isnumber(b) and not isinstance(b, Sym):
            if name in ("eq", "ne"):
                return np.bool_(name == "ne")
            raise TypeError("comparison of symbolic value with %r" % (type(b),))
        return mkbool(f(term(a), term(b)))
    g.__name__ = "s_" + name
    return g


import operator as _op  # noqa: E402

s_lt = _cmp("lt", tm.lt, _op.lt)
s_le = _cmp("le", tm.le, _op.le)
s_gt = _cmp("gt", lambda a, b: tm.lt(b, a), _op.gt)
s_ge = _cmp("ge", lambda a, b: tm.le(b, a), _op.ge)
s_eq = _cmp("eq", tm.eq, _op.eq)
s_ne = _cmp("ne", lambda a, b: tm.bnot(tm.eq(a, b)), _op.ne)


def s_where(c, a, b):
    """scalar np.where"""
    if not isinstance(c, SymBool):
        if isinstance(c, Sym):
            c = mkbool(bterm(c))
        if not isinstance(c, SymBool):
            return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(tm.ite(c.t, bterm(a), bterm(b)))
    if _iscomplex(a) or _iscomplex(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return cmplx(s_where(c, ar, br), s_where(c, ai, bi))
    if (isnumber(a) or is_symbolic(a)) and (isnumber(b) or is_symbolic(b)) and not nonfinite(a) and not nonfinite(b):
        return Sym(tm.ite(c.t, term(a), term(b)))
    return a if decide(c.t) else b


def s_max(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        return np.maximum(a, b)
    if nonfinite(a) and math.isnan(a):
        return NAN
    if nonfinite(b) and math.isnan(b):
        return NAN
    return s_where(s_ge(a, b), a, b)


def s_min(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        return np.minimum(a, b)
    if nonfinite(a) and math.isnan(a):
        return NAN
    if nonfinite(b) and math.isnan(b):
        return NAN
    return s_where(s_le(a, b), a, b)


def s_fmax(a, b):
    if nonfinite(a) and math.isnan(a):
        return b
    if nonfinite(b) and math.isnan(b):
        return a
    return s_max(a, b)


def s_fmin(a, b):
    if nonfinite(a) and math.isnan(a):
        return b
    if nonfinite(b) and math.isnan(b):
        return a
    return s_min(a, b)


def s_land(a, b):
    if not is_symbolic(a) and not is_symbolic(b):
        return np.logical_and(a, b)
    return mkbool(tm.band(bterm(a), bterm(b)))


def s_lor(a, b):
    if not is_symbolic(a) and not is_symbolic(b):
        return np.logical_or(a, b)
    return mkbool(tm.bor(bterm(a), bterm(b)))


def s_lnot(a):
    if not is_symbolic(a):
        return np.logical_not(a)
    return mkbool(tm.bnot(bterm(a)))


def s_isfinite(a):
    if isinstance(a, CSym):
        return np.bool_(bool(s_isfinite(a.re)) and bool(s_isfinite(a.im)))
    return np.True_ if is_symbolic(a) else np.bool_(np.isfinite(a))


def s_isnan(a):
    if isinstance(a, CSym):
        return np.bool_(bool(s_isnan(a.re)) or bool(s_isnan(a.im)))
    return np.False_ if is_symbolic(a) else np.bool_(np.isnan(a))


def s_isinf(a):
    if isinstance(a, CSym):
        return np.bool_(bool(s_isinf(a.re)) or bool(s_isinf(a.im)))
    return np.False_ if is_symbolic(a) else np.bool_(np.isinf(a))


def s_conj(a):
    if isinstance(a, CSym):
        return a.conjugate()
    if is_symbolic(a):
        return a
    return np.conjugate(a).item() if isinstance(a, np.generic) else np.conj(a)


def s_real(a):
    return parts(a)[0]


def s_imag(a):
    return parts(a)[1]


def s_angle(a):
    re, im = parts(a)
    return s_arctan2(im, re)


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_heaviside(a, h):
    k = _sgn3(term(a)) if is_symbolic(a) else (a > 0) - (a < 0)
    return 1.0 if k > 0 else (h if k == 0 else 0.0)


def s_logaddexp(a, b):
    a, b = _conv(a), _conv(b)
    if not is_symbolic(a) and not is_symbolic(b):
        return float(np.logaddexp(a, b))
    if nonfinite(a):
        return b if a == -INF else a
    if nonfinite(b):
        return a if b == -INF else b
    return s_log(s_add(s_exp(a), s_exp(b)))


def s_positive(a):
    return a


# ------------------------------------------------------------------ scipy.special
def s_xlogy(x, y):
    x, y = _conv(x), _conv(y)
    if not is_symbolic(x) and not is_symbolic(y):
        return float(sps.xlogy(x, y))
    if is_symbolic(x):
        if nonfinite(y) and math.isnan(y):
            return NAN
        if decide(tm.eq(x.t, tm.ZERO)):
            return 0.0
    elif x == 0:
        return 0.0
    return s_mul(x, s_log(y))


def s_xlog1py(x, y):
    return s_xlogy(x, s_add(1, y))


def s_erf(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(sps.erf(a))
    return Sym(tm.erf(a.t))


def s_erfc(a):
    return s_sub(1, s_erf(a))


def s_erfinv(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(sps.erfinv(a))
    if decide(tm.le(tm.ONE, a.t)):
        return INF if decide(tm.eq(a.t, tm.ONE)) else NAN
    if decide(tm.le(a.t, tm.const(-1))):
        return -INF if decide(tm.eq(a.t, tm.const(-1))) else NAN
    return Sym(tm.erfinv(a.t))


def s_ndtr(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(sps.ndtr(a))
    return s_mul(0.5, s_add(1, s_erf(s_div(a, Sym(tm.power(tm.const(2), HALF))))))


def s_gammaln(a):
    a = _conv(a)
    if not is_symbolic(a):
        q = Fraction(a)
        if q.denominator == 2 and 0 < q < 50:
            return Sym(tm.gammaln(tm.const(q)))
        return float(sps.gammaln(a))
    if decide(tm.le(a.t, tm.ZERO)):
        raise EngineError("gammaln of non-positive")
    return Sym(tm.gammaln(a.t))


def s_gamma(a):
    return s_exp(s_gammaln(a))


def s_betaln(a, b):
    return s_sub(s_add(s_gammaln(a), s_gammaln(b)), s_gammaln(s_add(a, b)))


def s_beta(a, b):
    return s_exp(s_betaln(a, b))


def s_gammainc(a, z):
    a, z = _conv(a), _conv(z)
    if not is_symbolic(a) and not is_symbolic(z):
        return float(sps.gammainc(a, z))
    if nonfinite(z):
        return 1.0 if z == INF else NAN
    tz, ta = term(z), term(a)
    k = _sgn3(tz)
    if k <= 0:
        return 0.0 if k == 0 else NAN
    if tz.op == "f" and tz.args[0] == "gammaincinv" and tz.args[1] is ta:
        return Sym(tz.args[2])
    return Sym(tm.fn("gammainc", ta, tm.expand(tz)))


def s_gammaincinv(a, y):
    a, y = _conv(a), _conv(y)
    if not is_symbolic(a) and not is_symbolic(y):
        return float(sps.gammaincinv(a, y))
    ta, ty = term(a), term(y)
    if decide(tm.le(ty, tm.ZERO)):
        return 0.0 if decide(tm.eq(ty, tm.ZERO)) else NAN
    if decide(tm.le(tm.ONE, ty)):
        return INF if decide(tm.eq(ty, tm.ONE)) else NAN
    return Sym(tm.fn("gammaincinv", ta, ty))


def s_btdtr(a, b, x):
    a, b, x = _conv(a), _conv(b), _conv(x)
    if not any(is_symbolic(v) for v in (a, b, x)):
        return float(sps.betainc(a, b, x))
    if nonfinite(x):
        return NAN
    ta, tb, tx = term(a), term(b), term(x)
    if decide(tm.le(tx, tm.ZERO)):
        return 0.0 if decide(tm.eq(tx, tm.ZERO)) else NAN
    if decide(tm.le(tm.ONE, tx)):
        return 1.0 if decide(tm.eq(tx, tm.ONE)) else NAN
    e = tm.expand(tx)
    if e.op == "f" and e.args[0] == "btdtri" and e.args[1] is ta and e.args[2] is tb:
        return Sym(e.args[3])
    return Sym(tm.fn("btdtr", ta, tb, e))


def s_btdtri(a, b, y):
    a, b, y = _conv(a), _conv(b), _conv(y)
    if not any(is_symbolic(v) for v in (a, b, y)):
        return float(sps.betaincinv(a, b, y))
    ta, tb, ty = term(a), term(b), term(y)
    if decide(tm.le(ty, tm.ZERO)):
        return 0.0 if decide(tm.eq(ty, tm.ZERO)) else NAN
    if decide(tm.le(tm.ONE, ty)):
        return 1.0 if decide(tm.eq(ty, tm.ONE)) else NAN
    return Sym(tm.fn("btdtri", ta, tb, ty))


def s_stdtr(nu, t):
    nu, t = _conv(nu), _conv(t)
    if not is_symbolic(nu) and not is_symbolic(t):
        return float(sps.stdtr(nu, t))
    if nonfinite(t):
        return 1.0 if t == INF else (0.0 if t == -INF else NAN)
    tn, tt = term(nu), tm.expand(term(t))
    if tt is tm.ZERO:
        return 0.5
    if tt.op == "f" and tt.args[0] == "stdtrit" and tt.args[1] is tn:
        return Sym(tt.args[2])
    return Sym(tm.fn("stdtr", tn, tt))


def s_stdtrit(nu, p):
    nu, p = _conv(nu), _conv(p)
    if not is_symbolic(nu) and not is_symbolic(p):
        return float(sps.stdtrit(nu, p))
    tn, tp = term(nu), term(p)
    # scipy clips p=0, 1 to the ends of the line
    if decide(tm.le(tp, tm.ZERO)):
        return -INF if decide(tm.eq(tp, tm.ZERO)) else NAN
    if decide(tm.le(tm.ONE, tp)):
        return INF if decide(tm.eq(tp, tm.ONE)) else NAN
    return Sym(tm.fn("stdtrit", tn, tp))


def s_i0e(a):
    a = _conv(a)
    if not is_symbolic(a):
        return float(sps.i0e(a))
    return Sym(tm.fn("i0e", a.t))


def s_hyp2f1(a, b, c, z):
    a, b, c, z = _conv(a), _conv(b), _conv(c), _conv(z)
    if not any(is_symbolic(v) for v in (a, b, c, z)):
        return float(sps.hyp2f1(a, b, c, z))
    return Sym(tm.fn("hyp2f1", term(a), term(b), term(c), tm.expand(term(z))))


def s_exp2(a):
    return s_pow(2.0, a)


def s_ldiv(a, b):
    raise EngineError("ldiv")


SCALAR = dict(
    add=s_add, subtract=s_sub, multiply=s_mul, true_divide=s_div, divide=s_div, power=s_pow, float_power=s_pow,
    negative=s_neg, positive=s_positive, absolute=s_abs, fabs=s_abs, sqrt=s_sqrt, square=s_square, cbrt=s_cbrt,
    exp=s_exp, expm1=s_expm1, exp2=s_exp2, log=s_log, log1p=s_log1p, log2=s_log2, log10=s_log10,
    sin=s_sin, cos=s_cos, tan=s_tan, arcsin=s_arcsin, arccos=s_arccos, arctan=s_arctan, arctan2=s_arctan2,
    sinh=s_sinh, cosh=s_cosh, tanh=s_tanh, maximum=s_max, minimum=s_min, fmax=s_fmax, fmin=s_fmin,
    less=s_lt, less_equal=s_le, greater=s_gt, greater_equal=s_ge, equal=s_eq, not_equal=s_ne,
    logical_and=s_land, logical_or=s_lor, logical_not=s_lnot, bitwise_and=s_land, bitwise_or=s_lor,
    invert=s_lnot, isfinite=s_isfinite, isnan=s_isnan, isinf=s_isinf, sign=s_sign, floor=s_floor, ceil=s_ceil,
    rint=s_rint, trunc=s_trunc, remainder=s_mod, mod=s_mod, fmod=s_fmod, floor_divide=s_floordiv,
    conjugate=s_conj, conj=s_conj, hypot=s_hypot, heaviside=s_heaviside, logaddexp=s_logaddexp,
    reciprocal=lambda a: s_div(1.0, a), deg2rad=lambda a: s_mul(a, math.pi / 180), radians=lambda a: s_mul(a, math.pi / 180),
    rad2deg=lambda a: s_mul(a, 180 / math.pi),
    xlogy=s_xlogy, xlog1py=s_xlog1py, erf=s_erf, erfc=s_erfc, erfinv=s_erfinv, ndtr=s_ndtr, gammaln=s_gammaln, loggamma=s_gammaln,
    gamma=s_gamma, betaln=s_betaln, beta=s_beta, gammainc=s_gammainc, gammaincinv=s_gammaincinv,
    betainc=s_btdtr, btdtr=s_btdtr, betaincinv=s_btdtri, btdtri=s_btdtri, stdtr=s_stdtr, stdtrit=s_stdtrit, i0e=s_i0e,
    hyp2f1=s_hyp2f1,
)
SCALAR["bitwise_xor"] = SCALAR["logical_xor"] = lambda a, b: SymBool(bterm(a)) ^ b if is_symbolic(a) else mkbool(bterm(b)) ^ a
_lambda_names = {k: v for k, v in SCALAR.items()}
PYOP = dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide, pow=np.power, mod=np.remainder,
            floordiv=np.floor_divide, lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal,
            eq=np.equal, ne=np.not_equal)
SCALAR["divide"] = s_div


# ====================================================================== arrays
_OBJECT = np.dtype(object)
_NUMERIC = np.dtype(object, metadata={"symx": True})


class SArr(np.ndarray):
    """object ndarray with symbolic-aware numpy semantics"""
    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __array_finalize__(self, obj):
        pass

    @property
    def dtype(self):
        # object, marked so that the stand-in for numpy.issubdtype can tell numbers from other objects
        return _NUMERIC if self.size and all(isinstance(v, (Sym, CSym, int, float, complex)) for v in self.flat) else _OBJECT

    @property
    def real(self):
        return emap(s_real, self)

    @real.setter
    def real(self, v):
        self[...] = emap(lambda z, r: cmplx(r, parts(z)[1]), self, v)

    @property
    def imag(self):
        return emap(s_imag, self)

    def conj(self):
        return emap(s_conj, self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype) == np.dtype(bool):
            return emap(lambda v: mkbool(bterm(v)), self)
        if np.issubdtype(np.dtype(dtype), np.integer):
            return np.array([int(v) for v in self.flat], dtype=np.dtype(dtype)).reshape(self.shape)
        return self.copy()

    def __getitem__(self, key):
        key = _index(key, self)
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, val):
        if isinstance(key, np.ndarray) and key.dtype == object and any(isinstance(v, SymBool) for v in key.flat) \
                and key.shape == self.shape:
            # masked assignment without forking when values broadcast elementwise
            v = unwrap(val)
            if not isinstance(v, np.ndarray) or v.ndim == 0:
                vv = v.item() if isinstance(v, np.ndarray) else v
                flat = [s_where(c, vv, o) for c, o in zip(key.flat, self.flat)]
                np.ndarray.__setitem__(self, Ellipsis, _mkobj(flat, self.shape))
                return
        key = _index(key, self)
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val.item()
        if isinstance(val, (Sym, SymBool, CSym)):
            tmp = np.empty((), dtype=object)
            tmp[()] = val
            ks = key if isinstance(key, tuple) else (key,)
            if len(ks) == self.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, bool) for i in ks):
                for i, n in zip(ks, self.shape):
                    if not -n <= i < n:
                        raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
                # a full integer index would store the 0-d array itself
                key = tuple(slice(i % n, i % n + 1) for i, n in zip(ks, self.shape))
            np.ndarray.__setitem__(self, key, tmp)
            return
        np.ndarray.__setitem__(self, key, val)

    def _method(name):
        def f(self, *a, **k):
            return array_function(getattr(np, name), (self,) + a, k)
        return f

    for _n in ("sum", "prod", "mean", "std", "var", "cumsum", "cumprod", "max", "min", "argmax", "argmin", "any", "all",
               "dot", "argsort", "clip", "ravel", "trace", "round"):
        locals()[_n] = _method(_n)
    del _n, _method

    def sort(self, axis=-1, **k):
        self[...] = array_function(np.sort, (self,), dict(axis=axis))

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __contains__(self, x):
        return bool(array_function(np.any, (self == x,), {}))

    def __float__(self):
        return float(self.item())

    def tolist(self):
        return np.ndarray.tolist(self)

    def __repr__(self):
        return "array(%s)" % (np.ndarray.tolist(self),)

    __str__ = __repr__

    def __array_wrap__(self, a, context=None, *r):
        return sarr(a)

    def __reduce__(self):
        return (sarr_rebuild, (self.shape, [v for v in self.flat]))

    def __deepcopy__(self, memo):
        import copy as _c
        return _mkobj([_c.deepcopy(v, memo) for v in self.flat], self.shape)


def sarr_rebuild(shape, flat):
    return _mkobj(flat, shape)


def _index(key, arr):
    """turn symbolic / object index arrays into concrete ones (forking)"""
    def conv(k):
        if isinstance(k, (SymBool,)):
            return np.bool_(bool(k))
        if isinstance(k, Sym):
            return int(k.__index__())
        if isinstance(k, np.ndarray) and k.dtype == object:
            vals = [v for v in k.flat]
            if any(isinstance(v, SymBool) for v in vals) or all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
                return np.array([bool(v) for v in vals], dtype=bool).reshape(k.shape)
            return np.array([int(v.__index__() if isinstance(v, Sym) else v) for v in vals], dtype=int).reshape(k.shape)
        if isinstance(k, list) and any(is_symbolic(v) for v in k):
            return conv(sarr(k))
        if isinstance(k, slice) and any(isinstance(v, Sym) for v in (k.start, k.stop, k.step)):
            return slice(*[int(v.__index__()) if isinstance(v, Sym) else v for v in (k.start, k.stop, k.step)])
        return k
    if isinstance(key, tuple):
        return tuple(conv(k) for k in key)
    return conv(key)


def _mkobj(flat, shape):
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = v
    return out.reshape(shape).view(SArr)


def sarr(x, copy=True):
    """nested sequence / ndarray -> SArr (object)"""
    if isinstance(x, SArr):
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            x = x.copy() if copy else x
            r = x.view(SArr)
            return r
        flat = [v.item() if isinstance(v, np.generic) else v for v in x.reshape(-1)]
        return _mkobj(flat, x.shape)
    if hasattr(x, "to_numpy"):
        return sarr(x.to_numpy())
    if isinstance(x, (list, tuple)):
        return _from_nested(x)
    out = np.empty((), dtype=object)
    out[()] = x
    return out.view(SArr)


def _shape(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [_shape(v) for v in x]
        if any(v != s[0] for v in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s[0]
    if isinstance(x, np.ndarray):
        return x.shape
    return ()


def _flat(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from _flat(v)
    elif isinstance(x, np.ndarray):
        for v in x.reshape(-1):
            yield v.item() if isinstance(v, np.generic) else v
    else:
        yield x.item() if isinstance(x, np.generic) else x


def _from_nested(x):
    if hasattr(x, "keys"):
        raise EngineError("mapping in array")
    x = [v.to_numpy() if hasattr(v, "to_numpy") else v for v in x]
    return _mkobj(list(_flat(x)), _shape(x))


def unwrap(x):
    """any array-like -> SArr or scalar"""
    if isinstance(x, (list, tuple)):
        return sarr(x)
    if isinstance(x, np.ndarray):
        return x if isinstance(x, SArr) else sarr(x, copy=False)
    if hasattr(x, "to_numpy"):
        return sarr(x.to_numpy())
    return x


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, CSym)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def ret(a):
    """0-d arrays become scalars"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def emap(f, *args, out=None):
    arrs = [unwrap(a) for a in args]
    shapes = [a.shape if isinstance(a, np.ndarray) else () for a in arrs]
    if all(s == () for s in shapes):
        return f(*[a.item() if isinstance(a, np.ndarray) else a for a in arrs])
    shape = np.broadcast_shapes(*shapes)
    cols = []
    for a, s in zip(arrs, shapes):
        if s == ():
            v = a.item() if isinstance(a, np.ndarray) else a
            cols.append(itertools.repeat(v))
        else:
            cols.append(np.broadcast_to(np.asarray(a.view(np.ndarray)), shape).reshape(-1))
    n = int(np.prod(shape))
    flat = [f(*v) for v in zip(range(n), *cols) for v in [v[1:]]]
    return _mkobj(flat, shape)


def freduce(f, arr, axis=None, init=None, keepdims=False):
    arr = unwrap(arr)
    if not isinstance(arr, np.ndarray):
        return arr
    if axis is None:
        vals = list(arr.flat)
        if not vals:
            return init
        r = functools.reduce(f, vals) if init is None else functools.reduce(f, vals)
        if keepdims:
            return _mkobj([r], (1,) * arr.ndim)
        return r
    if isinstance(axis, (tuple, list)):
        r = arr
        for ax in sorted([a % arr.ndim for a in axis], reverse=True):
            r = freduce(f, r, ax, init, keepdims)
        return r
    ax = axis % arr.ndim
    m = np.moveaxis(arr.view(np.ndarray), ax, -1)
    shp = m.shape[:-1]
    if m.shape[-1] == 0:
        out = [init] * int(np.prod(shp))
    else:
        m2 = m.reshape(-1, m.shape[-1])
        out = [functools.reduce(f, list(row)) for row in m2]
    if shp == ():
        r = out[0]
        return _mkobj([r], (1,)) if keepdims else r
    r = _mkobj(out, shp)
    return np.ndarray.view(np.expand_dims(r.view(np.ndarray), ax), SArr) if keepdims else r


REDINIT = dict(add=0.0, multiply=1.0, logical_and=True, logical_or=False)


_COMPARISONS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.get("out")
    if method == "__call__":
        if name == "matmul":
            return matmul(*inputs)
        f = SCALAR.get(name)
        if f is None:
            if not any(has_deep_sym(i) for i in inputs):
                return sarr(ufunc(*[tonative(i) for i in inputs]))
            raise EngineError("no symbolic model for ufunc " + name)
        where = kwargs.get("where", True)
        if where is not True:
            r0 = out[0] if out else None
            r = emap(lambda *v: v, *inputs)
            w = np.broadcast_to(np.asarray(unwrap(where), dtype=object), np.shape(r))
            base = unwrap(r0)
            res = []
            for idx in np.ndindex(*np.shape(r)):
                c = w[idx]
                if bool(c):
                    res.append(f(*r[idx]))
                else:
                    res.append(base[idx] if base is not None else 0.0)
            r = _mkobj(res, np.shape(r))
        else:
            if name in ("add", "multiply") and len(inputs) == 2 and all(_boolarr(x) for x in inputs):
                # numpy: the sum and the product of truth values are truth values
                f = SCALAR["logical_or" if name == "add" else "logical_and"]
            r = emap(f, *inputs)
            if name in _COMPARISONS and isinstance(r, SArr) and out is None and r.size:
                # where nothing symbolic is left this is a mask other arrays can be indexed with
                k = getattr(tm.cur_ctx(), "settled", None)
                bs = [v if isinstance(v, (bool, np.bool_)) else k(v.t) if k is not None and isinstance(v, SymBool) else None for v in r.flat]
                if None not in bs:
                    r = np.array([bool(v) for v in bs], dtype=bool).reshape(r.shape)
        if out is not None:
            o = out[0]
            if not isinstance(o, SArr):
                if isinstance(o, np.ndarray) and o.dtype == object:
                    o = o.view(SArr)
                else:
                    raise EngineError("in-place update of a native float array with symbolic values")
            o[...] = r
            return out[0]
        return r
    if method == "reduce":
        f = SCALAR.get(name)
        axis = kwargs.get("axis", 0)
        r = freduce(f, inputs[0], axis, REDINIT.get(name), kwargs.get("keepdims", False))
        return r
    if method == "accumulate":
        return faccum(SCALAR[name], inputs[0], kwargs.get("axis", 0))
    if method == "outer":
        a, b = unwrap(inputs[0]), unwrap(inputs[1])
        return emap(SCALAR[name], np.reshape(a.view(np.ndarray), a.shape + (1,) * b.ndim), b)
    raise EngineError("ufunc method %s.%s" % (name, method))


def _boolarr(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.dtype == bool
    if isinstance(x, np.ndarray):
        return x.size > 0 and all(isinstance(v, (SymBool, np.bool_, bool)) for v in x.flat)
    return isinstance(x, np.bool_)


def has_deep_sym(x):
    if isinstance(x, (Sym, SymBool, CSym)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool, CSym)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_deep_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_deep_sym(v) for v in x.values())
    return False


def tonative(x):
    """SArr without symbolic content -> native numpy"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = list(x.flat)
        if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
            return np.array(vals, dtype=bool).reshape(x.shape)
        if any(isinstance(v, (complex, np.complexfloating)) for v in vals):
            return np.array(vals, dtype=complex).reshape(x.shape)
        if vals and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in vals):
            return np.array(vals, dtype=int).reshape(x.shape)
        try:
            return np.array([float(v) for v in vals]).reshape(x.shape)
        except (TypeError, ValueError):
            return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return type(x)(tonative(v) for v in x)
    return x


def faccum(f, a, axis=None):
    a = unwrap(a)
    if axis is None:
        a = sarr(np.reshape(a.view(np.ndarray), -1))
        axis = 0
    m = np.moveaxis(a.view(np.ndarray), axis, 0)
    out = np.empty(m.shape, dtype=object)
    acc = None
    for i in range(m.shape[0]):
        acc = m[i] if acc is None else emap(f, acc, m[i])
        out[i] = acc
    return np.moveaxis(out, 0, axis).view(SArr)


# ====================================================================== array functions
AF = {}


def af(*names):
    def d(f):
        for n in names:
            AF[n] = f
        return f
    return d


@af("where")
def a_where(c, x=None, y=None):
    if x is None and y is None:
        c = unwrap(c)
        if not isinstance(c, np.ndarray):
            return np.where(np.array([bool(c)]))
        m = np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
        return np.where(m)
    return emap(s_where, c, x, y)


def _redf(f, init):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
        if where is not None:
            a = emap(lambda v, w: s_where(w, v, init), a, where)
        return freduce(f, a, axis, init, keepdims if keepdims is not np._NoValue else False)
    return g


AF["sum"] = _redf(s_add, 0.0)
AF["prod"] = _redf(s_mul, 1.0)
AF["any"] = lambda a, axis=None, **k: _boolret(freduce(s_lor, emap(_tobool, a), axis, np.False_))
AF["all"] = lambda a, axis=None, **k: _boolret(freduce(s_land, emap(_tobool, a), axis, np.True_))
AF["max"] = AF["amax"] = lambda a, axis=None, **k: freduce(s_max, a, axis)
AF["min"] = AF["amin"] = lambda a, axis=None, **k: freduce(s_min, a, axis)


@af("nansum")
def a_nansum(a, axis=None, **k):
    return freduce(s_add, emap(lambda v: 0.0 if nonfinite(v) and math.isnan(v) else v, a), axis, 0.0)


@af("nanmax")
def a_nanmax(a, axis=None, **k):
    return freduce(s_fmax, a, axis)


@af("nanmin")
def a_nanmin(a, axis=None, **k):
    return freduce(s_fmin, a, axis)


def _tobool(v):
    if is_symbolic(v):
        return mkbool(bterm(v))
    return np.bool_(v)


def _boolret(r):
    if isinstance(r, bool):
        return np.bool_(r)
    return r


@af("mean", "average")
def a_mean(a, axis=None, weights=None, **k):
    a = unwrap(a)
    if weights is not None:
        w = unwrap(weights)
        return s_or_e(s_div, freduce(s_add, emap(s_mul, a, w), axis), freduce(s_add, w, axis if np.ndim(w) == np.ndim(a) else None))
    n = a.size if axis is None else a.shape[axis]
    return emap(lambda v: s_div(v, float(n)), freduce(s_add, a, axis))


def s_or_e(f, *a):
    return emap(f, *a)


@af("var")
def a_var(a, axis=None, ddof=0, **k):
    a = unwrap(a)
    n = a.size if axis is None else a.shape[axis]
    mu = a_mean(a, axis)
    if axis is not None and isinstance(mu, np.ndarray):
        mu = np.expand_dims(mu.view(np.ndarray), axis)
    d = emap(lambda x, m: s_square(s_sub(x, m)), a, mu)
    return emap(lambda v: s_div(v, float(n - ddof)), freduce(s_add, d, axis))


@af("std")
def a_std(a, axis=None, ddof=0, **k):
    return emap(s_sqrt, a_var(a, axis, ddof))


@af("cumsum")
def a_cumsum(a, axis=None, **k):
    return faccum(s_add, a, axis)


@af("cumprod")
def a_cumprod(a, axis=None, **k):
    return faccum(s_mul, a, axis)


@af("diff")
def a_diff(a, n=1, axis=-1, **k):
    a = unwrap(a)
    m = np.moveaxis(a.view(np.ndarray), axis, 0)
    r = emap(s_sub, m[1:], m[:-1])
    return np.moveaxis(r.view(np.ndarray), 0, axis).view(SArr)


def matmul(a, b):
    a, b = unwrap(a), unwrap(b)
    if a.ndim == 1 and b.ndim == 1:
        return freduce(s_add, emap(s_mul, a, b), None, 0.0)
    A = a.view(np.ndarray)
    B = b.view(np.ndarray)
    if a.ndim == 1:
        A = A[None, :]
    if b.ndim == 1:
        B = B[:, None]
    # (..., n, k) @ (..., k, m)
    P = emap(s_mul, A[..., :, :, None], B[..., None, :, :])
    R = freduce(s_add, P, P.ndim - 2, 0.0)
    R = np.asarray(R.view(np.ndarray))
    if a.ndim == 1:
        R = R[..., 0, :]
    if b.ndim == 1:
        R = R[..., 0]
    return ret(R.view(SArr) if isinstance(R, np.ndarray) else R)


AF["matmul"] = lambda a, b, **k: matmul(a, b)


@af("dot")
def a_dot(a, b, out=None):
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
        return emap(s_mul, a, b)
    if b.ndim <= 2:
        return matmul(a, b)
    raise EngineError("dot")


@af("vdot")
def a_vdot(a, b):
    a, b = unwrap(a), unwrap(b)
    return freduce(s_add, emap(lambda x, y: s_mul(s_conj(x), y), a.ravel(), b.ravel()), None, 0.0)


@af("inner")
def a_inner(a, b):
    a, b = unwrap(a), unwrap(b)
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return matmul(a, b)
    return matmul(a, np.swapaxes(b.view(np.ndarray), -1, -2))


@af("outer")
def a_outer(a, b, out=None):
    a, b = unwrap(a), unwrap(b)
    return emap(s_mul, a.view(np.ndarray).reshape(-1, 1), b.view(np.ndarray).reshape(1, -1))


@af("einsum")
def a_einsum(spec, *ops, **k):
    ops = [unwrap(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if "." in spec:
        raise EngineError("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, np.shape(o)):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = []
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = 0.0
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            p = 1.0
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)] if s else o
                p = s_mul(p, v)
            acc = s_add(acc, p)
        res.append(acc)
    if out == "":
        return res[0]
    return _mkobj(res, tuple(dims[c] for c in out))


@af("tensordot")
def a_tensordot(a, b, axes=2):
    raise EngineError("tensordot")


@af("cross")
def a_cross(a, b, **k):
    a, b = unwrap(a), unwrap(b)
    if a.shape[-1] != 3:
        raise EngineError("cross")
    if a.ndim > 1 or b.ndim > 1:
        raise EngineError("cross nd")
    return sarr([s_sub(s_mul(a[1], b[2]), s_mul(a[2], b[1])),
                 s_sub(s_mul(a[2], b[0]), s_mul(a[0], b[2])),
                 s_sub(s_mul(a[0], b[1]), s_mul(a[1], b[0]))])


@af("real")
def a_real(a):
    return emap(s_real, a)


@af("imag")
def a_imag(a):
    return emap(s_imag, a)


@af("angle")
def a_angle(a, deg=False):
    return emap(s_angle, a)


@af("iscomplexobj")
def a_iscomplexobj(a):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        return isinstance(a, (CSym, complex))
    return any(_iscomplex(v) for v in a.flat)


@af("iscomplex")
def a_iscomplex(a):
    return emap(lambda v: s_ne(parts(v)[1], 0.0), a)


@af("clip")
def a_clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = emap(s_max, r, a_min)
    if a_max is not None:
        r = emap(s_min, r, a_max)
    return r


@af("isclose")
def a_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_symbolic(x) and not is_symbolic(y):
            return np.isclose(x, y, rtol, atol, equal_nan)
        if nonfinite(x) or nonfinite(y):
            return np.bool_(x == y)
        return s_le(s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, s_abs(y))))
    return emap(f, a, b)


@af("allclose")
def a_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(AF["all"](a_isclose(a, b, rtol, atol, equal_nan)))


@af("array_equal")
def a_array_equal(a, b, equal_nan=False):
    a, b = unwrap(a), unwrap(b)
    if np.shape(a) != np.shape(b):
        return False
    return bool(AF["all"](emap(s_eq, a, b)))


@af("isin", "in1d")
def a_isin(a, b, **k):
    b = unwrap(b)
    bl = list(b.flat) if isinstance(b, np.ndarray) else [b]
    return emap(lambda x: functools.reduce(s_lor, [s_eq(x, y) for y in bl], np.False_), a)


@af("nan_to_num")
def a_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if is_symbolic(v):
            return v
        return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    return emap(f, a)


@af("argmax")
def a_argmax(a, axis=None, **k):
    return _arg(a, axis, s_gt)


@af("argmin")
def a_argmin(a, axis=None, **k):
    return _arg(a, axis, s_lt)


def _arg(a, axis, better):
    a = unwrap(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        return np.array([_arg(r.view(SArr), None, better) for r in m.reshape(-1, m.shape[-1])]).reshape(m.shape[:-1])
    vals = list(a.flat)
    bi = 0
    for i in range(1, len(vals)):
        if bool(better(vals[i], vals[bi])):
            bi = i
    return bi


def _argsort1(vals):
    """stable insertion sort by forking comparisons"""
    order = []
    for i, v in enumerate(vals):
        j = len(order)
        while j > 0 and bool(s_lt(v, vals[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return order


@af("argsort")
def a_argsort(a, axis=-1, kind=None, **k):
    a = unwrap(a)
    if a.ndim == 1:
        return np.array(_argsort1(list(a)), dtype=int)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.array([_argsort1(list(x)) for x in m.reshape(-1, m.shape[-1])], dtype=int).reshape(m.shape)
    return np.moveaxis(r, -1, axis)


@af("sort")
def a_sort(a, axis=-1, **k):
    a = unwrap(a)
    if a.ndim == 1:
        l = list(a)
        return _mkobj([l[i] for i in _argsort1(l)], a.shape)
    raise EngineError("sort nd")


@af("searchsorted")
def a_searchsorted(a, v, side="left", sorter=None):
    a = list(unwrap(a))

    def f(x):
        i = 0
        for y in a:
            if bool(s_lt(y, x) if side == "left" else s_le(y, x)):
                i += 1
            else:
                break
        return i
    r = emap(f, v)
    return tonative(r) if isinstance(r, np.ndarray) else r


@af("digitize")
def a_digitize(x, bins, right=False):
    return a_searchsorted(bins, x, side="left" if right else "right")


@af("interp")
def a_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineError("interp period")
    xp, fp = list(unwrap(xp)), list(unwrap(fp))
    return emap(lambda v: lin_interp(v, xp, fp, left, right), x)


def lin_interp(v, xp, fp, left=None, right=None):
    if bool(s_lt(v, xp[0])):
        return fp[0] if left is None else left
    if bool(s_gt(v, xp[-1])):
        return fp[-1] if right is None else right
    for i in range(1, len(xp)):
        if i == len(xp) - 1 or bool(s_le(v, xp[i])):
            sl = s_div(s_sub(fp[i], fp[i - 1]), s_sub(xp[i], xp[i - 1]))
            return s_add(fp[i - 1], s_mul(sl, s_sub(v, xp[i - 1])))


@af("trapz")
def a_trapz(y, x=None, dx=1.0, axis=-1):
    y = unwrap(y)
    m = np.moveaxis(y.view(np.ndarray), axis, -1)
    mid = emap(lambda p, q: s_div(s_add(p, q), 2.0), m[..., 1:], m[..., :-1])
    if x is not None:
        d = a_diff(unwrap(x))
    else:
        d = dx
    return freduce(s_add, emap(s_mul, mid, d), -1, 0.0)


@af("unwrap")
def a_unwrap(*a, **k):
    raise EngineError("np.unwrap")


@af("unique")
def a_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    a = unwrap(a)
    l = list(a.flat)
    order = _argsort1(l)
    out, idx, inv = [], [], [0] * len(l)
    for i in order:
        if not out or not bool(s_eq(l[i], out[-1])):
            out.append(l[i])
            idx.append(i)
        else:
            idx[-1] = builtins.min(idx[-1], i)
        inv[i] = len(out) - 1
    r = [_mkobj(out, (len(out),))]
    if return_index:
        r.append(np.array(idx))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array([inv.count(i) for i in range(len(out))]))
    return r[0] if len(r) == 1 else tuple(r)


@af("nonzero", "flatnonzero")
def a_nonzero(a):
    a = unwrap(a)
    m = np.array([bool(mkbool(bterm(v))) for v in a.flat], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


@af("count_nonzero")
def a_count_nonzero(a, axis=None, **k):
    return freduce(s_add, emap(lambda v: s_where(mkbool(bterm(v)), 1, 0), a), axis, 0)


def _quantile1(col, q):
    """linear interpolation between order statistics of a list (sorted by forking)"""
    v = [col[i] for i in _argsort1(col)]
    n = len(v)
    if n == 1:
        return v[0]
    if not is_symbolic(q):
        q = Fraction(q)
    if bool(mkbool(bterm(q < 0))) or bool(mkbool(bterm(q > 1))):
        raise ValueError("Quantiles must be in the range [0, 1]")
    pos = q * (n - 1)
    for k in range(n - 1):
        if k == n - 2 or bool(mkbool(bterm(pos < k + 1))):
            f = pos - k
            if not is_symbolic(f):
                f = float(f) if f.denominator not in (1, 2, 4, 8) else Fraction(f)
                if f == 0:
                    return v[k]
                return s_add(s_mul(v[k], float(1 - f)), s_mul(v[k + 1], float(f)))
            return s_add(v[k], s_mul(s_sub(v[k + 1], v[k]), f))


def _a_quantile(a, q, axis, scale):
    a = unwrap(a)
    if axis is None:
        cols, shape = [list(a.flat)], ()
    else:
        m = np.moveaxis(a, axis, 0)
        shape = m.shape[1:]
        m = m.reshape(m.shape[0], -1)
        cols = [list(m[:, i]) for i in range(m.shape[1])]
    qs = unwrap(q)
    qa = np.asarray(qs, dtype=object)
    out = [_quantile1(c, s_div(x, scale) if scale != 1 else x) for x in qa.flat for c in cols]
    if qa.ndim == 0 and shape == ():
        return out[0]
    return _mkobj(out, tuple(qa.shape) + shape)


@af("quantile", "nanquantile")
def a_quantile(a, q, axis=None, **k):
    return _a_quantile(a, q, axis, 1)


@af("percentile")
def a_percentile(a, q, axis=None, **k):
    return _a_quantile(a, q, axis, 100)


@af("median")
def a_median(a, axis=None, **k):
    return _a_quantile(a, 0.5, axis, 1)


@af("cov")
def a_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k:
        raise EngineError("cov with options")
    a = unwrap(m)
    one = a.ndim == 1
    if one:
        a = a.reshape(1, -1)
    if not rowvar and not one:
        a = a.T
    n = a.shape[1]
    den = n - (ddof if ddof is not None else 0 if bias else 1)
    means = [s_div(freduce(s_add, _mkobj(list(r), (n,)), None, 0.0), n) for r in a]
    d = [[s_sub(v, mu) for v in r] for r, mu in zip(a, means)]
    out = [[s_div(freduce(s_add, _mkobj([s_mul(p, q) for p, q in zip(r, t)], (n,)), None, 0.0), den) for t in d] for r in d]
    return out[0][0] if one else _mkobj([v for r in out for v in r], (a.shape[0], a.shape[0]))


@af("nanpercentile", "histogram", "histogramdd", "corrcoef")
def a_unsupported(*a, **k):
    raise EngineError("unsupported numpy function on symbolic data")


@af("piecewise")
def a_piecewise(*a, **k):
    raise EngineError("piecewise")


@af("linalg.norm", "norm")
def a_norm(a, ord=None, axis=None, **k):
    a = unwrap(a)
    return emap(s_sqrt, freduce(s_add, emap(lambda v: s_square(s_abs(v)), a), axis, 0.0))


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return s_sub(s_mul(M[0][0], M[1][1]), s_mul(M[0][1], M[1][0]))
    acc = 0.0
    for j in range(n):
        if _z(M[0][j]):
            continue
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        t = s_mul(M[0][j], _det(minor))
        acc = s_add(acc, t) if j % 2 == 0 else s_sub(acc, t)
    return acc


def _lists(a):
    return [list(r) for r in unwrap(a)]


@af("linalg.det", "det")
def a_det(a):
    return _det(_lists(a))


@af("linalg.slogdet", "slogdet")
def a_slogdet(a):
    d = _det(_lists(a))
    if bool(s_gt(d, 0.0)):
        return 1.0, s_log(d)
    if bool(s_eq(d, 0.0)):
        return 0.0, -INF
    return -1.0, s_log(s_neg(d))


@af("linalg.inv", "inv")
def a_inv(a):
    M = _lists(a)
    n = len(M)
    d = _det(M)
    if bool(s_eq(d, 0.0)):
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 1:
        return _mkobj([s_div(1.0, d)], (1, 1))
    out = []
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            c = _det(minor)
            out.append(s_div(c if (i + j) % 2 == 0 else s_neg(c), d))
    return _mkobj(out, (n, n))


@af("linalg.solve", "solve")
def a_solve(a, b):
    return matmul(a_inv(a), b)


@af("linalg.cholesky", "cholesky")
def a_cholesky(a):
    M = _lists(a)
    n = len(M)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = M[i][j]
            for k in range(j):
                s = s_sub(s, s_mul(L[i][k], L[j][k]))
            if i == j:
                if not bool(s_gt(s, 0.0)):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i][j] = s_sqrt(s)
            else:
                L[i][j] = s_div(s, L[j][j])
    return _mkobj([v for r in L for v in r], (n, n))


def _dft(x, sign, scale):
    n = len(x)
    out = []
    for k in range(n):
        acc = 0.0
        for j in range(n):
            q = Fraction(2 * j * k % (2 * n), n)       # in units of pi
            c = tm.cos(tm.scale(tm.PI, q))
            s = tm.sin(tm.scale(tm.PI, q))
            w = cmplx(Sym(c), Sym(tm.scale(s, sign)))
            acc = s_add(acc, s_mul(x[j], w))
        out.append(s_mul(acc, scale) if scale != 1 else acc)
    return out


def _clean(v):
    """keep complex results complex"""
    return v


@af("fft.rfft", "rfft")
def a_rfft(a, n=None, axis=-1, norm=None):
    a = unwrap(a)
    if a.ndim > 1:
        return _mkobj([v for r in a for v in a_rfft(r, n)], (a.shape[0], a.shape[1] // 2 + 1))
    x = list(a)
    if n is not None:
        n = int(n)
        x = x[:n] + [0.0] * (n - len(x))
    f = _dft([s_real(v) for v in x], -1, 1)
    f = f[: len(x) // 2 + 1]
    f = [CSym(*parts(v)) if not isinstance(v, complex) else v for v in f]
    return _mkobj(f, (len(f),))


@af("fft.irfft", "irfft")
def a_irfft(a, n=None, axis=-1, norm=None):
    a = unwrap(a)
    if a.ndim > 1:
        rows = [a_irfft(r, n) for r in a]
        return _mkobj([v for r in rows for v in r], (a.shape[0], len(rows[0])))
    x = list(a)
    if n is None:
        n = 2 * (len(x) - 1)
    n = int(n)
    m = n // 2 + 1
    x = x[:m] + [0.0] * (m - len(x))
    full = [0.0] * n
    for k in range(n):
        if k < m:
            v = x[k]
            if k == 0 or (n % 2 == 0 and k == n // 2):
                v = s_real(v)
            full[k] = v
        else:
            full[k] = s_conj(x[n - k])
    f = _dft(full, +1, Fraction(1, n))
    return _mkobj([s_real(v) for v in f], (n,))


def _along(a, n, axis, norm, f):
    if norm not in (None, "backward"):
        raise EngineError("fft with norm " + str(norm))
    a = np.asarray(unwrap(a))
    m = a.shape[axis]
    k = m if n is None else int(n)
    a = np.moveaxis(a, axis, -1)
    rows = a.reshape(-1, m)
    out = [v for r in rows for v in f((list(r) + [0.0] * max(0, k - m))[:k])]
    r = np.moveaxis(_mkobj(out, a.shape[:-1] + (k,)), -1, axis)
    return r.view(SArr) if not isinstance(r, SArr) else r


@af("fft.fft", "fft")
def a_fft(a, n=None, axis=-1, norm=None):
    return _along(a, n, axis, norm, lambda r: _dft(r, -1, 1))


@af("fft.ifft", "ifft")
def a_ifft(a, n=None, axis=-1, norm=None):
    return _along(a, n, axis, norm, lambda r: _dft(r, +1, Fraction(1, len(r))))


@af("round", "around", "round_")
def a_round(a, decimals=0, **k):
    decimals = int(decimals)
    if decimals >= 12:
        return a  # below the tolerance of every comparison; stated in DESIGN.md
    if decimals:
        q = 10 ** abs(decimals)
        if decimals > 0:
            return emap(lambda v: s_div(s_rint(s_mul(v, q)), q), a)
        return emap(lambda v: s_mul(s_rint(s_div(v, q)), q), a)
    return emap(s_rint, a)


@af("full_like")
def a_full_like(a, fill_value, **k):
    return _mkobj([fill_value] * int(np.prod(np.shape(a))), np.shape(a)) if np.shape(a) else fill_value


@af("zeros_like")
def a_zeros_like(a, dtype=None, **k):
    return a_full_like(a, _fill0(dtype)) if np.shape(a) else 0.0


@af("ones_like")
def a_ones_like(a, dtype=None, **k):
    return a_full_like(a, True if dtype is not None and np.dtype(dtype) == bool else 1.0) if np.shape(a) else 1.0


@af("empty_like")
def a_empty_like(a, dtype=None, **k):
    return a_zeros_like(a, dtype)


def _fill0(dtype):
    if dtype is None:
        return 0.0
    d = np.dtype(dtype)
    if d == bool:
        return False
    if d.kind == "c":
        return 0j
    if d.kind in "iu":
        return 0
    return 0.0


@af("copy")
def a_copy(a, **k):
    return unwrap(a).copy() if isinstance(unwrap(a), np.ndarray) else a


@af("ndim")
def a_ndim(a):
    a = unwrap(a)
    return a.ndim if isinstance(a, np.ndarray) else 0


@af("shape")
def a_shape(a):
    a = unwrap(a)
    return a.shape if isinstance(a, np.ndarray) else ()


@af("size")
def a_size(a, axis=None):
    a = unwrap(a)
    return a.size if isinstance(a, np.ndarray) else 1


@af("ravel")
def a_ravel(a, **k):
    a = unwrap(a)
    return a.view(np.ndarray).reshape(-1).view(SArr) if isinstance(a, np.ndarray) else sarr([a])


@af("meshgrid")
def a_meshgrid(*xs, indexing="xy", **k):
    xs = [unwrap(x) for x in xs]
    nd = len(xs)
    s0 = (1,) * nd
    out = [x.view(np.ndarray).reshape(s0[:i] + (-1,) + s0[i + 1:]) for i, x in enumerate(xs)]
    if indexing == "xy" and nd > 1:
        out[0] = out[0].reshape((1, -1) + s0[2:])
        out[1] = out[1].reshape((-1, 1) + s0[2:])
    shape = np.broadcast_shapes(*[o.shape for o in out])
    return [np.array(np.broadcast_to(o, shape)).view(SArr) for o in out]


@af("logspace", "geomspace")
def a_logspace(*a, **k):
    raise EngineError("logspace")


@af("linspace")
def a_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    d = (num - 1) if endpoint else num
    if num == 0:
        return _mkobj([], (0,))
    if d == 0:
        r = _mkobj([start], (1,))
        return (r, NAN) if retstep else r
    step = s_div(s_sub(stop, start), d)
    vals = [s_add(start, s_mul(step, i)) for i in range(num)]
    if endpoint:
        vals[-1] = stop
    r = _mkobj(vals, (num,))
    return (r, step) if retstep else r


@af("arange")
def a_arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    n = s_ceil(s_div(s_sub(stop, start), step))
    n = int(n)
    return _mkobj([s_add(start, s_mul(step, i)) for i in range(builtins.max(n, 0))], (builtins.max(n, 0),))


@af("atleast_1d")
def a_atleast_1d(*arys):
    out = []
    for a in arys:
        a = unwrap(a)
        if not isinstance(a, np.ndarray):
            a = sarr([a])
        elif a.ndim == 0:
            a = a.view(np.ndarray).reshape(1).view(SArr)
        out.append(a)
    return out[0] if len(out) == 1 else out


@af("atleast_2d")
def a_atleast_2d(a):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        return sarr([[a]])
    if a.ndim == 0:
        return a.view(np.ndarray).reshape(1, 1).view(SArr)
    if a.ndim == 1:
        return a.view(np.ndarray)[None, :].view(SArr)
    return a


@af("squeeze")
def a_squeeze(a, axis=None):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        return a
    r = np.ndarray.squeeze(a.view(np.ndarray), axis)
    return r.view(SArr)


@af("isscalar")
def a_isscalar(a):
    return isinstance(a, (Sym, SymBool, CSym)) or np.isscalar(a)


@af("vectorize")
def a_vec(*a, **k):
    raise EngineError("vectorize")


@af("isreal")
def a_isreal(a):
    return emap(lambda v: s_eq(parts(v)[1], 0.0), a)


@af("logaddexp.reduce")
def _unused(*a):
    raise EngineError("unused")


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        a = sarr([a])
    terms_ = emap(s_exp, a)
    if b is not None:
        terms_ = emap(s_mul, terms_, b)
    s = freduce(s_add, terms_, axis, 0.0, keepdims)
    return emap(s_log, s)


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    f = None
    if "linalg" in mod:
        f = AF.get("linalg." + name)
    elif "fft" in mod:
        f = AF.get("fft." + name)
    else:
        f = AF.get(name)
    if f is not None:
        return f(*args, **{k: v for k, v in kwargs.items() if v is not np._NoValue})
    if name in SCALAR:
        return emap(SCALAR[name], *args)
    impl = getattr(func, "_implementation", None)
    if impl is None:
        raise EngineError("no model for numpy function " + name)
    args = _deconv(args)
    kwargs = _deconv(kwargs)
    r = impl(*args, **kwargs)
    return _reconv(r)


def _deconv(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(_deconv(v) for v in x)
    if isinstance(x, list):
        return [_deconv(v) for v in x]
    if isinstance(x, dict):
        return {k: _deconv(v) for k, v in x.items()}
    if is_symbolic(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return x


def _reconv(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SArr):
        return r.view(SArr)
    if isinstance(r, tuple):
        return tuple(_reconv(v) for v in r)
    if isinstance(r, list):
        return [_reconv(v) for v in r]
    return r
