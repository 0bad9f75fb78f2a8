"""Symbolic proxy values that flow through the real bilby code."""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T


class EngineError(Exception):
    """The engine cannot model something the code did (inconclusive, never a pass)."""


class Concretize(EngineError):
    pass


class Abort(BaseException):
    """Path-steering exception: abandon this path (infeasible / out of scope)."""

    def __init__(self, why=""):
        self.why = why


_ctx = [None]


def ctx():
    c = _ctx[0]
    if c is None:
        raise EngineError("symbolic value used outside of a symbolic run")
    return c


# ------------------------------------------------------------------ snapping floats
def _build_snap():
    F = Fraction
    tab = []
    pi = tm.PI
    sq = lambda n: tm.power(tm.const(n), F(1, 2))
    spi = tm.power(pi, F(1, 2))
    tab.append((math.pi, pi))
    tab.append((math.sqrt(math.pi), spi))
    tab.append((math.sqrt(2 * math.pi), tm.mul(sq(2), spi)))
    tab.append((math.pi ** 2, tm.power(pi, 2)))
    for n in (2, 3, 5, 6, 7, 10):
        tab.append((math.sqrt(n), sq(n)))
    tab.append((2 ** (1 / 3), tm.power(tm.const(2), F(1, 3))))
    tab.append((3 ** (2 / 3), tm.power(tm.const(3), F(2, 3))))
    tab.append(((2 / 3) ** (1 / 3), tm.power(tm.const(F(2, 3)), F(1, 3))))
    tab.append((math.cbrt(2 / 3) if hasattr(math, "cbrt") else (2 / 3) ** (1 / 3), tm.power(tm.const(F(2, 3)), F(1, 3))))
    out = []
    for v, t in tab:
        out.append((v, t))
        out.append((1 / v, tm.power(t, -1)))
    return out


_SNAP = None
_snap_memo = {}


def snap(x):
    """exact term for a finite float literal"""
    global _SNAP
    if x in _snap_memo and x != 0:
        return _snap_memo[x]
    r = _snap(x)
    if len(_snap_memo) < 100000:
        _snap_memo[x] = r
    return r


def _snap(x):
    global _SNAP
    x = float(x)
    if x == 0:
        return tm.ZERO
    if x == int(x) and abs(x) < 2 ** 53:
        return tm.const(int(x))
    f = Fraction(x).limit_denominator(20000)
    if f != 0 and float(f) == x:
        return tm.const(f)
    # short decimals are literals
    dec = Fraction(repr(x))
    digits = len(repr(x).replace("-", "").replace(".", "").split("e")[0].strip("0"))
    if digits <= 13:
        return tm.const(dec)
    if _SNAP is None:
        _SNAP = _build_snap()
    for v, t in _SNAP:
        q = x / v
        fq = Fraction(q).limit_denominator(720)
        if fq != 0 and abs(float(fq) * v - x) <= 2.3e-16 * abs(x):
            return tm.scale(t, fq)
    for v, t in ((math.log(2 * math.pi), tm.log(tm.mul(tm.const(2), tm.PI))), (math.log(math.pi), tm.log(tm.PI))):
        fq = Fraction(x / v).limit_denominator(64)
        if fq != 0 and abs(float(fq) * v - x) <= 3e-16 * abs(x):
            return tm.scale(t, fq)
    if abs(x) < 40:
        e = math.exp(x)
        fe = Fraction(e).limit_denominator(2000)
        if fe > 0 and fe != 1 and abs(math.log(fe) - x) <= 4e-16 * max(abs(x), 0.1):
            return tm.log(tm.const(fe))
    f = Fraction(x).limit_denominator(10 ** 6)
    if f != 0 and float(f) == x:
        return tm.const(f)
    return tm.const(dec)


# ------------------------------------------------------------------ helpers
def is_symbolic(x):
    return isinstance(x, (Sym, SymBool, CSym))


def isnumber(x):
    return isinstance(x, (int, float, np.integer, np.floating, Fraction, np.bool_, bool))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def term(x):
    """term of a finite real scalar"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return tm.ite(x.t, tm.ONE, tm.ZERO)
    if isinstance(x, (bool, np.bool_)):
        return tm.ONE if x else tm.ZERO
    if isinstance(x, (int, np.integer)):
        return tm.const(int(x))
    if isinstance(x, Fraction):
        return tm.const(x)
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise EngineError("non-finite in term()")
        return snap(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    raise EngineError("cannot make a real term from %r" % type(x))


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, Sym):
        return tm.bnot(tm.eq(x.t, tm.ZERO))
    if isnumber(x):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bterm(x.item())
    raise EngineError("cannot make a boolean term from %r" % type(x))


def mkbool(t):
    if t is tm.TRUE:
        return np.True_
    if t is tm.FALSE:
        return np.False_
    return SymBool(t)


def mksym(t):
    return Sym(t)


def decide(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return ctx().decide(t)


_OK = (int, float, np.integer, np.floating, np.bool_, bool, Fraction)


class _Base:
    __slots__ = ()
    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npsym
        return npsym.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npsym
        return npsym.array_function(func, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar-like interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self, *a):
        return self

    def copy(self):
        return self

    def flatten(self):
        from . import npsym
        return npsym.sarr([self])

    def squeeze(self):
        return self

    def astype(self, *a, **k):
        return self

    def tolist(self):
        return self


def _binop(name, swap=False):
    def f(self, other):
        from . import npsym
        if isinstance(other, np.ndarray) and other.ndim > 0:
            uf = npsym.PYOP[name]
            return npsym.array_ufunc(uf, "__call__", (other, self) if swap else (self, other), {})
        if isinstance(other, (list, tuple, str, dict)) or other is None:
            return NotImplemented
        if type(other).__module__.startswith("pandas") or hasattr(type(other), "__symx_foreign__"):
            return NotImplemented
        fn = npsym.SCALAR[npsym.PYOP[name].__name__]
        return fn(other, self) if swap else fn(self, other)
    return f


class Sym(_Base):
    """symbolic real"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def value(self):          # astropy-like
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    for _n in ("add", "sub", "mul", "truediv", "pow", "mod", "floordiv"):
        locals()["__%s__" % _n] = _binop(_n)
        locals()["__r%s__" % _n] = _binop(_n, True)
    for _n in ("lt", "le", "gt", "ge"):
        locals()["__%s__" % _n] = _binop(_n)
    del _n

    def __eq__(self, other):
        if other is None or isinstance(other, (str, dict, list, tuple)):
            return NotImplemented if isinstance(other, (list, tuple)) else False
        return _binop("eq")(self, other)

    def __ne__(self, other):
        if other is None or isinstance(other, (str, dict, list, tuple)):
            return NotImplemented if isinstance(other, (list, tuple)) else True
        return _binop("ne")(self, other)

    def __hash__(self):
        return hash(("Sym", self.t.id))

    def __neg__(self):
        return Sym(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(tm.absolute(self.t))

    def __bool__(self):
        return decide(tm.bnot(tm.eq(self.t, tm.ZERO)))

    def __float__(self):
        if self.t.op == "c":
            return float(self.t.args[0])
        return ctx().concretize_float(self)

    def __int__(self):
        if self.t.op == "c":
            return int(self.t.args[0])
        # trunc towards zero
        if decide(tm.le(tm.ZERO, self.t)):
            return ctx().concretize_int(tm.floor(self.t))
        return -ctx().concretize_int(tm.floor(tm.neg(self.t)))

    def __index__(self):
        if self.t.op == "c" and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        return ctx().concretize_int(self.t)

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        from . import npsym
        if n:
            raise Concretize("round with digits")
        return npsym.SCALAR["rint"](self)

    def __floor__(self):
        return Sym(tm.floor(self.t))

    def __complex__(self):
        raise Concretize("complex()")

    def __repr__(self):
        return ctx().token(self) if _ctx[0] is not None else "Sym(%s)" % tm.show(self.t)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def any(self, *a, **k):
        return mkbool(bterm(self))

    def all(self, *a, **k):
        return mkbool(bterm(self))

    __iter__ = None

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        raise TypeError("'float' object is not subscriptable")

    def is_integer(self):
        return bool(mkbool(tm.eq(self.t, tm.floor(self.t))))


def _mkmeth(n):
    def f(self, *a, **k):
        from . import npsym
        return npsym.SCALAR[n](self)
    return f


for _n in ("exp", "log", "sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
           "log10", "log2", "log1p", "expm1", "floor", "ceil", "rint", "square", "cbrt", "absolute", "fabs",
           "isfinite", "isnan", "isinf", "sign"):
    setattr(Sym, _n, _mkmeth(_n))

numbers.Real.register(Sym)


class SymBool(_Base):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return decide(self.t)

    @property
    def dtype(self):
        return np.dtype(bool)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(tm.band(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(tm.bor(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = bterm(o)
        return mkbool(tm.bor(tm.band(self.t, tm.bnot(b)), tm.band(tm.bnot(self.t), b)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(tm.bnot(self.t))

    def __hash__(self):
        return hash(("SymBool", self.t.id))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(tm.eq(self.t, bterm(o)))
        if o is None:
            return False
        return Sym(term(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if not isinstance(r, bool) else (not r)

    def _s(self):
        return Sym(term(self))

    for _n in ("add", "sub", "mul", "truediv", "pow"):
        locals()["__%s__" % _n] = (lambda nm: lambda self, o: getattr(self._s(), nm)(o))("__%s__" % _n)
        locals()["__r%s__" % _n] = (lambda nm: lambda self, o: getattr(self._s(), nm)(o))("__r%s__" % _n)
    for _n in ("lt", "le", "gt", "ge"):
        locals()["__%s__" % _n] = (lambda nm: lambda self, o: getattr(self._s(), nm)(o))("__%s__" % _n)
    del _n

    def __neg__(self):
        return -self._s()

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __repr__(self):
        return ctx().token(self) if _ctx[0] is not None else "SymBool(%s)" % tm.show(self.t)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self._s()


class CSym(_Base):
    """symbolic complex"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __format__(self, spec):
        return repr(self)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def dtype(self):
        return np.dtype(object)

    def conjugate(self):
        return CSym(self.re, -self.im)

    conj = conjugate

    for _n in ("add", "sub", "mul", "truediv", "pow"):
        locals()["__%s__" % _n] = _binop(_n)
        locals()["__r%s__" % _n] = _binop(_n, True)
    del _n

    def __eq__(self, other):
        if other is None or isinstance(other, str):
            return False
        return _binop("eq")(self, other)

    def __ne__(self, other):
        if other is None or isinstance(other, str):
            return True
        return _binop("ne")(self, other)

    def __hash__(self):
        return hash(("CSym", id(self)))

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        from . import npsym
        return npsym.SCALAR["absolute"](self)

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        raise Concretize("complex()")

    def __repr__(self):
        if _ctx[0] is not None:
            return "(%r+1j*%r)" % (self.re, self.im)
        return "CSym(%r,%r)" % (self.re, self.im)


for _n in ("exp", "sqrt", "absolute", "isfinite", "isnan", "isinf", "square", "log"):
    setattr(CSym, _n, _mkmeth(_n))
numbers.Complex.register(CSym)
