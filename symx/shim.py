"""Interposition of numpy / scipy / builtins names inside bilby's modules during symbolic runs.

Nothing in /repo is modified: module globals are replaced for the duration of a symbolic run and
restored afterwards; concrete replays always run with the original bindings."""
import builtins
import functools
import json
import sys
import types
from fractions import Fraction

import numpy as np
import scipy.special
import scipy.interpolate
import scipy.stats

from . import npsym as ns
from . import terms as tm
from .values import Sym, SymBool, CSym, EngineError, is_symbolic, term
from .npsym import SArr, sarr, has_sym, has_deep_sym, tonative

_CREATE = {}


def _shape_of(shape):
    if isinstance(shape, (Sym, SymBool)):
        return (shape.__index__(),)
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    if isinstance(shape, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return tuple(s.__index__() if isinstance(s, Sym) else int(s) for s in shape)


def _filled(v):
    def f(shape, dtype=None, **k):
        s = _shape_of(shape)
        fill = v
        if dtype is not None:
            d = np.dtype(_dt(dtype))
            if d.kind == "b":
                fill = bool(v)
            elif d.kind in "iu":
                return getattr(np, {0.0: "zeros", 1.0: "ones"}[v])(s, dtype=d)
            elif d.kind == "c":
                fill = complex(v)
            elif d.kind in "USO":
                return getattr(np, {0.0: "zeros", 1.0: "ones"}[v])(s, dtype=d)
        n = int(np.prod(s))
        return ns._mkobj([fill] * n, s)
    return f


def _full(shape, fill_value, dtype=None, **k):
    s = _shape_of(shape)
    return ns._mkobj([fill_value] * int(np.prod(s)), s)


def _dt(d):
    if d is SymFloat:
        return float
    if d is SymComplex:
        return complex
    return d


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if has_sym(x) or (isinstance(x, (list, tuple)) and has_deep_sym(x)):
        r = sarr(x)
        if dtype is not None:
            d = np.dtype(_dt(dtype))
            if d.kind == "b":
                r = r.astype(bool)
            elif d.kind == "c":
                r = ns.emap(lambda v: v if isinstance(v, (CSym, complex)) else CSym(v, 0.0), r)
        while r.ndim < ndmin:
            r = r.view(np.ndarray)[None].view(SArr)
        return r
    kw = dict(k)
    if dtype is not None:
        kw["dtype"] = _dt(dtype)
    return np.array(x, copy=copy, ndmin=ndmin, **kw)


def _asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x
    if has_sym(x) or (isinstance(x, (list, tuple)) and has_deep_sym(x)):
        return _array(x, dtype)
    return np.asarray(x, dtype=_dt(dtype)) if dtype is not None else np.asarray(x)


def _linspace(start, stop, num=50, *a, **k):
    if is_symbolic(start) or is_symbolic(stop) or is_symbolic(num):
        return ns.AF["linspace"](start, stop, num, *a, **k)
    return np.linspace(start, stop, num, *a, **k)


def _arange(*a, **k):
    if any(is_symbolic(v) for v in a):
        return ns.AF["arange"](*a)
    return np.arange(*a, **k)


def _isscalar(x):
    return is_symbolic(x) or np.isscalar(x)


def _eye(n, *a, **k):
    return sarr(np.eye(_shape_of(n)[0], *a, **k))


def _vectorize(f, *a, **k):
    def g(*args, **kw):
        if any(has_sym(x) for x in args):
            return ns.emap(lambda *v: f(*v, **kw), *args)
        return np.vectorize(f, *a, **k)(*args, **kw)
    return g


def _savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
    rows = list(X)
    if not has_deep_sym(rows):
        return np.savetxt(fname, X, fmt=fmt, delimiter=delimiter, newline=newline, header=header, footer=footer, comments=comments, **k)

    def show(v):
        return repr(v) if is_symbolic(v) else fmt % v
    with open(fname, "w") as f:
        if header:
            f.write(comments + header + newline)
        for r in rows:
            f.write(delimiter.join(show(v) for v in (r if isinstance(r, (list, tuple, np.ndarray)) else [r])) + newline)
        if footer:
            f.write(comments + footer + newline)


def _genfromtxt(fname, *a, **k):
    toks = _tokens()
    if not isinstance(fname, str) or not toks:
        return np.genfromtxt(fname, *a, **k)
    with open(fname) as f:
        lines = [l.split("#")[0].split(k.get("delimiter")) for l in f]
    if k.get("names") or not any(t in toks for l in lines for t in l):
        return np.genfromtxt(fname, *a, **k)
    rows = [[toks[t] if t in toks else float(t) for t in l] for l in lines if l]
    return np.squeeze(sarr(rows)).view(SArr)


def _issubdtype(a, b):
    if isinstance(a, np.dtype) and a == object and a.metadata and a.metadata.get("symx"):
        return b in (np.number, np.floating, np.inexact, float, SymFloat, np.float64, np.object_, object)
    return np.issubdtype(a, _dt(b))


_CREATE.update(issubdtype=_issubdtype, savetxt=_savetxt, genfromtxt=_genfromtxt, loadtxt=_genfromtxt)
_CREATE.update(
    zeros=_filled(0.0), ones=_filled(1.0), empty=_filled(0.0), full=_full, array=_array, asarray=_asarray,
    asanyarray=_asarray, linspace=_linspace, arange=_arange, isscalar=_isscalar, eye=_eye, identity=_eye,
    vectorize=_vectorize, ascontiguousarray=_asarray,
)


def anysym(args, kwargs):
    for a in args:
        if has_sym(a) or isinstance(a, (list, tuple)) and has_deep_sym(a):
            return True
        if type(a).__module__.startswith("pandas") and hasattr(a, "to_numpy") and has_sym(a.to_numpy()):
            return True
    for a in kwargs.values():
        if has_sym(a) or isinstance(a, (list, tuple)) and has_deep_sym(a):
            return True
    return False


_JOIN = ("concatenate", "hstack", "vstack", "dstack", "column_stack", "stack", "append", "block")


def _wrap(f, key=None):
    name = getattr(f, "__name__", "?")

    @functools.wraps(f, updated=())
    def g(*args, **kwargs):
        if anysym(args, kwargs):
            deep = any(has_deep_sym(a) for a in args) or any(has_deep_sym(a) for a in kwargs.values()) or \
                any(hasattr(a, "to_numpy") for a in args)
            if not deep and key not in ("where", "concatenate", "append", "hstack", "vstack", "stack", "copy",
                                        "zeros_like", "ones_like", "full_like", "empty_like", "atleast_1d"):
                # object arrays with purely concrete content: use numpy itself
                try:
                    r = f(*[tonative(a) for a in args], **{k: tonative(v) for k, v in kwargs.items()})
                    if isinstance(r, np.ndarray) and r.ndim > 0:
                        return sarr(r)
                    return r
                except (TypeError, ValueError):
                    pass
            m = ns.AF.get(key or name)
            if name in _JOIN:
                # ragged lists of arrays must stay lists
                if m is not None:
                    return m(*args, **kwargs)
                return ns._reconv(getattr(f, "_implementation", f)(*[ns._deconv(a) for a in args], **kwargs))
            if m is not None:
                return m(*[ns.unwrap(a) if isinstance(a, (list, np.ndarray)) and has_deep_sym(a) else a for a in args], **kwargs)
            if name in ns.SCALAR:
                kw = {k: v for k, v in kwargs.items() if k in ("out", "where")}
                if kw:
                    if "out" in kw and not isinstance(kw["out"], tuple):
                        kw["out"] = (kw["out"],)
                    return ns.array_ufunc(f, "__call__", args, kw)
                return ns.emap(ns.SCALAR[name], *args)
            args = [ns._deconv(ns.unwrap(a)) if has_deep_sym(a) else a for a in args]
            impl = getattr(f, "_implementation", f)
            return ns._reconv(impl(*args, **kwargs))
        return f(*args, **kwargs)
    return g


class _UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__
        self._w = _wrap(uf)

    def __call__(self, *a, **k):
        return self._w(*a, **k)

    def __getattr__(self, n):
        r = getattr(self._uf, n)
        if n in ("reduce", "accumulate", "outer"):
            def g(*a, **k):
                if anysym(a, k):
                    if n == "reduce" and "axis" not in k and len(a) > 1:
                        k["axis"] = a[1]
                        a = a[:1]
                    return ns.array_ufunc(self._uf, n, a, k)
                return r(*a, **k)
            return g
        return r


class NPShim(types.ModuleType):
    def __init__(self, mod, prefix=""):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__["_prefix"] = prefix

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if not self._prefix and name in _CREATE:
            r = _CREATE[name]
        elif isinstance(v, types.ModuleType):
            if name in ("linalg", "fft") and not self._prefix:
                r = NPShim(v, name + ".")
            else:
                return v
        elif isinstance(v, np.ufunc):
            r = _UfuncProxy(v)
        elif isinstance(v, type):
            if name in ("float64", "float32") and not self._prefix:
                r = _np_float64
            else:
                return v
        elif callable(v):
            r = _wrap(v, self._prefix + name)
        else:
            return v
        self.__dict__[name] = r
        return r


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, np.float64)


class _np_float64(np.float64, metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        if is_symbolic(x):
            return x
        return np.float64(x)


NP = NPShim(np)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls or o is SymFloat

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    """float() that is the identity on symbolic reals"""
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, Sym):
            return x
        if builtins.isinstance(x, SymBool):
            return Sym(term(x))
        if builtins.isinstance(x, SArr) and x.size == 1 and is_symbolic(x.item()):
            return x.item()
        if builtins.isinstance(x, (str, bytes)):
            t = _tokens().get(x.strip() if builtins.isinstance(x, str) else x.decode().strip())
            if t is not None:
                return t
        return float(x)


class _ComplexMeta(_FloatMeta):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (complex, CSym))

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)

    def __eq__(cls, o):
        return o is complex or o is cls

    def __hash__(cls):
        return hash(complex)


class SymComplex(complex, metaclass=_ComplexMeta):
    def __new__(cls, re=0.0, im=0.0):
        if builtins.isinstance(re, CSym):
            return re
        if is_symbolic(re) or is_symbolic(im):
            return ns.cmplx(re, im)
        return complex(re, im) if not builtins.isinstance(re, str) else complex(re)


def _tokens():
    from . import values
    c = values._ctx[0]
    return c.tokens if c is not None else {}


def sym_eval(src, glob=None, loc=None):
    """eval() of text that may contain printed symbolic values"""
    if glob is None:
        f = sys._getframe(1)
        glob, loc = f.f_globals, f.f_locals
    loc = dict(loc) if loc is not None else dict(glob)
    loc.update({k: v for k, v in _tokens().items()})
    return builtins.eval(src, glob, loc)


_json_orig = {k: getattr(json, k) for k in ("dump", "dumps", "load", "loads")}
_json_classes = {}


def _json_cls(cls):
    cls = cls or json.JSONEncoder
    if cls not in _json_classes:
        class C(cls):
            def default(self, o):
                if builtins.isinstance(o, (Sym, SymBool)):
                    return {"__symtok__": repr(o)}
                return cls.default(self, o)
        _json_classes[cls] = C
    return _json_classes[cls]


def _json_dump(name):
    def f(*a, cls=None, **k):
        return _json_orig[name](*a, cls=_json_cls(cls), **k)
    return f


def _json_load(name):
    def f(*a, object_hook=None, **k):
        def hook(d):
            if "__symtok__" in d:
                return _tokens()[d["__symtok__"]]
            return object_hook(d) if object_hook is not None else d
        return _json_orig[name](*a, object_hook=hook, **k)
    return f


def _floaty(o):
    # an expression over reals that happens to simplify to an integer constant is still a float
    return not tm.is_int(o.t) or o.t.op == "c"


def sym_isinstance(o, cls):
    if builtins.isinstance(o, (Sym, SymBool, CSym)):
        if builtins.isinstance(cls, types.UnionType):
            cls = cls.__args__
        cs = cls if builtins.isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            flat.extend(c if builtins.isinstance(c, tuple) else (c,))
        for c in flat:
            if c is SymComplex:
                if builtins.isinstance(o, CSym):
                    return True
                continue
            if c is SymFloat or c is _np_float64:
                if builtins.isinstance(o, Sym) and _floaty(o):
                    return True
                continue
            if builtins.isinstance(o, Sym):
                if c in (float, np.floating, np.number, np.inexact) or c is np.float64:
                    if _floaty(o):
                        return True
                    continue
                if c is int:
                    if tm.is_int(o.t):
                        return True
                    continue
            if builtins.isinstance(o, SymBool) and c in (bool, np.bool_, int):
                return True
            if builtins.isinstance(o, CSym) and c in (complex, np.complexfloating):
                return True
            if builtins.isinstance(o, c):
                return True
        return False
    return builtins.isinstance(o, cls)


# ------------------------------------------------------------------ scipy replacements
def _dispatch(orig, model):
    @functools.wraps(orig, updated=())
    def g(*a, **k):
        if anysym(a, k):
            return model(*a, **k)
        return orig(*a, **k)
    return g


class SymInterp1d:
    """scipy.interpolate.interp1d, kind linear"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind != "linear":
            raise EngineError("interp1d kind " + str(kind))
        self.x = list(ns.unwrap(x))
        self.y = list(ns.unwrap(y))
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            order = ns._argsort1(self.x)
            self.x = [self.x[i] for i in order]
            self.y = [self.y[i] for i in order]
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if self.extrap:
            self.lo = self.hi = None
        elif isinstance(fill_value, tuple):
            self.lo, self.hi = fill_value
        else:
            self.lo = self.hi = fill_value
        if bounds_error is None:
            bounds_error = not self.extrap and not isinstance(fill_value, tuple) and (
                isinstance(fill_value, float) and np.isnan(fill_value))
        self.bounds_error = bounds_error

    def _one(self, v):
        x, y = self.x, self.y
        if not self.extrap:
            if bool(ns.s_lt(v, x[0])):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return self.lo
            if bool(ns.s_gt(v, x[-1])):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return self.hi
        i = 1
        while i < len(x) - 1 and bool(ns.s_lt(x[i], v)):
            i += 1
        sl = ns.s_div(ns.s_sub(y[i], y[i - 1]), ns.s_sub(x[i], x[i - 1]))
        return ns.s_add(y[i - 1], ns.s_mul(sl, ns.s_sub(v, x[i - 1])))

    def __call__(self, v):
        v = ns.unwrap(v)
        if not isinstance(v, np.ndarray):
            r = self._one(v)
            o = np.empty((), dtype=object)
            o[()] = r
            return o.view(SArr) if False else r
        return ns.emap(self._one, v)


def _interp1d(x, y, *a, **k):
    return SymInterp1d(x, y, *a, **k)


def _cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = list(ns.unwrap(y))
    acc = [initial] if initial is not None else []
    s = 0.0
    for i in range(1, len(y)):
        d = ns.s_sub(ns.unwrap(x)[i], ns.unwrap(x)[i - 1]) if x is not None else dx
        s = ns.s_add(s, ns.s_mul(d, ns.s_div(ns.s_add(y[i], y[i - 1]), 2.0)))
        acc.append(s)
    return sarr(acc)


class Patches:
    def __init__(self):
        self.saved = []
        self.mods = None
        self.depth = 0
        self.extra = []

    def collect(self):
        import scipy.integrate as si
        plans = []
        repl = {}
        repl[id(scipy.special.logsumexp)] = _dispatch(scipy.special.logsumexp, ns.logsumexp)
        repl[id(scipy.interpolate.interp1d)] = _interp1d_dispatch
        for nm in ("cumulative_trapezoid",):
            f = getattr(si, nm, None)
            if f is not None:
                repl[id(f)] = _dispatch(f, _cumtrapz)
        repl[id(scipy.special.betaln)] = _dispatch(scipy.special.betaln, lambda a, b: ns.emap(ns.s_betaln, a, b))
        repl[id(np)] = NP
        repl[id(np.linalg)] = NP.linalg
        repl[id(np.fft)] = NP.fft
        keep = []
        for name, mod in list(sys.modules.items()):
            if not (name == "bilby" or name.startswith("bilby.")) or mod is None:
                continue
            d = mod.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                r = repl.get(id(v))
                if r is None and isinstance(v, np.ufunc) and v.__name__ in ns.SCALAR:
                    r = _UfuncProxy(v)
                if r is None and callable(v) and getattr(v, "__module__", "") in (
                        "numpy", "numpy.linalg", "numpy.fft") and not isinstance(v, type):
                    r = getattr(NP.linalg if v.__module__.endswith("linalg") else NP, v.__name__, None)
                if r is not None:
                    plans.append((d, k, v, r))
            plans.append((d, "isinstance", None, sym_isinstance))
            plans.append((d, "float", None, SymFloat))
            plans.append((d, "complex", None, SymComplex))
            plans.append((d, "eval", None, sym_eval))
            keep.append(mod)
        # names imported inside functions
        plans.append((scipy.special.__dict__, "logsumexp", scipy.special.logsumexp, repl[id(scipy.special.logsumexp)]))
        plans.append((scipy.interpolate.__dict__, "interp1d", scipy.interpolate.interp1d, _interp1d_dispatch))
        plans.append((scipy.special.__dict__, "betaln", scipy.special.betaln, repl[id(scipy.special.betaln)]))
        for k in ("dump", "dumps"):
            plans.append((json.__dict__, k, _json_orig[k], _json_dump(k)))
        for k in ("load", "loads"):
            plans.append((json.__dict__, k, _json_orig[k], _json_load(k)))
        self.plans = plans
        self.nmods = len(keep)
        self.known = set(n for n in sys.modules if n.startswith("bilby"))

    def install(self):
        self.depth += 1
        if self.depth > 1:
            return
        if self.mods is None or set(n for n in sys.modules if n.startswith("bilby")) != self.known:
            self.collect()
            self.mods = True
        for d, k, old, new in self.plans:
            d[k] = new
        for d, k, old, new in self.extra:
            d[k] = new

    def uninstall(self):
        self.depth -= 1
        if self.depth > 0:
            return
        for d, k, old, new in self.extra + self.plans:
            if old is None:
                d.pop(k, None)
            else:
                d[k] = old


_orig_interp1d = scipy.interpolate.interp1d


def _interp1d_dispatch(x, y, *a, **k):
    if has_deep_sym(ns.unwrap(x)) or has_deep_sym(ns.unwrap(y)):
        return SymInterp1d(x, y, *a, **k)
    inner = _orig_interp1d(tonative(x), tonative(y), *a, **k)
    kind = a[0] if a else k.get("kind", "linear")
    if kind != "linear":
        return inner
    sym = []

    class _Lazy:
        def __getattr__(self, n):
            return getattr(inner, n)

        def __call__(self, v):
            if has_sym(v) and has_deep_sym(ns.unwrap(v)):
                if not sym:
                    sym.append(SymInterp1d(np.asarray(x), np.asarray(y), *a, **k))
                return sym[0](v)
            return inner(tonative(v))
    return _Lazy()


PATCHES = Patches()


def _patch_mvn():
    """logpdf of a frozen multivariate normal with a concrete covariance, at a symbolic point"""
    import scipy.stats._multivariate as mv
    cls = mv.multivariate_normal_frozen
    orig = cls.logpdf

    @functools.wraps(orig)
    def logpdf(self, x):
        x = ns.unwrap(x)
        if not (has_sym(x) or has_deep_sym(x)):
            return orig(self, tonative(x))
        cov = np.atleast_2d(self.cov_object.covariance)
        inv, k = np.linalg.inv(cov), cov.shape[0]
        const = -0.5 * (k * np.log(2 * np.pi) + np.linalg.slogdet(cov)[1])
        a = np.asarray(x, dtype=object)

        def one(row):
            d = [ns.s_sub(row[i], float(self.mean[i])) for i in range(k)]
            q = 0.0
            for i in range(k):
                for j in range(k):
                    if inv[i, j] != 0:
                        q = ns.s_add(q, ns.s_mul(float(inv[i, j]), ns.s_mul(d[i], d[j])))
            return ns.s_sub(const, ns.s_mul(0.5, q))
        if a.ndim == 1:
            return one(a)
        return sarr([one(r) for r in a])
    cls.logpdf = logpdf


_patch_mvn()


def _patch_pandas():
    """selecting rows by symbolic truth values decides each of them"""
    import pandas as pd

    def wrap(cls):
        orig = cls.__getitem__

        @functools.wraps(orig)
        def getitem(self, key):
            k = key
            if type(k).__module__.startswith("pandas") and hasattr(k, "to_numpy") and getattr(k, "dtype", None) == object:
                k = k.to_numpy()
            if isinstance(k, np.ndarray) and k.dtype == object and k.size and \
                    any(isinstance(v, SymBool) for v in k.flat) and all(isinstance(v, (SymBool, bool, np.bool_)) for v in k.flat):
                key = np.array([bool(v) for v in k.flat]).reshape(k.shape)
            return orig(self, key)
        cls.__getitem__ = getitem
    for cls in (pd.DataFrame, pd.Series):
        wrap(cls)


_patch_pandas()
