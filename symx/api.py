"""Harness-facing API: one harness function, run symbolically or concretely."""
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import terms as tm
from . import values as vl
from . import npsym as ns
from . import engine as en
from .values import Sym, SymBool, CSym, EngineError, Abort, bterm, mkbool, term, is_symbolic, nonfinite
from .shim import PATCHES

REGISTRY = {}


def harness(prop, name=None, params=None, tiers=("quick", "thorough"), **opts):
    def d(f):
        ps = params if params is not None else [None]
        if callable(ps):
            ps = ps()
        for i, p in enumerate(ps):
            label = (name or f.__name__)
            opt = dict(opts)
            if p is not None:
                tag = p[0] if isinstance(p, tuple) else p
                label = "%s[%s]" % (label, tag)
            key = (prop, label)
            if key in REGISTRY:
                raise ValueError("duplicate harness %r" % (key,))
            REGISTRY[key] = dict(fn=f, param=p, tiers=tiers, opts=opt, prop=prop, name=label)
        return f
    return d


class AssumeFailed(Exception):
    pass


def flat(x):
    if isinstance(x, np.ndarray):
        return [v for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out += flat(v)
        return out
    if hasattr(x, "to_numpy"):
        return flat(x.to_numpy())
    return [x]


class Base:
    symbolic = False

    def pos(self, name, hi=None, typ=None, lo=0, **k):
        return self.real(name, lo=lo, hi=hi, slo=True, typ=typ or ((Fraction(1, 4), 4) if hi is None else None), **k)

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def cplx(self, name, lo=None, hi=None):
        return self.mkc(self.real(name + "_re", lo, hi), self.real(name + "_im", lo, hi))

    def cplxs(self, name, n, **k):
        return [self.cplx("%s%d" % (name, i), **k) for i in range(n)]

    def raises(self, f, excs):
        try:
            f()
        except excs as ex:
            return ex
        return None


class SymE(Base):
    symbolic = True

    def __init__(self, c, run):
        self.c = c
        self.run = run
        self.rng = SymRNG(self)
        self._cleanup = []
        PATCHES.install()

    def cleanup(self):
        PATCHES.uninstall()
        for f in reversed(self._cleanup):
            f()

    def on_cleanup(self, f):
        self._cleanup.append(f)

    def real(self, name, lo=None, hi=None, slo=False, shi=False, typ=None):
        return Sym(self.c.new_input(name, "real", lo, hi, slo, shi, typ))

    def int(self, name, lo=None, hi=None):
        return Sym(self.c.new_input(name, "int", lo, hi, False, False, None))

    def bool(self, name):
        return SymBool(self.c.new_input(name, "bool", None, None, False, False, None))

    def choice(self, name, options):
        """fork over a finite set of alternatives (a symbolic selector)"""
        options = list(options)
        t = self.c.new_input(name, "int", 0, len(options) - 1, False, False, None)
        for i in range(len(options) - 1):
            if self.c.decide(tm.eq(t, tm.const(i))):
                return options[i]
        return options[-1]

    def mkc(self, re, im):
        return ns.cmplx(re, im)

    def array(self, x):
        return ns.sarr(list(x))

    def cospi(self, q):
        """cosine and sine of a rational number of half turns, exactly"""
        return Sym(tm.cos(tm.scale(tm.PI, q)))

    def sinpi(self, q):
        return Sym(tm.sin(tm.scale(tm.PI, q)))

    def assume(self, cond):
        t = bterm(cond)
        if self.c.known(t) is False:
            raise Abort("assumption false")
        n0 = len(self.c.pc)
        self.c.assume(t)
        if len(self.c.pc) > n0 and self.c.sample() is None and en.unsat_all(self.c, 1.0):
            raise Abort("assumption infeasible")

    def known(self, cond):
        return self.c.known(bterm(cond))

    def check(self, label, cond):
        conds = flat(cond)
        if not conds:
            return
        goal = tm.band(*[bterm(x) for x in conds])
        self.c.records.append(dict(label=label, kind="check", goal=goal, values=[mkbool(goal)]))

    def check_eq(self, label, a, b, rtol=1e-7, atol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
            else:
                self.c.records.append(dict(label=label, kind="check", goal=tm.FALSE, values=[False]))
                return
        goals = []
        pairs = []
        paired = set()
        vals = []
        for x, y in zip(fa, fb):
            if isinstance(x, (CSym, complex, np.complexfloating)) or isinstance(y, (CSym, complex, np.complexfloating)):
                (xr, xi), (yr, yi) = ns.parts(x), ns.parts(y)
                todo = [(xr, yr), (xi, yi)]
            else:
                todo = [(x, y)]
            for p, q in todo:
                vals.append(p)
                vals.append(q)
                if isinstance(p, str) or isinstance(q, str) or p is None or q is None:
                    goals.append(tm.TRUE if p == q else tm.FALSE)
                    continue
                if isinstance(p, (SymBool, bool, np.bool_)) and isinstance(q, (SymBool, bool, np.bool_)):
                    goals.append(tm.eq(bterm(p), bterm(q)))
                    continue
                if nonfinite(p) or nonfinite(q):
                    same = (not is_symbolic(p) and not is_symbolic(q)
                            and (p == q or (math.isnan(p) and math.isnan(q))))
                    goals.append(tm.TRUE if same else tm.FALSE)
                    continue
                if not is_symbolic(p) and not is_symbolic(q):
                    ok = abs(p - q) <= rtol * max(abs(p), abs(q)) + atol
                    goals.append(tm.TRUE if ok else tm.FALSE)
                    continue
                tp, tq = term(p), term(q)
                goals.append(tm.eq(tp, tq))
                paired.add(len(goals) - 1)
                pairs.append((tp, tq))

        others = [g for i, g in enumerate(goals) if i not in paired]

        def margin(env):
            if any(g is tm.FALSE for g in goals):
                return True
            for tp, tq in pairs:
                try:
                    x, y = tm.evaluate(tp, env, en.mp), tm.evaluate(tq, env, en.mp)
                except Exception:
                    continue
                if abs(x - y) > 30 * (rtol * max(abs(x), abs(y)) + atol):
                    return True
            # non-arithmetic difference
            return not pairs
        self.c.records.append(dict(label=label, kind="eq", goal=tm.band(*goals) if goals else tm.TRUE, values=vals,
                                   margin=margin, pairs=pairs, others=others))

    def check_le(self, label, a, b, tol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fb) == 1:
            fb = fb * len(fa)
        goals, pairs = [], []
        for x, y in zip(fa, fb):
            r = ns.s_le(x, y)
            goals.append(bterm(r))
            if is_symbolic(r):
                pairs.append((term(x), term(y)))

        def margin(env):
            if any(g is tm.FALSE for g in goals):
                return True
            for tp, tq in pairs:
                try:
                    x, y = tm.evaluate(tp, env, en.mp), tm.evaluate(tq, env, en.mp)
                except Exception:
                    continue
                if x > y + 30 * tol * (1 + abs(x) + abs(y)):
                    return True
            return False
        self.c.records.append(dict(label=label, kind="le", goal=tm.band(*goals), values=fa + fb, margin=margin))

    def value(self, label, v):
        self.c.records.append(dict(label=label, kind="value", values=flat(v)))

    # terms-level helpers ---------------------------------------------------
    def diff(self, y, x):
        """d y / d x for a symbolic expression (symbolic differentiation)"""
        if not isinstance(y, Sym):
            return 0.0
        return Sym(tm.diff(y.t, x.t))

    def deriv(self, f, x, h=None):
        """d f(x) / dx (symbolic differentiation of the executed code)"""
        return self.diff(f(x), x)

    def fail(self, label, detail=""):
        self.c.records.append(dict(label=label, kind="check", goal=tm.FALSE, values=[False]))

    def skip(self):
        raise Abort("skipped")


class ConcE(Base):
    """concrete replay of a harness on the real code"""
    symbolic = False

    def __init__(self, env):
        self.env = env
        self.records = []
        self.failures = []
        self.rng = ConcRNG(self)
        self._cleanup = []
        self.worst = 0.0

    def cleanup(self):
        for f in reversed(self._cleanup):
            f()

    def on_cleanup(self, f):
        self._cleanup.append(f)

    def real(self, name, lo=None, hi=None, slo=False, shi=False, typ=None):
        return float(self.env.get(name, Fraction(1, 2)))

    def int(self, name, lo=None, hi=None):
        return int(self.env.get(name, lo or 0))

    def bool(self, name):
        return bool(self.env.get(name, False))

    def choice(self, name, options):
        return list(options)[int(self.env.get(name, 0))]

    def mkc(self, re, im):
        return complex(re, im)

    def array(self, x):
        return np.array(list(x))

    def cospi(self, q):
        return math.cos(math.pi * q)

    def sinpi(self, q):
        return math.sin(math.pi * q)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise AssumeFailed()

    def known(self, cond):
        return bool(cond)

    def check(self, label, cond):
        ok = all(bool(c) for c in flat(cond))
        self.records.append(dict(label=label, kind="check", values=[ok]))
        if not ok:
            self.failures.append((label, "condition is false", 1.0))

    def check_eq(self, label, a, b, rtol=1e-7, atol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
            else:
                self.records.append(dict(label=label, kind="check", values=[False]))
                self.failures.append((label, "shapes differ: %d vs %d" % (len(fa), len(fb)), 1.0))
                return
        vals = []
        bad = None
        for x, y in zip(fa, fb):
            if isinstance(x, (complex, np.complexfloating)) or isinstance(y, (complex, np.complexfloating)):
                x, y = complex(x), complex(y)
                todo = [(x.real, y.real), (x.imag, y.imag)]
                scale = max(abs(x), abs(y))
            else:
                todo = [(x, y)]
                scale = None
            for p, q in todo:
                vals += [p, q]
                if isinstance(p, str) or isinstance(q, str) or p is None or q is None:
                    if p != q:
                        bad = (p, q, 1.0)
                    continue
                p, q = float(p), float(q)
                if not math.isfinite(p) or not math.isfinite(q):
                    if not (p == q or (math.isnan(p) and math.isnan(q))):
                        bad = (p, q, 1.0)
                    continue
                s = scale if scale is not None else max(abs(p), abs(q))
                if abs(p - q) > rtol * s + atol:
                    bad = (p, q, abs(p - q) / (s + atol / max(rtol, 1e-300)))
        self.records.append(dict(label=label, kind="eq", values=vals))
        if bad:
            self.failures.append((label, "%r != %r" % bad[:2], bad[2]))

    def check_le(self, label, a, b, tol=1e-9):
        fa, fb = flat(a), flat(b)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fb) == 1:
            fb = fb * len(fa)
        self.records.append(dict(label=label, kind="le", values=fa + fb))
        for x, y in zip(fa, fb):
            if not (x <= y + tol * (1 + abs(x) + abs(y))):
                self.failures.append((label, "%r > %r" % (x, y), abs(x - y) / (abs(x) + abs(y) + 1) if x == x and y == y else 1.0))
                break

    def value(self, label, v):
        self.records.append(dict(label=label, kind="value", values=flat(v)))

    def diff(self, y, x):
        raise NotImplementedError

    def deriv(self, f, x, h=None):
        """numerical derivative (five-point stencil), for replay"""
        h = h or 1e-3 * max(abs(x), 0.05)
        g = lambda y: float(np.squeeze(f(y)))
        return (8 * (g(x + h) - g(x - h)) - (g(x + 2 * h) - g(x - 2 * h))) / (12 * h)

    def fail(self, label, detail=""):
        self.records.append(dict(label=label, kind="check", values=[False]))
        self.failures.append((label, detail or "failed", 1.0))

    def skip(self):
        raise AssumeFailed()


# ---------------------------------------------------------------------- random numbers
class _RNG:
    def __init__(self, e):
        self.e = e
        self.n = 0
        self.log = []

    def _draw(self, lo, hi, shi=True, slo=False, sort="real"):
        name = "rng%d" % self.n
        self.n += 1
        v = self.e.int(name, lo, hi) if sort == "int" else self.e.real(name, lo, hi, shi=shi, slo=slo)
        self.log.append(v)
        return v

    def _fill(self, size, f):
        if size is None:
            return f()
        if isinstance(size, (tuple, list)):
            shape = tuple(int(s) for s in size)
        else:
            shape = (int(size),)
        vals = [f() for _ in range(int(np.prod(shape)))]
        if self.e.symbolic:
            return ns._mkobj(vals, shape)
        return np.array(vals).reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        def one(l, h):
            u = self._draw(0, 1)
            return l + (h - l) * u
        if size is None and (np.ndim(low) or np.ndim(high)):
            shape = np.broadcast_shapes(np.shape(low), np.shape(high))
            size = shape
        if np.ndim(low) or np.ndim(high):
            sh = size if isinstance(size, tuple) else (int(size),)
            L = np.broadcast_to(np.asarray(low, dtype=object), sh).reshape(-1)
            H = np.broadcast_to(np.asarray(high, dtype=object), sh).reshape(-1)
            vals = [one(a, b) for a, b in zip(L, H)]
            return ns._mkobj(vals, sh) if self.e.symbolic else np.array([float(v) for v in vals]).reshape(sh)
        return self._fill(size, lambda: one(low, high))

    def random(self, size=None):
        return self._fill(size, lambda: self._draw(0, 1))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * self._draw(None, None, shi=False))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def exponential(self, scale=1.0, size=None):
        return self._fill(size, lambda: scale * self._draw(0, None, shi=False))

    def gamma(self, shape, scale=1.0, size=None):
        return self._fill(size, lambda: scale * self._draw(0, None, shi=False, slo=True))

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: self._draw(int(low), int(high) - 1, sort="int"))

    randint = integers

    def choice(self, a, size=None, replace=True, p=None, **k):
        opts = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if not replace and size is not None:
            left = list(opts)
            out = []
            for _ in range(int(np.prod(size))):
                i = int(self._draw(0, len(left) - 1, sort="int"))
                out.append(left.pop(i))
            return self._wrapc(out)

        def one():
            i = self._draw(0, len(opts) - 1, sort="int")
            return opts[int(i)]
        if size is None:
            return one()
        return self._wrapc([one() for _ in range(int(np.prod(size)))])

    def _wrapc(self, out):
        if out and is_symbolic(out[0]) or any(is_symbolic(v) for v in out):
            return ns.sarr(out)
        return np.array(out)

    def permutation(self, x):
        opts = list(range(int(x))) if isinstance(x, (int, np.integer)) else list(x)
        return self.choice(opts, size=len(opts), replace=False)

    def shuffle(self, x):
        y = list(x)
        p = self.choice(len(y), size=len(y), replace=False)
        for i, j in enumerate(p):
            x[i] = y[int(j)]


class SymRNG(_RNG):
    pass


class ConcRNG(_RNG):
    pass


# ---------------------------------------------------------------------- running
def call(h, e):
    if h["param"] is None:
        return h["fn"](e)
    p = h["param"]
    return h["fn"](e, *(p[1:] if isinstance(p, tuple) else (p,)))


def run_concrete(h, env):
    """returns (status, failures, records)"""
    e = ConcE(env)
    import warnings
    exc = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                call(h, e)
            except AssumeFailed:
                return "assume", [], e.records
            except Abort:
                return "assume", [], e.records
            except Exception as ex:
                exc = "%s: %s [%s]" % (type(ex).__name__, str(ex)[:200], en._where(ex))
            finally:
                e.cleanup()
    if exc:
        return "exception", [("unexpected exception", exc, 1.0)], e.records
    return ("fail" if e.failures else "ok"), e.failures, e.records


def make_validator(h):
    def validate(env, info):
        depth = PATCHES.depth
        old = vl._ctx[0]
        vl._ctx[0] = None
        for _ in range(depth):
            PATCHES.uninstall()
        try:
            st, fails, recs = run_concrete(h, env)
        finally:
            for _ in range(depth):
                PATCHES.install()
            vl._ctx[0] = old
        kind = info["kind"]
        if st == "assume":
            return dict(status="assume")
        if kind == "exception":
            if st == "exception":
                return dict(status="violation", detail=fails[0][1], label="unexpected exception")
            return dict(status="no")
        if kind == "witness":
            if st in ("fail", "exception"):
                for l, d, s in fails:
                    if l == info.get("label"):
                        return dict(status="violation", detail=d, label=l)
                return dict(status="violation", detail=fails[0][1], label=fails[0][0])
            return dict(status="no")
        # validation of the encoding
        if st == "exception":
            return dict(status="violation-confirmed", label="unexpected exception", detail=fails[0][1])
        if st == "fail":
            worst = max(f[2] for f in fails)
            f = [f for f in fails if f[2] == worst][0]
            if worst > 1e-3:
                return dict(status="violation-confirmed", label=f[0], detail=f[1])
            return dict(status="mismatch", detail="concrete check %s fails: %s" % (f[0], f[1]))
        pred = info["pred"]
        if len(pred) != len(recs):
            return dict(status="mismatch", detail="different number of records %d/%d" % (len(pred), len(recs)))
        for p, r in zip(pred, recs):
            if p["label"] != r["label"]:
                return dict(status="mismatch", detail="record %s vs %s" % (p["label"], r["label"]))
            pv_, rv = flat(p["values"]), flat(en.num(r["values"], {}))
            if len(pv_) != len(rv):
                return dict(status="mismatch", detail="record %s: lengths differ" % p["label"])
            for a, b in zip(pv_, rv):
                if isinstance(a, str) or isinstance(b, str):
                    continue
                a, b = float(a), float(b)
                if not math.isfinite(a) or not math.isfinite(b):
                    if not (a == b or (math.isnan(a) and math.isnan(b))):
                        return dict(status="mismatch", detail="%s: predicted %r, real %r" % (p["label"], a, b))
                elif abs(a - b) > 1e-5 * max(abs(a), abs(b)) + 1e-7:
                    return dict(status="mismatch", detail="%s: predicted %r, real %r" % (p["label"], a, b))
        return dict(status="ok")
    return validate


def run_harness(key, seed=1, budget=120.0):
    h = REGISTRY[key]
    o = h["opts"]
    t0 = time.time()
    fn = lambda e: call(h, e)
    run = en.Run(fn, SymE, seed=seed, budget=min(budget, o.get("budget", budget)), max_paths=o.get("max_paths", 400),
                 prover_timeout=o.get("prover_timeout", 8.0), validate=make_validator(h),
                 max_concretize=o.get("max_concretize", 24))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = run.explore()
    import collections
    return dict(key=list(key), status=out.status, paths=out.paths, aborted=out.aborted, obligations=out.obligations,
                discharged=out.discharged, branches=out.branches, validated=out.validated, violations=out.violations,
                inconclusive=out.inconclusive, samples=out.samples, modes=out.modes, wall=time.time() - t0)
