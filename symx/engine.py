"""Path-forking symbolic executor over the real code, plus the obligation prover."""
import math
import random
import time
import traceback
from fractions import Fraction

import mpmath
import numpy as np

from . import terms as tm
from . import algebra as al
from . import prove as pv
from . import values as vl
from .values import Sym, SymBool, CSym, EngineError, Concretize, Abort, term, bterm, mkbool

mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
mp.dps = 34


class Bound(EngineError):
    """an exploration bound was exceeded (inconclusive)"""


MARK_A = tm.var("mark_a")
MARK_B = tm.var("mark_b")


def _frac(x):
    if x is None:
        return None
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        return None
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


class Input:
    __slots__ = ("name", "sort", "lo", "hi", "slo", "shi", "typ")

    def __init__(self, name, sort, lo, hi, slo, shi, typ):
        self.name, self.sort, self.lo, self.hi, self.slo, self.shi, self.typ = name, sort, lo, hi, slo, shi, typ


class Ctx:
    """one path"""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.pcset = set()
        self.facts = {}
        self.inputs = {}
        self.bounds = {}
        self.records = []
        self.signcache = {}
        self.model = None
        self.model_pc = -1
        self.tokens = {}
        self.rng_count = 0
        self.nforks = 0
        self.notes = []

    # ---------------------------------------------------------------- inputs
    def new_input(self, name, sort, lo, hi, slo, shi, typ):
        if name in self.inputs:
            raise EngineError("duplicate input " + name)
        i = Input(name, sort, _frac(lo), _frac(hi), slo, shi, typ)
        self.inputs[name] = i
        if sort != "bool":
            self.bounds[name] = (i.lo, i.hi, slo, shi)
            t = tm.var(name, sort)
            s = None
            if i.lo is not None and (i.lo > 0 or (i.lo == 0 and slo)):
                s = "+"
            elif i.lo is not None and i.lo == 0:
                s = ">="
            elif i.hi is not None and (i.hi < 0 or (i.hi == 0 and shi)):
                s = "-"
            elif i.hi is not None and i.hi == 0:
                s = "<="
            if s:
                self.facts[t] = s
        else:
            t = tm.boolvar(name)
        self.model = None
        return t

    # ---------------------------------------------------------------- signs
    def sign(self, t, use_solver=True):
        q, u = tm._coef_split(t)
        if u is None:
            return "+" if q > 0 else "-" if q < 0 else "0"
        s = self._sign(u, use_solver)
        return tm.neg_sign(s) if q < 0 else s

    def _sign(self, u, use_solver):
        s = tm.struct_sign(u, self.facts)
        if s in ("+", "-", "0") or not use_solver:
            return s
        key = (u, len(self.pc))
        if key in self.signcache:
            return self.signcache[key]
        # numeric guess
        guess = None
        m = self.sample()
        if m is not None:
            try:
                v = tm.evaluate(u, m, mp)
                guess = 1 if v > mp.mpf(10) ** -18 else (-1 if v < -mp.mpf(10) ** -18 else 0)
            except Exception:
                guess = None
        res = s
        cands = []
        if guess in (1, None):
            cands.append(("+", tm.le(u, tm.ZERO)))
        if guess in (-1, None):
            cands.append(("-", tm.le(tm.ZERO, u)))
        if guess in (1, 0, None):
            cands.append((">=", tm.lt(u, tm.ZERO)))
        if guess in (-1, 0, None):
            cands.append(("<=", tm.lt(tm.ZERO, u)))
        self.signcache[key] = res
        for r, neg in cands:
            if s == ">=" and r in ("-", "<=", ">=") or s == "<=" and r in ("+", ">=", "<="):
                continue
            if self.unsat([neg], timeout=0.4, kind="sign"):
                res = r
                break
        self.signcache[key] = res
        if res is not None:
            self.facts[u] = res
        return res

    # ---------------------------------------------------------------- solver
    def relevant(self, goals):
        """path conditions connected to the goals through shared variables"""
        vs = set()
        for g in goals:
            vs |= tm.free_vars(g)
        rest = list(self.pc)
        out = []
        ch = True
        while ch:
            ch = False
            keep = []
            for c in rest:
                f = tm.free_vars(c)
                if f & vs or not f:
                    out.append(c)
                    if not f <= vs:
                        vs |= f
                        ch = True
                else:
                    keep.append(c)
            rest = keep
        return out

    def unsat(self, extra, timeout=1.0, kind="feas"):
        pc = self.relevant(extra)
        tm.set_ctx(self)
        try:
            r, _ = pv.solve(pc + list(extra), self.bounds, timeout, kind=kind)
        finally:
            tm.pop_ctx()
        return r == "unsat"

    def sample(self):
        """numeric input assignment satisfying the path condition (or None)"""
        if self.model is not None and self.model_pc == len(self.pc) and set(self.inputs) <= set(self.model):
            return self.model
        if self.model is not None and set(self.inputs) <= set(self.model):
            try:
                if all(tm.evaluate(c, self.model, mp) for c in self.pc[max(self.model_pc, 0):]):
                    self.model_pc = len(self.pc)
                    return self.model
            except Exception:
                pass
        if self.model_pc == -len(self.pc) - 2:
            return None
        m = self.find_model([], tries=25, quick=True)
        if m is None:
            self.model_pc = -len(self.pc) - 2
            self.model = None
            return None
        self.model = m
        self.model_pc = len(self.pc)
        return m

    def rand_value(self, rng, i):
        if i.sort == "bool":
            return rng.random() < 0.5
        lo, hi = i.typ if i.typ else (i.lo, i.hi)
        lo, hi = _frac(lo), _frac(hi)
        if lo is None and hi is None:
            lo, hi = Fraction(-3), Fraction(3)
        elif lo is None:
            lo = hi - 4
        elif hi is None:
            hi = lo + 4
        if i.sort == "int":
            a, b = math.ceil(lo), math.floor(hi)
            return Fraction(rng.randint(a, max(a, b)))
        k = 1024
        q = lo + (hi - lo) * Fraction(rng.randint(1, k - 1), k)
        return q

    def holds(self, assertions, env):
        try:
            for a in assertions:
                if not tm.evaluate(a, env, mp):
                    return False
            return True
        except tm.EvalError:
            return False
        except Exception:
            return False

    def find_model(self, extra, tries=60, quick=False, margin=None, deadline=None, use_solver=True):
        """search for an input assignment numerically satisfying PC + extra (+ margin predicate)"""
        rng = random.Random(self.run.seed * 7919 + len(self.pc) * 31 + len(extra))
        goal = list(self.pc) + list(extra)
        t_end = deadline or (time.time() + (4 if quick else 12))

        def good(env):
            for n, i in self.inputs.items():
                if n not in env:
                    env[n] = self.rand_value(rng, i)
                v = env[n]
                if i.sort != "bool":
                    if i.lo is not None and (v < i.lo or (i.slo and v <= i.lo)):
                        return False
                    if i.hi is not None and (v > i.hi or (i.shi and v >= i.hi)):
                        return False
            if not self.holds(goal, env):
                return False
            return margin is None or margin(env)

        base = self.model if self.model is not None and set(self.inputs) <= set(self.model) else None
        for k in range(tries):
            if time.time() > t_end:
                break
            if base is not None and k % 3 == 2:
                env = dict(base)
                for n in rng.sample(sorted(self.inputs), max(1, len(self.inputs) // 3)):
                    env[n] = self.rand_value(rng, self.inputs[n])
            else:
                env = {n: self.rand_value(rng, i) for n, i in self.inputs.items()}
            if good(env):
                return env
        if not use_solver:
            return None
        tm.set_ctx(self)
        try:
            for rnd in range(2 if quick else 8):
                if time.time() > t_end:
                    break
                pins = []
                names = sorted(n for n, i in self.inputs.items() if i.sort != "bool")
                rng.shuffle(names)
                if rnd > 0:
                    for n in names[: max(1, len(names) * min(rnd, 4) // 5 + 1)]:
                        p = tm.eq(tm.var(n, self.inputs[n].sort), tm.const(self.rand_value(rng, self.inputs[n])))
                        r, m = pv.solve(goal + pins + [p], self.bounds, 0.5, True, kind="model")
                        if r == "sat":
                            pins.append(p)
                            env = dict(m)
                            if good(env):
                                return env
                        if time.time() > t_end:
                            break
                else:
                    r, m = pv.solve(goal, self.bounds, 1.0 if quick else 3.0, True, kind="model")
                    if r == "unsat":
                        return None
                    if r == "sat":
                        env = dict(m)
                        if good(env):
                            return env
        finally:
            tm.pop_ctx()
        return None

    # ---------------------------------------------------------------- path condition
    def assume(self, c):
        """add a condition known to be taken"""
        if c is tm.TRUE:
            return
        if c is tm.FALSE:
            raise Abort("infeasible")
        for u in (c.args[0] if c.op == "&" else (c,)):
            if u in self.pcset:
                continue
            self.pc.append(u)
            self.pcset.add(u)
            self._fact(u)

    def _fact(self, u):
        def put(t, s):
            old = self.facts.get(t)
            if old in ("+", "-", "0"):
                return
            if old == ">=" and s == "<=" or old == "<=" and s == ">=":
                s = "0"
            elif old == ">=" and s == "!=" or old == "!=" and s == ">=":
                s = "+"
            elif old == "<=" and s == "!=" or old == "!=" and s == "<=":
                s = "-"
            self.facts[t] = s
        if u.op in ("<", "<="):
            s = "-" if u.op == "<" else "<="
            t = u.args[0]
            put(t, s)
            n = tm.neg(t)
            put(n, tm.neg_sign(s))
        elif u.op == "=":
            put(u.args[0], "0")
            put(tm.neg(u.args[0]), "0")
        elif u.op == "!" and u.args[0].op == "=":
            put(u.args[0].args[0], "!=")
            put(tm.neg(u.args[0].args[0]), "!=")

    def interval_sign(self, t):
        """sign of a sum by interval arithmetic over the input ranges, after dividing by common factors of known sign"""
        if t.op != "+" or len(t.args[1]) > 8:
            return None
        key = ("iv", t)
        if key in self.signcache:
            return self.signcache[key]
        flip = False
        u = t
        if t.args[0] == 0:
            common = None
            for m, k in t.args[1]:
                fs = dict(m.args[0]) if m.op == "*" else {m: Fraction(1)}
                common = fs if common is None else {b: min(e, fs[b]) for b, e in common.items() if b in fs and (e > 0) == (fs[b] > 0)}
            out = []
            for b, e in (common or {}).items():
                sb = tm.struct_sign(b, self.facts)
                if sb == "+":
                    out.append((b, -e))
            if out:
                d = tm.mk("*", tuple(sorted(out, key=lambda p: p[0].id))) if len(out) > 1 or out[0][1] != 1 else out[0][0]
                u = tm.add(*[tm.scale(tm.mul(m, d), k) for m, k in t.args[1]])
        s = None
        if u is not t:
            s = tm.struct_sign(u, self.facts)
        if s not in ("+", "-", "0"):
            iv = self.interval(u, {})
            if iv is not None:
                lo, hi = iv
                s = "+" if lo > 0 else "-" if hi < 0 else s
        self.signcache[key] = s
        return s

    def interval(self, t, memo):
        r = memo.get(t)
        if r is None:
            r = memo[t] = self._interval(t, memo)
            if r is not None:
                lo, hi = r
                if not (lo <= hi):
                    r = None
                else:
                    r = (lo - abs(lo) * 1e-14, hi + abs(hi) * 1e-14)
                memo[t] = r
        return r

    def _interval(self, t, memo):
        op = t.op
        inf = math.inf
        if op == "c":
            v = float(t.args[0])
            return v, v
        if op == "k":
            v = float(tm.evaluate(t, {}, mp))
            return v, v
        if op == "v":
            b = self.bounds.get(t.args[0])
            if b is None:
                return None
            return (-inf if b[0] is None else float(b[0])), (inf if b[1] is None else float(b[1]))
        if op == "+":
            lo = hi = float(t.args[0])
            for u, k in t.args[1]:
                iv = self.interval(u, memo)
                if iv is None:
                    return None
                a, b = (iv[0] * float(k), iv[1] * float(k)) if k > 0 else (iv[1] * float(k), iv[0] * float(k))
                lo, hi = lo + a - abs(lo) * 1e-15, hi + b + abs(hi) * 1e-15
            return lo, hi
        if op == "*":
            lo = hi = 1.0
            for b, e in t.args[0]:
                iv = self.interval(b, memo)
                if iv is None:
                    return None
                a, c = iv
                if e.denominator != 1 or e < 0:
                    if a <= 0 or math.isinf(c):
                        return None
                f = float(e)
                try:
                    if a >= 0:
                        x, y = sorted((a ** f, c ** f))
                    elif e % 2 == 0:
                        y = max(abs(a), abs(c)) ** f
                        x = 0.0 if c >= 0 else abs(c) ** f
                    elif e.denominator == 1:
                        x, y = a ** int(e), c ** int(e)
                    else:
                        return None
                except OverflowError:
                    return None
                ps = [p * q for p in (lo, hi) for q in (x, y)]
                if any(p != p for p in ps):
                    return None
                lo, hi = min(ps), max(ps)
                lo, hi = lo - abs(lo) * 1e-14, hi + abs(hi) * 1e-14
            return lo, hi
        if op == "i":
            a, b = self.interval(t.args[1], memo), self.interval(t.args[2], memo)
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if op == "f" and len(t.args) == 2:
            f = t.args[0]
            if f in ("sin", "cos"):
                return -1.0, 1.0
            iv = self.interval(t.args[1], memo) if f in ("exp", "log") else None
            if iv is None:
                return None
            try:
                if f == "exp":
                    return (0.0 if iv[0] == -inf else math.exp(iv[0]) * (1 - 1e-14)), (inf if iv[1] == inf else math.exp(iv[1]) * (1 + 1e-14))
                if iv[0] <= 0:
                    return None
                lo, hi = math.log(iv[0]), inf if iv[1] == inf else math.log(iv[1])
                return lo - abs(lo) * 1e-14 - 1e-300, hi + abs(hi) * 1e-14 + 1e-300
            except OverflowError:
                return None
        return None

    def settled(self, c):
        """is the condition one that this path has already decided (looked up, not derived)?"""
        if c in self.pcset:
            return True
        if c.op == "&":
            ks = [self.settled(u) for u in c.args[0]]
            return False if False in ks else True if all(ks) else None
        if c.op == "|":
            ks = [self.settled(u) for u in c.args[0]]
            return True if True in ks else False if all(k is False for k in ks) else None
        if c.op in ("<", "<="):
            if len(tm.free_vars(c)) == 1:
                return self.known(c)
            if c.args[0].op == "+" and len(c.args[0].args[1]) <= 4:
                k = self.interval_sign(c.args[0])
                if k in ("+", "-"):
                    return k == "-"
        n = tm.bnot_shallow(c)
        return False if n is not None and n in self.pcset else None

    def known(self, c):
        if c is tm.TRUE or c in self.pcset:
            return True
        if c is tm.FALSE:
            return False
        n = tm.bnot_shallow(c)
        if n is not None and n in self.pcset:
            return False
        if c.op in ("<", "<=", "="):
            s = tm.struct_sign(c.args[0], self.facts)
            if s is None or s in ("<=", ">=", "!="):
                s = self.interval_sign(c.args[0]) or s
            if c.op == "<":
                if s == "-":
                    return True
                if s in ("+", "0", ">="):
                    return False
            elif c.op == "<=":
                if s in ("-", "0", "<="):
                    return True
                if s == "+":
                    return False
            else:
                if s == "0":
                    return True
                if s in ("+", "-", "!="):
                    return False
        elif c.op == "!":
            k = self.known(c.args[0])
            return None if k is None else not k
        elif c.op == "&":
            ks = [self.known(u) for u in c.args[0]]
            if False in ks:
                return False
            if all(k is True for k in ks):
                return True
        elif c.op == "|":
            ks = [self.known(u) for u in c.args[0]]
            if True in ks:
                return True
            if all(k is False for k in ks):
                return False
        return None

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        self.run.check_deadline()
        n = len(self.decisions)
        if n < len(self.prefix):
            v, forced = self.prefix[n]
            self.decisions.append((v, forced))
            self.assume(c if v else tm.bnot(c))
            return v
        # feasibility of both sides
        guess = None
        m = self.sample()
        if m is not None:
            try:
                guess = bool(tm.evaluate(c, m, mp))
            except Exception:
                guess = None
        nc = tm.bnot(c)
        if guess is None:
            if self.unsat([c], kind="branch"):
                v, forced = False, True
            elif self.unsat([nc], kind="branch"):
                v, forced = True, True
            else:
                v, forced = True, False
        else:
            other = nc if guess else c
            v = guess
            forced = self.unsat([other], kind="branch")
        self.decisions.append((v, forced))
        if not forced:
            self.nforks += 1
            self.run.push(self.decisions[:-1] + [(not v, False)])
        self.assume(c if v else nc)
        return v

    def concretize_int(self, t):
        t = t if not isinstance(t, Sym) else t.t
        if t.op == "c":
            return int(t.args[0])
        for _ in range(self.run.max_concretize):
            m = self.sample()
            v = None
            if m is not None:
                try:
                    v = int(mp.nint(tm.evaluate(t, m, mp)))
                except Exception:
                    v = None
            if v is None:
                aux = "ci!%d" % len(self.decisions)
                r, mod = pv.solve(self.pc + [tm.eq(tm.var(aux, "int"), t)], self.bounds, 1.0, True, kind="concretize")
                if r != "sat":
                    raise Concretize("cannot enumerate integer values of " + tm.show(t))
                v = int(mod[aux])
            # replay determinism: the value tried must not depend on the sample
            n = len(self.decisions)
            if n < len(self.prefix):
                v = self.run.concvals.get(self._key(n), v)
            else:
                self.run.concvals[self._key(n)] = v
            if self.decide_forced_record(tm.eq(t, tm.const(v))):
                return v
        raise Bound("more than %d integer values for %s" % (self.run.max_concretize, tm.show(t)))

    def _key(self, n):
        return tuple(d[0] for d in self.decisions[:n])

    def decide_forced_record(self, c):
        """like decide() but always records a decision so that replays stay aligned"""
        return self.decide(c)

    def concretize_float(self, s):
        t = s.t
        # unique value?
        v = self.run.const_value(self, t)
        if v is not None:
            return v
        raise Concretize("float() of symbolic value " + tm.show(t))

    def token(self, s):
        k = "__sym%d__" % s.t.id
        self.tokens[k] = s
        return k


class Outcome:
    def __init__(self):
        self.status = "proved"
        self.paths = 0
        self.aborted = 0
        self.obligations = 0
        self.discharged = 0
        self.branches = 0
        self.validated = 0
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.modes = {}
        self.raised = {}


class Run:
    """explore all paths of one harness and decide its obligations"""

    def __init__(self, harness, make_e, seed=1, budget=120.0, max_paths=400, prover_timeout=8.0, validate=None,
                 max_concretize=24):
        self.h = harness
        self.make_e = make_e
        self.seed = seed
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.prover_timeout = prover_timeout
        self.work = [[]]
        self.seen = set()
        self.out = Outcome()
        self.validate = validate
        self.max_concretize = max_concretize
        self.concvals = {}
        self.cur = None

    def check_deadline(self):
        if time.time() > self.deadline:
            raise Bound("time budget exhausted")

    def push(self, prefix):
        self.work.append(prefix)

    def const_value(self, ctx, t):
        return None

    def explore(self):
        o = self.out
        while self.work:
            if time.time() > self.deadline:
                o.inconclusive.append("time budget exhausted with %d unexplored branches" % len(self.work))
                break
            if o.paths + o.aborted >= self.max_paths:
                o.inconclusive.append("path bound %d exceeded" % self.max_paths)
                break
            prefix = self.work.pop()
            self.one(prefix)
            if len(o.violations) >= 3 or len(o.inconclusive) >= 6:
                break
        if o.violations:
            o.status = "violation"
        elif o.inconclusive:
            o.status = "inconclusive"
        elif o.paths == 0 or o.obligations == 0:
            o.status = "vacuous"
        return o

    def one(self, prefix):
        o = self.out
        c = Ctx(self, prefix)
        self.cur = c
        vl._ctx[0] = c
        tm.set_ctx(c)
        exc = None
        e = self.make_e(c, self)
        try:
            try:
                self.h(e)
            finally:
                e.cleanup()
        except Abort:
            o.aborted += 1
            o.branches += len(c.decisions)
            return
        except Bound as b:
            o.inconclusive.append(str(b))
            return
        except EngineError as ex:
            o.inconclusive.append("%s: %s [%s]" % (type(ex).__name__, ex, _where(ex)))
            return
        except Exception as ex:
            exc = ex
        finally:
            tm.pop_ctx()
            vl._ctx[0] = None
        o.branches += len(c.decisions)
        if exc is not None:
            self.handle_exception(c, exc)
            return
        o.paths += 1
        tm.set_ctx(c)
        vl._ctx[0] = c
        try:
            self.finish(c)
        except Bound as b:
            o.inconclusive.append(str(b))
        finally:
            tm.pop_ctx()
            vl._ctx[0] = None

    def handle_exception(self, c, exc):
        """the code under test raised on this path: a violation if it reproduces concretely"""
        o = self.out
        tm.set_ctx(c)
        try:
            env = c.find_model([], tries=60)
        finally:
            tm.pop_ctx()
        desc = "raised %s: %s [%s]" % (type(exc).__name__, str(exc)[:200], _where(exc))
        if env is None:
            if c.unsat_pc():
                o.aborted += 1
                return
            o.inconclusive.append("path " + desc + " (no model)")
            return
        r = self.validate(env, dict(kind="exception", exc=type(exc).__name__))
        if r.get("status") == "violation":
            o.violations.append(dict(label="unexpected exception", detail=r.get("detail", desc), env=ser(env)))
        elif r.get("status") in ("assume",):
            o.aborted += 1
        else:
            o.inconclusive.append("engine-side exception: " + desc)

    # ------------------------------------------------------------------ obligations
    def finish(self, c):
        o = self.out
        pending = []
        for rec in c.records:
            if rec["kind"] == "value":
                continue
            o.obligations += 1
            st, info = self.decide_goal(c, rec)
            if st == "proved":
                o.discharged += 1
                o.modes[info] = o.modes.get(info, 0) + 1
            elif st == "violation":
                o.violations.append(info)
            else:
                o.inconclusive.append("%s: %s" % (rec["label"], info))
        # encoding validation on one model of the path
        if self.validate is not None:
            self.validate_path(c)

    def validate_path(self, c):
        o = self.out
        bad = None
        for k in range(3):
            env = c.sample() if k == 0 else c.find_model([], tries=40, quick=True)
            if env is None:
                break
            pred = []
            ok = True
            for rec in c.records:
                try:
                    pred.append(predict(rec, env))
                except Exception:
                    ok = False
                    break
            if not ok:
                c.model = None
                continue
            r = self.validate(env, dict(kind="validate", pred=pred))
            if r["status"] == "ok":
                o.validated += 1
                if len(o.samples) < 3:
                    o.samples.append(dict(inputs=ser(env), checks=[p["label"] for p in pred][:12]))
                return
            if r["status"] == "violation-confirmed":
                o.violations.append(dict(label=r["label"], detail=r["detail"], env=ser(env)))
                return
            bad = r
            c.model = None
        if bad is not None and bad["status"] == "mismatch":
            o.inconclusive.append("encoding mismatch: %s" % bad["detail"])

    def decide_goal(self, c, rec):
        """returns ('proved', how) | ('violation', dict) | ('unknown', why)"""
        goal = rec["goal"]
        t_end = min(self.deadline, time.time() + self.prover_timeout * 6)
        how = self.prove(c, goal, t_end)
        if how:
            return "proved", how
        if rec.get("pairs") and self.prove_rounded(c, rec, t_end):
            return "proved", "normal-form up to rounding of constants"
        if goal is tm.FALSE and c.unsat_pc():
            return "proved", "infeasible-path"
        # counterexample search
        margin = None
        if rec.get("margin") is not None:
            margin = rec["margin"]
        cands = 0
        t_w = min(self.deadline, time.time() + 25)
        for k in range(4):
            ng = tm.bnot(goal)
            env = c.find_model([ng] if k % 2 == 0 or True else [], tries=80, margin=margin, deadline=t_w)
            if env is None:
                break
            cands += 1
            r = self.validate(env, dict(kind="witness", label=rec["label"]))
            if r["status"] == "violation":
                return "violation", dict(label=r.get("label", rec["label"]), detail=r["detail"], env=ser(env))
            self.seed += 1000
        if c.unsat_pc():
            return "proved", "infeasible-path"
        how = self.prove(c, goal, min(self.deadline, time.time() + self.prover_timeout * 12), deep=True)
        if how:
            return "proved", how
        return "unknown", "not proved, %d candidate(s) did not reproduce: %s" % (cands, tm.show(goal, 5)[:300])

    def prove_rounded(self, c, rec, t_end):
        """equalities whose two sides have the same normal form up to 1e-11 relative differences of the coefficients (float
        constants that were computed in a different order)"""
        if any(g is tm.FALSE for g in rec["others"]):
            return False
        if rec["others"] and not self.prove(c, tm.band(*rec["others"]), t_end):
            return False
        for p, q in rec["pairs"]:
            if not self.prove(c, tm.eq(tm.mul(MARK_A, p), tm.mul(MARK_B, q)), t_end):
                return False
        return True

    def prove_marked(self, c, goal):
        try:
            n = al.numerator(goal.args[0])
            mp_ = {}
            for u in tm.subterms(n):
                if u.op in ("f", "k") and not tm.free_vars(u):
                    v = tm.evaluate(u, {}, mp)
                    mp_[u] = tm.const(Fraction(int(mp.floor(v * mp.mpf(10) ** 25)), 10 ** 25))
            if mp_:
                n = al.numerator(tm.substitute(n, mp_))
        except (RecursionError, ValueError, TypeError, ArithmeticError):
            return None
        cc, items = tm._lin(n)
        if cc != 0:
            return None
        ab = {}
        for m, k in items.items():
            fs = m.args[0] if m.op == "*" else ((m, Fraction(1)),)
            mark = [b for b, e in fs if b is MARK_A or b is MARK_B]
            if len(mark) != 1:
                return None
            rest = tuple(sorted((b.id, e) for b, e in fs if b is not mark[0]))
            ab.setdefault(rest, [0, 0])[mark[0] is MARK_B] += k
        for a, b in ab.values():
            if abs(a + b) > Fraction(1, 10 ** 11) * max(abs(a), abs(b)):
                return None
        pv.solve([tm.FALSE], {}, 0.2, kind="goal")
        return "rounding"

    def prove(self, c, goal, t_end, deep=False, depth=0):
        if goal is tm.TRUE:
            # still discharge through the solver so that the verdict is the solver's
            pv.solve([tm.FALSE], {}, 0.2, kind="goal")
            return "trivial"
        if goal.op == "&":
            hows = []
            for g in goal.args[0]:
                h = self.prove(c, g, t_end, deep, depth)
                if not h:
                    return None
                hows.append(h)
            return hows[0] if len(set(hows)) == 1 else "conj"
        if c.known(goal) is True:
            pv.solve([goal, tm.bnot(goal)], c.bounds, 1.0, kind="goal")
            return "path-condition"
        if time.time() > t_end:
            return None
        # equalities known on this path: substitute variables defined by linear equations
        g2 = self.subst_eqs(c, goal)
        if g2 is not goal:
            return self.prove(c, g2, t_end, deep, depth)
        conds = ite_conds(goal)
        if not conds or depth >= 7:
            return self.prove_leaf(c, goal, t_end, deep)
        # quick attempt first
        if goal.op in ("=",) and not tm_has_ite(goal):
            pass
        h = self.prove_leaf(c, goal, min(t_end, time.time() + 1.5), False, quick=True)
        if h:
            return h
        cond = conds[0]
        hows = []
        for val in (True, False):
            cc = cond if val else tm.bnot(cond)
            k = c.known(cc)
            if k is False:
                continue
            sub = c
            if k is None:
                if c.unsat([cc], timeout=0.6, kind="case"):
                    continue
                sub = fork_ctx(c, cc)
            tm.set_ctx(sub)
            try:
                g = tm.substitute(goal, case_map(goal, cond, val))
                h = self.prove(sub, g, t_end, deep, depth + 1)
            finally:
                tm.pop_ctx()
            if not h:
                return None
            hows.append(h)
        return "cases"

    def subst_eqs(self, c, goal):
        fv = tm.free_vars(goal)
        for p in c.pc:
            if p.op != "=":
                continue
            t = p.args[0]
            cc, d = tm._lin(t)
            for u, k in d.items():
                if u.op == "v" and u.args[1] == "real" and u in fv:
                    rest = tm.mk_lin(cc, {w: q for w, q in d.items() if w is not u})
                    if u in tm.free_vars(rest):
                        continue
                    # u = -rest/k ; orient to avoid cycles: only towards constants or older vars
                    val = tm.scale(rest, -1 / k)
                    if any(v.id >= u.id for v in tm.free_vars(val)):
                        continue
                    return tm.substitute(goal, {u: val})
        return goal

    def prove_linearised(self, c, g):
        """an inequality between sums, each non-linear term taken as an unknown within its interval"""
        if g.op not in ("<", "<=") or g.args[0].op != "+" or len(g.args[0].args[1]) > 40:
            return False
        t, memo, bounds, out = g.args[0], {}, {}, [tm.const(g.args[0].args[0])]
        for i, (m, k) in enumerate(t.args[1]):
            iv = c.interval(m, memo)
            if iv is None or math.isinf(iv[0]) or math.isinf(iv[1]):
                return False
            nm = "lin!%d" % i
            bounds[nm] = (Fraction(iv[0]), Fraction(iv[1]), False, False)
            out.append(tm.scale(tm.var(nm), k))
        t2 = tm.add(*out)
        ng = tm.bnot(tm.lt(t2, tm.ZERO) if g.op == "<" else tm.le(t2, tm.ZERO))
        return pv.solve([ng], bounds, 1.0, kind="goal", engines=("smt",))[0] == "unsat"

    def prove_leaf(self, c, goal, t_end, deep, quick=False):
        if MARK_A in tm.free_vars(goal) or MARK_B in tm.free_vars(goal):
            return self.prove_marked(c, goal)
        goals = [goal]
        if goal.op == "=":
            try:
                n = al.numerator(goal.args[0])
            except RecursionError:
                n = None
            if n is not None:
                if n.op == "c":
                    if n.args[0] == 0:
                        pv.solve([tm.bnot(tm.eq(n, tm.ZERO))], c.bounds, 0.5, kind="goal")
                        return "normal-form"
                else:
                    goals.append(tm.eq(n, tm.ZERO))
        elif goal.op in ("<", "<="):
            den = []
            try:
                n = al.numerator(goal.args[0], denoms=den)
            except RecursionError:
                n = None
            if n is not None:
                s = 1
                for b, e in den:
                    sb = c.sign(b)
                    if e.denominator != 1 or e % 2 == 0 or sb in ("+", ">="):
                        continue
                    if sb in ("-", "<="):
                        s = -s
                    else:
                        s = None
                        break
                if s is not None:
                    nn = tm.scale(n, s)
                    g = tm.lt(nn, tm.ZERO) if goal.op == "<" else tm.le(nn, tm.ZERO)
                    if g is tm.TRUE:
                        pv.solve([tm.bnot(g)], c.bounds, 0.5, kind="goal")
                        return "normal-form"
                    if g is not goal:
                        goals.append(g)
            if self.prove_linearised(c, goals[-1]):
                return "smt:linearised"
        goals = list(reversed(goals))
        if quick:
            plans = [("smt", 0.5)]
        elif not deep:
            plans = [("smt", 1.0), ("nra", self.prover_timeout / 3), ("smt", self.prover_timeout / 2)]
        else:
            plans = [("nra", self.prover_timeout), ("smt", self.prover_timeout * 2), ("cvc5", self.prover_timeout * 2)]
        refuted = set()
        for eng, to in plans:
            for g in goals:
                for rel in ((True, False) if deep else (True,)):
                    if time.time() > t_end:
                        return None
                    ng = tm.bnot(g)
                    pc = c.relevant([ng]) if rel else c.pc
                    if (g, len(pc)) in refuted:
                        continue
                    r, _ = pv.solve(pc + [ng], c.bounds, min(to, max(0.2, t_end - time.time())), kind="goal", engines=(eng,))
                    if r == "unsat":
                        return "smt:" + eng
                    if r == "sat":
                        refuted.add((g, len(pc)))
        return None


def _unsat_pc(self):
    return self.unsat_all()


def unsat_all(self, timeout=3.0):
    tm.set_ctx(self)
    try:
        # the conditions on few variables first: they are cheap and often already contradictory
        small = [p for p in self.pc if len(tm.free_vars(p)) <= 2]
        r = None
        if 0 < len(small) < len(self.pc):
            r, _ = pv.solve(small, self.bounds, min(timeout, 1.0), kind="feas")
        if r != "unsat":
            r, _ = pv.solve(list(self.pc), self.bounds, timeout, kind="feas")
    finally:
        tm.pop_ctx()
    return r == "unsat"


Ctx.unsat_pc = lambda self: unsat_all(self)


def fork_ctx(c, cond):
    n = Ctx.__new__(Ctx)
    n.__dict__.update(c.__dict__)
    n.pc = list(c.pc)
    n.pcset = set(c.pcset)
    n.facts = dict(c.facts)
    n.signcache = {}
    n.model = None
    n.model_pc = -1
    n.assume(cond)
    return n


def case_map(goal, cond, val):
    mp_ = {}
    neg = tm.bnot_shallow(cond)
    for t in tm.subterms(goal):
        if t is cond:
            mp_[t] = tm.TRUE if val else tm.FALSE
        elif neg is not None and t is neg:
            mp_[t] = tm.FALSE if val else tm.TRUE
    return mp_


def ite_conds(goal):
    """conditions of ite nodes, innermost-first, in a deterministic order"""
    out = []
    seen = set()
    for t in tm.subterms(goal):
        if t.op == "i":
            cnd = t.args[0]
            if cnd not in seen and not tm_has_ite(cnd):
                seen.add(cnd)
                out.append(cnd)
    out.sort(key=lambda t: t.id)
    return out


def tm_has_ite(t):
    return any(u.op == "i" for u in tm.subterms(t))


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    frames = [f for f in tb if "/repo/" in f.filename] or tb
    f = frames[-1]
    s = "%s:%d" % (f.filename.split("/repo/")[-1], f.lineno)
    l = tb[-1]
    return s + " <- %s:%d" % (l.filename.split("/")[-1], l.lineno)


def ser(env):
    out = {}
    for k, v in env.items():
        if isinstance(v, bool):
            out[k] = v
        else:
            out[k] = str(Fraction(v))
    return out


def deser(env):
    out = {}
    for k, v in env.items():
        out[k] = v if isinstance(v, bool) else Fraction(v)
    return out


def num(x, env):
    """numeric prediction of a recorded value"""
    if isinstance(x, (list, tuple)):
        return [num(v, env) for v in x]
    if isinstance(x, np.ndarray):
        return [num(v, env) for v in x.reshape(-1)]
    if isinstance(x, Sym):
        return float(tm.evaluate(x.t, env, mp))
    if isinstance(x, SymBool):
        return bool(tm.evaluate(x.t, env, mp))
    if isinstance(x, CSym):
        return [num(x.re, env), num(x.im, env)]
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating, Fraction)):
        return float(x)
    return str(x)


def predict(rec, env):
    d = dict(label=rec["label"], kind=rec["kind"])
    d["values"] = num(rec.get("values", []), env)
    return d
