"""SMT back end: translation of terms to z3 with axioms for elementary functions, proof
portfolio and model extraction."""
import os
import sys
import time
import itertools
import subprocess
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(_VT)
import z3  # noqa: E402
sys.path.remove(_VT)

from . import terms as tm  # noqa: E402
from . import algebra as al  # noqa: E402

z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.by = {}

    def add(self, kind, dt, res):
        self.queries += 1
        self.time += dt
        self.by[kind] = self.by.get(kind, 0) + 1
        if res == "unknown":
            self.unknown += 1


STATS = Stats()

INCR = {"erf", "arctan", "sinh", "tanh"}       # increasing on all of R
INVERSE = {"erfinv": "erf", "stdtrit": "stdtr", "gammaincinv": "gammainc", "btdtri": "btdtr"}
GRAPHED = {"erf", "stdtr", "gammainc", "btdtr"}   # last argument increasing, other args parameters


def q2z(q):
    return z3.RealVal(str(q.numerator)) if q.denominator == 1 else z3.Q(q.numerator, q.denominator)


class Translator:
    """One query: terms -> z3 expressions, collecting definitional lemmas."""

    def __init__(self, var_bounds):
        self.var_bounds = var_bounds
        self.memo = {}
        self.lem = []
        self.atoms = {}      # fn name -> list of terms
        self.roots = {}      # base -> denominator lcm
        self.rootvar = {}
        self.invvar = {}
        self.names = itertools.count()
        self.zvars = {}
        self.has_int = False
        self.extra_pts = []

    def collect_products(self, ts):
        """positive monomials containing exponentials: (log M, M) lies on the graph of exp"""
        facts = getattr(tm.cur_ctx(), "facts", None)
        out, seen = [], set()
        for t in tm.subterms(*ts):
            if t.op != "*" or t in seen:
                continue
            ex = [b for b, _ in t.args[0] if b.op == "f" and b.args[0] == "exp"]
            if not ex or not all(tm.struct_sign(b, facts) == "+" for b, _ in t.args[0]):
                continue
            parts = [t]
            if len(ex) < len(t.args[0]) and (len(ex) > 1):
                parts.append(tm.mul(*[tm.power(b, e) for b, e in t.args[0] if b in ex]))
            for m in parts:
                if m in seen or m.op != "*":
                    continue
                seen.add(m)
                L = tm.ZERO
                for b, e in m.args[0]:
                    L = tm.add(L, tm.scale(tm.log(b), e))
                out.append((tm.expand(L), m))
        self.extra_pts = out[:8]
        return [x for p in self.extra_pts for x in p]

    # -- preparation: find lcm of the exponent denominators per base
    def prepare(self, ts):
        for t in tm.subterms(*ts):
            if t.op == "*":
                for b, e in t.args[0]:
                    if e.denominator != 1:
                        q = self.roots.get(b, 1)
                        self.roots[b] = q * e.denominator // al._gcd(q, e.denominator)

    def fresh(self, p="a"):
        return z3.Real("%s!%d" % (p, next(self.names)))

    def zvar(self, t):
        z = self.zvars.get(t)
        if z is None:
            name, sort = t.args
            if sort == "int":
                z = z3.Int(name)
                self.has_int = True
            else:
                z = z3.Real(name)
            self.zvars[t] = z
            lo, hi, slo, shi = self.var_bounds.get(name, (None, None, False, False))
            if lo is not None:
                self.lem.append(z > q2z(lo) if slo else z >= q2z(lo))
            if hi is not None:
                self.lem.append(z < q2z(hi) if shi else z <= q2z(hi))
        return z

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == "c":
            return q2z(t.args[0])
        if op == "v":
            z = self.zvar(t)
            return z3.ToReal(z) if t.args[1] == "int" else z
        if op == "b":
            return z3.Bool(t.args[0])
        if op == "k":
            z = z3.Real("const!" + t.args[0])
            lo, hi = {"pi": ("3.14159265358979323846", "3.14159265358979323847"),
                      "egamma": ("0.57721566490153286060", "0.57721566490153286061")}[t.args[0]]
            self.lem += [z > z3.RealVal(lo), z < z3.RealVal(hi)]
            return z
        if op == "+":
            c, items = t.args
            s = [self.tr(u) if k == 1 else q2z(k) * self.tr(u) for u, k in items]
            if c:
                s.append(q2z(c))
            return s[0] if len(s) == 1 else z3.Sum(s)
        if op == "*":
            out = []
            for b, e in t.args[0]:
                q = self.roots.get(b, 1)
                n = e * q
                assert n.denominator == 1
                n = int(n)
                base = self.root(b, q) if q != 1 else self.tr(b)
                if n < 0:
                    base = self.inv(b, q, base)
                    n = -n
                out += [base] * n
            r = out[0]
            for o in out[1:]:
                r = r * o
            return r
        if op == "i":
            return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op == "<":
            return self.tr(t.args[0]) < 0
        if op == "<=":
            return self.tr(t.args[0]) <= 0
        if op == "=":
            return self.tr(t.args[0]) == 0
        if op == "!":
            return z3.Not(self.tr(t.args[0]))
        if op == "&":
            return z3.And([self.tr(u) for u in t.args[0]])
        if op == "|":
            return z3.Or([self.tr(u) for u in t.args[0]])
        if op == "f":
            z = self.fresh("f")
            self.atoms.setdefault(t.args[0], []).append(t)
            for u in t.args[1:]:
                if isinstance(u, tm.T):
                    self.tr(u)
            return z
        raise NotImplementedError(op)

    def root(self, b, q):
        r = self.rootvar.get(b)
        if r is None:
            r = self.fresh("r")
            self.rootvar[b] = r
            zb = self.tr(b)
            p = r
            for _ in range(q - 1):
                p = p * r
            nonneg = (b.op == "c") or tm.struct_sign(b, None) in ("+", ">=")
            if nonneg:
                self.lem += [r >= 0, p == zb]
                if b.op == "c":
                    # rational enclosure
                    v = float(b.args[0]) ** (1.0 / q)
                    self.lem += [r > q2z(Fraction(v) * (1 - Fraction(1, 10 ** 12))),
                                 r < q2z(Fraction(v) * (1 + Fraction(1, 10 ** 12)))]
            else:
                self.lem.append(r >= 0)
                self.lem.append(z3.Implies(zb >= 0, p == zb))
        return r

    def inv(self, b, q, base):
        key = b
        r = self.invvar.get(key)
        if r is None:
            r = self.fresh("i")
            self.invvar[key] = r
            if q != 1 or tm.struct_sign(b, None) in ("+", "-", "!="):
                if q != 1 and not (tm.struct_sign(b, None) == "+"):
                    self.lem.append(z3.Implies(base != 0, r * base == 1))
                    self.lem.append(z3.Implies(base > 0, r > 0))
                else:
                    self.lem.append(r * base == 1)
                    if tm.struct_sign(b, None) == "+":
                        self.lem.append(r > 0)
            else:
                self.lem.append(z3.Implies(base != 0, r * base == 1))
        return r

    # ------------------------------------------------------------------ axioms
    def axioms(self, level=1):
        out = []
        A = self.atoms
        tr = self.tr
        done = False
        # translating arguments may create new atoms -> handled because tr() recursed already
        E = A.get("exp", [])
        L = A.get("log", [])
        pts = []
        for t in E:
            x, y = tr(t.args[1]), tr(t)
            out.append(y > 0)
            out.append(y >= 1 + x)
            out.append((x > 0) == (y > 1))
            out.append((x == 0) == (y == 1))
            c = t.args[1]
            if c.op == "c":
                import math
                v = Fraction(math.exp(float(c.args[0])))
                out += [y > q2z(v * (1 - Fraction(1, 10 ** 12))), y < q2z(v * (1 + Fraction(1, 10 ** 12)))]
            if level >= 1:
                out.append(z3.Implies(x < 1, y * (1 - x) <= 1))
            pts.append((x, y))
        for t in L:
            x, y = tr(t), tr(t.args[1])
            c = t.args[1]
            if c.op == "c" or c.op == "k":
                import math
                v = Fraction(math.log(float(c.args[0]) if c.op == "c" else {"pi": math.pi, "egamma": 0.5772156649015329}[c.args[0]]))
                eps = Fraction(1, 10 ** 12)
                out += [x > q2z(v - eps), x < q2z(v + eps)]
                if c.op == "k":
                    pts.append((x, y))
                    continue
            g = y > 0
            imp = (lambda p: p) if tm.struct_sign(c, None) == "+" else (lambda p: z3.Implies(g, p))
            out.append(imp(x <= y - 1))
            out.append(imp((x > 0) == (y > 1)))
            out.append(imp((x == 0) == (y == 1)))
            if level >= 1:
                out.append(imp(y * x >= y - 1))
            pts.append((x, y, g) if tm.struct_sign(c, None) != "+" else (x, y))
        for L_, M_ in self.extra_pts:
            x, y = tr(L_), tr(M_)
            out += [(x > 0) == (y > 1), (x == 0) == (y == 1), y > 0]
            if level >= 1:
                out += [y >= 1 + x]
            pts.append((x, y))
        if len(pts) <= 18:
            for p, q in itertools.combinations(pts, 2):
                g = [v for v in (p[2:] + q[2:])]
                c = z3.And((p[0] < q[0]) == (p[1] < q[1]), (p[0] == q[0]) == (p[1] == q[1]))
                out.append(z3.Implies(z3.And(g), c) if g else c)
        # trig
        pi = None
        S, C = A.get("sin", []), A.get("cos", [])
        if S or C or A.get("arccos") or A.get("arcsin") or A.get("arctan") or A.get("arctan2"):
            pi = tr(tm.PI)
        sarg = {t.args[1]: t for t in S}
        carg = {t.args[1]: t for t in C}
        for a in set(sarg) | set(carg):
            s = tr(tm.fn("sin", a))
            c = tr(tm.fn("cos", a))
            x = tr(a)
            out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            out.append(z3.Implies(z3.And(x >= 0, x <= pi), s >= 0))
            out.append(z3.Implies(z3.And(x > 0, x < pi), s > 0))
            out.append(z3.Implies(z3.And(x >= -pi, x <= 0), s <= 0))
            out.append(z3.Implies(z3.And(x >= pi, x <= 2 * pi), s <= 0))
            out.append(z3.Implies(z3.And(2 * x >= -pi, 2 * x <= pi), c >= 0))
            out.append(z3.Implies(z3.And(2 * x > -pi, 2 * x < pi), c > 0))
            out.append(z3.Implies(z3.And(2 * x >= pi, 2 * x <= 3 * pi), c <= 0))
            out.append(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
            out.append(z3.Implies(x == pi, z3.And(s == 0, c == -1)))
            out.append(z3.Implies(x == 2 * pi, z3.And(s == 0, c == 1)))
            out.append(z3.Implies(2 * x == pi, z3.And(s == 1, c == 0)))
            out.append(z3.Implies(2 * x == -pi, z3.And(s == -1, c == 0)))
            out.append(z3.Implies(x >= 0, s <= x))
        args = sorted(set(sarg) | set(carg), key=lambda t: t.id)
        for a, b in itertools.combinations(args, 2):
            if len(args) > 8:
                break
            xa, xb = tr(a), tr(b)
            sa, sb = tr(tm.fn("sin", a)), tr(tm.fn("sin", b))
            ca, cb = tr(tm.fn("cos", a)), tr(tm.fn("cos", b))
            out.append(z3.Implies(z3.And(2 * xa >= -pi, 2 * xa <= pi, 2 * xb >= -pi, 2 * xb <= pi),
                                  (xa < xb) == (sa < sb)))
            out.append(z3.Implies(z3.And(xa >= 0, xa <= pi, xb >= 0, xb <= pi), (xa < xb) == (ca > cb)))
            out.append(z3.Implies(xa == xb, z3.And(sa == sb, ca == cb)))
        # arccos / arcsin graphs (decreasing / increasing)
        AC = [(tr(t.args[1]), tr(t), None) for t in A.get("arccos", [])]
        for x, y, _ in AC:
            ok = z3.And(x >= -1, x <= 1)
            out += [y >= 0, y <= pi, z3.Implies(ok, (x == 1) == (y == 0)), z3.Implies(ok, (x == -1) == (y == pi)),
                    z3.Implies(ok, (x > 0) == (2 * y < pi)), z3.Implies(ok, (x < 0) == (2 * y > pi))]
        if AC:
            cp = [(tr(tm.fn("cos", a)), tr(a), z3.And(tr(a) >= 0, tr(a) <= pi)) for a in args]
            for p, q in list(itertools.combinations(AC, 2)) + [(p, q) for p in AC for q in cp]:
                c = z3.And((p[0] < q[0]) == (p[1] > q[1]), (p[0] == q[0]) == (p[1] == q[1]))
                out.append(z3.Implies(q[2], c) if q[2] is not None else c)
        AS = [(tr(t.args[1]), tr(t), None) for t in A.get("arcsin", [])]
        for x, y, _ in AS:
            ok = z3.And(x >= -1, x <= 1)
            out += [2 * y >= -pi, 2 * y <= pi, z3.Implies(ok, (x == 1) == (2 * y == pi)),
                    z3.Implies(ok, (x == -1) == (2 * y == -pi)),
                    (x > 0) == (y > 0), (x == 0) == (y == 0)]
        for p, q in itertools.combinations(AS, 2):
            out.append(z3.And((p[0] < -q[0]) == (p[1] < -q[1]), (p[0] == -q[0]) == (p[1] == -q[1])))
        if AS:
            cp = [(tr(tm.fn("sin", a)), tr(a), z3.And(2 * tr(a) >= -pi, 2 * tr(a) <= pi)) for a in args]
            for p, q in list(itertools.combinations(AS, 2)) + [(p, q) for p in AS for q in cp]:
                c = z3.And((p[0] < q[0]) == (p[1] < q[1]), (p[0] == q[0]) == (p[1] == q[1]))
                out.append(z3.Implies(q[2], c) if q[2] is not None else c)
        for t in A.get("arctan", []):
            x, y = tr(t.args[1]), tr(t)
            out += [2 * y > -pi, 2 * y < pi, (x > 0) == (y > 0), (x == 0) == (y == 0)]
        for t in A.get("arctan2", []):
            y_, x_, th = tr(t.args[1]), tr(t.args[2]), tr(t)
            out += [th > -pi, th <= pi]
            s = self.memo.get(tm.fn("sin", t))
            c = self.memo.get(tm.fn("cos", t))
            if s is not None and c is not None:
                r = self.fresh("rho")
                out += [r >= 0, r * r == x_ * x_ + y_ * y_, r * s == y_, r * c == x_]
        # increasing graphs with inverse points
        for name in ("erf", "arctan") + tuple(GRAPHED - {"erf"}):
            inv = {v: k for k, v in INVERSE.items()}.get(name)
            pts = []
            for t in A.get(name, []):
                pts.append((t.args[1:-1], tr(t.args[-1]), tr(t)))
            for t in (A.get(inv, []) if inv else []):
                pts.append((t.args[1:-1], tr(t), tr(t.args[-1])))
            for _, x, y in pts:
                if name == "erf":
                    out += [y > -1, y < 1, (x > 0) == (y > 0), (x == 0) == (y == 0)]
                elif name == "stdtr":
                    out += [y > 0, y < 1, (x > 0) == (2 * y > 1), (x == 0) == (2 * y == 1)]
                elif name == "gammainc":
                    out += [y >= 0, y < 1, x >= 0, (x > 0) == (y > 0)]
                elif name == "btdtr":
                    out += [y >= 0, y <= 1, x >= 0, x <= 1, (x > 0) == (y > 0), (x < 1) == (y < 1)]
            for p, q in itertools.combinations(pts, 2):
                c = z3.And((p[1] < q[1]) == (p[2] < q[2]), (p[1] == q[1]) == (p[2] == q[2]))
                if name in ("erf", "arctan"):
                    c = z3.And(c, (p[1] < -q[1]) == (p[2] < -q[2]), (p[1] == -q[1]) == (p[2] == -q[2]))
                g = [tr(a) == tr(b) for a, b in zip(p[0], q[0]) if a is not b]
                out.append(z3.Implies(z3.And(g), c) if g else c)
        for t in A.get("floor", []):
            x, y = tr(t.args[1]), tr(t)
            n = z3.Int("fl!%d" % next(self.names))
            self.has_int = True
            out += [y == z3.ToReal(n), y <= x, x < y + 1]
        # functional consistency for everything else
        known = {"exp", "log", "sin", "cos", "arccos", "arcsin", "arctan", "floor"} | set(GRAPHED) | set(INVERSE)
        for name, ts in A.items():
            if name in known or len(ts) > 12:
                continue
            for s, t in itertools.combinations(ts, 2):
                if len(s.args) != len(t.args):
                    continue
                g = []
                ok = True
                for a, b in zip(s.args[1:], t.args[1:]):
                    if isinstance(a, tm.T) and isinstance(b, tm.T):
                        if a is not b:
                            g.append(tr(a) == tr(b))
                    elif a != b:
                        ok = False
                if ok:
                    out.append(z3.Implies(z3.And(g), tr(s) == tr(t)))
        return out


def _fix_axioms(T, level):
    """iterate because axioms may introduce new atoms (e.g. sin for a cos)"""
    n = -1
    ax = []
    for _ in range(4):
        cnt = sum(len(v) for v in T.atoms.values())
        if cnt == n:
            break
        n = cnt
        ax = T.axioms(level)
    return ax


def build(assertions, var_bounds, level=1):
    T = Translator(var_bounds)
    T.prepare(list(assertions) + T.collect_products(assertions))
    zs = [T.tr(a) for a in assertions]
    ax = _fix_axioms(T, level)
    return T, zs + ax + T.lem


def _val(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def solve(assertions, var_bounds, timeout=2.0, want_model=False, kind="query", engines=("nra", "smt"), level=1):
    """returns ('unsat'|'sat'|'unknown', model dict name->Fraction|bool)"""
    t0 = time.time()
    if any(a is tm.FALSE for a in assertions):
        T, zs = None, [z3.BoolVal(False)]
        s = z3.Solver()
        s.add(zs)
        r = s.check()
        STATS.add(kind, time.time() - t0, str(r))
        return "unsat", None
    T, zs = build([a for a in assertions if a is not tm.TRUE], var_bounds, level)
    res, model = "unknown", None
    n = len(engines)
    for i, e in enumerate(engines):
        if e == "nra":
            if T.has_int:
                continue
            s = z3.SolverFor("QF_NRA")
        elif e == "nlsat":
            if T.has_int:
                continue
            s = z3.Tactic("qfnra-nlsat").solver()
        elif e == "cvc5":
            r = _cvc5(zs, timeout)
            STATS.add(kind + ":cvc5", time.time() - t0, r)
            t0 = time.time()
            if r == "unsat":
                return r, None
            continue
        else:
            s = z3.Solver()
        s.set("timeout", max(50, int(timeout * 1000)))
        s.add(zs)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        STATS.add(kind + ":" + e, time.time() - t0, r)
        t0 = time.time()
        if r == "unsat":
            return "unsat", None
        if r == "sat":
            if want_model:
                try:
                    m = s.model()
                    model = {}
                    for t, z in T.zvars.items():
                        model[t.args[0]] = _val(m, z)
                    for a in assertions:
                        for b in tm.free_vars(a):
                            if b.op == "b":
                                model[b.args[0]] = z3.is_true(m.eval(z3.Bool(b.args[0]), model_completion=True))
                except z3.Z3Exception:
                    return "unknown", None
            return "sat", model
    return res, model


def _cvc5(zs, timeout):
    s = z3.Solver()
    s.add(zs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-cov", "-q"] if "ToInt" not in txt and "Int" not in txt
                           else ["cvc5", "--tlimit=%d" % int(timeout * 1000), "-q"],
                           input=txt, capture_output=True, text=True, timeout=timeout + 5)
    except Exception:
        return "unknown"
    out = p.stdout.strip().splitlines()
    if any("error" in l for l in out):
        return "unknown"
    return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
