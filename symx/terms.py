"""Hash-consed real/boolean term DAG used as the symbolic domain.

Reals are exact (rational idealisation of binary64).  Nodes:

  ('c', Fraction)                       constant
  ('v', name, sort)                     free symbolic input (sort real|int)
  ('k', name)                           named irrational constant (pi, ...)
  ('+', const, ((term, coef), ...))     linear combination
  ('*', ((term, exponent), ...))        power product, rational exponents
  ('f', name, args...)                  function application (exp, log, sin, erf ...)
  ('i', cond, a, b)                     if-then-else
  booleans: ('T',) ('F',) ('<', t) t<0, ('<=', t) t<=0, ('=', t) t==0,
            ('&', ts) ('|', ts) ('!', t) ('b', name)

Partial operations (division, log, even roots, arcsin ...) are only built after
the engine has forked on their domain, so simplifications such as x*x**-1 == 1
are valid on the path on which they are performed.
"""
from fractions import Fraction
from math import gcd
import itertools

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ("op", "args", "id", "isbool", "_hash", "memo")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_counter)
        t.isbool = op in ("T", "F", "<", "<=", "=", "&", "|", "!", "b")
        t.memo = None
        _table[key] = t
    return t


F0 = Fraction(0)
F1 = Fraction(1)


def const(q):
    return mk("c", Fraction(q))


ZERO = const(0)
ONE = const(1)
TRUE = mk("T")
FALSE = mk("F")
PI = mk("k", "pi")
EGAMMA = mk("k", "egamma")


def var(name, sort="real"):
    return mk("v", name, sort)


def boolvar(name):
    return mk("b", name)


# the active context supplies sign information ---------------------------------
class _NoCtx:
    def sign(self, t, use_solver=True):
        return struct_sign(t, None)


_ctx = [_NoCtx()]


def set_ctx(c):
    _ctx.append(c)


def pop_ctx():
    _ctx.pop()


def cur_ctx():
    return _ctx[-1]


# ------------------------------------------------------------------ sign info
# sign values: '+', '-', '0', '>=', '<=', '!=' or None
def neg_sign(s):
    return {"+": "-", "-": "+", "0": "0", ">=": "<=", "<=": ">=", "!=": "!=", None: None}[s]


def add_sign(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if a in ("+", ">=") and b in ("+", ">="):
        return "+" if "+" in (a, b) else ">="
    if a in ("-", "<=") and b in ("-", "<="):
        return "-" if "-" in (a, b) else "<="
    return None


def mul_sign(a, b):
    if a == "0" or b == "0":
        return "0"
    if a is None or b is None:
        return None
    if a == "!=" or b == "!=":
        return "!=" if a in ("+", "-", "!=") and b in ("+", "-", "!=") else None
    pos = (a in ("+", ">=")) == (b in ("+", ">="))
    strict = a in ("+", "-") and b in ("+", "-")
    return ("+" if strict else ">=") if pos else ("-" if strict else "<=")


POSFN = {"exp", "gamma_pos"}
NONNEGFN = {"gammainc", "btdtr", "stdtr", "arccos", "stdnormcdf"}


def struct_sign(t, facts):
    """sign by structure and recorded facts only"""
    if facts is not None:
        s = facts.get(t)
        if s is not None:
            return s
    op = t.op
    if op == "c":
        q = t.args[0]
        return "+" if q > 0 else "-" if q < 0 else "0"
    if op == "k":
        return "+"
    if op == "v":
        return None
    if op == "+":
        if facts is not None:
            s = facts.get(neg(t))
            if s is not None:
                return neg_sign(s)
        c, ts = t.args
        s = "+" if c > 0 else "-" if c < 0 else "0"
        for u, k in ts:
            su = struct_sign(u, facts)
            if su is None or su == "!=":
                if len(ts) == 1 and c == 0:
                    return su
                return None
            if k < 0:
                su = neg_sign(su)
            s = add_sign(s, su)
            if s is None:
                return None
        return s
    if op == "*":
        s = "+"
        for b, e in t.args[0]:
            if e.denominator != 1:
                sb = struct_sign(b, facts)
                u = "+" if sb in ("+", "-", "!=") else ("+" if e < 0 else ">=")
            elif e % 2 == 0:
                sb = struct_sign(b, facts)
                u = "+" if sb in ("+", "-", "!=") else ("+" if e < 0 else ">=")
            else:
                u = struct_sign(b, facts)
                if e < 0:
                    u = {">=": "+", "<=": "-"}.get(u, u)
                    if u is None:
                        u = "!="
            s = mul_sign(s, u)
            if s is None:
                return None
        return s
    if op == "f":
        n = t.args[0]
        if n in POSFN:
            return "+"
        if n in NONNEGFN:
            return ">="
        if n in ("erf", "arctan", "sinh", "tanh", "arcsin"):
            return struct_sign(t.args[1], facts)
        return None
    if op == "i":
        a = struct_sign(t.args[1], facts)
        b = struct_sign(t.args[2], facts)
        if a == b:
            return a
        if a is None or b is None:
            return None
        for s, grp in ((">=", ("+", "0", ">=")), ("<=", ("-", "0", "<=")), ("!=", ("+", "-", "!="))):
            if a in grp and b in grp:
                return s
        return None
    return None


def sign(t, use_solver=True):
    return cur_ctx().sign(t, use_solver)


# ------------------------------------------------------------------ linear part
def _lin(t):
    """(const, dict term->coef)"""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "+":
        return t.args[0], dict(t.args[1])
    return F0, {t: F1}


def mk_lin(c, d):
    items = tuple(sorted(((u, k) for u, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("+", Fraction(c), items)


def add(*ts):
    c = F0
    d = {}
    for t in ts:
        ci, di = _lin(t)
        c += ci
        for u, k in di.items():
            d[u] = d.get(u, F0) + k
    return mk_lin(c, d)


def scale(t, q):
    q = Fraction(q)
    if q == 0:
        return ZERO
    if q == 1:
        return t
    c, d = _lin(t)
    return mk_lin(c * q, {u: k * q for u, k in d.items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


# ------------------------------------------------------------------ products
def _coef_split(t):
    """t = q * u with u a non-sum, or a primitive sum"""
    if t.op == "c":
        return t.args[0], None
    if t.op == "+":
        c, items = t.args
        if c == 0 and len(items) == 1:
            return items[0][1], items[0][0]
        # primitive part with positive content
        nums = [k for _, k in items] + ([c] if c != 0 else [])
        g = 0
        l = 1
        for k in nums:
            g = gcd(g, abs(k.numerator))
            l = l * k.denominator // gcd(l, k.denominator)
        # content = g / l  (gcd of numerators over lcm of denominators)
        g = 0
        for k in nums:
            g = gcd(g, abs(int(k * l)))
        cont = Fraction(g, l)
        if cont != 1:
            return cont, scale(t, 1 / cont)
        return F1, t
    return F1, t


def _factors(t):
    if t.op == "*":
        return t.args[0]
    return ((t, F1),)


def _int_sign_norm(u):
    """for primitive sum u choose canonical sign; returns (s, u')"""
    if u.op == "+":
        lead = u.args[1][0][1]
        if lead < 0:
            return -1, neg(u)
    return 1, u


def mul(*ts):
    q = F1
    fac = {}
    for t in ts:
        qi, u = _coef_split(t)
        q *= qi
        if q == 0:
            return ZERO
        if u is None:
            continue
        for b, e in _factors(u):
            if b.op == "+" and e.denominator == 1:
                s, b = _int_sign_norm(b)
                if s < 0 and e % 2 == 1:
                    q = -q
            fac[b] = fac.get(b, F0) + e
    return _mk_mul(q, fac)


def _mk_mul(q, fac):
    fix = {}
    again = False
    for b, e in fac.items():
        if e == 0:
            continue
        if b.op == "c":
            # integer prime base with fractional exponent
            n = b.args[0]
            k = e.numerator // e.denominator
            if k:
                q *= n ** k
                e = e - k
            if e == 0:
                continue
        fix[b] = e
        if e.denominator == 1 and b.op in ("*",):
            again = True
        if b.op == "+" and e.denominator == 1 and _int_sign_norm(b)[0] < 0:
            again = True
    if again:
        fac2 = {}
        for b, e in fix.items():
            if b.op == "*" and e.denominator == 1:
                for b2, e2 in b.args[0]:
                    fac2[b2] = fac2.get(b2, F0) + e2 * e
            elif b.op == "+" and e.denominator == 1:
                s, b2 = _int_sign_norm(b)
                if s < 0 and e % 2 == 1:
                    q = -q
                fac2[b2] = fac2.get(b2, F0) + e
            else:
                fac2[b] = fac2.get(b, F0) + e
        return _mk_mul(q, fac2)
    if not fix:
        return const(q)
    items = tuple(sorted(fix.items(), key=lambda p: p[0].id))
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], q)
    return scale(mk("*", items), q)


_primes_cache = {}


def factorint(n):
    if n in _primes_cache:
        return _primes_cache[n]
    m, res, p = n, {}, 2
    while p * p <= m and p < 100000:
        while m % p == 0:
            res[p] = res.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        res[m] = res.get(m, 0) + 1
    _primes_cache[n] = res
    return res


def _const_pow(q, e):
    """q**e for q>0 rational; e rational"""
    if e.denominator == 1:
        return const(q ** int(e))
    fac = {}
    coef = F1
    for n, sgn in ((q.numerator, 1), (q.denominator, -1)):
        for p, k in factorint(n).items():
            ee = e * k * sgn
            b = const(p)
            fac[b] = fac.get(b, F0) + ee
    return _mk_mul(coef, fac)


def power(t, e):
    """t**e; caller guarantees t!=0 for e<0, t>=0 for non-integer e"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "c":
        q = t.args[0]
        if q == 0:
            return ZERO
        if e.denominator == 1:
            return const(q ** int(e))
        return _const_pow(q, e)
    q, u = _coef_split(t)
    integer = e.denominator == 1
    if integer:
        res = {}
        coef = q ** int(e)
        for b, k in _factors(u):
            if b.op == "+" and (k * e).denominator == 1 and k.denominator == 1:
                s, b = _int_sign_norm(b)
                if s < 0 and (k * e) % 2 == 1:
                    coef = -coef
            res[b] = res.get(b, F0) + k * e
        return _mk_mul(coef, res)
    # non-integer power of something >= 0
    if q < 0:
        u2 = neg(u)
        cf = _const_pow(-q, e)
        if u2.op == "+":
            return mul(cf, mk("*", ((u2, e),)))
        return mul(cf, mk("*", ((u2, e),)))
    cf = _const_pow(q, e)
    if u.op == "+":
        from .algebra import factor_sum
        fac = factor_sum(u)
        if fac is not None:
            q2, fl = fac
            if q2 < 0 and len(fl) and fl[0][1] % 2 == 1:
                fl = [(neg(fl[0][0]), fl[0][1])] + fl[1:]
                q2 = -q2
            if q2 > 0:
                fdict = {}
                for b, k in fl:
                    fdict[b] = fdict.get(b, F0) + k
                if not (len(fl) == 1 and fl[0][1] == 1):
                    cf = mul(cf, _const_pow(q2, e))
                    u = mk("*", tuple(sorted(fdict.items(), key=lambda p: p[0].id)))
    elif u.op == "*" and any(b.op == "+" and k.denominator == 1 for b, k in u.args[0]):
        from .algebra import factor_sum
        fdict = {}
        sgn = F1
        changed = False
        for b, k in u.args[0]:
            fac = factor_sum(b) if b.op == "+" and k.denominator == 1 else None
            if fac is None:
                fdict[b] = fdict.get(b, F0) + k
                continue
            changed = True
            sgn *= fac[0] ** int(k)
            for b2, k2 in fac[1]:
                fdict[b2] = fdict.get(b2, F0) + k * k2
        if changed and sgn > 0:
            return mul(cf, power(_mk_mul(sgn, fdict), e))
    pulled = {}
    rest = {}
    absd = []
    for b, k in _factors(u):
        if b.op == "c" or k.denominator != 1 or sign(b, False) in ("+", ">=", "0"):
            pulled[b] = pulled.get(b, F0) + k * e
        elif k % 2 == 0:
            sb = sign(b)
            if sb in ("+", ">=", "0"):
                pulled[b] = pulled.get(b, F0) + k * e
            elif sb in ("-", "<="):
                absd.append((neg(b), k * e))
            else:
                absd.append((absolute(b), k * e))
        else:
            rest[b] = k
    out = [cf]
    if len(rest) == 1:
        (b, k), = rest.items()
        # b**k >= 0 with k odd  => b >= 0
        pulled[b] = pulled.get(b, F0) + k * e
    elif rest:
        unknown = {}
        flips = 0
        for b, k in rest.items():
            sb = sign(b)
            if sb in ("+", ">="):
                pulled[b] = pulled.get(b, F0) + k * e
            elif sb in ("-", "<="):
                nb = neg(b)
                flips += 1
                pulled[nb] = pulled.get(nb, F0) + k * e
            else:
                unknown[b] = k
        if len(unknown) == 1:
            (b, k), = unknown.items()
            if flips % 2:
                b = neg(b)
            pulled[b] = pulled.get(b, F0) + k * e
        elif unknown:
            base = _mk_mul(F1, unknown)
            if flips % 2:
                base = neg(base)
            out.append(mk("*", ((base, e),)))
    for b, k in pulled.items():
        out.append(_pow1(b, k))
    for b, k in absd:
        out.append(_pow1(b, k))
    return mul(*out)


def _pow1(b, k):
    """b**k for b known >= 0 (no further sign analysis)"""
    if k.denominator == 1:
        return power(b, k)
    if b.op == "c":
        return _const_pow(b.args[0], k)
    q, u = _coef_split(b)
    if q > 0 and q != 1:
        return mul(_const_pow(q, k), _pow1(u, k))
    if u.op == "*" and q == 1:
        return mk("*", ((u, k),))
    if q < 0:
        b2 = neg(u)
        return mul(_const_pow(-q, k), mk("*", ((b2, k),)))
    return mk("*", ((b, k),))


def div(a, b):
    return mul(a, power(b, -1))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return bor(band(c, a), band(bnot(c), b))
    k = getattr(_ctx[-1], "settled", None)
    if k is not None:
        k = k(c)
        if k is not None:
            return a if k else b
    if c.op == "!":
        return mk("i", c.args[0], b, a)
    return mk("i", c, a, b)


def absolute(t):
    s = sign(t, False)
    if s in ("+", ">=", "0"):
        return t
    if s in ("-", "<="):
        return neg(t)
    if t.op == "c":
        return const(abs(t.args[0]))
    q, u = _coef_split(t)
    if u.op == "+":
        s_, u = _int_sign_norm(u)
    return scale(ite(le(ZERO, u), u, neg(u)), abs(q))


# ------------------------------------------------------------------ booleans
def _norm_cmp(t):
    """scale by positive rational to primitive form"""
    if t.op == "c":
        return t
    q, u = _coef_split(t)
    if q < 0:
        return neg(u)
    return u


def lt(a, b):
    t = _norm_cmp(sub(a, b))
    if t.op == "c":
        return TRUE if t.args[0] < 0 else FALSE
    return mk("<", t)


def le(a, b):
    t = _norm_cmp(sub(a, b))
    if t.op == "c":
        return TRUE if t.args[0] <= 0 else FALSE
    return mk("<=", t)


def eq(a, b):
    if a.isbool or b.isbool:
        return bor(band(a, b), band(bnot(a), bnot(b)))
    t = _norm_cmp(sub(a, b))
    if t.op == "c":
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == "+":
        s, t = _int_sign_norm(t)
    return mk("=", t)


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "!":
        return t.args[0]
    if t.op == "<":
        return mk("<=", _norm_cmp(neg(t.args[0])))
    if t.op == "<=":
        return mk("<", _norm_cmp(neg(t.args[0])))
    if t.op == "&":
        return bor(*[bnot(u) for u in t.args[0]])
    if t.op == "|":
        return band(*[bnot(u) for u in t.args[0]])
    return mk("!", t)


def band(*ts):
    s = []
    seen = set()
    for t in ts:
        for u in (t.args[0] if t.op == "&" else (t,)):
            if u is FALSE:
                return FALSE
            if u is TRUE or u in seen:
                continue
            seen.add(u)
            s.append(u)
    for u in s:
        if bnot_shallow(u) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("&", tuple(sorted(s, key=lambda u: u.id)))


def bor(*ts):
    s = []
    seen = set()
    for t in ts:
        for u in (t.args[0] if t.op == "|" else (t,)):
            if u is TRUE:
                return TRUE
            if u is FALSE or u in seen:
                continue
            seen.add(u)
            s.append(u)
    for u in s:
        if bnot_shallow(u) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("|", tuple(sorted(s, key=lambda u: u.id)))


def bnot_shallow(t):
    if t.op in ("&", "|"):
        return None
    return bnot(t)


# ------------------------------------------------------------------ expansion
_expand_memo = {}


def expand(t, limit=4000):
    """distribute products over sums (non-negative integer powers only)"""
    r = _expand_memo.get(t)
    if r is not None:
        return r
    r = _expand(t, limit)
    _expand_memo[t] = r
    return r


def _expand(t, limit):
    if t.op == "+":
        c, items = t.args
        return add(const(c), *[scale(expand(u, limit), k) for u, k in items])
    if t.op == "*":
        acc = [ONE]
        for b, e in t.args[0]:
            if b.op == "+" and e > 0 and e.denominator == 1 and e <= 8:
                bb = expand(b, limit)
                if bb.op != "+":
                    f = power(bb, e)
                    acc = [mul(x, f) for x in acc]
                    continue
                cc, ii = bb.args
                mons = ([const(cc)] if cc != 0 else []) + [scale(u, k) for u, k in ii]
                for _ in range(int(e)):
                    if len(acc) * len(mons) > limit:
                        return t
                    new = {}
                    s = [mul(x, m) for x in acc for m in mons]
                    tot = add(*s)
                    cc2, dd = _lin(tot)
                    acc = ([const(cc2)] if cc2 != 0 else []) + [scale(u, k) for u, k in dd.items()]
                    if not acc:
                        return ZERO
            else:
                f = mk("*", ((b, e),)) if e != 1 else b
                acc = [mul(x, f) for x in acc]
        return add(*acc)
    return t


# ------------------------------------------------------------------ functions
def fn(name, *args):
    return mk("f", name, *args)


def exp(t):
    t = expand(t)
    c, d = _lin(t)
    fac = {}
    outs = []
    if c != 0:
        if c.denominator <= 16:
            fac[fn("exp", ONE)] = c
        else:
            fac[fn("exp", const(abs(c)))] = F1 if c > 0 else -F1
    for u, k in d.items():
        if k.denominator > 16:
            b = fn("exp", scale(u, abs(k)))
            fac[b] = fac.get(b, F0) + (1 if k > 0 else -1)
            continue
        if u.op == "f" and u.args[0] == "log":
            outs.append(power(u.args[1], k))
            continue
        b = fn("exp", u)
        fac[b] = fac.get(b, F0) + k
    return mul(_mk_mul(F1, fac), *outs)


def log(t):
    """caller guarantees t > 0"""
    if t.op == "c":
        q = t.args[0]
        out = []
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            for p, k in factorint(n).items():
                out.append(scale(fn("log", const(p)), k * s))
        return add(*out) if out else ZERO
    q, u = _coef_split(t)
    if u.op == "*":
        s = 1 if q > 0 else -1
        out = [log(const(abs(q)))]
        rest = []
        for b, e in u.args[0]:
            if b.op == "c":
                out.append(scale(log(b), e))
            elif b.op == "f" and b.args[0] == "exp":
                out.append(scale(b.args[1], e))
            elif e.denominator != 1:
                out.append(scale(log(b), e))
            else:
                sb = sign(b)
                if sb == "+":
                    out.append(scale(log(b), e))
                elif sb == "-":
                    out.append(scale(log(neg(b)), e))
                    if e % 2:
                        s = -s
                elif e % 2 == 0:
                    out.append(scale(log(neg(b) if sb == "<=" else b if sb == ">=" else absolute(b)), e))
                else:
                    rest.append((b, e))
        if not rest:
            if s < 0:
                return fn("log", t)       # infeasible path
        elif len(rest) == 1:
            (b, e), = rest
            out.append(scale(log(b if s > 0 else neg(b)), e))
        else:
            out.append(fn("log", scale(_mk_mul(F1, dict(rest)), s)))
        return add(*out)
    if q < 0:
        q, u = -q, neg(u)
    pre = log(const(q)) if q != 1 else ZERO
    if u.op == "f" and u.args[0] == "exp":
        return add(pre, u.args[1])
    if u.op == "i" and q > 0:
        pass
    if u.op == "+":
        from .algebra import factor_sum
        fac = factor_sum(u)
        if fac is not None:
            q2, fl = fac
            m = scale(mul(*[power(b, k) for b, k in fl]), q2)
            if m.op != "+" or (m.args[0] == 0 and len(m.args[1]) == 1):
                return add(pre, log(m))
    return add(pre, fn("log", u))


def _split_pi(t):
    """t = q*pi + rest"""
    c, d = _lin(t)
    q = d.pop(PI, F0)
    return q, mk_lin(c, d)


_TRIG_TABLE = {}


def _half(q):
    return const(q)


def _sin_pi(q):
    """sin(q*pi) for q in [0, 1/2], or None"""
    tab = {
        Fraction(0): ZERO,
        Fraction(1, 6): const(Fraction(1, 2)),
        Fraction(1, 4): scale(power(const(2), Fraction(1, 2)), Fraction(1, 2)),
        Fraction(1, 3): scale(power(const(3), Fraction(1, 2)), Fraction(1, 2)),
        Fraction(1, 2): ONE,
    }
    return tab.get(q)


def sin(t):
    t = expand(t)
    if t.op == "c" and t.args[0] == 0:
        return ZERO
    q, r = _split_pi(t)
    if r.op == "c" and r.args[0] == 0:
        q = q % 2
        s = 1
        if q >= 1:
            q -= 1
            s = -1
        if q > Fraction(1, 2):
            q = 1 - q
        v = _sin_pi(q)
        if v is not None:
            return scale(v, s)
        return scale(fn("sin", scale(PI, q)), s)
    # shift multiples of pi/2
    n = (2 * q).numerator // (2 * q).denominator
    rem = q - Fraction(n, 2)
    base = add(r, scale(PI, rem))
    n %= 4
    if n == 0:
        return _sin_atom(base)
    if n == 1:
        return _cos_atom(base)
    if n == 2:
        return neg(_sin_atom(base))
    return neg(_cos_atom(base))


def cos(t):
    return sin(add(t, scale(PI, Fraction(1, 2))))


def _lead_neg(t):
    c, d = _lin(t)
    if not d:
        return c < 0
    u = min(d, key=lambda x: x.id)
    return d[u] < 0


def _sin_atom(t):
    if t.op == "f" and t.args[0] == "arcsin":
        return t.args[1]
    if t.op == "f" and t.args[0] == "arccos":
        return power(sub(ONE, power(t.args[1], 2)), Fraction(1, 2))
    if _lead_neg(t):
        return neg(_sin_atom(neg(t)))
    return fn("sin", t)


def _cos_atom(t):
    if t.op == "f" and t.args[0] == "arccos":
        return t.args[1]
    if t.op == "f" and t.args[0] == "arcsin":
        return power(sub(ONE, power(t.args[1], 2)), Fraction(1, 2))
    if _lead_neg(t):
        t = neg(t)
    return fn("cos", t)


def arccos(t):
    """caller guarantees -1<=t<=1"""
    if t.op == "c":
        m = {Fraction(1): ZERO, Fraction(-1): PI, Fraction(0): scale(PI, Fraction(1, 2)),
             Fraction(1, 2): scale(PI, Fraction(1, 3)), Fraction(-1, 2): scale(PI, Fraction(2, 3))}
        if t.args[0] in m:
            return m[t.args[0]]
    return fn("arccos", t)


def arcsin(t):
    if t.op == "c":
        m = {Fraction(1): scale(PI, Fraction(1, 2)), Fraction(-1): scale(PI, Fraction(-1, 2)),
             Fraction(0): ZERO, Fraction(1, 2): scale(PI, Fraction(1, 6)),
             Fraction(-1, 2): scale(PI, Fraction(-1, 6))}
        if t.args[0] in m:
            return m[t.args[0]]
    return fn("arcsin", t)


def arctan(t):
    if t.op == "c":
        m = {Fraction(1): scale(PI, Fraction(1, 4)), Fraction(-1): scale(PI, Fraction(-1, 4)),
             Fraction(0): ZERO}
        if t.args[0] in m:
            return m[t.args[0]]
    if t.op == "f" and t.args[0] == "tan_pr":
        return t.args[1]
    if _lead_neg(t):
        return neg(arctan(neg(t)))
    q, u = _coef_split(t)
    if q == 1 and u is not None and u.op == "*" and len(u.args[0]) == 2:
        (b1, e1), (b2, e2) = u.args[0]
        if b1.op == "f" and b2.op == "f" and {b1.args[0], b2.args[0]} == {"sin", "cos"} and \
                b1.args[1] is b2.args[1] and e1 * e2 == -1 and e1.denominator == 1:
            es = e1 if b1.args[0] == "sin" else e2
            y = b1.args[1]
            hp = scale(PI, Fraction(1, 2))
            if es == 1:
                if sign(sub(y, hp)) == "-" and sign(add(y, hp)) == "+":
                    return y
            elif sign(y) == "+" and sign(sub(y, PI)) == "-":
                return sub(hp, y)
    return fn("arctan", t)


def erf(t):
    if t.op == "c" and t.args[0] == 0:
        return ZERO
    if t.op == "f" and t.args[0] == "erfinv":
        return t.args[1]
    if _lead_neg(t):
        return neg(erf(neg(t)))
    return fn("erf", expand(t))


def erfinv(t):
    if t.op == "c" and t.args[0] == 0:
        return ZERO
    e = expand(t)
    if e.op == "f" and e.args[0] == "erf":
        return e.args[1]
    if e.op == "+" and e.args[0] == 0 and len(e.args[1]) == 1 and e.args[1][0][1] == -1:
        return neg(erfinv(e.args[1][0][0]))
    if e.op == "+" and e.args[1][0][1] < 0:
        return neg(erfinv(neg(e)))
    return fn("erfinv", e)


def floor(t):
    t = expand(t)
    c, d = _lin(t)
    if not d:
        return const(c.numerator // c.denominator)
    if c.denominator == 1 and all(u.op == "v" and u.args[1] == "int" and k.denominator == 1 for u, k in d.items()):
        return t
    n = c.numerator // c.denominator
    # pull integer constant and floor() integer parts out
    out = [const(n)]
    c = c - n
    rest = {}
    for u, k in d.items():
        if k.denominator == 1 and is_int(u):
            out.append(scale(u, k))
        else:
            rest[u] = k
    r = mk_lin(c, rest)
    if r.op == "c":
        return add(*out)
    return add(*out, fn("floor", r))


def is_int(u):
    return (u.op == "v" and u.args[1] == "int") or (u.op == "f" and u.args[0] == "floor") or (
        u.op == "c" and u.args[0].denominator == 1)


# ------------------------------------------------------------------ traversal
def children(t):
    op = t.op
    if op == "+":
        return [u for u, _ in t.args[1]]
    if op == "*":
        return [u for u, _ in t.args[0]]
    if op == "f":
        return [u for u in t.args[1:] if isinstance(u, T)]
    if op == "i":
        return list(t.args)
    if op in ("<", "<=", "=", "!"):
        return [t.args[0]]
    if op in ("&", "|"):
        return list(t.args[0])
    return []


def subterms(*roots):
    seen = set()
    out = []
    stack = list(roots)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        stack.extend(children(t))
    return out


_vars_memo = {}


def free_vars(t):
    r = _vars_memo.get(t)
    if r is None:
        if t.op in ("v", "b"):
            r = frozenset((t,))
        else:
            r = frozenset().union(*[free_vars(u) for u in children(t)])
        _vars_memo[t] = r
    return r


def rebuild(t, ch):
    """rebuild node with mapped children (dict child->new)"""
    op = t.op
    if op == "+":
        return add(const(t.args[0]), *[scale(ch[u], k) for u, k in t.args[1]])
    if op == "*":
        return mul(*[power(ch[u], e) for u, e in t.args[0]])
    if op == "f":
        args = [ch[u] if isinstance(u, T) else u for u in t.args[1:]]
        return apply_fn(t.args[0], *args)
    if op == "i":
        return ite(ch[t.args[0]], ch[t.args[1]], ch[t.args[2]])
    if op == "<":
        return lt(ch[t.args[0]], ZERO)
    if op == "<=":
        return le(ch[t.args[0]], ZERO)
    if op == "=":
        return eq(ch[t.args[0]], ZERO)
    if op == "!":
        return bnot(ch[t.args[0]])
    if op == "&":
        return band(*[ch[u] for u in t.args[0]])
    if op == "|":
        return bor(*[ch[u] for u in t.args[0]])
    return t


BUILDERS = {}


def apply_fn(name, *args):
    b = BUILDERS.get(name)
    if b is None:
        return fn(name, *args)
    return b(*args)


BUILDERS.update(exp=exp, log=log, sin=sin, cos=cos, arccos=arccos, arcsin=arcsin,
                arctan=arctan, erf=erf, erfinv=erfinv, floor=floor)


def substitute(t, mapping, memo=None):
    """mapping: dict term->term; bottom-up rebuild"""
    if memo is None:
        memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u in mapping:
            r = mapping[u]
        else:
            cs = children(u)
            if not cs:
                r = u
            else:
                m = {}
                changed = False
                for c in cs:
                    n = go(c)
                    m[c] = n
                    changed = changed or n is not c
                r = rebuild(u, m) if changed else u
        memo[u] = r
        return r

    return go(t)


# ------------------------------------------------------------------ derivative
class NoDerivative(Exception):
    pass


def _sqrt_pi():
    return power(PI, Fraction(1, 2))


def diff(t, x, memo=None):
    if memo is None:
        memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u is x:
            r = ONE
        elif x not in free_vars(u):
            r = ZERO
        elif u.op == "+":
            r = add(*[scale(go(v), k) for v, k in u.args[1]])
        elif u.op == "*":
            out = []
            for b, e in u.args[0]:
                db = go(b)
                if db is ZERO:
                    continue
                out.append(mul(const(e), u, power(b, -1), db))
            r = add(*out) if out else ZERO
        elif u.op == "i":
            r = ite(u.args[0], go(u.args[1]), go(u.args[2]))
        elif u.op == "f":
            n, a = u.args[0], u.args[1]
            da = go(a) if isinstance(a, T) else ZERO
            if n == "exp":
                r = mul(u, da)
            elif n == "log":
                r = mul(da, power(a, -1))
            elif n == "sin":
                r = mul(da, cos(a))
            elif n == "cos":
                r = neg(mul(da, sin(a)))
            elif n == "arcsin":
                r = mul(da, power(sub(ONE, power(a, 2)), Fraction(-1, 2)))
            elif n == "arccos":
                r = neg(mul(da, power(sub(ONE, power(a, 2)), Fraction(-1, 2))))
            elif n == "arctan":
                r = mul(da, power(add(ONE, power(a, 2)), -1))
            elif n == "erf":
                r = mul(const(2), power(PI, Fraction(-1, 2)), exp(neg(power(a, 2))), da)
            elif n == "erfinv":
                r = mul(const(Fraction(1, 2)), power(PI, Fraction(1, 2)), exp(power(u, 2)), da)
            elif n == "stdtr":      # stdtr(nu, t)
                nu, tt = u.args[1], u.args[2]
                if x in free_vars(nu):
                    raise NoDerivative(u)
                half = Fraction(1, 2)
                c = mul(exp(sub(gammaln(scale(add(nu, ONE), half)), gammaln(scale(nu, half)))),
                        power(mul(nu, PI), -half))
                base = add(ONE, div(power(tt, 2), nu))
                r = mul(c, gpow(base, neg(scale(add(nu, ONE), half))), go(tt))
            elif n == "gammainc":   # P(a, z)
                aa, z = u.args[1], u.args[2]
                if x in free_vars(aa):
                    raise NoDerivative(u)
                r = mul(gpow(z, sub(aa, ONE)), exp(neg(z)), exp(neg(gammaln(aa))), go(z))
            elif n == "btdtr":      # I_z(a, b)
                aa, bb, z = u.args[1:]
                if x in free_vars(aa) or x in free_vars(bb):
                    raise NoDerivative(u)
                r = mul(gpow(z, sub(aa, ONE)), gpow(sub(ONE, z), sub(bb, ONE)),
                        exp(neg(betaln(aa, bb))), go(z))
            elif n == "hyp2f1":     # F(a, b; c; z)
                aa, bb, cc, z = u.args[1:]
                if any(x in free_vars(v) for v in (aa, bb, cc)):
                    raise NoDerivative(u)
                if sub(cc, add(bb, ONE)) is ZERO:      # b F + z F' = b (1 - z)^-a
                    r = mul(bb, power(z, -1), sub(gpow(sub(ONE, z), neg(aa)), u), go(z))
                else:
                    r = mul(aa, bb, power(cc, -1), fn("hyp2f1", add(aa, ONE), add(bb, ONE), add(cc, ONE), z), go(z))
            else:
                raise NoDerivative(u)
        else:
            raise NoDerivative(u)
        memo[u] = r
        return r

    return go(t)


def gpow(b, e):
    """b**e for b>0 and arbitrary exponent term"""
    if e.op == "c" and e.args[0].denominator <= 24:
        return power(b, e.args[0])
    return exp(mul(e, log(b)))


def gammaln(t):
    """log Gamma, arguments > 0"""
    if t.op == "c":
        q = t.args[0]
        if q.denominator == 1 and 0 < q <= 50:
            f = 1
            for k in range(2, int(q)):
                f *= k
            return log(const(f))
        if q.denominator == 2 and q > 0 and q <= 50:
            f = Fraction(1)
            k = q - 1
            while k > 0:
                f *= k
                k -= 1
            return add(log(const(f)), scale(fn("log", PI), Fraction(1, 2)))
    c, d = _lin(expand(t))
    # pull integer shifts: lgamma(x+n) = lgamma(x) + sum log(x+i)
    n = c.numerator // c.denominator
    if d and 0 < n <= 6:
        base = mk_lin(c - n, d)
        if sign(base) == "+":
            return add(gammaln(base), *[log(add(base, const(i))) for i in range(n)])
    return fn("gammaln", expand(t))


def betaln(a, b):
    return sub(add(gammaln(a), gammaln(b)), gammaln(add(a, b)))


BUILDERS["gammaln"] = gammaln


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth == 0:
        return "..."
    s = lambda u: show(u, depth - 1)
    op = t.op
    if op == "c":
        return str(t.args[0])
    if op in ("v", "k", "b"):
        return t.args[0]
    if op == "+":
        c, items = t.args
        return "(" + " + ".join(([str(c)] if c else []) + [("" if k == 1 else f"{k}*") + s(u) for u, k in items]) + ")"
    if op == "*":
        return "*".join(s(b) + ("" if e == 1 else f"^({e})") for b, e in t.args[0])
    if op == "f":
        return f"{t.args[0]}({', '.join(s(u) if isinstance(u, T) else str(u) for u in t.args[1:])})"
    if op == "i":
        return f"ite({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if op == "T":
        return "true"
    if op == "F":
        return "false"
    if op == "<":
        return f"({s(t.args[0])} < 0)"
    if op == "<=":
        return f"({s(t.args[0])} <= 0)"
    if op == "=":
        return f"({s(t.args[0])} == 0)"
    if op == "!":
        return f"!{s(t.args[0])}"
    return "(" + (" & " if op == "&" else " | ").join(s(u) for u in t.args[0]) + ")"


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, mp):
    """numeric evaluation with mpmath module `mp`; env: name -> number"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = ev(u)
            memo[u] = r
        return r

    def ev(u):
        op = u.op
        if op == "c":
            q = u.args[0]
            return mp.mpf(q.numerator) / q.denominator
        if op == "k":
            return {"pi": mp.pi, "egamma": mp.euler}[u.args[0]] + mp.mpf(0)
        if op in ("v", "b"):
            v = env[u.args[0]]
            if op == "b":
                return v
            if isinstance(v, Fraction):
                return mp.mpf(v.numerator) / v.denominator
            return mp.mpf(v)
        if op == "+":
            s = mp.mpf(u.args[0].numerator) / u.args[0].denominator
            for v, k in u.args[1]:
                s += go(v) * k.numerator / k.denominator
            return s
        if op == "*":
            s = mp.mpf(1)
            for b, e in u.args[0]:
                v = go(b)
                if e.denominator == 1:
                    if v == 0 and e < 0:
                        raise EvalError("division by zero")
                    s *= v ** int(e)
                else:
                    if v < 0:
                        if v > -mp.mpf(10) ** (-20):
                            v = mp.mpf(0)
                        else:
                            raise EvalError("root of negative")
                    if v == 0 and e < 0:
                        raise EvalError("division by zero")
                    s *= mp.power(v, mp.mpf(e.numerator) / e.denominator)
            return s
        if op == "i":
            return go(u.args[1]) if go(u.args[0]) else go(u.args[2])
        if op == "T":
            return True
        if op == "F":
            return False
        if op == "<":
            return go(u.args[0]) < 0
        if op == "<=":
            return go(u.args[0]) <= 0
        if op == "=":
            return abs(go(u.args[0])) < mp.mpf(10) ** (-22)
        if op == "!":
            return not go(u.args[0])
        if op == "&":
            return all(go(v) for v in u.args[0])
        if op == "|":
            return any(go(v) for v in u.args[0])
        if op == "f":
            n = u.args[0]
            a = [go(v) if isinstance(v, T) else v for v in u.args[1:]]
            f = NUMERIC.get(n)
            if f is None:
                raise EvalError("no numeric model for " + n)
            return f(mp, *a)
        raise EvalError(op)

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def _n_log(mp, x):
    if x <= 0:
        raise EvalError("log domain")
    return mp.log(x)


def _clip1(mp, x):
    if abs(x) > 1:
        if abs(x) < 1 + mp.mpf(10) ** (-15):
            return mp.sign(x)
        raise EvalError("arc domain")
    return x


def _n_stdtr(mp, nu, t):
    x = nu / (nu + t * t)
    p = mp.betainc(nu / 2, mp.mpf(1) / 2, 0, x, regularized=True) / 2
    return p if t < 0 else 1 - p


def _n_bisect(mp, f, lo, hi, y):
    for _ in range(120):
        mid = (lo + hi) / 2
        if f(mid) < y:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def _n_exp(mp, x):
    if x > 5000:
        raise EvalError("exp overflow")
    return mp.exp(x)


def _n_gammaincinv(mp, a, y):
    hi = mp.mpf(1)
    while mp.gammainc(a, 0, hi, regularized=True) < y:
        hi *= 2
        if hi > 10 ** 8:
            raise EvalError("gammaincinv")
    return _n_bisect(mp, lambda z: mp.gammainc(a, 0, z, regularized=True), mp.mpf(0), hi, y)


def _n_stdtrit(mp, nu, p):
    if p <= 0 or p >= 1:
        raise EvalError("stdtrit domain")
    hi = mp.mpf(1)
    while _n_stdtr(mp, nu, hi) < p or _n_stdtr(mp, nu, -hi) > p:
        hi *= 4
        if hi > 10 ** 30:
            raise EvalError("stdtrit")
    return _n_bisect(mp, lambda z: _n_stdtr(mp, nu, z), -hi, hi, p)


NUMERIC = {
    "exp": _n_exp,
    "log": _n_log,
    "sin": lambda mp, x: mp.sin(x),
    "cos": lambda mp, x: mp.cos(x),
    "arcsin": lambda mp, x: mp.asin(_clip1(mp, x)),
    "arccos": lambda mp, x: mp.acos(_clip1(mp, x)),
    "arctan": lambda mp, x: mp.atan(x),
    "arctan2": lambda mp, y, x: mp.atan2(y, x),
    "erf": lambda mp, x: mp.erf(x),
    "erfinv": lambda mp, x: mp.erfinv(x),
    "gammaln": lambda mp, x: mp.loggamma(x),
    "gammainc": lambda mp, a, z: mp.gammainc(a, 0, z, regularized=True),
    "gammaincinv": _n_gammaincinv,
    "btdtr": lambda mp, a, b, z: mp.betainc(a, b, 0, z, regularized=True),
    "btdtri": lambda mp, a, b, y: _n_bisect(
        mp, lambda z: mp.betainc(a, b, 0, z, regularized=True), mp.mpf(0), mp.mpf(1), y),
    "stdtr": _n_stdtr,
    "stdtrit": _n_stdtrit,
    "floor": lambda mp, x: mp.floor(x + (mp.mpf(10) ** (-25))),
    "hyp2f1": lambda mp, a, b, c, z: mp.hyp2f1(a, b, c, z),
    "i0e": lambda mp, x: mp.besseli(0, x) * mp.exp(-abs(x)),
}
