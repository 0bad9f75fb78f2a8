"""Rational-function helpers on terms: factoring, common denominators, zero test."""
from fractions import Fraction
import sympy
from . import terms as tm

_fact_memo = {}


def _to_sympy(t, syms, inv):
    if t.op == "c":
        return sympy.Rational(t.args[0].numerator, t.args[0].denominator)
    if t.op == "+":
        c, items = t.args
        return sympy.Add(sympy.Rational(c.numerator, c.denominator),
                         *[sympy.Rational(k.numerator, k.denominator) * _to_sympy(u, syms, inv) for u, k in items])
    if t.op == "*":
        out = []
        for b, e in t.args[0]:
            if e.denominator != 1:
                out.append(_sym(tm.mk("*", ((b, Fraction(1, e.denominator)),)), syms, inv) ** e.numerator)
            else:
                out.append(_to_sympy(b, syms, inv) ** int(e))
        return sympy.Mul(*out)
    return _sym(t, syms, inv)


def _sym(t, syms, inv):
    s = syms.get(t)
    if s is None:
        s = sympy.Symbol("x%d" % len(syms))
        syms[t] = s
        inv[s] = t
    return s


def _from_poly(poly, gens):
    out = []
    for mon, c in poly.terms():
        f = [tm.const(Fraction(int(c.p), int(c.q)))]
        for g, e in zip(gens, mon):
            if e:
                f.append(tm.power(g, e))
        out.append(tm.mul(*f))
    return tm.add(*out)


def _worth(t):
    """could this sum factor non-trivially / have a common denominator?"""
    if t.op != "+":
        return False
    c, items = t.args
    if len(items) > 40:
        return False
    for u, _ in items:
        if u.op == "*":
            return True
    return False


def factor_sum(t):
    """list of (factor, exponent) and rational coefficient with t = coef*prod; None if no gain"""
    if t in _fact_memo:
        return _fact_memo[t]
    r = None
    if _worth(t):
        try:
            r = _factor(t)
        except Exception:
            r = None
    _fact_memo[t] = r
    return r


def _factor(t):
    syms, inv = {}, {}
    e = _to_sympy(t, syms, inv)
    if len(syms) > 9:
        return None
    num, den = sympy.fraction(sympy.together(e))
    coef = Fraction(1)
    out = []
    for part, s in ((num, 1), (den, -1)):
        part = sympy.expand(part)
        if part.is_Number:
            coef *= Fraction(int(part.p), int(part.q)) ** s
            continue
        gs = sorted(part.free_symbols, key=lambda z: z.name)
        p = sympy.Poly(part, *gs)
        if p.total_degree() > 30 or len(p.terms()) > 200:
            return None
        c, fl = p.factor_list()
        coef *= Fraction(int(c.p), int(c.q)) ** s
        for f, k in fl:
            out.append((_from_poly(f, [inv[g] for g in gs]), Fraction(k * s)))
    if len(out) == 1 and out[0][1] == 1:
        return None
    return coef, out


# ------------------------------------------------------------------ zero test
def _neg_sum_bases(t):
    """sum bases with their minimal exponent (negative or fractional) over monomials of expanded t"""
    mins = {}
    fr = set()
    for m in _monos(t):
        if m.op == "*":
            for b, e in m.args[0]:
                if b.op == "+":
                    if e < 0:
                        mins[b] = min(mins.get(b, 0), e)
                    if e > 1 and e.denominator != 1:
                        fr.add(b)
    return mins, fr


def _monos(t):
    if t.op == "+":
        return [u for u, _ in t.args[1]]
    return [t]


def _reduce_frac(t):
    """B^(k+f) -> B^k(expanded later) * B^f for sum bases, f in (0,1)"""
    if t.op not in ("+", "*"):
        return t
    c, items = tm._lin(t)
    out = [tm.const(c)]
    ch = False
    for m, k in items.items():
        if m.op == "*":
            fs = []
            for b, e in m.args[0]:
                if b.op == "+" and e.denominator != 1 and e > 1:
                    n = e.numerator // e.denominator
                    fs.append(tm.mk("*", ((b, e - n),)))
                    fs.append(("int", b, n))
                    ch = True
                else:
                    fs.append(tm.mk("*", ((b, e),)) if e != 1 else b)
            acc = tm.ONE
            sums = []
            for f in fs:
                if isinstance(f, tuple):
                    sums.append(tm.expand(f[1]) if f[2] == 1 else tm.mk("*", ((f[1], Fraction(f[2])),)))
                else:
                    acc = tm.mul(acc, f)
            # multiply out by hand so that b^f * b does not recombine
            terms = [acc]
            for s in sums:
                s = tm.expand(s)
                cc, dd = tm._lin(s)
                mons = ([tm.const(cc)] if cc else []) + [tm.scale(u, kk) for u, kk in dd.items()]
                terms = [tm.mul(x, y) for x in terms for y in mons]
            out.extend(tm.scale(x, k) for x in terms)
        else:
            out.append(tm.scale(m, k))
    return tm.add(*out) if ch else t


def _trig_reduce(t):
    """cos(a)^(2k) -> (1-sin(a)^2)^k, compound angles expanded; returns new term"""
    angles = set()
    for u in tm.subterms(t):
        if u.op == "f" and u.args[0] in ("sin", "cos"):
            angles.add(u.args[1])
    if not angles:
        return t
    # unit per monomial
    units = {}
    for a in angles:
        c, d = tm._lin(a)
        for m, k in d.items():
            units.setdefault(m, 1)
            q = k.denominator
            units[m] = units[m] * q // _gcd(units[m], q)
    mp = {}
    for a in angles:
        c, d = tm._lin(a)
        s, co = tm.ZERO, tm.ONE
        pieces = []
        if c != 0:
            pieces.append((tm.const(c), 1))
        ok = True
        for m, k in d.items():
            n = k * units[m]
            if abs(n) > 12:
                ok = False
            pieces.append((tm.scale(m, Fraction(1, units[m])), int(n)))
        if not ok:
            continue
        if len(pieces) == 1 and pieces[0][1] == 1:
            continue
        for base, n in pieces:
            sb, cb = tm.fn("sin", base), tm.fn("cos", base)
            sn, cn = tm.ZERO, tm.ONE
            for _ in range(abs(n)):
                sn, cn = (tm.expand(tm.add(tm.mul(sn, cb), tm.mul(cn, sb))),
                          tm.expand(tm.sub(tm.mul(cn, cb), tm.mul(sn, sb))))
            if n < 0:
                sn = tm.neg(sn)
            s, co = (tm.expand(tm.add(tm.mul(s, cn), tm.mul(co, sn))),
                     tm.expand(tm.sub(tm.mul(co, cn), tm.mul(s, sn))))
        mp[tm.fn("sin", a)] = s
        mp[tm.fn("cos", a)] = co
    return tm.substitute(t, mp) if mp else t


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _third_acos(b):
    """u if b is cos(arccos(u)/3)"""
    if b.op == "f" and b.args[0] == "cos":
        q, u = tm._coef_split(b.args[1])
        if q == Fraction(1, 3) and u.op == "f" and u.args[0] in ("acos", "arccos"):
            return u.args[1]
    return None


def _cos_pow(t):
    c, items = tm._lin(t)
    out = [tm.const(c)]
    ch = False
    for m, k in items.items():
        fs = m.args[0] if m.op == "*" else ((m, Fraction(1)),)
        new = []
        for b, e in fs:
            u3 = _third_acos(b)
            if u3 is not None:
                if e >= 3 and e.denominator == 1:
                    # 4 cos^3(a/3) = 3 cos(a/3) + cos(a)
                    r = tm.scale(tm.add(tm.scale(b, 3), u3), Fraction(1, 4))
                    new.append(tm.expand(tm.mul(tm.expand(tm.power(r, int(e) // 3)), tm.power(b, int(e) % 3))))
                    ch = True
                else:
                    new.append(tm.mk("*", ((b, e),)) if e != 1 else b)
                continue
            if b.op == "f" and b.args[0] == "cos" and e >= 2 and e.denominator == 1:
                n = int(e) // 2
                s2 = tm.power(tm.fn("sin", b.args[1]), 2)
                new.append(tm.expand(tm.power(tm.sub(tm.ONE, s2), n)))
                if int(e) % 2:
                    new.append(b)
                ch = True
            else:
                new.append(tm.mk("*", ((b, e),)) if e != 1 else b)
        out.append(tm.scale(tm.expand(tm.mul(*new)), k) if ch else tm.scale(m, k))
    return tm.add(*out) if ch else t


def numerator(t, max_rounds=12, denoms=None):
    """Polynomial-ish numerator N of t (t == 0 iff N == 0 when denominators are non-zero).
    denoms (list) receives the (base, exponent) pairs by which t was multiplied."""
    t = _trig_reduce(t)
    t = tm.expand(t)
    for _ in range(max_rounds):
        if t.op == "c":
            return t
        ch = False
        mins, fr = _neg_sum_bases(t)
        for b, e in mins.items():
            c, items = tm._lin(t)
            mult = tm.mk("*", ((b, -e),)) if e != -1 else b
            if denoms is not None:
                denoms.append((b, -e))
            out = []
            if c:
                out.append(tm.scale(mult, c))
            for m, k in items.items():
                out.append(tm.scale(tm.mul(m, mult), k))
            t = tm.add(*out)
            ch = True
        t2 = tm.expand(t)
        t2 = _reduce_frac(t2)
        t2 = tm.expand(t2)
        t2 = _cos_pow(t2)
        if t2 is not t:
            ch = True
        t = t2
        if not ch:
            break
    # clear negative powers of the remaining (non-sum) bases
    if t.op == "+":
        mins = {}
        for m in _monos(t):
            fs = m.args[0] if m.op == "*" else ((m, Fraction(1)),)
            for b, e in fs:
                if e < 0:
                    mins[b] = min(mins.get(b, 0), e)
        if mins:
            mult = tm._mk_mul(Fraction(1), {b: -e for b, e in mins.items()})
            if denoms is not None:
                denoms.extend((b, -e) for b, e in mins.items())
            c, items = tm._lin(t)
            t = tm.add(tm.scale(mult, c), *[tm.scale(tm.mul(m, mult), k) for m, k in items.items()])
    elif t.op == "*":
        pos = {b: e for b, e in t.args[0] if e > 0}
        if denoms is not None:
            denoms.extend((b, -e) for b, e in t.args[0] if e < 0)
        t = tm._mk_mul(Fraction(1), pos)
    return t


def is_zero(t):
    n = numerator(t)
    return n.op == "c" and n.args[0] == 0
