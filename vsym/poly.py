"""
Exact multivariate polynomials and rational functions over named real variables.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of (variable index, exponent) and the
coefficients are int or Fraction.  A rational function `Rat` keeps its denominator factored into registered
(primitive, sign normalised) polynomials so that cancellation is done by exact trial division.

Everything here is value semantics: the *verdicts* come from the solver (see `solver.py`); this module only keeps the
terms small enough for it.
"""
from fractions import Fraction
from math import gcd


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


ONE_M = ()


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def m_div(a, b):
    """a / b, or None when b does not divide a."""
    if not b:
        return a
    da = dict(a)
    for v, e in b:
        ea = da.get(v, 0)
        if ea < e:
            return None
        if ea == e:
            del da[v]
        else:
            da[v] = ea - e
    return tuple(sorted(da.items()))


def m_key(m):
    """Degree-lex order key (a monomial order: compatible with multiplication)."""
    # lex on the exponent vector with the smallest variable index most significant
    return m


def lead(p):
    """Leading monomial under lex order with smaller variable index more significant."""
    best = None
    for m in p:
        if best is None or _lex_gt(m, best):
            best = m
    return best


def _lex_gt(a, b):
    for (va, ea), (vb, eb) in zip(a, b):
        if va != vb:
            return va < vb
        if ea != eb:
            return ea > eb
    return len(a) > len(b)


def p_const(c):
    c = _norm(c)
    return {ONE_M: c} if c != 0 else {}


def p_var(i):
    return {((i, 1),): 1}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = _norm(s)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: _norm(c * k) for m, c in a.items()}


def p_is_const(a):
    return not a or (len(a) == 1 and ONE_M in a)


def p_const_value(a):
    return a.get(ONE_M, 0)


class TermLimit(BaseException):
    pass


MAX_TERMS = 60000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > MAX_TERMS * 40:
        raise TermLimit(f"polynomial product too large ({len(a)} x {len(b)})")
    if len(b) == 1 and ONE_M in b:
        return p_scale(a, b[ONE_M])
    if len(a) == 1 and ONE_M in a:
        return p_scale(b, a[ONE_M])
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            r[m] = get(m, 0) + ca * cb
    return {m: _norm(c) for m, c in r.items() if c != 0}


def p_pow(a, n):
    r = {ONE_M: 1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_vars(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def p_content(a):
    """Positive rational content (gcd of the coefficients)."""
    num, den = 0, 1
    for c in a.values():
        if isinstance(c, Fraction):
            n, d = c.numerator, c.denominator
        else:
            n, d = c, 1
        num = gcd(num, n)
        den = den * d // gcd(den, d)
    return Fraction(abs(num), den)


def p_divexact(a, b):
    """a / b when exact, else None (multivariate division by a single divisor)."""
    if not a:
        return {}
    lb = lead(b)
    cb = b[lb]
    if len(b) == 1:
        q = {}
        for m, c in a.items():
            d = m_div(m, lb)
            if d is None:
                return None
            q[d] = _norm(Fraction(c) / cb)
        return q
    if len(a) < 1:
        return None
    # quick degree screen
    va, vb = p_vars(a), p_vars(b)
    if not vb <= va:
        return None
    r = dict(a)
    q = {}
    rest = [(m, c) for m, c in b.items() if m != lb]
    steps = 0
    limit = 4 * len(a) + 50
    while r:
        lr = lead(r)
        d = m_div(lr, lb)
        if d is None:
            return None
        c = _norm(Fraction(r[lr]) / cb)
        q[d] = c
        del r[lr]
        for m, cm in rest:
            mm = m_mul(m, d)
            s = r.get(mm, 0) - c * cm
            if s == 0:
                r.pop(mm, None)
            else:
                r[mm] = _norm(s)
        steps += 1
        if steps > limit:
            return None
    return q


def p_key(a):
    return frozenset(a.items())


def p_primitive(a):
    """(content with sign, primitive part with positive leading coefficient)."""
    c = p_content(a)
    if a[lead(a)] < 0:
        c = -c
    inv = 1 / Fraction(c)
    return _norm(Fraction(c)), {m: _norm(v * inv) for m, v in a.items()}


def p_eval(a, vals):
    """Evaluate with vals[i] (floats or Fractions)."""
    tot = 0
    for m, c in a.items():
        t = c
        for v, e in m:
            t = t * vals[v] ** e
        tot = tot + t
    return tot


def p_monomial_content(a):
    """Largest monomial dividing every term."""
    it = iter(a)
    first = dict(next(it))
    for m in it:
        if not first:
            break
        d = dict(m)
        for v in list(first):
            e = d.get(v, 0)
            if e == 0:
                del first[v]
            elif e < first[v]:
                first[v] = e
    return tuple(sorted(first.items()))
