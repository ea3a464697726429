"""
Symbolic scalars (S, LG, SB), the path context, and the solver interface.

    S(rat)  a finite real: a rational function of input variables and of LOG/EXP/SQRT/PI/ABS atoms
    LG(S p) the logarithm of a non-negative real p (so -inf is represented symbolically by p == 0)
    SB(f)   a boolean: a z3 formula; bool(SB) forks the execution

Non-finite values that are known to be non-finite on a path are ordinary Python floats (inf, -inf, nan).
"""
import math
import operator
import time
from fractions import Fraction

import numpy as np
import sys

if "z3" not in sys.modules:
    _p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if _p not in sys.path:
        sys.path.append(_p)
import z3

from . import poly as P
from .poly import TermLimit

INF = float("inf")
NAN = float("nan")


class EngineLimit(BaseException):
    """The engine cannot represent something; the path is reported as unresolved, never as a pass or a violation."""


class PathAbort(BaseException):
    """The path is infeasible or cut by an assumption."""


class BudgetExceeded(BaseException):
    pass


# ----------------------------------------------------------------------------------------------------------------------
# variable / atom pool
# ----------------------------------------------------------------------------------------------------------------------
class Var:
    __slots__ = ("idx", "name", "kind", "payload", "sign", "z", "side", "lemmas", "level")

    def __init__(self, idx, name, kind, payload, sign):
        self.idx = idx
        self.name = name
        self.kind = kind  # in, log, exp, sqrt, pi, abs
        self.payload = payload
        self.sign = sign  # '+', '0+', None
        self.z = z3.Real(f"{kind}_{name}" if kind != "in" else name)
        self.side = []  # z3 constraints always attached
        self.lemmas = []  # callables returning (z3 formula, varset), attached on demand


class Pool:
    """Variables and atoms of one configuration; shared by all its paths (atoms are path independent facts)."""

    def __init__(self):
        self.vars = []
        self.by_name = {}
        self.factors = []  # id -> poly
        self.factor_ids = {}  # key -> id
        self.factor_sign = {}  # id -> '+', declared by assumptions on every path
        self.factor_cache = {}
        self.exp_basis = []  # (Rat, var idx)
        self.sqrt_vars = set()
        self.log_vars = {}
        self.prime_logs = {}
        self.abs_vars = {}
        self.log_args = []
        self.pi = None
        self.zcache = {}

    def new_var(self, name, kind, payload=None, sign=None):
        v = Var(len(self.vars), name, kind, payload, sign)
        self.vars.append(v)
        if sign == "+":
            v.side.append(v.z > 0)
        elif sign == "0+":
            v.side.append(v.z >= 0)
        return v

    def input(self, name, sign=None):
        v = self.by_name.get(name)
        if v is None:
            v = self.new_var(name, "in", None, sign)
            self.by_name[name] = v
        return v

    def factor_id(self, f):
        """Register a primitive polynomial as a denominator / log factor."""
        k = P.p_key(f)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(f)
            self.factor_ids[k] = i
        return i


CTX = None  # current path context


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------------------------------------------------------
# polynomial helpers that need the pool
# ----------------------------------------------------------------------------------------------------------------------
def reduce_sqrt(p):
    pool = CTX.pool
    sq = pool.sqrt_vars
    if not sq:
        return p
    while True:
        hit = False
        out = {}
        for m, c in p.items():
            rep = None
            for v, e in m:
                if e >= 2 and v in sq:
                    rep = (v, e)
                    break
            if rep is None:
                s = out.get(m, 0) + c
                if s == 0:
                    out.pop(m, None)
                else:
                    out[m] = P._norm(s)
            else:
                hit = True
                v, e = rep
                md = dict(m)
                if e % 2:
                    md[v] = 1
                else:
                    del md[v]
                base = {tuple(sorted(md.items())): c}
                t = P.p_mul(base, P.p_pow(pool.vars[v].payload, e // 2))
                out = P.p_add(out, t)
        p = out
        if not hit:
            return p


def pmul(a, b):
    r = P.p_mul(a, b)
    if CTX.pool.sqrt_vars:
        r = reduce_sqrt(r)
    return r


def poly_sign(p):
    """Syntactic sign: '+', '0+', '-', '0-', '0' or None."""
    if not p:
        return "0"
    c = CTX
    pool = c.pool
    if P.p_is_const(p):
        return "+" if P.p_const_value(p) > 0 else "-"
    s = _poly_sign_syn(p, pool)
    if s:
        return s
    cont, prim = P.p_primitive(p)
    k = P.p_key(prim)
    s = c.signs.get(k) or pool.factor_sign.get(k)
    if s:
        if cont < 0:
            s = {"+": "-", "0+": "0-", "-": "+", "0-": "0+", "0": "0"}.get(s)
        return s
    return None


def _poly_sign_syn(p, pool):
    pos = neg = False
    strict = False
    for m, c in p.items():
        st = True
        for v, e in m:
            sg = pool.vars[v].sign
            if sg == "+":
                continue
            if sg == "0+":
                st = False
                continue
            if e % 2 == 0:
                st = False
                continue
            return None
        if c > 0:
            pos = True
        else:
            neg = True
        if pos and neg:
            return None
        strict = strict or st
    if pos:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


_SYM_CACHE = {}


def factor_poly(p):
    """
    Factor a primitive polynomial into [(primitive poly, exponent)] using registered factors, then sympy
    (only a term-size normalisation: a missed factorisation costs precision, never soundness).
    """
    pool = CTX.pool
    key = P.p_key(p)
    hit = pool.factor_cache.get(key)
    if hit is not None:
        return hit
    out = []
    mc = P.p_monomial_content(p)
    rest = p
    if mc:
        for v, e in mc:
            out.append((P.p_var(v), e))
        rest = {P.m_div(m, mc): c for m, c in p.items()}
    if not P.p_is_const(rest):
        for f in list(pool.factors):
            if len(f) < 2:
                continue
            if not P.p_vars(f) <= P.p_vars(rest):
                continue
            n = 0
            while not P.p_is_const(rest):
                q = P.p_divexact(rest, f)
                if q is None:
                    break
                rest = q
                n += 1
            if n:
                out.append((f, n))
            if P.p_is_const(rest):
                break
        if not P.p_is_const(rest):
            c, rest = P.p_primitive(rest)
            for f, e in _sympy_factor(rest):
                out.append((f, e))
    pool.factor_cache[key] = out
    return out


def _sympy_factor(p):
    vs = sorted(P.p_vars(p))
    if len(p) > 200 or len(p) < 2:
        return [(p, 1)]
    deg = max(sum(e for _, e in m) for m in p)
    if deg <= 1:
        return [(p, 1)]
    pos = {v: i for i, v in enumerate(vs)}
    ckey = (len(vs), frozenset((tuple((pos[v], e) for v, e in m), c) for m, c in p.items()))
    hit = _SYM_CACHE.get(ckey)
    if hit is None:
        from sympy.polys.rings import ring
        from sympy.polys.domains import ZZ

        R, *gens = ring([f"x{i}" for i in range(len(vs))], ZZ)
        el = R.zero
        d = {}
        for m, c in p.items():
            ev = [0] * len(vs)
            for v, e in m:
                ev[pos[v]] = e
            if isinstance(c, Fraction):
                return [(p, 1)]
            d[tuple(ev)] = ZZ(c)
        el = R.from_dict(d)
        cont, facs = el.factor_list()
        hit = []
        for f, e in facs:
            fd = {tuple((i, x) for i, x in enumerate(mon) if x): int(c) for mon, c in f.terms()}
            hit.append((fd, e))
        _SYM_CACHE[ckey] = hit
    res = []
    for fd, e in hit:
        q = {tuple((vs[i], x) for i, x in m): c for m, c in fd.items()}
        c, q = P.p_primitive(q)
        res.append((q, e))
    return res


# ----------------------------------------------------------------------------------------------------------------------
# rational functions
# ----------------------------------------------------------------------------------------------------------------------
class Rat:
    __slots__ = ("num", "den")  # den: dict factor id -> exponent

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    @staticmethod
    def const(c):
        return Rat(P.p_const(c))

    def cancel(self):
        if not self.den or not self.num:
            if not self.num:
                self.den = {}
            return self
        facs = CTX.pool.factors
        den = None
        num = self.num
        for fid, e in list(self.den.items()):
            f = facs[fid]
            while e > 0:
                q = P.p_divexact(num, f)
                if q is None:
                    break
                num = q
                e -= 1
            if e != self.den[fid]:
                if den is None:
                    den = dict(self.den)
                if e:
                    den[fid] = e
                else:
                    del den[fid]
        self.num = num
        if den is not None:
            self.den = den
        return self

    def add(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            r = Rat(P.p_add(self.num, o.num), dict(self.den))
            return r.cancel()
        facs = CTX.pool.factors
        a, b = self.num, o.num
        den = dict(self.den)
        for fid, e in o.den.items():
            d = e - den.get(fid, 0)
            if d > 0:
                a = pmul(a, P.p_pow(facs[fid], d))
                den[fid] = e
        for fid, e in den.items():
            d = e - o.den.get(fid, 0)
            if d > 0:
                b = pmul(b, P.p_pow(facs[fid], d))
        return Rat(P.p_add(a, b), den).cancel()

    def neg(self):
        return Rat(P.p_neg(self.num), self.den)

    def mul(self, o):
        if not self.num or not o.num:
            return Rat({})
        if not self.den and not o.den:
            return Rat(pmul(self.num, o.num))
        # cross-cancel first to keep the products small
        a = Rat(self.num, dict(o.den)).cancel()
        b = Rat(o.num, dict(self.den)).cancel()
        den = dict(a.den)
        for fid, e in b.den.items():
            den[fid] = den.get(fid, 0) + e
        r = Rat(pmul(a.num, b.num), den)
        if CTX.pool.sqrt_vars:
            r.cancel()
        return r

    def inv(self):
        """1/self; the caller has established num != 0."""
        pool = CTX.pool
        num = {P.ONE_M: 1}
        for fid, e in self.den.items():
            num = pmul(num, P.p_pow(pool.factors[fid], e))
        if P.p_is_const(self.num):
            return Rat(P.p_scale(num, Fraction(1) / Fraction(P.p_const_value(self.num))))
        c, prim = P.p_primitive(self.num)
        num = P.p_scale(num, Fraction(1) / Fraction(c))
        den = {}
        for f, e in factor_poly(prim):
            # a sqrt atom in a denominator: 1/s = s/f
            if len(f) == 1:
                (m, _), = f.items()
                v = m[0][0]
                if v in pool.sqrt_vars:
                    pay = pool.vars[v].payload
                    num = pmul(num, P.p_pow(P.p_var(v), e))
                    sub = Rat(dict(pay)).inv()
                    r = Rat(num, den)
                    for _ in range(e):
                        r = Rat(pmul(r.num, sub.num), _merge(r.den, sub.den))
                    num, den = r.num, r.den
                    continue
            fid = pool.factor_id(f)
            den[fid] = den.get(fid, 0) + e
        return Rat(num, den).cancel()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = Rat.const(1)
        b = self
        for _ in range(n):
            r = r.mul(b)
        return r

    def is_const(self):
        return not self.den and P.p_is_const(self.num)

    def const_value(self):
        return P.p_const_value(self.num)

    def vars(self):
        s = P.p_vars(self.num)
        facs = CTX.pool.factors
        for fid in self.den:
            s |= P.p_vars(facs[fid])
        return s

    def sign(self):
        s = poly_sign(self.num)
        if s in ("0", None):
            return s
        facs = CTX.pool.factors
        for fid, e in self.den.items():
            if e % 2 == 0:
                continue
            t = poly_sign(facs[fid])
            if t == "-":
                s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[s]
            elif t == "0-":
                s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[s]
            elif t in ("+", "0+"):
                pass
            else:
                return None
        return s

    def key(self):
        return (P.p_key(self.num), frozenset(self.den.items()))

    def factored(self):
        """(constant, [(poly, signed exponent)])"""
        c, prim = P.p_primitive(self.num) if not P.p_is_const(self.num) else (P.p_const_value(self.num), None)
        out = {}
        polys = {}
        if prim is not None:
            for f, e in factor_poly(prim):
                k = P.p_key(f)
                polys[k] = f
                out[k] = out.get(k, 0) + e
        facs = CTX.pool.factors
        for fid, e in self.den.items():
            f = facs[fid]
            for g, e2 in factor_poly(f):
                k = P.p_key(g)
                polys[k] = g
                out[k] = out.get(k, 0) - e * e2
        return c, [(polys[k], e) for k, e in out.items() if e]

    def evalf(self, vals):
        d = 1.0
        facs = CTX.pool.factors
        for fid, e in self.den.items():
            d = d * P.p_eval(facs[fid], vals) ** e
        return P.p_eval(self.num, vals) / d

    def z3nd(self):
        """(z3 numerator, z3 denominator) as polynomials."""
        n = z_poly(self.num)
        facs = CTX.pool.factors
        d = None
        for fid, e in self.den.items():
            f = z_poly(facs[fid])
            for _ in range(e):
                d = f if d is None else d * f
        return n, d


def _merge(a, b):
    r = dict(a)
    for k, e in b.items():
        r[k] = r.get(k, 0) + e
    return r


def z_poly(p):
    pool = CTX.pool
    k = P.p_key(p)
    r = pool.zcache.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(z3.RealVal(str(c)))
        for v, e in m:
            z = pool.vars[v].z
            fs.extend([z] * e)
        t = fs[0] if len(fs) == 1 else z3.Product(fs)
        terms.append(t)
    if not terms:
        r = z3.RealVal(0)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(terms)
    pool.zcache[k] = r
    return r


# ----------------------------------------------------------------------------------------------------------------------
# constants
# ----------------------------------------------------------------------------------------------------------------------
_FLOAT_CACHE = {}


def exact_const(x):
    """
    The exact real a Python number stands for.  Floats are identified with the simplest rational they are the rounding
    of, or with q*pi, sqrt(q), log(q) for a simple rational q (stated in DESIGN.md: rounding is outside the claims).
    Returns a Rat.
    """
    if isinstance(x, (bool, np.bool_)):
        return Rat.const(int(x))
    if isinstance(x, (int, np.integer)):
        return Rat.const(int(x))
    if isinstance(x, Fraction):
        return Rat.const(x)
    x = float(x)
    if x == 0:
        return Rat({})
    how = _FLOAT_CACHE.get(x)
    if how is None:
        how = _recognise(x)
        _FLOAT_CACHE[x] = how
    kind, q = how
    if kind == "q":
        return Rat.const(q)
    if kind == "pi":
        return pi_rat().mul(Rat.const(q))
    if kind == "sqrt":
        r = sqrt_rat(Rat.const(q))
        return r if x > 0 else r.neg()
    if kind == "log":
        return log_rat(Rat.const(q))
    return Rat.const(q)


def _simple(x, lim=10**6):
    f = Fraction(x).limit_denominator(lim)
    return f if float(f) == x else None


def _recognise(x):
    q = _simple(x)
    if q is not None:
        return ("q", q)
    ax = abs(x)
    if ax < 1e-5:
        # decimal literals such as 1e-10
        q = Fraction(repr(x))
        if q.denominator <= 10**40 and len(str(q.numerator)) <= 6:
            return ("q", q)
    q = Fraction(x / math.pi).limit_denominator(64)
    if q and abs(float(q) * math.pi - x) <= 2e-15 * ax:
        return ("pi", q)
    q = Fraction(x * x).limit_denominator(1000)
    if q and abs(math.sqrt(float(q)) - ax) <= 2e-15 * ax:
        return ("sqrt", q)
    if ax < 20:
        q = Fraction(math.exp(x)).limit_denominator(1000)
        if q > 0 and abs(math.log(q) - x) <= 2e-15 * ax:
            return ("log", q)
    q = Fraction(repr(x))
    if float(q) == x and len(str(q.numerator)) <= 9:
        return ("q", q)
    return ("x", Fraction(x))


def pi_rat():
    pool = CTX.pool
    if pool.pi is None:
        v = pool.new_var("PI", "pi", None, "+")
        v.side.append(v.z > z3.RealVal("3.14159265"))
        v.side.append(v.z < z3.RealVal("3.14159266"))
        pool.pi = v.idx
    return Rat(P.p_var(pool.pi))


def _prime_factors(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_const(c):
    """log of a positive rational constant."""
    pool = CTX.pool
    r = Rat({})
    for n, sg in ((Fraction(c).numerator, 1), (Fraction(c).denominator, -1)):
        for prime, e in _prime_factors(n).items():
            vi = pool.prime_logs.get(prime)
            if vi is None:
                v = pool.new_var(f"log{prime}", "log", P.p_const(prime), "+")
                lo = Fraction(math.log(prime)) - Fraction(1, 10**9)
                hi = lo + Fraction(2, 10**9)
                v.side.append(v.z > z3.RealVal(str(lo)))
                v.side.append(v.z < z3.RealVal(str(hi)))
                vi = v.idx
                pool.prime_logs[prime] = vi
            r = r.add(Rat(P.p_scale(P.p_var(vi), sg * e)))
    return r


def log_rat(a):
    """log of the Rat a, which is known to be positive on this path: sum of log|factor| atoms."""
    pool = CTX.pool
    c, facs = a.factored()
    r = _log_const(abs(Fraction(c)))
    for f, e in facs:
        if len(f) == 1:
            (m, cc), = f.items()
            if len(m) == 1 and m[0][1] == 1:
                v = pool.vars[m[0][0]]
                if v.kind == "exp":  # log exp(b/D) = b/D
                    base, D = v.payload
                    r = r.add(base.mul(Rat.const(Fraction(e, D))))
                    continue
                if v.kind == "sqrt":
                    inner = log_rat(Rat(dict(v.payload)))
                    r = r.add(inner.mul(Rat.const(Fraction(e, 2))))
                    continue
        k = P.p_key(f)
        vi = pool.log_vars.get(k)
        if vi is None:
            v = pool.new_var(f"log_{len(pool.log_vars)}", "log", f, None)
            vi = v.idx
            pool.log_vars[k] = vi
        r = r.add(Rat(P.p_scale(P.p_var(vi), e)))
    if not a.is_const() and len(pool.log_args) < 400:
        k = a.key()
        if all(k != kk for kk, _, _ in pool.log_args):
            pool.log_args.append((k, a, r))
    return r


ONE = z3.RealVal(1)
EXP_D = 12


def pure_log(r):
    """Is r an integer combination of logarithm atoms?  (then r = log of a rational function)"""
    if r.den or not r.num or len(r.num) > 40:
        return False
    vars_ = CTX.pool.vars
    return all(len(m) == 1 and m[0][1] == 1 and vars_[m[0][0]].kind == "log" and Fraction(c).denominator == 1
               for m, c in r.num.items())


def exp_rat(a):
    """exp of a finite Rat, normalised so that exp is a homomorphism on the Q-span of the exponents seen so far."""
    pool = CTX.pool
    if not a.num:
        return Rat.const(1)
    out = Rat.const(1)
    if not a.den:
        # peel off c*LOG(f) terms:  exp(c log f) = f^c
        rest = {}
        for m, c in a.num.items():
            if len(m) == 1 and m[0][1] == 1 and pool.vars[m[0][0]].kind == "log":
                f = pool.vars[m[0][0]].payload
                cf = Fraction(c)
                if cf.denominator == 1:
                    out = out.mul(abs_known(Rat(dict(f))).pow(int(cf)))
                    continue
                if cf.denominator == 2:
                    n = cf.numerator
                    s = sqrt_rat(abs_known(Rat(dict(f))))
                    out = out.mul(s.pow(n))
                    continue
            rest[m] = c
        a = Rat(rest)
        if not a.num:
            return out
    else:
        # logs sit in the numerator with a polynomial coefficient; try to split off the part whose coefficient is const
        a, peeled = _peel_logs(a)
        out = out.mul(peeled)
        if not a.num:
            return out
    return out.mul(_exp_atom(a))


def _peel_logs(a):
    pool = CTX.pool
    logs = set()
    for m in a.num:
        for v, e in m:
            if pool.vars[v].kind == "log":
                logs.add(v)
    if not logs:
        return a, Rat.const(1)
    facs = pool.factors
    dp = {P.ONE_M: 1}
    for fid, e in a.den.items():
        dp = P.p_mul(dp, P.p_pow(facs[fid], e))
    out = Rat.const(1)
    for v in sorted(logs):
        coef = {}
        ok = True
        for m, c in a.num.items():
            md = dict(m)
            e = md.get(v, 0)
            if e == 1:
                mm = tuple(x for x in m if x[0] != v)
                coef[mm] = c
            elif e > 1:
                ok = False
        if not ok or not coef:
            continue
        q = P.p_divexact(coef, dp)
        if q is None or not P.p_is_const(q):
            continue
        c = Fraction(P.p_const_value(q))
        f = Rat(dict(pool.vars[v].payload))
        if c.denominator == 1:
            out = out.mul(abs_known(f).pow(int(c)))
        elif c.denominator == 2:
            out = out.mul(sqrt_rat(abs_known(f)).pow(c.numerator))
        else:
            continue
        a = a.add(Rat(P.p_scale(P.p_var(v), -c)))
    return a, out


def abs_known(r):
    s = r.sign()
    if s in ("+", "0+", "0"):
        return r
    if s in ("-", "0-"):
        return r.neg()
    if CTX.branch(rat_cmp(r, ">=")):
        return r
    return r.neg()


def _exp_atom(a):
    """Express exp(a) through the exponent basis."""
    pool = CTX.pool
    basis = pool.exp_basis
    if basis:
        combo = _span(a, [b for b, _ in basis])
        if combo is not None and all((Fraction(c) * EXP_D).denominator == 1 for c in combo):
            out = Rat.const(1)
            for c, (_, vi) in zip(combo, basis):
                n = int(Fraction(c) * EXP_D)
                if n:
                    out = out.mul(Rat(P.p_var(vi)).pow(n))
            return out
    v = pool.new_var(f"exp_{len(basis)}", "exp", (a, EXP_D), "+")
    basis.append((a, v.idx))
    return Rat(P.p_var(v.idx)).pow(EXP_D)


def _span(a, basis):
    """Rational coefficients c with a = sum c_i basis_i, or None."""
    facs = CTX.pool.factors
    # common denominator
    den = dict(a.den)
    for b in basis:
        for fid, e in b.den.items():
            den[fid] = max(den.get(fid, 0), e)

    def lift(r):
        n = r.num
        for fid, e in den.items():
            d = e - r.den.get(fid, 0)
            if d > 0:
                n = P.p_mul(n, P.p_pow(facs[fid], d))
        return n

    # only the basis elements that can matter: sharing monomials transitively; simple version: all
    cols = [lift(b) for b in basis]
    tgt = lift(a)
    monos = set(tgt)
    for c in cols:
        monos |= set(c)
    rows = []
    for m in monos:
        row = [Fraction(c.get(m, 0)) for c in cols] + [Fraction(tgt.get(m, 0))]
        if any(row):
            rows.append(row)
    n = len(cols)
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        pv = rows[r][c]
        rows[r] = [x / pv for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    for i in range(r, len(rows)):
        if rows[i][n] != 0:
            return None
    out = [Fraction(0)] * n
    for i, c in enumerate(piv):
        out[c] = rows[i][n]
    return out


def _square_split(n):
    """n = s^2 * f with f squarefree (n positive int)."""
    s, f = 1, 1
    for p, e in _prime_factors(n).items():
        s *= p ** (e // 2)
        if e % 2:
            f *= p
    return s, f


def sqrt_rat(a):
    """square root of a Rat known to be non-negative on this path."""
    pool = CTX.pool
    if not a.num:
        return Rat({})
    c, facs = a.factored()
    c = Fraction(c)
    out = Rat.const(1)
    unknown = {P.ONE_M: 1}
    if c < 0:
        unknown = {P.ONE_M: -1}
        c = -c
    s, f = _square_split(c.numerator * c.denominator)
    out = out.mul(Rat.const(Fraction(s, c.denominator)))
    if f != 1:
        out = out.mul(_sqrt_atom(P.p_const(f)))
    pend = []
    for g, e in facs:
        h = e // 2 if e >= 0 else -((-e + 1) // 2)
        odd = e - 2 * h
        if h:
            base = Rat(dict(g))
            if h % 2:
                base = abs_known(base)
            out = out.mul(base.pow(h))
        if odd:
            sg = poly_sign(g)
            if sg in ("+", "0+"):
                out = out.mul(_sqrt_atom(g))
            elif sg in ("-", "0-"):
                out = out.mul(_sqrt_atom(P.p_neg(g)))
                unknown = P.p_neg(unknown)
            else:
                pend.append(g)
    for g in pend:
        unknown = pmul(unknown, g)
    if not P.p_is_const(unknown):
        out = out.mul(_sqrt_atom(unknown))
    return out


def _sqrt_atom(p):
    pool = CTX.pool
    if len(p) == 1 and not P.p_is_const(p):
        (m, cc), = p.items()
        if len(m) == 1 and m[0][1] == 1 and pool.vars[m[0][0]].kind == "exp" and cc == 1:
            v = pool.vars[m[0][0]]
            base, D = v.payload
            return _exp_atom(base.mul(Rat.const(Fraction(1, 2 * D))))
    k = ("sqrt", P.p_key(p))
    vi = pool.abs_vars.get(k)
    if vi is None:
        v = pool.new_var(f"sqrt_{len(pool.abs_vars)}", "sqrt", p, "+" if _poly_sign_syn(p, pool) == "+" else "0+")
        v.side.append(v.z * v.z == z_poly(p))
        vi = v.idx
        pool.abs_vars[k] = vi
        pool.sqrt_vars.add(vi)
    return Rat(P.p_var(vi))


def abs_rat(a):
    s = a.sign()
    if s in ("+", "0+", "0"):
        return a
    if s in ("-", "0-"):
        return a.neg()
    # canonical sign so that |x| and |-x| are the same atom
    pool = CTX.pool
    c, _ = P.p_primitive(a.num)
    if c < 0:
        a = a.neg()
    k = ("abs", a.key())
    vi = pool.abs_vars.get(k)
    if vi is None:
        v = pool.new_var(f"abs_{len(pool.abs_vars)}", "abs", a, "0+")
        n, d = a.z3nd()
        if d is None:
            v.side.append(z3.Or(v.z == n, v.z == -n))
        else:
            v.side.append(z3.Or(v.z * d == n, v.z * d == -n))
        vi = v.idx
        pool.abs_vars[k] = vi
    return Rat(P.p_var(vi))


def _log_coefs(r):
    """{log atom: coefficient Rat} of a Rat that is linear in logarithm atoms, or None."""
    vars_ = CTX.pool.vars
    coef = {}
    for m, c in r.num.items():
        lv = None
        for v, e in m:
            if vars_[v].kind == "log":
                if lv is not None or e != 1:
                    return None
                lv = v
        if lv is not None:
            coef.setdefault(lv, {})[tuple(x for x in m if x[0] != lv)] = c
    facs = CTX.pool.factors
    for fid in r.den:
        if any(vars_[v].kind == "log" for v in P.p_vars(facs[fid])):
            return None
    return {v: Rat(n, dict(r.den)).cancel() for v, n in coef.items()}


def log_bounds(r):
    """
    Facts about an expression linear in logarithms, from 1 - 1/a <= log a <= a - 1 (strict unless a = 1), applied to
    the arguments whose logarithms were taken.  Valid on this path; they spare the solver a nonlinear instantiation.
    """
    pool = CTX.pool
    if not pool.log_vars or CTX.in_bounds:
        return
    key = ("lb", r.key())
    if key in CTX.memo:
        return
    CTX.memo[key] = True
    if len(r.num) > 600:
        return
    CTX.in_bounds = True
    try:
        coefs = _log_coefs(r)
        if not coefs:
            return
        atoms = set(coefs)
        cands = []
        for k, a, rep in pool.log_args:
            if rep.den or not rep.num:
                continue
            la = {}
            for m, c in rep.num.items():
                if len(m) == 1 and m[0][1] == 1 and pool.vars[m[0][0]].kind == "log":
                    la[m[0][0]] = Fraction(c)
                else:
                    la = None
                    break
            if la and set(la) <= atoms:
                cands.append((len(la), a, rep, la))
        cands.sort(key=lambda x: -x[0])
        # peel in the order of atoms that occur in the fewest candidates
        for lower in (True, False):
            rest = r
            bound = Rat({})
            used = []
            pool_c = list(cands)
            rc = dict(coefs)
            while rc:
                n_in = {v: sum(1 for x in pool_c if v in x[3]) for v in rc}
                v = min((v for v in rc), key=lambda v: (n_in[v] or 10 ** 6, v))
                x = next((x for x in pool_c if v in x[3]), None)
                if x is None:
                    break
                pool_c = [y for y in pool_c if y is not x]
                _, a, rep, la = x
                c = rc[v].mul(Rat.const(1 / la[v]))
                sg = c.sign()
                if sg in ("0", None) or a.sign() not in ("+",):
                    continue
                if (sg in ("+", "0+")) == lower:
                    b = Rat.const(1).add(a.inv().neg())
                else:
                    b = a.add(Rat.const(-1))
                bound = bound.add(c.mul(b))
                rest = rest.add(c.mul(rep).neg())
                used.append((a, sg))
                rc = _log_coefs(rest)
                if rc is None:
                    break
            if rc or not used:
                continue
            e = r.add(rest.add(bound).neg())  # r - bound, sign known
            e = e if lower else e.neg()
            f = rat_cmp(e, ">=")
            if isinstance(f, bool):
                continue
            CTX.assume(Cond(f.f, f.vs))
            strict = rat_cmp(e, ">")
            if not isinstance(strict, bool):
                alts = []
                for a, sg in used:
                    if sg in ("+", "-"):
                        c = rat_cmp(a.add(Rat.const(-1)), "!=")
                        if not isinstance(c, bool):
                            alts.append(c)
                if alts:
                    o = c_or(alts)
                    CTX.assume(Cond(z3.Implies(o.f, strict.f), o.vs | strict.vs))
    finally:
        CTX.in_bounds = False


def rat_cmp(r, op):
    """A condition (z3 formula, vars) for `r op 0`, or a Python bool when syntactically decided."""
    if CTX.pool.log_vars and not CTX.in_bounds and (op not in ("==", "!=") or CTX.eq_bounds and not pure_log(r)):
        log_bounds(r)
    s = r.sign()
    if s == "0":
        return op in ("==", ">=", "<=")
    if s == "+":
        return op in ("!=", ">", ">=")
    if s == "-":
        return op in ("!=", "<", "<=")
    if s == "0+" and op in (">=", "<"):
        return op == ">="
    if s == "0-" and op in ("<=", ">"):
        return op == "<="
    vs = r.vars()
    n = z_poly(r.num)
    if op == "==":
        return Cond(n == 0, vs, ("0", r.num))
    if op == "!=":
        return Cond(n != 0, vs, None)
    # ordering: multiply by the denominator's sign
    facs = CTX.pool.factors
    q = n
    flip = False
    learn = r.num
    for fid, e in r.den.items():
        if e % 2 == 0:
            continue
        t = poly_sign(facs[fid])
        if t in ("+", "0+"):
            continue
        if t in ("-", "0-"):
            flip = not flip
            continue
        q = q * z_poly(facs[fid])
        learn = None
    if flip:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if op == "<":
        return Cond(q < 0, vs, ("-", learn) if learn is not None else None)
    if op == ">":
        return Cond(q > 0, vs, ("+", learn) if learn is not None else None)
    if op == "<=":
        return Cond(q <= 0, vs, ("0-", learn) if learn is not None else None)
    return Cond(q >= 0, vs, ("0+", learn) if learn is not None else None)


class Cond:
    """A z3 formula with the set of variables it mentions (and, optionally, the sign fact it teaches)."""
    __slots__ = ("f", "vs", "learn")

    def __init__(self, f, vs, learn=None):
        self.f = f
        self.vs = vs
        self.learn = learn


def c_not(c):
    if isinstance(c, bool):
        return not c
    learn = None
    if c.learn is not None:
        sg, p = c.learn
        inv = {"+": "0-", "-": "0+", "0+": "-", "0-": "+"}.get(sg)
        if inv:
            learn = (inv, p)
        elif sg == "0":
            learn = ("nz", p)
    return Cond(z3.Not(c.f), c.vs, learn)


def c_and(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    vs = set()
    for c in out:
        vs |= c.vs
    return Cond(z3.And([c.f for c in out]), vs)


def c_or(cs):
    return c_not(c_and([c_not(c) for c in cs]))


# ----------------------------------------------------------------------------------------------------------------------
# symbolic scalars
# ----------------------------------------------------------------------------------------------------------------------
class SB:
    """Symbolic boolean."""
    __slots__ = ("c",)
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CTX.branch(self.c)

    def __and__(self, o):
        return mk_sb(c_and([self.c, to_cond(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mk_sb(c_or([self.c, to_cond(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mk_sb(c_not(self.c))

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk_sb(c):
    if isinstance(c, bool):
        return c
    return SB(c)


def to_cond(x):
    if isinstance(x, SB):
        return x.c
    return bool(x)


NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def is_sym(x):
    return isinstance(x, (S, LG))


def is_num(x):
    return isinstance(x, NUM)


def _with_list(o, f, s):
    """numpy scalars turn a list operand into an array; a plain array
    (whole numbers) leaves the operation to the scalar."""
    if isinstance(o, list) or type(o) is np.ndarray:
        from . import npx
        return f(npx.wrap(npx.np_array(o, dtype=object)), s)
    return NotImplemented


class S:
    __slots__ = ("r",)
    __array_priority__ = 1000

    def __init__(self, r):
        self.r = r

    # --- helpers
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        return S(exact_const(x))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S.of(0)

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const_value())
        raise EngineLimit("hash of a symbolic real")

    # --- arithmetic
    def __add__(self, o):
        if isinstance(o, S):
            return S(self.r.add(o.r))
        if isinstance(o, LG):
            return o.__radd__(self)
        if is_num(o):
            if not math.isfinite(o):
                return float(o)
            return S(self.r.add(exact_const(o)))
        return _with_list(o, lambda a, b: b + a, self)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return S(self.r.neg())

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, S):
            return S(self.r.add(o.r.neg()))
        if isinstance(o, LG):
            return o.__rsub__(self)
        if is_num(o):
            if not math.isfinite(o):
                return -float(o)
            return S(self.r.add(exact_const(o).neg()))
        return _with_list(o, lambda a, b: b - a, self)

    def __rsub__(self, o):
        if isinstance(o, S):
            return o - self
        if is_num(o):
            if not math.isfinite(o):
                return float(o)
            return S(exact_const(o).add(self.r.neg()))
        return _with_list(o, lambda a, b: a - b, self)

    def __mul__(self, o):
        if isinstance(o, S):
            return S(self.r.mul(o.r))
        if isinstance(o, LG):
            return o.__rmul__(self)
        if is_num(o):
            if not math.isfinite(o):
                return self._times_inf(float(o))
            return S(self.r.mul(exact_const(o)))
        return _with_list(o, lambda a, b: b * a, self)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _times_inf(self, o):
        if o != o:
            return NAN
        if CTX.branch(rat_cmp(self.r, "==")):
            return NAN
        if CTX.branch(rat_cmp(self.r, ">")):
            return o
        return -o

    def __truediv__(self, o):
        if isinstance(o, LG):
            o = o.to_real()
        if isinstance(o, S):
            return s_div(self, o)
        if is_num(o):
            o = float(o) if not isinstance(o, Fraction) else o
            if isinstance(o, float) and o != o:
                return NAN
            if isinstance(o, float) and math.isinf(o):
                return S(Rat({}))
            return s_div(self, S.of(o))
        return _with_list(o, lambda a, b: b / a, self)

    def __rtruediv__(self, o):
        if is_num(o):
            if not math.isfinite(o):
                return self._times_inf(float(o))
            return s_div(S.of(o), self)
        return _with_list(o, lambda a, b: a / b, self)

    def __floordiv__(self, o):
        raise EngineLimit("floor division of a symbolic real")

    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __pow__(self, n):
        if isinstance(n, S) and n.r.is_const():
            n = n.r.const_value()
        if isinstance(n, (float, np.floating)):
            fr = Fraction(float(n)).limit_denominator(2)
            if float(fr) == float(n):
                n = fr
        if isinstance(n, (int, np.integer)):
            n = Fraction(int(n))
        if isinstance(n, Fraction):
            if n.denominator == 1:
                k = int(n)
                if k < 0:
                    return s_div(S.of(1), S(self.r.pow(-k)))
                return S(self.r.pow(k))
            if n.denominator == 2:
                s = self.sqrt()
                return s ** n.numerator if is_sym(s) else s
        raise EngineLimit(f"power {n!r}")

    def __rpow__(self, o):
        raise EngineLimit("symbolic exponent")

    def __abs__(self):
        return S(abs_rat(self.r))

    def __round__(self, n=None):
        raise EngineLimit("round")

    # --- numpy's object ufunc hooks
    def sqrt(self):
        sg = self.r.sign()
        if sg not in ("+", "0+", "0"):
            if CTX.branch(rat_cmp(self.r, "<")):
                return NAN
        return S(sqrt_rat(self.r))

    def square(self):
        return self * self

    def log(self):
        sg = self.r.sign()
        if sg not in ("+", "0+", "0"):
            if CTX.branch(rat_cmp(self.r, "<")):
                return NAN
        if sg == "0":
            return -INF
        return LG(self)

    def log2(self):
        return self.log() / S(log_rat(Rat.const(2)))

    def log10(self):
        return self.log() / S(log_rat(Rat.const(10)))

    def log1p(self):
        return (self + 1).log()

    def exp(self):
        return S(exp_rat(self.r))

    def expm1(self):
        return self.exp() - 1

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def isnan(self):
        return False

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def transpose(self, *_a):
        return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __iter__(self):
        raise TypeError("iteration over a symbolic scalar")

    def __float__(self):
        if self.r.is_const():
            return float(self.r.const_value())
        raise EngineLimit("float() of a symbolic real")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.r.is_const():
            return int(self.r.const_value())
        raise EngineLimit("int() of a symbolic real")

    def __bool__(self):
        return CTX.branch(rat_cmp(self.r, "!="))

    # --- comparisons
    def _cmp(self, o, op):
        if isinstance(o, LG):
            r = o._cmp(self, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op])
            return r
        if isinstance(o, S):
            return mk_sb(rat_cmp(self.r.add(o.r.neg()), op))
        if is_num(o):
            o_ = float(o)
            if o_ != o_:
                return op == "!="
            if math.isinf(o_):
                if op == "==":
                    return False
                if op == "!=":
                    return True
                if o_ > 0:
                    return op in ("<", "<=")
                return op in (">", ">=")
            return mk_sb(rat_cmp(self.r.add(exact_const(o).neg()), op))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __repr__(self):
        if self.r.is_const():
            return repr(float(self.r.const_value()))
        return token(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        if self.r.is_const():
            return format(float(self.r.const_value()), spec)
        return token(self, spec)


def s_div(a, b):
    sg = b.r.sign()
    if sg not in ("+", "-"):
        if CTX.branch(rat_cmp(b.r, "==")):
            if CTX.branch(rat_cmp(a.r, "==")):
                return NAN
            return INF if CTX.branch(rat_cmp(a.r, ">")) else -INF
    return S(a.r.mul(b.r.inv()))


class LG:
    """log(p) for a real p >= 0 (established on this path)."""
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p  # S

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S.of(0)

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __hash__(self):
        raise EngineLimit("hash of a symbolic log value")

    def zero(self):
        """Is p == 0?  (forks when not known)"""
        sg = self.p.r.sign()
        if sg == "+":
            return False
        if sg == "0":
            return True
        return CTX.branch(rat_cmp(self.p.r, "=="))

    def to_real(self):
        """log p as a finite S, or -inf."""
        if self.zero():
            return -INF
        return S(log_rat(self.p.r))

    def __add__(self, o):
        if isinstance(o, LG):
            return LG(self.p * o.p)
        if isinstance(o, S) and pure_log(o.r):
            return LG(S(self.p.r.mul(exp_rat(o.r))))
        if isinstance(o, S) or is_num(o):
            if is_num(o):
                if o == 0:
                    return self
                if not math.isfinite(o):
                    if o != o:
                        return NAN
                    if o < 0:
                        return -INF
                    return NAN if self.zero() else INF
            a = self.to_real()
            if a is not None and not is_sym(a):
                return a
            return a + o
        return _with_list(o, lambda a, b: b + a, self)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        if self.zero():
            return INF
        return LG(S(self.p.r.inv()))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, LG):
            if o.zero():
                return NAN if self.zero() else INF
            return LG(S(self.p.r.mul(o.p.r.inv())))
        if isinstance(o, S):
            return self + (-o)
        if is_num(o):
            if o == -INF:
                return NAN if self.zero() else INF
            return self + (-o)
        return _with_list(o, lambda a, b: b - a, self)

    def __rsub__(self, o):
        if isinstance(o, S):
            b = self.to_real()
            if not is_sym(b):
                return INF
            return o - b
        if is_num(o):
            if o == 0:
                return -self
            if o == -INF:
                return NAN if self.zero() else -INF
            if o == INF:
                return INF
            b = self.to_real()
            if not is_sym(b):
                return INF if o == o else NAN
            return o - b
        return _with_list(o, lambda a, b: a - b, self)

    def __mul__(self, o):
        a = self.to_real()
        if isinstance(o, LG):
            o = o.to_real()
        if not is_sym(a) and not is_sym(o):
            return a * o
        return a * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.to_real() / o

    def __rtruediv__(self, o):
        a = self.to_real()
        if not is_sym(a):
            return S.of(0)
        return o / a if is_sym(o) else a.__rtruediv__(o)

    def __pow__(self, n):
        return self.to_real() ** n

    def __abs__(self):
        return abs(self.to_real())

    def exp(self):
        return self.p

    def expm1(self):
        return self.p - 1

    def sqrt(self):
        a = self.to_real()
        return a.sqrt() if is_sym(a) else NAN

    def square(self):
        return self * self

    def log(self):
        a = self.to_real()
        return a.log() if is_sym(a) else NAN

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def transpose(self, *_a):
        return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __iter__(self):
        raise TypeError("iteration over a symbolic scalar")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def __float__(self):
        raise EngineLimit("float() of a symbolic log value")

    def __bool__(self):
        # log p != 0  <=>  p != 1
        return CTX.branch(rat_cmp(self.p.r.add(Rat.const(-1)), "!="))

    def _cmp(self, o, op):
        if isinstance(o, LG):
            return mk_sb(rat_cmp(self.p.r.add(o.p.r.neg()), op))
        if is_num(o):
            o_ = float(o)
            if o_ != o_:
                return op == "!="
            if o_ == -INF:
                if op == "==":
                    return mk_sb(rat_cmp(self.p.r, "=="))
                if op == "!=":
                    return mk_sb(rat_cmp(self.p.r, "!="))
                if op == "<=":
                    return mk_sb(rat_cmp(self.p.r, "=="))
                if op == ">":
                    return mk_sb(rat_cmp(self.p.r, "!="))
                return op == ">="
            if o_ == INF:
                return op in ("<", "<=", "!=")
            if o_ == 0:
                return mk_sb(rat_cmp(self.p.r.add(Rat.const(-1)), op))
            o = S.of(o)
        if isinstance(o, S):
            return mk_sb(rat_cmp(self.p.r.add(exp_rat(o.r).neg()), op))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __repr__(self):
        return token(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec)


# ----------------------------------------------------------------------------------------------------------------------
# generic scalar functions on float | S | LG
# ----------------------------------------------------------------------------------------------------------------------
PRINTED = []  # values that were turned into text, with their format


def token(x, spec):
    """The text of a symbolic value: refers back to it, so that claims can be made about what is printed."""
    if len(PRINTED) >= 5000:
        return "<S>"
    PRINTED.append((x, spec))
    return f"\u27e6{len(PRINTED) - 1}\u27e7"


RANGE = None  # a list while the arguments of the exponentials and logarithms taken by the code are recorded


def _zero(x):
    if isinstance(x, S):
        return x.r.is_const() and x.r.const_value() == 0
    return is_num(x) and x == 0


class C:
    """
    A complex value re + (im + turn * pi/2) i: `turn` is an exact rational, so that logarithms of negative numbers and
    their exponentials are exact.  Values without an imaginary part collapse to real ones (C.make).
    """
    __slots__ = ("re", "im", "turn")
    __array_priority__ = 1000

    def __init__(self, re, im, turn):
        self.re, self.im, self.turn = re, im, turn

    @staticmethod
    def make(re, im=0, turn=0):
        turn = Fraction(turn)
        if _zero(im) and turn == 0:
            return re
        return C(re, im, turn)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __hash__(self):
        raise EngineLimit("hash of a symbolic complex value")

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        if self.turn:
            raise EngineLimit("imaginary part of a symbolic logarithm")
        return self.im

    def conjugate(self):
        return C.make(self.re, -self.im, -self.turn)

    @staticmethod
    def _parts(x):
        if isinstance(x, C):
            return x.re, x.im, x.turn
        if isinstance(x, (S, LG)) or is_num(x):
            return x, 0, Fraction(0)
        if isinstance(x, complex):
            return x.real, x.imag, Fraction(0)
        return None

    def __add__(self, o):
        q = C._parts(o)
        if q is None:
            return NotImplemented
        return C.make(self.re + q[0], self.im + q[1], self.turn + q[2])

    __radd__ = __add__

    def __neg__(self):
        return C.make(-self.re, -self.im, -self.turn)

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = C._parts(o)
        if q is None:
            return NotImplemented
        return C.make(self.re - q[0], self.im - q[1], self.turn - q[2])

    def __rsub__(self, o):
        r = self.__sub__(o)
        return r if r is NotImplemented else -r

    def _plain(self):
        if self.turn:
            raise EngineLimit("arithmetic with a complex logarithm")
        return as_real(self.re), as_real(self.im)

    def __mul__(self, o):
        q = C._parts(o)
        if q is None:
            return NotImplemented
        if _zero(q[1]) and not q[2]:
            if self.turn and not is_num(q[0]):
                k = as_real(q[0])
                if not (isinstance(k, S) and k.r.is_const()):
                    raise EngineLimit("arithmetic with a complex logarithm")
                k = k.r.const_value()
            else:
                k = q[0]
            return C.make(self.re * q[0], self.im * q[0], self.turn * Fraction(k) if self.turn else 0)
        (a, b), (c, d) = self._plain(), C(*q)._plain()
        return C.make(a * c - b * d, a * d + b * c)

    __rmul__ = __mul__

    @staticmethod
    def _div(x, y):
        (a, b), (c, d) = x, y
        if _zero(d):
            return C.make(a / c, b / c)
        if _zero(c):  # (a + bi) / (di)
            return C.make(b / d, -a / d)
        n = c * c + d * d
        return C.make((a * c + b * d) / n, (b * c - a * d) / n)

    def __truediv__(self, o):
        q = C._parts(o)
        if q is None:
            return NotImplemented
        if is_num(o) and self.turn:
            return self * (Fraction(1) / Fraction(o))
        return C._div(self._plain(), C(*q)._plain())

    def __rtruediv__(self, o):
        q = C._parts(o)
        if q is None:
            return NotImplemented
        return C._div(C(*q)._plain(), self._plain())

    def __pow__(self, n):
        if n == 2:
            return self * self
        raise EngineLimit("power of a complex value")

    def __eq__(self, o):
        raise EngineLimit("comparison of complex values")

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def exp(self):
        if not _zero(self.im) or self.turn.denominator != 1:
            raise EngineLimit("exponential of a complex value")
        e, k = g_exp(self.re), int(self.turn) % 4
        return C.make(e if k == 0 else (-e if k == 2 else S.of(0)), e if k == 1 else (-e if k == 3 else 0))

    def log(self):
        a, b = self._plain()
        if not _zero(a):
            raise EngineLimit("logarithm of a complex value")
        if bool(b > 0):
            return C.make(g_log(b), 0, 1)
        if bool(b < 0):
            return C.make(g_log(-b), 0, -1)
        return -INF

    def __abs__(self):
        a, b = self._plain()
        if _zero(a):
            return abs(b)
        return g_sqrt(a * a + b * b)


def rec_exp(x):
    """exp as called by the code under analysis (log-sum-exp kernels do not pass through here)."""
    if RANGE is not None:
        RANGE.append(("exp", x))
    return g_exp(x)


def rec_log(x):
    if RANGE is not None:
        RANGE.append(("log", x))
    return g_log(x)


def g_exp(x):
    if isinstance(x, (S, LG, C)):
        return x.exp()
    x = float(x)
    if x == -INF:
        return S.of(0)
    if not math.isfinite(x):
        return x
    return S.of(x).exp()


def g_log(x):
    if isinstance(x, (S, LG, C)):
        return x.log()
    x = float(x)
    if x == 0:
        return -INF
    if x < 0 or x != x:
        return NAN
    if x == INF:
        return INF
    return LG(S.of(x))


def g_sqrt(x):
    if is_sym(x):
        return x.sqrt()
    if not math.isfinite(x):
        return x if x > 0 else NAN
    return S.of(x).sqrt()


def as_real(x):
    """S or a non-finite float."""
    if isinstance(x, LG):
        return x.to_real()
    if isinstance(x, S):
        return x
    x_ = float(x)
    if not math.isfinite(x_):
        return x_
    return S.of(x)


def isclose_cond(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """numpy's |a-b| <= atol + rtol*|b| on the real line, with its inf/nan conventions."""
    if CTX.close_mode == "exact" and (isinstance(a, LG) or isinstance(b, LG)):
        rt, at = exact_const(rtol), exact_const(atol)
        if _small(rt) and _small(at):
            # numerical-noise tolerance read as equality; logarithms compare through their arguments
            r = a._cmp(b, "==") if isinstance(a, LG) else b._cmp(a, "==")
            if r is not NotImplemented:
                return r if isinstance(r, bool) else to_cond(r)
    a, b = as_real(a), as_real(b)
    fa, fb = not is_sym(a), not is_sym(b)
    if fa or fb:
        if fa and fb:
            if a != a and b != b:
                return bool(equal_nan)
            return a == b
        return False
    d = a.r.add(b.r.neg())
    if not d.num:
        return True
    rt, at = exact_const(rtol), exact_const(atol)
    if CTX.close_mode == "exact" and _small(rt) and _small(at):
        # tolerances of numerical noise size are read as equality (rounding is outside the claims)
        return rat_cmp(d, "==")

    def le(x, y):
        return rat_cmp(y.add(x.neg()), ">=")

    alts = []
    # |d| <= at + rt*|b|  <=>  (|d| <= at + rt*b) or (|d| <= at - rt*b)     (rt >= 0)
    for sgn in ((1, -1) if rt.num else (1,)):
        bound = at.add(rt.mul(b.r).mul(Rat.const(sgn)))
        alts.append(c_and([le(d, bound), le(d.neg(), bound)]))
    return c_or(alts)


def _small(r):
    return r.is_const() and abs(r.const_value()) <= Fraction(1, 10000)


def close_sb(a, b, **kw):
    return mk_sb(isclose_cond(a, b, **kw))


# ----------------------------------------------------------------------------------------------------------------------
# path context and solver
# ----------------------------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        return dict(self.__dict__)


def _mk_solver(kind, timeout_ms):
    if kind == "nra":
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


class Ctx:
    """One path."""

    def __init__(self, pool, prefix, stats, deadline, set_order="asc"):
        self.pool = pool
        self.prefix = prefix
        self.trace = []  # list of [decision, alternatives_open]
        self.pos = 0
        self.stats = stats
        self.deadline = deadline
        self.pc = []  # Cond
        self.signs = {}
        self.assign = None  # var idx -> z3 value
        self.obligations = []
        self.set_order = set_order
        self.set_iterated = False
        self.close_mode = "exact"
        self.eq_bounds = False  # facts about logarithms also for comparisons with ==
        self.memo = {}
        self.in_bounds = False

    # --- path condition
    def learn(self, c):
        if c.learn is None:
            return
        sg, p = c.learn
        if sg == "nz" or not p or P.p_is_const(p):
            return
        cont, prim = P.p_primitive(p)
        if cont < 0:
            sg = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0"}[sg]
        k = P.p_key(prim)
        old = self.signs.get(k)
        if old in ("+", "-", "0"):
            return
        if old and sg in ("0+", "0-") and sg != old:
            sg = "0"
        self.signs[k] = sg

    def assume(self, c):
        """Add a condition to the path; the caller guarantees or checks feasibility."""
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assumption false")
            return
        self.pc.append(c)
        self.learn(c)
        if self.assign is not None and self._model_says(c) is not True:
            self.assign = None

    def slice(self, vs):
        """Constraints (with atom side conditions) connected to the variables vs."""
        want = set(vs)
        fs = []
        todo = list(self.pc)
        vars_ = self.pool.vars
        done = set()
        grew = True
        while grew:
            grew = False
            for v in list(want - done):
                done.add(v)
                var = vars_[v]
                if var.kind in ("sqrt",):
                    nv = P.p_vars(var.payload)
                elif var.kind == "abs":
                    nv = var.payload.vars()
                else:
                    nv = ()
                for x in nv:
                    if x not in want:
                        want.add(x)
                        grew = True
            rest = []
            for c in todo:
                if c.vs & want:
                    fs.append(c.f)
                    if not c.vs <= want:
                        want |= c.vs
                        grew = True
                else:
                    rest.append(c)
            todo = rest
        for v in want:
            fs.extend(vars_[v].side)
        return fs, want

    def check(self, extra, vs, timeout_ms=4000, lemmas=False, kinds=("nra",), want_model=False):
        fs, want = self.slice(vs)
        fs = fs + extra
        if lemmas:
            lf, lv = self.lemma_formulas(want)
            if lf:
                # lemmas may connect further variables
                fs2, want = self.slice(want | lv)
                fs = fs2 + extra + lf
        res = z3.unknown
        model = None
        for kind in kinds:
            s = _mk_solver(kind, timeout_ms)
            s.add(*fs)
            t = time.time()
            res = s.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if res == z3.sat:
                self.stats.sat += 1
                model = s.model()
                break
            if res == z3.unsat:
                self.stats.unsat += 1
                break
            self.stats.unknown += 1
        if time.time() > self.deadline:
            raise BudgetExceeded()
        return res, model, want

    def lemma_formulas(self, vs):
        pool = self.pool
        out = []
        used = set()
        for k, a, r in pool.log_args:
            rv = r.vars()
            if not rv & vs:
                continue
            # for positive a:  log a <= a - 1   and   log a >= 1 - 1/a
            n, d = a.z3nd()
            rn, rd = r.z3nd()
            if rd is not None:
                continue
            if d is None:
                d = ONE
            # (both strict unless a = 1)
            pos = z3.And(n * d > 0, n != d) if a.sign() != "+" else n != d
            up = (rn + 1) * d * d < n * d
            lo = (rn - 1) * n * d > -d * d
            if d is ONE:
                up, lo = rn + 1 < n, (rn - 1) * n > -1
            elif a.sign() == "+" and all(poly_sign(self.pool.factors[f]) == "+" for f in a.den):
                up, lo = (rn + 1) * d < n, (rn - 1) * n > -d
            out.append(z3.Implies(pos, z3.And(up, lo)))
            out.append(z3.Implies(n == d, rn == 0))
            used |= rv | a.vars()
        for b, vi in pool.exp_basis:
            if vi in vs:
                n, d = b.z3nd()
                z = pool.vars[vi].z
                D = EXP_D
                if d is None:
                    out.append(z >= 1 + n / D)
                    out.append(z3.Implies(n > 0, z > 1))
                    out.append(z3.Implies(n < 0, z < 1))
                    out.append(z3.Implies(n == 0, z == 1))
                used |= b.vars()
        return out, used

    # --- models
    def _store(self, model, want):
        if self.assign is None:
            self.assign = {}
        for v in want:
            self.assign[v] = model.eval(self.pool.vars[v].z, model_completion=True)

    def _model_says(self, c):
        """Truth of the condition under the stored assignment; None when not determined."""
        a = self.assign
        if a is None:
            return None
        pairs = []
        for v in c.vs:
            if v not in a:
                return None
            pairs.append((self.pool.vars[v].z, a[v]))
        r = z3.simplify(z3.substitute(c.f, pairs))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    # --- branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        key = c.f.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        f = z3.simplify(c.f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d, o = self.prefix[self.pos]
            self.pos += 1
            self.trace.append([d, o])
            cc = c if d else c_not(c)
            self.pc.append(cc)
            self.learn(cc)
            self.memo[key] = (d, c.f)
            self.assign = None
            return d
        if time.time() > self.deadline:
            raise BudgetExceeded()
        says = self._model_says(c)
        can_t = can_f = None
        if says is True:
            can_t = True
        elif says is False:
            can_f = True
        mt = mf = None
        if can_t is None:
            r, m, w = self.check([c.f], c.vs, 3000)
            can_t = r != z3.unsat
            mt = (m, w)
        if can_f is None:
            if not can_t:
                can_f = True  # the path itself is feasible
            else:
                r, m, w = self.check([z3.Not(c.f)], c.vs, 3000)
                can_f = r != z3.unsat
                mf = (m, w)
        if can_t:
            d = True
            if mt and mt[0] is not None:
                self._store(*mt)
            elif says is not True:
                self.assign = None
        else:
            d = False
            if mf and mf[0] is not None:
                self._store(*mf)
            elif says is not False:
                self.assign = None
        self.pos += 1
        self.trace.append([d, can_t and can_f])
        cc = c if d else c_not(c)
        self.pc.append(cc)
        self.learn(cc)
        self.memo[key] = (d, c.f)
        return d

    def choose(self, n):
        """A nondeterministic choice 0..n-1 (explored exhaustively)."""
        if n == 1:
            return 0
        d = self.prefix[self.pos][0] if self.pos < len(self.prefix) else 0
        self.pos += 1
        self.trace.append([d, ("choice", n)])
        return d

    def branch_only(self, c):
        """Assume c; False when it is infeasible on this path."""
        if isinstance(c, bool):
            return c
        f = z3.simplify(c.f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self._model_says(c) is not True:
            r, m, w = self.check([c.f], c.vs, 3000)
            if r == z3.unsat:
                return False
            if m is not None:
                self._store(m, w)
            else:
                self.assign = None
        self.pc.append(c)
        self.learn(c)
        self.memo[c.f.get_id()] = (True, c.f)
        return True

    # --- obligations
    def prove(self, c, timeout_ms=8000):
        """('unsat'|'sat'|'unknown', model) for the negation of c under the path condition."""
        neg = c_not(c)
        r, m, w = self.check([neg.f], neg.vs, min(timeout_ms, 3000))
        if r == z3.unsat:
            return "unsat", None
        m1 = (m, w) if r == z3.sat else None
        has_atoms = any(self.pool.vars[v].kind != "in" for v in w)
        if has_atoms or r == z3.unknown:
            r2, m2, w2 = self.check([neg.f], neg.vs, timeout_ms, lemmas=has_atoms, kinds=("nra", "gen"))
            if r2 == z3.unsat:
                return "unsat", None
            if r2 == z3.sat:
                return "sat", (m2, w2)
            if m1:
                return "sat", m1
            return "unknown", None
        return "sat", m1

    def path_model(self, extra=(), vs=()):
        """Concrete input values satisfying the whole path condition (atoms are only approximated)."""
        allv = set(vs)
        for c in self.pc:
            allv |= c.vs
        r, m, w = self.check(list(extra), allv, 3000)
        return (m, w) if m is not None else None

    def input_values(self, mw):
        out = {}
        if mw is None:
            return out
        m, w = mw
        for v in self.pool.vars:
            if v.kind != "in" or v.idx not in w:
                continue
            val = m.eval(v.z, model_completion=True)
            try:
                if z3.is_rational_value(val):
                    f = float(val.as_fraction())
                elif z3.is_algebraic_value(val):
                    f = float(val.approx(20).as_fraction())
                else:
                    continue
            except (OverflowError, ArithmeticError):
                continue
            out[v.name] = f
        return out
