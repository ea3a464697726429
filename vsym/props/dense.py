"""Dense discrete tables (C01-C07)."""
import itertools
import math

from . import Scenario, marg, product
from ..core import is_sym
from ._tables import (CARD, Table, add_all, cells, dense, names_for, names_survive, ordered_as, same_entry, same_function, sym_table)
from ._origins import FIVE, cfgs as origins, large, operation, shapes, slight

PAIRS_Q = [
    ("ab", "ab"), ("ab", "ba"), ("ab", "a"), ("ab", "b"), ("a", "ab"), ("b", "ab"), ("ab", "bc"), ("ab", "cb"),
    ("ba", "bc"), ("a", "b"), ("ab", "c"), ("abc", "cab"), ("abc", "bd"), ("ac", "bca"), ("ea", "ae"), ("ab", "eb"),
    ("ab", "ca"), ("ab", "cd"), ("ae", "b"),
]


def pairs(tier):
    if tier == "quick":
        return PAIRS_Q
    out = []
    for n in range(1, 4):
        for m in range(1, 4):
            for p in itertools.permutations("abc", n):
                for q in itertools.permutations("bcde"[: 4], m):
                    c = 1
                    for v in set(p) | set(q):
                        c *= CARD[v]
                    if c <= 48:
                        out.append(("".join(p), "".join(q)))
    for p in itertools.permutations("abc", 3):
        for m in (1, 2, 3):
            for q in itertools.permutations("abc", m):
                out.append(("".join(p), "".join(q)))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


# ------------------------------------------------------------------------------------------------------------- C01
def multiply(env, left, right, named=False, via="multiply"):
    A = sym_table(env, "p", left, sign="0+")
    B = sym_table(env, "q", right, sign="0+")
    fa, fb = dense(env, A, named), dense(env, B, named)
    r = fa * fb if via == "mul" else getattr(fa, via)(fb)
    same_function(env, "product", r, A.times(B))
    check_names(env, r, named)
    r2 = fb.multiply(fa)
    same_function(env, "commuted", r2, A.times(B))


def check_names(env, r, named):
    names_survive(env, "result", r, named)


def divide(env, left, right, named=False):
    A = sym_table(env, "p", left, sign="0+")
    B = sym_table(env, "q", right, sign="+")
    r = dense(env, A, named).divide(dense(env, B, named))
    same_function(env, "quotient", r, A.combine(B, lambda a, b: a / b))
    check_names(env, r, named)


def triple(env, scopes, vacuous=False):
    """Products of three factors do not depend on the association."""
    T = [sym_table(env, f"p{i}", s, sign="0+") for i, s in enumerate(scopes)]
    f = [dense(env, t) for t in T]
    ref = T[0].times(T[1]).times(T[2])
    same_function(env, "left", f[0].multiply(f[1]).multiply(f[2]), ref)
    same_function(env, "right", f[0].multiply(f[1].multiply(f[2])), ref)


def undo(env, left, right):
    """Dividing a product by one of its operands gives the other one back."""
    A = sym_table(env, "p", left, sign="0+")
    B = sym_table(env, "q", right, sign="+")
    r = dense(env, A).multiply(dense(env, B)).divide(dense(env, B))
    extra = [n for n in B.names if n not in A.names]
    one = Table(extra, CARD, {t: env.const(1) for t in cells(extra, CARD)})
    same_function(env, "undone", r, A.times(one) if extra else A)


# ------------------------------------------------------------------------------------------------------------- C02
def cancel(env, left, right, zl=(), zr=(), named=False):
    """a/b, except that 0/0 is 0; infinite where a > 0 = b."""
    A = sym_table(env, "p", left, sign="+", zeros=zl)
    B = sym_table(env, "q", right, sign="+", zeros=zr)
    fa, fb = dense(env, A, named), dense(env, B, named)
    r = fa.cancel(fb)
    check_names(env, r, named)
    zero_b = {t for i, t in enumerate(cells(B.names, B.cards)) if i in zr}
    zero_a = {t for i, t in enumerate(cells(A.names, A.cards)) if i in zl}

    def f_ok(asg):
        b0 = tuple(asg[n] for n in B.names) in zero_b
        a0 = tuple(asg[n] for n in A.names) in zero_a
        return not b0 or a0
    names = A.names + [n for n in B.names if n not in A.names]
    cards = {**A.cards, **B.cards}
    ref = {}
    for t in cells(names, cards):
        asg = dict(zip(names, t))
        if tuple(asg[n] for n in B.names) in zero_b:
            ref[t] = env.const(0)
        else:
            ref[t] = A.at(asg) / B.at(asg)
    same_function(env, "cancelled", r, Table(names, cards, ref), where=f_ok)
    got = list(r.var_names)
    for t in cells(names, cards):
        asg = dict(zip(names, t))
        if not f_ok(asg) and sorted(got) == sorted(names):
            v = r.potential(got, [asg[n] for n in got])
            env.true("a positive value divided by zero is infinite", not is_sym(v) and float(v) == float("inf"))


def cancel_free(env, left, right):
    """As above with the zeros chosen by the solver."""
    A = sym_table(env, "p", left, sign="0+")
    B = sym_table(env, "q", right, sign="0+")
    for t in cells(A.names, {**A.cards, **B.cards}):
        asg = dict(zip(A.names, t))
        b = B.at(asg)
        if env.is_true(b == 0):
            env.assume(A.at(asg) == 0)
    r = dense(env, A).cancel(dense(env, B))
    ref = {}
    for t in cells(A.names, A.cards):
        asg = dict(zip(A.names, t))
        b = B.at(asg)
        ref[t] = env.const(0) if env.is_true(b == 0) else A.at(asg) / b
    same_function(env, "cancelled", r, Table(A.names, A.cards, ref))


def absorb_cancel(env, left, right, zr=()):
    """Multiplying a message in and cancelling it returns the potential on the message's support, zero elsewhere."""
    A = sym_table(env, "p", left, sign="+")
    B = sym_table(env, "q", right, sign="+", zeros=zr)
    r = dense(env, A).multiply(dense(env, B)).cancel(dense(env, B))
    zero_b = {t for i, t in enumerate(cells(B.names, B.cards)) if i in zr}
    ref = {}
    for t in cells(A.names, A.cards):
        asg = dict(zip(A.names, t))
        ref[t] = env.const(0) if tuple(asg[n] for n in B.names) in zero_b else A.at(asg)
    same_function(env, "restored", r, Table(A.names, A.cards, ref))


def cancel_cfgs(tier):
    out = []
    base = [("ab", "ab", (0, 3), (0, 3)), ("ab", "ba", (0, 4), (0, 3)), ("ab", "b", (1, 4, 2), (1,)),
            ("ab", "a", (0, 1, 2, 5), (0,)), ("abc", "ca", (0, 2, 4, 7), (0,)), ("ab", "ab", (1,), ()),
            ("ab", "ba", (1, 2), ()), ("a", "a", (0, 1), (0, 1)), ("abc", "b", tuple(range(0, 12, 5)), ()),
            ("ac", "ca", (1, 2), (1, 2)), ("ab", "cb", (0, 3), (0,)), ("b", "ab", (1,), (1, 4)),
            ("ea", "a", (0,), (0,)), ("ba", "ab", (0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 5)),
            ("ab", "ba", (1,), (0, 2)), ("a", "a", (), (1,)), ("ab", "b", (2,), (0, 1)), ("ac", "ca", (1, 2), (2, 3))]
    for l, r, zl, zr in base:
        out.append(dict(left=l, right=r, zl=list(zl), zr=list(zr), named="bc"))
    if tier == "thorough":
        for l, r in pairs("thorough"):
            nl = len(cells(l, CARD))
            nr = len(cells(r, CARD))
            for k in range(3):
                out.append(dict(left=l, right=r, zl=[i for i in range(nl) if (i * 7 + k) % 3 == 0],
                                zr=[i for i in range(nr) if (i * 5 + k) % 4 == 0]))
    return out


# ------------------------------------------------------------------------------------------------------------- C03
def marginalize(env, names, vrs, keep=True, named=False, zeros=()):
    A = sym_table(env, "p", names, sign="0+", zeros=zeros)
    vrs = list(vrs)
    f = dense(env, A, named)
    r = marg(f, vrs, keep)
    kept = vrs if keep else [n for n in A.names if n not in vrs]
    same_function(env, "marginal", r, A.sum_to(kept))
    if len(vrs) == 1:
        same_function(env, "marginal of one variable", marg(f, vrs, keep, bare=True), A.sum_to(kept))
    check_names(env, r, named)


def marg_twice(env, names, first, second):
    """Summing out in two steps equals summing out at once."""
    A = sym_table(env, "p", names, sign="0+")
    r = dense(env, A).marginalize(list(first), keep=False).marginalize(list(second), keep=False)
    kept = [n for n in A.names if n not in first and n not in second]
    same_function(env, "marginal", r, A.sum_to(kept))


def marg_cfgs(tier):
    scopes = ["ab", "abc", "eab", "aeb", "ca", "abe"] if tier == "quick" else \
        ["ab", "ba", "abc", "cab", "bca", "eab", "aeb", "abe", "ef", "efa", "abcd", "dcba"]
    out = []
    for s in scopes:
        for k in range(1, len(s)):
            for sub in itertools.permutations(s, k):
                if tier == "quick" and len(s) > 2 and k == 2 and sub[0] > sub[1] and s != "abc":
                    continue
                for keep in (True, False):
                    if not keep and list(sub) != sorted(sub):
                        continue
                    out.append(dict(names=s, vrs="".join(sub), keep=keep))
    out.append(dict(names="ab", vrs="ba", keep=True))
    out.append(dict(names="abc", vrs="cba", keep=True))
    out.append(dict(names="abc", vrs="ca", keep=True, named=True))
    out.append(dict(names="bac", vrs="b", keep=False, named=True))
    out.append(dict(names="ab", vrs="a", keep=True, zeros=[0, 1, 2]))
    return out


# ------------------------------------------------------------------------------------------------------------- C04
def reduce(env, names, obs, values, named=False, via="reduce"):
    A = sym_table(env, "p", names, sign="0+")
    r = getattr(dense(env, A, named), via)(list(obs), list(values))
    same_function(env, "slice", r, A.slice(dict(zip(obs, values))))
    check_names(env, r, named)
    env.true("order kept", list(r.var_names) == [n for n in names if n not in obs])


def reduce_steps(env, names, o1, v1, o2, v2):
    """Observing in two steps equals observing at once, and commutes with multiplication."""
    A = sym_table(env, "p", names, sign="0+")
    B = sym_table(env, "q", names[:2], sign="0+")
    f = dense(env, A)
    r = f.reduce(list(o1), list(v1)).reduce(list(o2), list(v2))
    both = {**dict(zip(o1, v1)), **dict(zip(o2, v2))}
    same_function(env, "two steps", r, A.slice(both))
    g = dense(env, B)
    ob = {k: v for k, v in zip(o1, v1)}
    left = f.multiply(g).reduce(list(o1), list(v1))
    same_function(env, "product then observe", left, A.times(B).slice(ob))


def reduce_cfgs(tier):
    out = []
    scopes = ["ab", "abc", "eab", "cb"] if tier == "quick" else ["ab", "ba", "abc", "cab", "eab", "abe", "abcd", "b"]
    for s in scopes:
        for k in range(1, len(s) if tier == "quick" else len(s) + 0):
            for obs in itertools.permutations(s, k):
                vals = list(itertools.product(*[range(CARD[o]) for o in obs]))
                if tier == "quick" and len(vals) > 2:
                    vals = [vals[-1], vals[1]]
                for v in vals:
                    out.append(dict(names=s, obs="".join(obs), values=list(v)))
    out.append(dict(names="abc", obs="ca", values=[1, 0], named=True))
    out.append(dict(names="abc", obs="b", values=[2], via="observe"))
    return out


# ------------------------------------------------------------------------------------------------------------- C05
def normalise(env, names, zeros=()):
    A = sym_table(env, "p", names, sign="+", zeros=zeros)
    r = dense(env, A, True).normalize()
    z = A.total()
    same_function(env, "normalised", r, Table(A.names, A.cards, {t: v / z for t, v in A.p.items()}))
    check_names(env, r, True)


def whole(env, op, names="ab", other="ba"):
    """A table whose log values are given as an array of whole numbers."""
    import numpy as np
    cs = cells(names, CARD)
    k = [(3 * i + 1) % 5 - 2 for i in range(len(cs))]
    A = Table(list(names), {n: CARD[n] for n in names}, {c: env.exp(env.const(float(x))) for c, x in zip(cs, k)})
    f = env.mod("veroku.factors.categorical").Categorical(var_names=list(names), log_probs_tensor=np.array(k).reshape([CARD[n] for n in names]))
    B = sym_table(env, "q", other, sign="+")
    g = dense(env, B)
    scaled = lambda T: Table(T.names, T.cards, {t: v / T.total() for t, v in T.p.items()})
    if op == "normalise":
        same_function(env, op, f.normalize(), scaled(A))
        same_function(env, "again", f.normalize().normalize(), scaled(A))
    elif op == "reduce":
        same_function(env, op, f.reduce([names[0]], [1]).normalize(), scaled(A.slice({names[0]: 1})))
    elif op == "marginal":
        same_function(env, op, f.marginalize([names[0]]).normalize(), scaled(A.sum_to([names[0]])))
    elif op == "multiply":
        same_function(env, op, f.multiply(g), A.times(B))
        same_function(env, op + " (other)", g.multiply(f), B.times(A))
    else:
        same_function(env, op, f.divide(g).normalize(), scaled(A.combine(B, lambda x, y: x / y)))
        same_function(env, op + " (other)", g.cancel(f), B.combine(A, lambda x, y: x / y))
    same_function(env, "afterwards", f, A)


def reorder(env, names, new):
    A = sym_table(env, "p", names, sign="0+")
    r = dense(env, A, True).reorder(list(new))
    same_function(env, "reordered", r, A)
    ordered_as(env, "reordered", r, new)
    check_names(env, r, True)


def potential_orders(env, names):
    A = sym_table(env, "p", names, sign="0+")
    f = dense(env, A)
    for perm in itertools.permutations(names):
        vals = [f.potential(list(perm), [asg[n] for n in perm]) for asg in A.assignments()]
        env.eq(f"potential({''.join(perm)})", vals, [A.at(asg) for asg in A.assignments()])


def argmax(env, names):
    A = sym_table(env, "p", names, sign="0+")
    f = dense(env, A, True)
    best = tuple(int(i) for i in f.argmax())
    for t in cells(A.names, A.cards):
        env.true("argmax is maximal", A.p[best] >= A.p[t])
        if t == best:
            break
    for t in cells(A.names, A.cards):
        if t > best:
            env.true("argmax is maximal", A.p[best] >= A.p[t])
    env.true("argmax names", list(f.argmax_assignment_names()) ==
             [names_for(n, A.cards[n])[i] for n, i in zip(A.names, best)])


def from_probs_table(env, names, given):
    """Built from a dictionary: given cells have their value, the others are zero."""
    C = env.mod("veroku.factors.categorical").Categorical
    A = sym_table(env, "p", names, sign="0+")
    cs = cells(A.names, A.cards)
    for i, t in enumerate(cs):
        if i not in given:
            A.p[t] = env.const(0)
    f = C(var_names=list(names), cardinalities=[A.cards[n] for n in names],
          probs_table={cs[i]: A.p[cs[i]] for i in given})
    same_function(env, "constructed", f, A)


def array_view(env, names):
    A = sym_table(env, "p", names, sign="0+")
    f = dense(env, A)
    d = f.dense_distribution_array
    cs = cells(A.names, A.cards)
    env.true("shape", tuple(d.shape) == (len(cs), len(names) + 1))
    for i, t in enumerate(cs):
        env.eq("row", [d[i, j] for j in range(len(names) + 1)], [env.const(x) for x in t] + [A.p[t]])
    c = f.copy()
    same_function(env, "copy", c, A)
    ordered_as(env, "copy", c, names)


# ------------------------------------------------------------------------------------------------------------- C06
def kl_value(env, P, Q, normalise_q=True):
    """sum_i p_i (log p_i - log q_i) over the normalised tables (0 log 0 = 0)."""
    zp, zq = P.total(), Q.total()
    tot = env.const(0)
    for t in P.p:
        asg = dict(zip(P.names, t))
        p = P.p[t] / zp
        q = Q.at(asg) / zq if normalise_q else Q.at(asg)
        if is_zero(env, P.p[t]):
            continue
        if is_zero(env, Q.at(asg)):
            return math.inf
        tot = tot + p * (env.log(p) - env.log(q))
    return tot


def is_zero(env, x):
    return env.is_true(x == 0)


def some_table(env, prefix, names, cards, zeros=(), free=(1,)):
    """Given numbers in all cells but the `free` ones."""
    return Table(names, cards, {t: env.const(0) if i in zeros else env.real(f"{prefix}{i}", "+") if i in free else env.const(float(1 + (5 * i + len(prefix)) % 7))
                                for i, t in enumerate(cells(names, cards))})


def kl(env, left, right, zl=(), zr=(), kind="dense", few=None):
    if few:
        A, B = some_table(env, "p", left, FIVE, zl, few[0]), some_table(env, "qq", right, FIVE, zr, few[1])
    else:
        A = sym_table(env, "p", left, sign="+", zeros=zl)
        B = sym_table(env, "q", right, sign="+", zeros=zr)
    k = dense(env, A).kl_divergence(dense(env, B))
    env.eq("formula", k, kl_value(env, A, B))
    env.true("non-negative", k >= 0)


def kl_given(env, left, right, zl=(), zr=()):
    """The divergence from the second table as it is given (not normalised); negative ones are rejected."""
    A = sym_table(env, "p", left, sign="+", zeros=zl)
    B = sym_table(env, "q", right, sign="+", zeros=zr)
    as_given(env, A, dense(env, A), B, dense(env, B))


def as_given(env, A, f, B, g):
    want = kl_value(env, A, B, normalise_q=False)
    try:
        k = f.kl_divergence(g, normalize_factor=False)
    except ValueError:
        env.true("only negative divergences are rejected", want < 0)
        return
    env.eq("formula", k, want)
    env.true("non-negative", k >= 0)


def kl_zero(env, left, right):
    """Zero against any positive multiple of itself, in any variable order."""
    A = sym_table(env, "p", left, sign="+")
    c = env.real("c", "+")
    B = Table(list(right), A.cards, {t: A.at(dict(zip(right, t))) * c for t in cells(right, A.cards)})
    k = dense(env, A).kl_divergence(dense(env, B))
    env.eq("zero", k, env.const(0))


def kl_positive(env, left, right, near=False):
    """Positive when the normalised tables differ."""
    A = sym_table(env, "p", left, sign="+")
    B = sym_table(env, "q", right, sign="+")
    first = cells(A.names, A.cards)[0]
    asg = dict(zip(A.names, first))
    env.assume(A.p[first] * B.total() != B.at(asg) * A.total())
    fa, fb = dense(env, A), dense(env, B)
    if near:
        nearby(env, A, B)
        env.tol()
    k = fa.kl_divergence(fb)
    env.exact()
    env.true("positive", k > 0)


def nearby(env, A, B):
    """The tables agree up to 0.4 percent (more than rounding errors, but with a divergence below 0.0001)."""
    for t, v in A.p.items():
        w = B.at(dict(zip(A.names, t)))
        env.assume(250 * v <= 251 * w)
        env.assume(250 * w <= 251 * v)


def vacuous_distance(env, names, zeros=()):
    A = sym_table(env, "p", names, sign="+", zeros=zeros)
    n = len(A.p)
    U = Table(A.names, A.cards, {t: env.const(1) / n for t in A.p})
    f = dense(env, A)
    env.eq("distance", f.distance_from_vacuous(), kl_value(env, A, U))


def vacuous_flag(env, names):
    c = env.real("c", "+")
    U = Table(list(names), CARD, {t: c for t in cells(names, CARD)})
    env.true("uniform is vacuous", dense(env, U).is_vacuous)


# ------------------------------------------------------------------------------------------------------------- C07
def equality(env, left, right, zl=(), zr=()):
    """Equal (up to tolerance) as functions <=> compared equal, in both directions."""
    A = sym_table(env, "p", left, sign="+", zeros=zl)
    B = sym_table(env, "q", right, sign="+", zeros=zr)
    fa, fb = dense(env, A), dense(env, B)
    same = [same_entry(env, A.p[t], B.at(dict(zip(A.names, t)))) for t in A.p]
    env.iff("a == b", fa.equals(fb), env.both(*same))
    env.iff("b == a", fb.equals(fa), env.both(*same))
    env.iff("operator", fa == fb, env.both(*same))
    env.iff("negated operator", not (fa != fb), env.both(*same))


def equality_scope(env, left, right):
    A = sym_table(env, "p", left, sign="+")
    B = sym_table(env, "q", right, sign="+")
    env.true("different scopes", not dense(env, A).equals(dense(env, B)))


def equality_self(env, left, right, zeros=()):
    A = sym_table(env, "p", left, sign="+", zeros=zeros)
    B = Table(list(right), A.cards, {t: A.at(dict(zip(right, t))) for t in cells(right, A.cards)})
    env.true("same function", dense(env, A).equals(dense(env, B)))


def equality_tolerance(env, left, right, gap):
    """Tolerances: one value off by a factor beyond the tolerance is told apart, for every such pair."""
    env.tol()
    A = sym_table(env, "p", left, sign="+")
    u = [env.real(f"u{i}") for i in range(len(A.p))]
    ts = list(A.p)
    # log values u, and u with one entry moved by more than the tolerance band around it
    d = env.real("d", "+")
    C = env.mod("veroku.factors.categorical").Categorical
    shape = [A.cards[n] for n in left]
    env.assume(u[0] >= -10)
    env.assume(u[0] <= 10)
    env.assume(d >= gap)
    f = C(var_names=list(left), log_probs_tensor=env.arr(u).reshape(shape))
    g = C(var_names=list(left), log_probs_tensor=env.arr([u[0] + d] + u[1:]).reshape(shape))
    env.true("told apart", not f.equals(g))
    env.true("told apart (swapped)", not g.equals(f))


def equality_tiny(env, left, right, cell):
    """A zero value only matches a zero value, whatever the tolerances make of small numbers."""
    env.tol()
    A = sym_table(env, "p", left, sign="+")
    B = Table(list(right), A.cards, {t: A.at(dict(zip(right, t))) for t in cells(right, A.cards)})
    t = cells(right, A.cards)[cell]
    Z = Table(B.names, B.cards, {**B.p, t: env.const(0)})
    f, g = dense(env, A), dense(env, Z)
    env.true("told apart", not f.equals(g))
    env.true("told apart (swapped)", not g.equals(f))
    env.true("told apart (operators)", f != g and not g == f)


def _pc(tier, **kw):
    return [dict(left=l, right=r, **kw) for l, r in pairs(tier)]


def small_pairs(tier):
    out = [("ab", "ab"), ("ab", "ba"), ("a", "a"), ("ac", "ca"), ("ea", "ae")]
    if tier == "thorough":
        out += [("abc", "cab"), ("abc", "bca"), ("acd", "dca"), ("b", "b")]
    return out


PROPS = {
    "C01": [
        Scenario("slight differences", slight, [dict(cls="dense", op=o, near=k) for o in ("multiply", "divide") for k in ("uniform", "same", "other")
                                                if (o, k) != ("divide", "other")], bounds="two cells; log values within [-1, 1] and differences of 0.00002 to 0.00004"),
        Scenario("multiply", multiply, lambda t: _pc(t) + [dict(left=l, right=r, named=n) for l, r in PAIRS_Q[:8] for n in (True, 'b', 'ac')]
                 + [dict(left="ab", right="bc", via="mul"), dict(left="ab", right="ca", via="absorb")],
                 "scopes of 1-3 variables, cardinalities 1-3, every cell an arbitrary real >= 0"),
        Scenario("divide", divide, lambda t: _pc(t) + [dict(left=l, right=r, named=n) for l, r in PAIRS_Q[:10] for n in (True, 'b', 'ac')],
                 "as multiply; the divisor's cells are arbitrary reals > 0"),
        Scenario("associativity", triple, [dict(scopes=["ab", "bc", "ca"]), dict(scopes=["a", "bc", "cb"]),
                                           dict(scopes=["abc", "a", "cb"]), dict(scopes=["ab", "ba", "e"])],
                 "three factors, up to 12 joint assignments"),
        Scenario("undo", undo, lambda t: [dict(left=l, right=r) for l, r in PAIRS_Q], "as divide"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "multiply", [("ab", "bc"), ("ca", "ac")]) + origins("dense", "divide", [("ab", "ba"), ("acb", "b")], other="fresh")
                 + origins("dense", "self", [("ac",)]) + (origins("dense", "multiply", [("abc", "cdb"), ("cab", "a")]) + origins("dense", "divide", [("abc", "cb")], other="reduced") if t != "quick" else []),
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "multiply") + large("dense", "divide"),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "multiply") + shapes("dense", "divide"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C02": [
        Scenario("slight differences", slight, [dict(cls="dense", op="cancel", near=k) for k in ("uniform", "same")], bounds="two cells; log values within [-1, 1] and differences of 0.00002 to 0.00004"),
        Scenario("cancel", cancel, cancel_cfgs, "given zero patterns; the other cells arbitrary reals > 0"),
        Scenario("cancel_free", cancel_free, lambda t: [dict(left="a", right="a"), dict(left="ac", right="ca"),
                                                        dict(left="ac", right="c"), dict(left="ae", right="ea")] +
                 ([dict(left="ab", right="b"), dict(left="ab", right="ba")] if t == "thorough" else []),
                 "every zero pattern, chosen by the solver"),
        Scenario("absorb_cancel", absorb_cancel, [dict(left="ab", right="ba", zr=[0, 2]), dict(left="abc", right="cb", zr=[1]),
                                                  dict(left="ab", right="b", zr=[0, 1]), dict(left="ab", right="a", zr=[]),
                                                  dict(left="bea", right="ae", zr=[1])], "given zero patterns"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "cancel", [("ab", "ba"), ("ca", "a")], zl=[0, 3], zr=[0, 3]) + origins("dense", "cancel", [("ab", "b")], zl=[1, 4, 2], zr=[1]),
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "cancel", zl=[5], zr=[5]),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "cancel", zl=[0], zr=[0]),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C03": [
        Scenario("marginalize", marginalize, marg_cfgs, "2-4 variables, cardinalities 1-3, cells arbitrary reals >= 0"),
        Scenario("two_steps", marg_twice, [dict(names="abc", first="a", second="c"), dict(names="abc", first="b", second="a"),
                                           dict(names="eab", first="a", second="b")], "3 variables"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "marginalize", [("abc", None, "ca"), ("bca", None, "b"), ("ab", None, "a"), ("dcab", None, "ad")]),
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "marginalize"),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "marginalize"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C04": [
        Scenario("reduce", reduce, reduce_cfgs, "1-4 variables; every observed subset, order and value (thorough)"),
        Scenario("reduce_steps", reduce_steps, [dict(names="abc", o1="a", v1=[1], o2="c", v2=[0]),
                                                dict(names="abc", o1="b", v1=[2], o2="a", v2=[1]),
                                                dict(names="bca", o1="cb", v1=[1, 0], o2="a", v2=[0])][:2], "3 variables"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "reduce", [("abc", None, "ca", [1, 0]), ("bca", None, "b", [2]), ("ab", None, "a", [0]), ("ab", None, "ba", [1, 0])]),
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "reduce"),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "reduce"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C05": [
        Scenario("slight differences", slight, [dict(cls="dense", op="normalise")], bounds="two cells; log values within [-1, 1] and differences of 0.00002 to 0.00004"),
        Scenario("whole numbers", whole, product(op=["normalise", "reduce", "marginal", "multiply", "divide"]),
 "a table of six given whole numbers (an integer array), and an arbitrary one"),
        Scenario("normalise", normalise, [dict(names="ab"), dict(names="a"), dict(names="eab"), dict(names="abc"),
                                          dict(names="ab", zeros=[0, 5]), dict(names="ba", zeros=[1, 2, 3])],
                 "up to 12 cells, given zero patterns"),
        Scenario("reorder", reorder, lambda t: [dict(names=s, new="".join(p)) for s in
                                                (["ab", "abc", "eab"] if t == "quick" else ["ab", "abc", "eab", "abcd"])
                                                for p in itertools.permutations(s)], "every order of 2-4 variables"),
        Scenario("potential_orders", potential_orders, [dict(names=s) for s in ("a", "ab", "abc", "eab")],
                 "every order of up to 3 variables"),
        Scenario("argmax", argmax, lambda t: [dict(names=s) for s in ("a", "b", "ac", "ea") +
                                              (("ab", "ba", "acd") if t == "thorough" else ("ab",))],
                 "up to 8 cells, every order of their values"),
        Scenario("from_probs_table", from_probs_table, [dict(names="ab", given=[0, 1, 2, 3, 4, 5]), dict(names="ab", given=[1, 4]),
                                                        dict(names="ba", given=[5, 0, 3]), dict(names="eac", given=[3])],
                 "given support patterns"),
        Scenario("array_view", array_view, [dict(names="ab"), dict(names="ba"), dict(names="cea")], "up to 6 cells"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "normalise", [("ab",), ("cda",)]) + origins("dense", "reorder", [("abc", None, "cab"), ("abc", None, "bac"), ("ab", None, "ba")])
                 + origins("dense", "argmax", [("ac",)]), "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "normalise") + large("dense", "argmax") + large("dense", "reorder"),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "normalise") + shapes("dense", "reorder") + shapes("dense", "argmax"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C06": [
        Scenario("kl", kl, lambda t: [dict(left=l, right=r) for l, r in small_pairs(t)] +
                 [dict(left="ab", right="ab", zl=[0, 1], zr=[0]), dict(left="ab", right="ba", zl=[1], zr=[2]),
                  dict(left="ab", right="ba", zl=[1], zr=[1]), dict(left="ac", right="ca", zl=[1, 2], zr=[1, 2]),
                  dict(left="a", right="a", zl=[0], zr=[]), dict(left="a", right="a", zl=[], zr=[0])],
                 "up to 6 cells (12 thorough), given zero patterns"),
        Scenario("more variables", kl, lambda t: [dict(left=l, right=r, few=f, zl=z, zr=y) for l, r in (("abcd", "dbca"), ("abcde", "ecabd")) for f, z, y in
                                                  ((((1,), ()), (), ()), (((), (2,)), (), ()), (((3,), (6,)), (0, 7), ()))],
                 "four and five binary variables, tables with up to two arbitrary cells"),
        Scenario("second table as given", kl_given, lambda t: [dict(left=l, right=r) for l, r in small_pairs(t)] + [dict(left="ab", right="ba", zl=[1], zr=[1]), dict(left="a", right="a", zr=[0])], "as kl"),
        Scenario("kl_zero", kl_zero, lambda t: [dict(left=l, right=r) for l, r in small_pairs(t)], "as kl"),
        Scenario("kl_positive", kl_positive, [dict(left="a", right="a"), dict(left="a", right="a", near=True), dict(left="ac", right="ca", near=True), dict(left="ac", right="ca"), dict(left="b", right="b")],
                 "up to 4 cells"),
        Scenario("vacuous_distance", vacuous_distance, [dict(names="a"), dict(names="ab"), dict(names="ab", zeros=[0, 3]),
                                                        dict(names="cea")], "up to 6 cells"),
        Scenario("vacuous_flag", vacuous_flag, [dict(names="a"), dict(names="ab"), dict(names="bc"), dict(names="ea")], ""),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "diverge", [("ac", "ca")]) + origins("dense", "diverge", [("ab", "ba")], origins=("copy", "reordered", "reduced", "table", "reduced first"), other="fresh")
                 + origins("dense", "diverge", [("ac", "ca")], origins=("fresh", "copy", "product", "cancelled"), zl=[1], zr=[1], other="fresh"), "operands that result from other operations; up to three variables"),
        Scenario("shapes", operation, lambda t: shapes("dense", "diverge"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "C07": [
        Scenario("equality", equality, lambda t: [dict(left=l, right=r) for l, r in small_pairs(t)] +
                 [dict(left="ac", right="ca", zl=[0], zr=[0]), dict(left="ac", right="ca", zl=[1], zr=[2]),
                  dict(left="ac", right="ca", zl=[1], zr=[1]), dict(left="a", right="a", zl=[0], zr=[])],
                 "up to 6 cells (12 thorough); tolerance read as equality"),
        Scenario("equality_scope", equality_scope, [dict(left="ab", right="a"), dict(left="a", right="ab"), dict(left="a", right="c"),
                                                    dict(left="ab", right="ac")], "given scopes"),
        Scenario("equality_self", equality_self, [dict(left=l, right=r) for l, r in
                                                  [("abc", "cab"), ("abc", "bca"), ("ab", "ba"), ("eab", "bae")]] +
                 [dict(left="ab", right="ba", zeros=[0, 4])], "up to 12 cells"),
        Scenario("zero cells", equality_tiny, [dict(left=l, right=r, cell=c) for l, r, c in (("a", "a", 0), ("a", "a", 1), ("ab", "ba", 3), ("abc", "cab", 7))],
                 "real tolerances; any positive values, one of them replaced by zero"),
        Scenario("equality_tolerance", equality_tolerance, [dict(left="a", right="a", gap=0.01), dict(left="ab", right="ab", gap=0.01)],
                 "real tolerances; log values within [-10, 10], one of them moved by at least 0.01"),
        Scenario("operands of any origin", operation, lambda t: origins("dense", "equals", [("ac", "ca"), ("a", "a")]) + origins("dense", "equals itself", [("acb", "bac"), ("ba", "ab")]),
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("dense", "equals itself"),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("dense", "equals itself") + shapes("dense", "equals"),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
}
