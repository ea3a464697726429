"""Sparse discrete tables (S01-S03): a sparse table is the function given by its entries and its default value."""
import itertools
import math

from . import Scenario, marg
from ._tables import CARD, Table, cells, dense, names_for, ordered_as, same_entry, same_function, sym_table
from ._origins import cfgs as origins, large, operation, shapes, slight
from .dense import PAIRS_Q, as_given, is_zero, kl_value, nearby, pairs


def make(env, prefix, names, missing=(), default=None, sign="+", scramble=0, probs=False):
    """-> (Table, SparseCategorical).  default: None (zero) or a positive real, the value of the missing cells."""
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    t = sym_table(env, prefix, names, sign=sign)
    cs = cells(t.names, t.cards)
    for i, c in enumerate(cs):
        if i in missing:
            t.p[c] = env.const(0) if default is None else default
    order = cs[scramble:] + cs[:scramble]
    given = [c for c in order if cs.index(c) not in missing]
    kw = {} if default is None else {"default_log_prob": env.log(default)}
    cards = [t.cards[n] for n in t.names]
    if probs:
        f = Sp(var_names=list(names), probs_table={c: t.p[c] for c in given}, cardinalities=cards, **kw)
    else:
        f = Sp(var_names=list(names), log_probs_table={c: env.log(t.p[c]) for c in given}, cardinalities=cards, **kw)
    return t, f


def both(env, cfgl, cfgr, default):
    d = env.real("d", "+") if default else None
    return d


# ------------------------------------------------------------------------------------------------------------- S01
def multiply(env, left, right, ml=(), mr=(), default=False, sign="+", via="multiply"):
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, ml, d, sign, scramble=1)
    B, fb = make(env, "q", right, mr, d, sign)
    same_function(env, "product", getattr(fa, via)(fb), A.times(B))
    same_function(env, "commuted", fb.multiply(fa), A.times(B))


def triple(env, scopes, missing):
    T, F = [], []
    for i, (s, m) in enumerate(zip(scopes, missing)):
        t, f = make(env, f"p{i}", s, m)
        T.append(t)
        F.append(f)
    ref = T[0].times(T[1]).times(T[2])
    same_function(env, "left", F[0].multiply(F[1]).multiply(F[2]), ref)
    same_function(env, "right", F[0].multiply(F[1].multiply(F[2])), ref)


def divide(env, left, right, ml=(), default=False):
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, ml, d)
    B, fb = make(env, "q", right, (), d)
    same_function(env, "quotient", fa.divide(fb), A.combine(B, lambda a, b: a / b))


def divide_default(env, left, right, ml, mr):
    """Both tables leave cells to the same positive default."""
    d = env.real("d", "+")
    A, fa = make(env, "p", left, ml, d)
    B, fb = make(env, "q", right, mr, d)
    same_function(env, "quotient", fa.divide(fb), A.combine(B, lambda a, b: a / b))


def cancel(env, left, right, ml=(), mr=(), stored_zero=()):
    """a/b with 0/0 = 0, where not (a > 0 = b)."""
    A, fa = make(env, "p", left, ml)
    B, fb = make(env, "q", right, mr)
    zero_a = {c for i, c in enumerate(cells(A.names, A.cards)) if i in ml}
    zero_b = {c for i, c in enumerate(cells(B.names, B.cards)) if i in mr}
    for i in stored_zero:  # zeros that are stored, rather than left out
        c = cells(A.names, A.cards)[i]
        fa.log_probs_table[c] = -math.inf
    names = A.names + [n for n in B.names if n not in A.names]
    cards = {**A.cards, **B.cards}
    ref = {}
    for c in cells(names, cards):
        asg = dict(zip(names, c))
        ref[c] = env.const(0) if tuple(asg[n] for n in B.names) in zero_b else A.at(asg) / B.at(asg)

    def ok(asg):
        return tuple(asg[n] for n in B.names) not in zero_b or tuple(asg[n] for n in A.names) in zero_a
    same_function(env, "cancelled", fa.cancel(fb), Table(names, cards, ref), where=ok)


def absorb_cancel(env, left, right, ml=(), mr=()):
    A, fa = make(env, "p", left, ml)
    B, fb = make(env, "q", right, mr)
    zero_b = {c for i, c in enumerate(cells(B.names, B.cards)) if i in mr}
    ref = {}
    for c in cells(A.names, A.cards):
        asg = dict(zip(A.names, c))
        ref[c] = env.const(0) if tuple(asg[n] for n in B.names) in zero_b else A.at(asg)
    same_function(env, "restored", fa.multiply(fb).cancel(fb), Table(A.names, A.cards, ref))


def agrees_with_dense(env, left, right, ml=(), mr=()):
    """The two representations of the same functions give the same functions."""
    A, fa = make(env, "p", left, ml)
    B, fb = make(env, "q", right, mr)
    da, db = dense(env, A), dense(env, B)
    r, s = fa.multiply(fb), da.multiply(db)
    names = list(s.var_names)
    cs = cells(names, CARD)
    env.eq("product", [r.potential(names, list(c)) for c in cs], [s.potential(names, list(c)) for c in cs])
    z = A.times(B).total()
    if env.is_true(z > 0):
        r, s = r.normalize(), s.normalize()
        env.eq("normalised", [r.potential(names, list(c)) for c in cs], [s.potential(names, list(c)) for c in cs])
    k = names[:1]
    if len(names) > 1:
        r, s = r.marginalize(k), s.marginalize(k)
        env.eq("marginal", [r.potential(k, list(c)) for c in cells(k, CARD)],
               [s.potential(k, list(c)) for c in cells(k, CARD)])


def bin_cfgs(tier):
    out = []
    for l, r in (PAIRS_Q if tier == "quick" else pairs("thorough")):
        nl, nr = len(cells(l, CARD)), len(cells(r, CARD))
        pats = [((), ()), (tuple(i for i in range(nl) if i % 3 == 1), tuple(i for i in range(nr) if i % 2 == 0))]
        if tier == "thorough":
            pats += [(tuple(range(1, nl)), ()), (tuple(range(nl // 2)), tuple(range(nr - 1)))]
        for ml, mr in pats:
            out.append(dict(left=l, right=r, ml=list(ml), mr=list(mr)))
    return out


def mult_cfgs(tier):
    out = bin_cfgs(tier)
    if tier == "thorough":
        out += [dict(left="ab", right="bc", ml=[0, 2], mr=[1, 5], default=True),
                dict(left="ab", right="c", ml=[0], mr=[], default=True)]
    out += [dict(left="ac", right="cd", ml=[0, 2], mr=[1], default=True),
            dict(left="a", right="c", ml=[0], mr=[], default=True),
            dict(left="ab", right="ba", ml=[1, 4], mr=[2, 4], default=True),
            dict(left="a", right="ab", ml=[1], mr=[0, 5], default=True),
            dict(left="ac", right="cd", ml=[0, 1, 2], mr=[3], default=True),
            dict(left="ab", right="ab", ml=[0, 1, 2, 3, 4, 5], mr=[1]),
            dict(left="ac", right="ca", ml=[1], mr=[], sign="0+"),
            dict(left="ac", right="c", ml=[], mr=[1], sign="0+"),
            dict(left="ab", right="bc", ml=[1], mr=[3], via="__mul__")]
    return out


def div_cfgs(tier):
    out = []
    for l, r in (PAIRS_Q if tier == "quick" else pairs("thorough")):
        nl = len(cells(l, CARD))
        out.append(dict(left=l, right=r, ml=[i for i in range(nl) if i % 3 == 1]))
    if tier == "thorough":
        out.append(dict(left="ab", right="bc", ml=[0, 2, 5], default=True))
    out += [dict(left="ac", right="cd", ml=[0, 2], default=True), dict(left="ab", right="ba", ml=[]),
            dict(left="ab", right="a", ml=[0, 1, 2])]
    return out


def canc_cfgs(tier):
    base = [("ab", "ab", (0, 3), (0, 3)), ("ab", "ba", (0, 4), (0, 3)), ("ab", "b", (1, 4, 2), (1,)),
            ("ab", "a", (0, 1, 2, 5), (0,)), ("abc", "ca", (0, 2, 4, 7), (0,)), ("ab", "ab", (1,), ()),
            ("ab", "ba", (1, 2), ()), ("a", "a", (0, 1), (0, 1)), ("abc", "b", (0, 5, 10), ()),
            ("ac", "ca", (1, 2), (1, 2)), ("ea", "a", (0,), (0,)), ("ab", "a", (3, 4, 5), (1,)),
            ("abc", "cb", (2, 3, 8, 9), (1, 4))]
    out = [dict(left=l, right=r, ml=list(a), mr=list(b)) for l, r, a, b in base]
    out += [dict(left="ab", right="ba", ml=[0, 4], mr=[0, 3], stored_zero=[0, 4]),
            dict(left="ac", right="c", ml=[1, 3], mr=[1], stored_zero=[1]),
            dict(left="ab", right="a", ml=[0, 1, 2], mr=[0], stored_zero=[1])]
    return out


# ------------------------------------------------------------------------------------------------------------- S02
def marginalize(env, names, vrs, keep=True, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d, scramble=1)
    vrs = list(vrs)
    kept = vrs if keep else [n for n in A.names if n not in vrs]
    same_function(env, "marginal", marg(f, vrs, keep), A.sum_to(kept))
    if len(vrs) == 1:
        same_function(env, "marginal of one variable", marg(f, vrs, keep, bare=True), A.sum_to(kept))


def reduce(env, names, obs, values, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d)
    r = f.reduce(list(obs), list(values))
    same_function(env, "slice", r, A.slice(dict(zip(obs, values))))
    env.true("order kept", list(r.var_names) == [n for n in names if n not in obs])
    same_function(env, "observe", f.observe(list(obs), tuple(values)), A.slice(dict(zip(obs, values))))


def reorder(env, names, new, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d)
    r = f.reorder(list(new))
    same_function(env, "reordered", r, A)
    ordered_as(env, "reordered", r, new)
    env.true("cardinalities", list(r.cardinalities) == [CARD[n] for n in new])


def normalise(env, names, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d)
    z = A.total()
    env.eq("weight", f.weight, z)
    same_function(env, "normalised", f.normalize(), Table(A.names, A.cards, {t: v / z for t, v in A.p.items()}))


def potential_orders(env, names, missing=(), default=False, probs=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d, probs=probs)
    for perm in itertools.permutations(names):
        vals = [f.potential(list(perm), [asg[n] for n in perm]) for asg in A.assignments()]
        env.eq(f"potential({''.join(perm)})", vals, [A.at(asg) for asg in A.assignments()])
    c = f.copy()
    same_function(env, "copy", c, A)
    ordered_as(env, "copy", c, names)
    rows = f.dense_distribution_array
    env.true("rows", rows.shape[0] == len(A.p))
    seen = {}
    for i in range(rows.shape[0]):
        key = tuple(int(float(rows[i, j])) if not hasattr(rows[i, j], "r") else int(rows[i, j]) for j in range(len(names)))
        seen[key] = rows[i, len(names)]
    env.eq("array", [seen[t] for t in cells(A.names, A.cards)], [A.p[t] for t in cells(A.names, A.cards)])


def agree_cfgs(tier):
    base = [("ab", "bc", (0, 4), (3,)), ("ab", "a", (1, 2), (0,)), ("a", "b", (), (1,)), ("abc", "cb", (0, 3, 7), (2,))]
    return [dict(left=l, right=r, ml=list(a), mr=list(b)) for l, r, a, b in base]


def marg_cfgs(tier):
    out = []
    scopes = ["ab", "abc", "aeb", "eca"] if tier == "quick" else ["ab", "ba", "abc", "cab", "eab", "abe", "abcd", "dbca"]
    for s in scopes:
        n = len(cells(s, CARD))
        for k in range(1, len(s)):
            for sub in itertools.permutations(s, k):
                for keep in ((True, False) if sub == tuple(sorted(sub)) else (True,)):
                    for default in (False, True):
                        if tier == "quick" and default and len(s) == 3 and not keep:
                            continue
                        out.append(dict(names=s, vrs="".join(sub), keep=keep, missing=[i for i in range(n) if i % 3 == 0],
                                        default=default))
        out.append(dict(names=s, vrs=s[::-1], keep=True, missing=[0], default=False))
        out.append(dict(names=s, vrs=s[:1], keep=True, missing=list(range(n // 2)), default=False))
        out.append(dict(names=s, vrs=s[:1], keep=True, missing=list(range(n // 2)), default=True))
    return out


def red_cfgs(tier):
    out = []
    scopes = ["ab", "abc"] if tier == "quick" else ["ab", "ba", "abc", "cab", "eab", "abcd"]
    for s in scopes:
        n = len(cells(s, CARD))
        for k in range(1, len(s)):
            for obs in itertools.permutations(s, k):
                vals = list(itertools.product(*[range(CARD[o]) for o in obs]))
                if tier == "quick" and len(vals) > 3:
                    vals = [vals[0], vals[-1], vals[1]]
                for j, v in enumerate(vals):
                    out.append(dict(names=s, obs="".join(obs), values=list(v), missing=[i for i in range(n) if i % 3 == 0],
                                    default=bool(j % 2)))
    out.append(dict(names="ab", obs="a", values=[0], missing=[0, 1, 2], default=False))
    out.append(dict(names="ab", obs="a", values=[0], missing=[0, 1, 2], default=True))
    return out


# ------------------------------------------------------------------------------------------------------------- S03
def kl(env, left, right, ml=(), mr=(), default=False):
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, ml, d)
    B, fb = make(env, "q", right, mr, d)
    k = fa.kl_divergence(fb)
    env.eq("formula", k, kl_value(env, A, B))
    env.true("non-negative", k >= 0)


def kl_positive(env, left, right, missing=(), default=False, near=False):
    """Positive when the normalised tables differ."""
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, missing, d)
    B, fb = make(env, "q", right, missing if left == right else (), d)
    first = cells(A.names, A.cards)[-1]
    asg = dict(zip(A.names, first))
    env.assume(A.p[first] * B.total() != B.at(asg) * A.total())
    if near:
        nearby(env, A, B)
        env.tol()
    env.sharp()
    k = fa.kl_divergence(fb)
    env.exact()
    env.true("positive", k > 0)


def kl_given(env, left, right, ml=(), mr=(), default=False):
    """The divergence from the second table as it is given (not normalised)."""
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, ml, d)
    B, fb = make(env, "q", right, mr, d)
    as_given(env, A, fa, B, fb)


def kl_zero(env, left, right, missing=()):
    A, fa = make(env, "p", left, missing)
    c = env.real("c", "+")
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    tab = {}
    for t in cells(right, A.cards):
        asg = dict(zip(right, t))
        i = cells(A.names, A.cards).index(tuple(asg[n] for n in A.names))
        if i not in missing:
            tab[t] = env.log(A.at(asg) * c)
    g = Sp(var_names=list(right), log_probs_table=tab, cardinalities=[A.cards[n] for n in right])
    env.eq("zero", fa.kl_divergence(g), env.const(0))


def vacuous_distance(env, names, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d)
    n = len(A.p)
    U = Table(A.names, A.cards, {t: env.const(1) / n for t in A.p})
    env.eq("distance", f.distance_from_vacuous(), kl_value(env, A, U))


def argmax(env, names, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, f = make(env, "p", names, missing, d)
    best = tuple(int(i) for i in f.argmax())
    for t in cells(A.names, A.cards):
        if t != best:
            env.true("argmax is maximal", A.p[best] >= A.p[t])


def equality(env, left, right, ml=(), mr=(), default=False, sign="+", other=False):
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, ml, d, sign)
    B, fb = make(env, "q", right, mr, env.real("e", "+") if other else d, sign, scramble=1)
    same = [same_entry(env, A.p[t], B.at(dict(zip(A.names, t)))) for t in A.p]
    env.iff("a == b", fa.equals(fb), env.both(*same))
    env.iff("b == a", fb.equals(fa), env.both(*same))
    env.iff("operator", fa == fb, env.both(*same))


def equality_self(env, left, right, missing=(), default=False):
    d = env.real("d", "+") if default else None
    A, fa = make(env, "p", left, missing, d)
    g = fa.reorder(list(right)).copy()
    env.true("same function", fa.equals(g))
    env.true("same function (swapped)", g.equals(fa))


def equality_scope(env, left, right):
    A, fa = make(env, "p", left)
    B, fb = make(env, "q", right)
    env.true("different scopes", not fa.equals(fb))


def equality_tiny(env, left, right, cell, how, default=False):
    """A zero value (listed or left out) only matches a zero value, however small the other one is."""
    env.tol()
    d = env.real("d", "+") if default else None
    cs = cells(left, CARD)
    A, fa = make(env, "p", left, [i for i in (0,) if default], d)
    Z = Table(A.names, A.cards, {**A.p, cs[cell]: env.const(0)})
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    keep = [c for c in cs if not (how == "left out" and c == cs[cell]) and not (default and c == cs[0])]
    tab = {tuple(dict(zip(left, c))[v] for v in right): Z.p[c] for c in keep}
    kw = {"default_log_prob": env.log(d)} if default else {}
    fz = Sp(var_names=list(right), probs_table=tab, cardinalities=[CARD[v] for v in right], **kw)
    env.true("told apart", not fa.equals(fz))
    env.true("told apart (swapped)", not fz.equals(fa))


def equality_tolerance(env, left, gap, missing=()):
    env.tol()
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    cs = [c for i, c in enumerate(cells(left, CARD)) if i not in missing]
    u = [env.real(f"u{i}") for i in range(len(cs))]
    d = env.real("d", "+")
    env.assume(u[-1] >= -10)
    env.assume(u[-1] <= 10)
    env.assume(d >= gap)
    cards = [CARD[n] for n in left]
    f = Sp(var_names=list(left), log_probs_table=dict(zip(cs, u)), cardinalities=cards)
    g = Sp(var_names=list(left), log_probs_table=dict(zip(cs, u[:-1] + [u[-1] + d])), cardinalities=cards)
    env.true("told apart", not f.equals(g))
    env.true("told apart (swapped)", not g.equals(f))


PROPS = {
    "S01": [
        Scenario("slight differences", slight, [dict(cls="sparse", op=o, near=k) for o in ("multiply", "divide", "cancel") for k in ("uniform", "same")], bounds="two cells; log values within [-1, 1] and differences of 0.00002 to 0.00004"),
        Scenario("multiply", multiply, mult_cfgs,
                 "scopes of 1-3 variables, cardinalities 1-3, given sets of left-out cells (zero or a common positive "
                 "default), the stored cells arbitrary reals > 0"),
        Scenario("associativity", triple, [dict(scopes=["ab", "bc", "ca"], missing=[[0], [1, 5], []]),
                                           dict(scopes=["a", "bc", "cb"], missing=[[], [0, 2], [4]]),
                                           dict(scopes=["ab", "ba", "e"], missing=[[1], [], []])], "three tables"),
        Scenario("divide", divide, div_cfgs, "as multiply; every cell of the divisor stored"),
        Scenario("divide_default", divide_default,
                 lambda t: [dict(left="ab", right="ba", ml=[0, 4], mr=[1, 2]), dict(left="ac", right="cd", ml=[0, 3], mr=[2]),
                            dict(left="ac", right="a", ml=[1, 2], mr=[0])] +
                 ([dict(left="ab", right="bc", ml=[0, 3], mr=[5])] if t == "thorough" else []),
                 "left-out cells in both tables, with the same positive default"),
        Scenario("cancel", cancel, canc_cfgs, "given sets of zero cells, left out or stored"),
        Scenario("absorb_cancel", absorb_cancel, [dict(left="ab", right="ba", ml=[1], mr=[0, 2]),
                                                  dict(left="abc", right="cb", ml=[0, 5], mr=[1]),
                                                  dict(left="ab", right="b", ml=[], mr=[0, 1]),
                                                  dict(left="bea", right="ae", ml=[2], mr=[1])], "given zero patterns"),
        Scenario("agrees_with_dense", agrees_with_dense, agree_cfgs, "the dense class as oracle"),
        Scenario("operands of any origin", operation, lambda t: origins("sparse", "multiply", [("ab", "bc"), ("ca", "ac")], missing=[1, 4]) + origins("sparse", "divide", [("ab", "ba"), ("acb", "b")], other="fresh")
                 + origins("sparse", "cancel", [("ab", "ba"), ("ca", "a")], zl=[0, 3], zr=[0, 3], missing=[1]) + origins("sparse", "self", [("ac",)], missing=[2])
                 + origins("sparse", "multiply", [("ac", "ca")], origins=("copy", "reordered", "reduced", "reduced first", "table"), other="reordered", missing=[1, 2], default=True), "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("sparse", "multiply", missing=[1, 6]) + large("sparse", "divide") + large("sparse", "cancel", zl=[6], zr=[3, 7], missing=[1, 6]),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("sparse", "multiply", missing=[1, 6]) + shapes("sparse", "divide", missing=[1, 6]),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "S02": [
        Scenario("slight differences", slight, [dict(cls="sparse", op="normalise")], bounds="two cells; log values within [-1, 1] and differences of 0.00002 to 0.00004"),
        Scenario("marginalize", marginalize, marg_cfgs, "2-4 variables, given left-out cells, zero or positive default"),
        Scenario("reduce", reduce, red_cfgs, "1-4 variables, every observed subset and order"),
        Scenario("reorder", reorder, lambda t: [dict(names=s, new="".join(p), missing=[0, 3], default=bool(i % 2))
                                                for s in ("ab", "abc", "eab") for i, p in enumerate(itertools.permutations(s))],
                 "every order of up to 3 variables"),
        Scenario("normalise", normalise, [dict(names="ab"), dict(names="ab", missing=[0, 4]), dict(names="ba", missing=[1, 2, 3], default=True),
                                          dict(names="eab", missing=[5]), dict(names="abc", missing=[0, 1, 2, 3, 9], default=True),
                                          dict(names="a", missing=[0])], "up to 12 cells"),
        Scenario("potential", potential_orders, [dict(names="a", missing=[1]), dict(names="ab", missing=[0, 4]),
                                                 dict(names="abc", missing=[3, 7], default=True),
                                                 dict(names="bca", missing=[0, 11], probs=True), dict(names="eab", missing=[])],
                 "every order of up to 3 variables"),
        Scenario("operands of any origin", operation, lambda t: origins("sparse", "marginalize", [("abc", None, "ca"), ("bca", None, "b"), ("dcab", None, "ad")], missing=[0, 5])
                 + origins("sparse", "reduce", [("abc", None, "ca", [1, 0]), ("ab", None, "a", [0])], missing=[1, 2]) + origins("sparse", "normalise", [("ab",)], missing=[0])
                 + origins("sparse", "reorder", [("abc", None, "cab"), ("abc", None, "bac")], missing=[3])
                 + [c for o in ("normalise", "reorder", "marginalize") for c in origins("sparse", o, [("ac", None, {"normalise": "", "reorder": "ca", "marginalize": "c"}[o])], missing=[0, 3], default=True)],
                 "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("sparse", "marginalize", missing=[1, 6]) + large("sparse", "marginalize", missing=[1, 6], default=True) + large("sparse", "reduce", missing=[1, 6]) + large("sparse", "normalise", missing=[1, 6]) + large("sparse", "reorder", missing=[1, 6]),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("sparse", "marginalize", missing=[1, 6]) + shapes("sparse", "reduce", missing=[1, 6]) + shapes("sparse", "normalise", missing=[1, 6]) + shapes("sparse", "reorder", missing=[1, 6]),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
    "S03": [
        Scenario("kl", kl, lambda t: ([dict(left="ab", right="ab", ml=[0, 1], mr=[0]), dict(left="ab", right="ba", ml=[1], mr=[2])]
                                       if t == "thorough" else []) +
                 [dict(left="ac", right="ca"), dict(left="ab", right="ab", ml=[0, 1, 4], mr=[0, 1]),
                            dict(left="ab", right="ba", ml=[1, 5], mr=[2, 3]), dict(left="ac", right="ca", ml=[1, 2], mr=[1, 2]),
                            dict(left="a", right="a", ml=[0]), dict(left="a", right="a", mr=[0]),
                            dict(left="ac", right="ca", ml=[1], mr=[2], default=True),
                            dict(left="a", right="a", ml=[0], mr=[], default=True), dict(left="ea", right="ae", ml=[1])],
                 "up to 6 cells, given left-out cells"),
        Scenario("kl_positive", kl_positive, [dict(left="a", right="a"), dict(left="a", right="a", near=True), dict(left="b", right="b", missing=[0], near=True), dict(left="ac", right="ca"), dict(left="b", right="b", missing=[0]),
                                              dict(left="b", right="b", missing=[1], default=True)], "up to 3 cells, given left-out cells"),
        Scenario("second table as given", kl_given, [dict(left="a", right="a"), dict(left="ac", right="ca", ml=[1, 2], mr=[1]), dict(left="ab", right="ba", ml=[1, 5, 3], mr=[3]),
                                                     dict(left="ac", right="ca", ml=[1], mr=[2], default=True), dict(left="a", right="a", ml=[0], mr=[], default=True), dict(left="a", right="a", mr=[0])],
                 "up to 6 cells, given left-out cells"),
        Scenario("kl_zero", kl_zero, [dict(left="ab", right="ba", missing=[0]), dict(left="ac", right="ca", missing=[]),
                                      dict(left="abc", right="cab", missing=[1, 2, 8])], "up to 12 cells"),
        Scenario("vacuous_distance", vacuous_distance, [dict(names="a"), dict(names="ab", missing=[0, 3]),
                                                        dict(names="ac", missing=[1], default=True)], "up to 6 cells"),
        Scenario("argmax", argmax, [dict(names="a"), dict(names="ac", missing=[1]), dict(names="b", missing=[2], default=True),
                                    dict(names="ac", missing=[0, 3], default=True), dict(names="ab", missing=[0, 2, 5])],
                 "up to 6 cells, every order of the values"),
        Scenario("equality", equality, [dict(left="a", right="a"), dict(left="ac", right="ca", ml=[1], mr=[2]),
                                        dict(left="ac", right="ca", ml=[1], mr=[1]), dict(left="ab", right="ba", ml=[0], mr=[]),
                                        dict(left="ac", right="ca", ml=[0, 3], mr=[0], default=True),
                                        dict(left="ac", right="ac", ml=[0], mr=[3]),
                                        dict(left="a", right="a", ml=[0], mr=[], sign="0+")] +
                 [dict(left=l, right=r, ml=a, mr=b, default=k, other=True) for l, r, a, b in (("a", "a", [0], [1]), ("a", "a", [1], [1]), ("ac", "ca", [1], [2]), ("ac", "ca", [0, 3], [1]), ("ac", "ac", [0, 1], [2, 3]), ("ac", "ca", [], [1, 2])) for k in (True, False)],
                 "up to 6 cells, the same default or arbitrary ones; tolerance read as equality"),
        Scenario("equality_self", equality_self, [dict(left="abc", right="cab", missing=[0, 5]), dict(left="ab", right="ba", missing=[], default=True),
                                                  dict(left="eab", right="bae", missing=[1], default=True)], "up to 12 cells"),
        Scenario("equality_scope", equality_scope, [dict(left="ab", right="a"), dict(left="a", right="c"), dict(left="a", right="ab"), dict(left="ab", right="ac")], ""),
        Scenario("zero cells", equality_tiny, [dict(left=l, right=r, cell=c, how=h) for l, r, c in (("a", "a", 0), ("a", "a", 1), ("ab", "ba", 3)) for h in ("listed", "left out")] +
                 [dict(left="ab", right="ba", cell=3, how="listed", default=True)],
                 "real tolerances; any positive values, one of them replaced by zero"),
        Scenario("equality_tolerance", equality_tolerance, [dict(left="a", gap=0.01), dict(left="ab", gap=0.01, missing=[0, 3])],
                 "real tolerances; log values within [-10, 10]"),
        Scenario("operands of any origin", operation, lambda t: origins("sparse", "diverge", [("ac", "ca")], missing=[1], other="fresh", origins=("copy", "reduced", "reordered", "table", "normalised", "divided"))
                 + origins("sparse", "equals", [("ac", "ca"), ("a", "a")]) + origins("sparse", "equals itself", [("acb", "bac"), ("ba", "ab")], missing=[1])
                 + origins("sparse", "argmax", [("ac",)], missing=[2]), "operands that result from other operations; up to three variables"),
        Scenario("large", operation, lambda t: large("sparse", "equals itself", missing=[1]) + large("sparse", "argmax", missing=[1]),
                 bounds="tables of up to 1024 cells, up to ten variables, cardinalities up to 260; three cells per table arbitrary, the others fixed", limit=90),
        Scenario("shapes", operation, lambda t: shapes("sparse", "equals itself", missing=[1]) + shapes("sparse", "equals", missing=[1]) + shapes("sparse", "diverge", missing=[1]) + shapes("sparse", "argmax", missing=[1]),
                 "up to five variables, cardinalities 1 to 12, cells arbitrary reals > 0"),
    ],
}
