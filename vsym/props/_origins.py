"""Every operation on discrete factors that are themselves results of other operations (dense and sparse)."""
from ._tables import CARD, LONG, ORIGINS, X1, X10, X2, Table, cells, made, names_survive, ordered_as, same_entry
from ._tables import same_function as same_values


def zero(env, x):
    return env.is_true(x == 0)


def operation(env, kind, op, left, origin, right=None, other="fresh", zl=(), zr=(), missing=(), default=False, vrs="", values=(), cards=None, named="acz", large=False):
    if kind != "dense" or "template" in (origin, other if right is not None else ""):
        named = False

    def same_function(env, label, f, t, **kw):
        same_values(env, label, f, t, **kw)
        if kind == "dense":
            names_survive(env, label, f, named)
    d = env.real("d", "+") if default else None
    A, fa = made(env, kind, "p", left, origin, missing, d, zl, named, cards=cards, large=large)
    if right is not None:
        B, fb = made(env, kind, "q", right, other, missing if op in ("multiply", "equals", "diverge") else (), d, zr, named, cards=cards, large=large)
    if op == "multiply":
        same_function(env, "product", fa.multiply(fb), A.times(B))
        same_function(env, "commuted", fb.multiply(fa), A.times(B))
    elif op == "self":
        same_function(env, "square", fa.multiply(fa), A.times(A))
        same_function(env, "operand", fa, A)
    elif op == "divide self":
        same_function(env, "one", fa.divide(fa), Table(A.names, A.cards, {c: env.const(1) for c in A.p}))
        same_function(env, "operand", fa, A)
    elif op == "cancel self":
        same_function(env, "one", fa.cancel(fa), Table(A.names, A.cards, {c: env.const(0) if zero(env, v) else env.const(1) for c, v in A.p.items()}))
        same_function(env, "operand", fa, A)
    elif op == "divide":
        same_function(env, "quotient", fa.divide(fb), A.combine(B, lambda a, b: a / b))
        same_function(env, "undone", fa.multiply(fb).divide(fb), A.combine(B, lambda a, b: a))
    elif op == "cancel":
        zb = {c for c in B.p if zero(env, B.p[c])}

        def ok(asg):
            return tuple(asg[n] for n in B.names) not in zb or zero(env, A.at(asg))
        names = A.names + [n for n in B.names if n not in A.names]
        cards = {**A.cards, **B.cards}
        ref = {}
        for c in cells(names, cards):
            asg = dict(zip(names, c))
            ref[c] = env.const(0) if tuple(asg[n] for n in B.names) in zb else A.at(asg) / B.at(asg)
        same_function(env, "cancelled", fa.cancel(fb), Table(names, cards, ref), where=ok)
        ref = {c: env.const(0) if tuple(dict(zip(names, c))[n] for n in B.names) in zb else A.at(dict(zip(names, c))) for c in cells(names, cards)}
        same_function(env, "restored", fa.multiply(fb).cancel(fb), Table(names, cards, ref))
    elif op == "marginalize":
        same_function(env, "marginal", fa.marginalize(list(vrs)), A.sum_to(list(vrs)))
        out = [n for n in A.names if n not in vrs]
        same_function(env, "summed out", fa.marginalize(out, keep=False), A.sum_to(list(vrs)))
        if len(A.names) > 2:
            steps = fa
            for v in out:
                steps = steps.marginalize([v], keep=False)
            same_function(env, "summed out in steps", steps, A.sum_to(list(vrs)))
    elif op == "reduce":
        r = fa.reduce(list(vrs), list(values))
        same_function(env, "slice", r, A.slice(dict(zip(vrs, values))))
        env.true("order kept", list(r.var_names) == [n for n in A.names if n not in vrs])
        steps = fa
        for v, x in zip(vrs, values):
            steps = steps.reduce([v], (x,))
        same_function(env, "slice in steps", steps, A.slice(dict(zip(vrs, values))))
        same_function(env, "slice, tuple", fa.observe(list(vrs), tuple(values)), A.slice(dict(zip(vrs, values))))
    elif op == "normalise":
        z = A.total()
        same_function(env, "normalised", fa.normalize(), Table(A.names, A.cards, {t: v / z for t, v in A.p.items()}))
        if kind == "sparse":
            env.eq("weight", fa.weight, z)
    elif op == "reorder":
        r = fa.reorder(list(vrs))
        same_function(env, "reordered", r, A)
        ordered_as(env, "reordered", r, vrs)
        same_function(env, "back", r.reorder(list(A.names)), A)
        c = r.copy()
        same_function(env, "copy", c, A)
        ordered_as(env, "copy", c, vrs)
        back = list(reversed(A.names))
        env.eq("looked up by names", [r.potential(back, [a[n] for n in back]) for a in A.assignments()], [A.at(a) for a in A.assignments()])
        rows = r.dense_distribution_array
        got = {tuple(int(rows[i, j]) for j in range(len(vrs))): rows[i, len(vrs)] for i in range(rows.shape[0])}
        env.true("rows", rows.shape[0] == len(A.p))
        env.eq("array", [got[tuple(a[n] for n in vrs)] for a in A.assignments()], [A.at(a) for a in A.assignments()])
    elif op == "argmax":
        best = tuple(int(i) for i in fa.argmax())
        at = dict(zip(fa.var_names, best))
        for a in A.assignments():
            if a != at:
                env.true("argmax is maximal", A.at(at) >= A.at(a))
    elif op == "diverge":
        from .dense import kl_value
        env.eq("divergence", fa.kl_divergence(fb), kl_value(env, A, B))
        env.eq("from itself", fa.kl_divergence(fa.copy()), env.const(0))
        n = len(A.p)
        U = Table(A.names, A.cards, {t: env.const(1) / n for t in A.p})
        env.eq("distance", fa.distance_from_vacuous(), kl_value(env, A, U))
    elif op == "equals":
        same = env.both(*[same_entry(env, A.p[t], B.at(dict(zip(A.names, t)))) for t in A.p])
        env.iff("a == b", fa.equals(fb), same)
        env.iff("b == a", fb.equals(fa), same)
    elif op == "equals itself":
        g = fa.reorder(list(right))
        env.true("itself", fa.equals(fa) and fa.equals(fa.copy()))
        env.true("in another order", fa.equals(g) and g.equals(fa) and fa == g and not fa != g)
    else:
        raise ValueError(op)


def cfgs(kind, op, scopes, origins=ORIGINS, **kw):
    """One configuration per origin, alternating between the given (left, right) scopes."""
    out = []
    for i, o in enumerate(origins):
        for j, sc in enumerate(scopes if isinstance(scopes[0], (tuple, list)) else [scopes]):
            extra = dict(zip(("left", "right", "vrs", "values"), sc))
            c = dict(kind=kind, op=op, origin=o, **{k: v for k, v in extra.items() if v is not None}, **kw)
            if c.get("right") is not None and "other" not in kw and op in ("multiply", "equals", "diverge"):
                c["other"] = origins[(i * 5 + j + 3) % len(origins)]
            out.append(c)
    return out


def long_names(kind, op, **kw):
    pairs = {"multiply": LONG, "divide": LONG, "cancel": LONG[1:3], "equals itself": [([X10, X2, X1], [X1, X10, X2])], "equals": LONG[1:2] if kind != "sparse" else [([X2, X1], [X1, X2])],
             "diverge": [([X1, X2], [X2, X1])]}
    subs = {"marginalize": [([X10, "x", X1], [X1]), ([X1, X10, X2], [X2, X10]), ([X1, X10], [X10])], "normalise": [([X10, X1], [])], "argmax": [([X1, X2], [])],
            "reorder": [([X1, X10, "x"], ["x", X1, X10]), ([X10, X1], [X1, X10])]}
    obs = {"reduce": [([X1, X10, "x"], [X1, "x"], [1, 0]), ([X1, X10], [X10], [2]), ([X10, X1], [X1], [1])]}
    return [dict(kind=kind, op=op, left=l, right=r, origin=o, **kw) for l, r in pairs.get(op, []) for o in ("fresh", "copy")] + \
        [dict(kind=kind, op=op, left=l, vrs=v, origin=o, **kw) for l, v in subs.get(op, []) for o in ("fresh", "product")] + \
        [dict(kind=kind, op=op, left=l, vrs=v, values=x, origin=o, **kw) for l, v, x in obs.get(op, []) for o in ("fresh", "reordered")]


MANY = {v: 2 for v in "abcdefghij"}
WIDE = {"a": 25, "b": 3, "c": 2}
TALL = {"a": 260, "b": 2}


def large(kind, op, **kw):
    """More than a hundred cells, a few of which are arbitrary."""
    two = {
        "multiply": [("abcdefg", "gaxb", MANY), ("abcdefg", "gfedcba", MANY), ("abc", "cab", WIDE), ("abcd", "efgh", MANY), ("ab", "ba", TALL), ("a", "b", TALL), ("abcdefghij", "jcf", MANY)],
        "divide": [("abcdefg", "gab", MANY), ("abcdefg", "gfedcba", MANY), ("abc", "ca", WIDE)],
        "cancel": [("abcdefg", "gab", MANY), ("abcdefg", "cefdgba", MANY), ("abc", "ca", WIDE)],
        "equals itself": [("abcdefg", "gfedcba", MANY), ("abc", "cab", WIDE), ("ab", "ba", TALL)],
    }
    one = {
        "marginalize": [("abcdefg", "ga", MANY), ("abcdefg", "dcbagf", MANY), ("abc", "ac", WIDE), ("abc", "b", WIDE), ("ab", "a", TALL), ("ab", "b", TALL), ("abcdefghij", "jd", MANY)],
        "argmax": [("abcdefg", "", MANY), ("abc", "", WIDE)],
        "reorder": [("ab", "ba", TALL), ("abcdefg", "gfedbca", MANY), ("abc", "cab", WIDE)],
        "normalise": [("abcdefg", "", MANY), ("abc", "", WIDE)],
    }
    three = {"reduce": [("abcdefg", "fb", [1, 0], MANY), ("abcdefg", "gcaed", [1, 0, 0, 1, 1], MANY), ("abc", "a", [24], WIDE), ("abc", "ca", [1, 13], WIDE), ("ab", "a", [259], TALL), ("ba", "b", [1], TALL), ("abcdefghij", "jb", [1, 0], MANY)]}
    return [dict(kind=kind, op=op, left=l, right=r, origin="fresh", cards={"x": 2, **c}, large=True, **kw) for l, r, c in two.get(op, [])] + \
        [dict(kind=kind, op=op, left=l, vrs=v, origin="fresh", cards=c, large=True, **kw) for l, v, c in one.get(op, [])] + \
        [dict(kind=kind, op=op, left=l, vrs=v, values=x, origin="fresh", cards=c, large=True, **kw) for l, v, x, c in three.get(op, [])]


BIG = {"a": 12, "b": 2}
FIVE = {v: 2 for v in "abcdef"}
ONES = {"a": 1, "b": 1, "c": 2, "d": 1}


def shapes(kind, op, **kw):
    """Large cardinalities, many variables, only trivial variables, long names."""
    two = {
        "multiply": [("ab", "ba", BIG), ("abcde", "eca", FIVE), ("abcd", "dbca", FIVE), ("abcde", "fb", FIVE), ("abd", "dab", ONES), ("a", "b", ONES), ("cab", "dc", ONES), ("abcd", "bdef", FIVE), ("abcd", "abdc", FIVE)],
        "divide": [("ab", "ba", BIG), ("abcde", "eca", FIVE), ("abcd", "dbca", FIVE), ("abd", "dab", ONES), ("abcd", "bdac", FIVE), ("cab", "bc", ONES)],
        "cancel": [("ab", "ba", BIG), ("abcde", "eca", FIVE), ("abcd", "dbca", FIVE), ("abd", "dab", ONES), ("cab", "bc", ONES)],
        "equals itself": [("ab", "ba", BIG), ("abcd", "dbca", FIVE), ("abcd", "cdab", FIVE), ("abd", "dab", ONES), ("cab", "bca", ONES)],
        "equals": [("abc", "cab", ONES)],
        "diverge": [("abc", "cab", ONES), ("a", "a", ONES)],
    }
    one = {
        "marginalize": [("ab", "a", BIG), ("ab", "b", BIG), ("abcde", "ebd", FIVE), ("abcde", "c", FIVE), ("abcde", "cdab", FIVE), ("abcd", "d", ONES), ("abcd", "ca", ONES), ("abcd", "dcba", FIVE)],
        "reorder": [("ab", "ba", BIG), ("abcde", "ecbda", FIVE), ("abcd", "cbda", FIVE), ("abcd", "dcab", ONES), ("abcd", "bcda", FIVE)],
        "normalise": [("ab", "", BIG), ("abcd", "", FIVE), ("abd", "", ONES), ("a", "", ONES)],
        "argmax": [("abc", "", ONES), ("abd", "", ONES)],
    }
    three = {"reduce": [("ab", "a", [11], BIG), ("ba", "a", [10], BIG), ("ab", "ba", [1, 9], BIG), ("abcde", "dbe", [1, 0, 1], FIVE), ("abcde", "ec", [0, 1], FIVE), ("abcd", "db", [0, 0], ONES), ("cab", "ab", [0, 0], ONES),
                        ("abcd", "dcba", [1, 0, 0, 1], FIVE)]}
    own = {"multiply": "self", "divide": "divide self", "cancel": "cancel self"}
    out = [dict(kind=kind, op=own[op], left=l, origin=o, **{k: v for k, v in kw.items() if k not in ("zr",) and not (op == "divide" and k == "missing")})
           for l, o in (("ab", "fresh"), ("ca", "product"), ("b", "fresh"), ("acb", "reordered"))] if op in own else []
    for l, r, c in two.get(op, []):
        out.append(dict(kind=kind, op=op, left=l, right=r, origin="fresh", cards=c, **kw))
    for l, v, c in one.get(op, []):
        out.append(dict(kind=kind, op=op, left=l, vrs=v, origin="fresh", cards=c, **kw))
    for l, v, x, c in three.get(op, []):
        out.append(dict(kind=kind, op=op, left=l, vrs=v, values=x, origin="fresh", cards=c, **kw))
    return out + long_names(kind, op, **kw)


# ---------------------------------------------------------------------------------- small differences are differences
def smalls(env, n, apart=True):
    """n numbers of a size between 0.00002 and 0.00004 (apart: which differ from one another by as much)."""
    e = env.reals("e", n)
    for v in [*e, *[e[i] - e[j] for i in range(n) for j in range(i) if apart]]:
        env.assume(env.both(v <= 4, v >= -4))
        env.assume(env.any(v <= -2, v >= 2))
    return [v / 100000 for v in e]


def magnified(env, label, actual, expected):
    """Equal, in a replay too, up to far less than a small difference."""
    env.eq(label, (actual - expected) * 100000, 0.0)


def slight(env, cls, op, near="uniform"):
    """Below the tolerance of a comparison there still is a difference: nothing is taken for uniform, equal or normalised."""
    env.tol()
    p = env.reals("p", 2)
    for v in p:
        env.assume(env.both(v <= 1, v >= -1))

    def fac(name, x):
        if cls == "dense":
            return env.mod("veroku.factors.categorical").Categorical([name], log_probs_tensor=env.arr(list(x)))
        return env.mod("veroku.factors.sparse_categorical").SparseCategorical([name], cardinalities=[2], log_probs_table={(0,): x[0], (1,): x[1]})

    if op == "normalise":
        d = smalls(env, 1)[0]
        a = fac("a", [d - env.log(env.const(2.0))] * 2).normalize()
        for i in (0, 1):
            magnified(env, f"value at {i}", a.potential(["a"], [i]), env.const(0.5))
        return
    d = smalls(env, 2)
    f, name = fac("a", p), "b" if near == "other" else "a"
    q = [v + w for v, w in zip(p, d)] if near == "same" else d
    g = fac(name, q)
    r = getattr(f, op)(g)
    for i in (0, 1):
        for j in (0, 1) if name == "b" else (i,):
            v = r.potential(["a", "b"], [i, j]) if name == "b" else r.potential(["a"], [i])
            magnified(env, f"value at {i}{j}", v, env.exp(p[i] + q[j] if op in ("multiply", "absorb") else p[i] - q[j]))
    if name == "a":
        r = getattr(g, op)(f)
        for i in (0, 1):
            magnified(env, f"value the other way at {i}", r.potential(["a"], [i]), env.exp(q[i] + p[i] if op in ("multiply", "absorb") else q[i] - p[i]))
