"""Factorised factors (F01-F02)."""
from . import Scenario, marg, product
from ._gauss import DERIVED, Quad, gauss_mod, make, point, same_quad

from .gaussian import WIDE

FF = "veroku.factors.experimental.factorised_factor"


def parts(env, pre, scopes, forms):
    fm = forms if isinstance(forms, (tuple, list)) else [forms] * len(scopes)
    return [make(env, f, f"{pre}{i}", s) for i, (s, f) in enumerate(zip(scopes, fm))]


def fact(env, pre, scopes, forms="any"):
    ps = parts(env, pre, scopes, forms)
    F = env.mod(FF).FactorizedFactor([p[0] for p in ps])
    return F, prod([p[1] for p in ps]), ps


def prod(qs):
    q = qs[0]
    for r in qs[1:]:
        q = q.times(r)
    return q


def joint_of(F):
    return F.joint_distribution if hasattr(F, "joint_distribution") else F


def same_fn(env, label, F, q, scope=True):
    """The product of F's parts is the function q; with scope=False variables that do not matter may be missing."""
    j = joint_of(F)
    have = list(j.var_names)
    if scope:
        env.true(f"{label}: scope", sorted(F.var_names) == sorted(q.names) == sorted(have))
    else:
        env.true(f"{label}: scope", set(have) <= set(q.names))
    if not set(have) <= set(q.names):
        return
    q = q.over(have + [n for n in q.names if n not in have])
    n, m = len(have), len(q.names)
    env.eq(f"{label}: g", j.get_g(), q.g)
    if n:
        env.eq(f"{label}: h", j.get_h(), [[x] for x in q.h[:n]])
        env.eq(f"{label}: precision", j.get_prec(), [r[:n] for r in q.K[:n]])
    if m > n:
        env.eq(f"{label}: unused variables", q.h[n:] + [q.K[i][j2] for i in range(n, m) for j2 in range(m)],
               [0.0] * (m - n + (m - n) * m))


# ------------------------------------------------------------------------------------------------------------- F01
def joint(env, scopes, forms="any"):
    F, q, ps = fact(env, "p", scopes, forms)
    same_quad(env, "joint", F.joint_distribution, q)
    env.true("scope", sorted(F.var_names) == sorted(q.names))
    same_fn(env, "copy", F.copy(), q)
    for i, (f, qi, _) in enumerate(ps):
        same_quad(env, f"part {i}", f, qi, evaluate=False, order=list(qi.names))


def multiply(env, scopes, other, forms="any", form="any", via="multiply"):
    F, q, _ = fact(env, "p", scopes, forms)
    f, qf, _ = make(env, form, "r", other)
    r = F * f if via == "mul" else getattr(F, via)(f)
    same_fn(env, "product", r, q.times(qf))
    same_fn(env, "operand", F, q)
    same_quad(env, "other operand", f, qf, evaluate=False, order=qf.names)


def divide(env, scopes, other, forms="can", form="can", via="divide"):
    F, q, _ = fact(env, "p", scopes, forms)
    f, qf, _ = make(env, form, "r", other)
    r = F / f if via == "div" else getattr(F, via)(f)
    same_fn(env, "quotient", r, q.div(qf), scope=False)
    env.true("quotient: scope", sorted(r.var_names) == sorted(q.names))
    same_fn(env, "operand", F, q)
    same_quad(env, "other operand", f, qf, evaluate=False, order=qf.names)


def divide_part(env, scopes, index, forms="can"):
    """Dividing by a factor that equals one of the parts, whichever that is."""
    F, q, ps = fact(env, "p", scopes, forms)
    f, qf, _ = ps[index]
    r = F.divide(f.copy())
    same_fn(env, "quotient", r, q.div(qf), scope=False)
    same_fn(env, "operand", F, q)


def shared(env, scopes, index):
    """Parts that are one object: with each other, or with the other operand."""
    F, q, ps = fact(env, "p", scopes, "can")
    f, qf, _ = ps[index]
    same_fn(env, "times its own part", F.multiply(f), q.times(qf))
    same_fn(env, "without its own part", F.divide(f), q.div(qf), scope=False)
    same_fn(env, "times and without its own part", F.multiply(f).divide(f), q)
    T = env.mod(FF).FactorizedFactor([p[0] for p in ps] + [f])
    same_fn(env, "a part listed twice", T, q.times(qf))
    same_fn(env, "one of them taken out", T.divide(f), q, scope=False)
    same_fn(env, "both taken out", T.divide(f).divide(f), q.div(qf), scope=False)
    g, qg, _ = make(env, "can", "r", list(qf.names)[:1])
    same_fn(env, "absorbed once", T.multiply(g), q.times(qf).times(qg))
    env.true("equal to itself", F.equals(F) and T.equals(T))
    same_fn(env, "operand", F, q)
    same_fn(env, "operand with the part twice", T, q.times(qf))
    for i, (p, qi, _) in enumerate(ps):
        same_quad(env, f"part {i}", p, qi, evaluate=False, order=list(qi.names))


def divide_refused(env, scopes, other):
    F, q, _ = fact(env, "p", scopes)
    f, _, _ = make(env, "any", "r", other)
    env.raises("no part covers the divisor", lambda: F.divide(f))


def sequence(env, scopes, others, n):
    """Any sequence of products and quotients."""
    # proper operands: constant factors compare equal whatever their constant is
    F, q, _ = fact(env, "p", scopes, "can")
    fs = [make(env, "can", f"r{i}", s) for i, s in enumerate(others)]
    for i in range(n):
        k = env.pick(f"step{i}", list(range(len(others))))
        f, qf, _ = fs[k]
        if env.choice(f"op{i}", 2) == 0:
            F, q = F.multiply(f), q.times(qf)
        else:
            new, err = env.attempt(lambda: F.divide(f))
            if err is None:
                F, q = new, q.div(qf)
            else:
                env.true("refused only when no part covers the divisor",
                         not any(set(f.var_names) <= set(p.var_names) for p in F.factors))
    same_fn(env, "result", F, q, scope=False)


def equality(env, left, right, forms="can"):
    """Factorised factors are compared by what they stand for: the same parts in any order or grouping are equal."""
    ps = {}
    for s in set(left) | set(right):
        pass
    base = [make(env, "can", f"p{i}", s) for i, s in enumerate(("ab", "b", "bc", "a"))]

    def build(groups):
        out = []
        for g in groups:
            f = base[g[0]][0]
            for i in g[1:]:
                f = f.multiply(base[i][0])
            out.append(f)
        return env.mod(FF).FactorizedFactor(out)
    A, B = build(left), build(right)
    env.true("equal", A.equals(B))
    env.true("equal, asked the other way", B.equals(A))


def inequality(env, scopes, change):
    F, q, ps = fact(env, "p", scopes, "can")
    d = env.real("d")
    f2 = [p[0].copy() for p in ps]
    q2 = ps[change][1]
    one = make(env, "any", "r", scopes[change])
    f2[change] = one[0]
    B = env.mod(FF).FactorizedFactor(f2)
    qa, qb = ps[change][1], one[1]
    n = len(qa.names)
    same = env.both(env.same(qa.g, qb.g), *[env.same(a, b) for a, b in zip(qa.h, qb.h)],
                    *[env.same(qa.K[i][j], qb.K[i][j]) for i in range(n) for j in range(i + 1)])
    env.iff("equal", F.equals(B), same)
    env.iff("equal, asked the other way", B.equals(F), same)


def tolerance(env, kind, rtol=0.0, atol=0.0):
    """The tolerances given to a comparison are the ones it uses."""
    env.tol()
    f, q, _ = make(env, "can", "p", "a")
    d = env.real("d")
    G, E = env.mod("veroku.factors.gaussian").Gaussian, env.mod(FF).FactorizedFactor
    f2 = G(prec=f.get_prec().copy(), h_vec=f.get_h().copy(), g_val=q.g + d, var_names=["a"])
    close = bool(f.equals(f2, rtol=rtol, atol=atol))
    if kind == "part":
        A, B = E([f]), E([f2])
    elif kind == "plain":
        A, B = E([f]), f2
    elif kind == "other part":
        o, qo, _ = make(env, "can", "o", "b")
        A, B = E([o, f]), E([f2, o])
        # a difference in one part shows in the same way in the joint when the tolerance is absolute
        close = bool(f.equals(f2, rtol=0.0, atol=atol))
    else:
        o, qo, _ = make(env, "can", "o", "b")
        A, B = E([f, o]), E([f2.multiply(o)])
        close = bool(f.multiply(o).equals(f2.multiply(o), rtol=rtol, atol=atol))
    env.true("compared with the given tolerances", bool(A.equals(B, rtol=rtol, atol=atol)) == close)


def divergence(env, left, right):
    F, q, ps = fact(env, "p", left, "cov")
    E, qe, pe = fact(env, "q", right, "cov")
    a, b = F.joint_distribution, E.joint_distribution
    env.eq("divergence", F.kl_divergence(E), a.kl_divergence(b))
    env.true("distance from vacuous", F.distance_from_vacuous() == float("inf"))
    env.eq("covariance", F.get_cov(), a.get_cov())
    env.eq("mean", F.get_mean(), a.get_mean())


def vacuous(env, scopes):
    F, q, _ = fact(env, "p", scopes, "vac")
    env.true("all parts vacuous", F.is_vacuous)
    env.eq("distance", F.distance_from_vacuous(), 0.0)
    G, _, _ = fact(env, "q", scopes, "cov")
    env.true("no part vacuous", not G.is_vacuous)


# ------------------------------------------------------------------------------------------------------------- F02
def marginal(env, scopes, vrs, keep=True, forms="can"):
    F, q, ps = fact(env, "p", scopes, forms)
    out = [n for n in q.names if n not in vrs] if keep else list(vrs)
    if len(vrs) == 1 and len(scopes) < 3:
        same_fn(env, "marginal of one variable", marg(F, vrs, keep, bare=True), q.integrate(out))
    r = marg(F, vrs, keep)
    same_fn(env, "marginal", r, q.integrate(out))
    same_fn(env, "operand", F, q)
    for i, (f, qi, _) in enumerate(ps):
        same_quad(env, f"part {i}", f, qi, evaluate=False, order=list(qi.names))


def reduce(env, scopes, obs, forms="any"):
    F, q, ps = fact(env, "p", scopes, forms)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    r = F.reduce(list(obs), [vals[v] for v in obs])
    same_fn(env, "observed", r, q.slice(vals))
    same_fn(env, "operand", F, q)
    for i, (f, qi, _) in enumerate(ps):
        same_quad(env, f"part {i}", f, qi, evaluate=False, order=list(qi.names))


def reduce_marginal(env, scopes, obs, out):
    F, q, _ = fact(env, "p", scopes, "can")
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    r = F.reduce(list(obs), [vals[v] for v in obs]).marginalize(list(out), keep=False)
    same_fn(env, "observed marginal", r, q.slice(vals).integrate(list(out)))


def normalise(env, scopes, forms="can"):
    F, q, _ = fact(env, "p", scopes, forms)
    r = F.normalize()
    lw = q.integrate(q.names).g
    same_fn(env, "normalised", r, q.scaled(-lw))
    same_fn(env, "operand", F, q)


HIST = ("multiply", "divide", "observe", "marginal", "normalise", "copy")


def histories(env, scopes, n, ops):
    """Any sequence of operations."""
    F, q, _ = fact(env, "p", scopes, "can")
    left = list("bca")
    for i in range(n):
        # a marginal is a single part, which is not factorised any more
        k = env.pick(f"op{i}", list(ops) if hasattr(F, "factors") else [o for o in ops if o != "divide"])
        if k == "multiply":
            f, qf, _ = make(env, ("can", "cov")[i % 2], f"r{i}", ["cb", "a"][i % 2] if set("cba") <= set(q.names) else list(q.names)[:1], diag=True)
            F, q = F.multiply(f), q.times(qf)
        elif k == "divide":
            f, qf, _ = make(env, "can", f"r{i}", list(q.names)[:1])
            F, q = F.multiply(f).divide(f), q
        elif k == "observe":
            v = next(v for v in left if v in q.names)
            if len(q.names) > 1:
                x = env.real(f"o{i}")
                F, q = F.observe([v], [x]), q.slice({v: x})
        elif k == "marginal":
            v = next(v for v in left if v in q.names)
            if len(q.names) > 1:
                F, q = F.marginalize([x for x in q.names if x != v]), q.integrate([v])
        elif k == "normalise":
            F, q = F.normalize(), q.scaled(-q.integrate(q.names).g)
        elif k == "copy":
            F = F.copy()
    same_fn(env, "result", F, q, scope=False)


def tier(t, q, th):
    return q if t == "quick" else th


JOINTS = [("a",), ("ab",), ("a", "b"), ("ab", "bc"), ("bc", "a"), ("ab", "ba"), ("a", "ab", "b"), ("ab", "bc", "ca"), ("b", "cd", "a")]

PROPS = {
    "F01": [
        Scenario("parts of any origin", joint, lambda t: [dict(scopes=("ab", "bc"), forms=("@" + a, "@" + b)) for a, b in zip(DERIVED[::2], DERIVED[1::2])], bounds="parts that other operations returned"),
        Scenario("product of any origin", multiply, lambda t: [dict(scopes=("ab", "c"), other=("b", "cb", "a")[i % 3], forms=("can", "@" + d), form="@" + DERIVED[i - 3]) for i, d in enumerate(DERIVED)], bounds="operands that other operations returned", limit=90),
        Scenario("quotient of any origin", divide, lambda t: [dict(scopes=("ab", "cd"), other=("b", "c", "ba")[i % 3], forms=("can", "@" + d), form="@" + DERIVED[i - 3]) for i, d in enumerate(DERIVED)], bounds="operands that other operations returned", limit=90),
        Scenario("joint", joint, lambda t: [dict(scopes=s, forms="any" if len(s) < 3 or t != "quick" else ("any", "can", "can")) for s in JOINTS] + [dict(scopes=("ab", "bc"), forms=("cov", "both"))],
                 bounds="up to three parts over up to four variables, arbitrary symmetric precisions"),
        Scenario("multiply", multiply, lambda t: [dict(scopes=s, other=o, forms=f, form=f) for s, f in ((("ab", "bc"), "can"), (("a", "b"), "any"), (("ab", "c"), "can"))
                                                  for o in ("b", "cb", "ac", "d", "bd", "abc")] +
                 [dict(scopes=("a", "ba", "b"), other=o, via=v, forms="can") for o, v in (("a", "mul"), ("ab", "absorb"), ("b", "multiply"))] +
                 [dict(scopes=("ab", "bc"), other="b", forms=("cov", "can"), form="both")] +
                 tier(t, [], [dict(scopes=s, other=o, forms="can", form="any") for s in JOINTS for o in ("a", "ba", "cb", "ad")]),
                 bounds="up to three parts, any covering relation"),
        Scenario("divide", divide, lambda t: [dict(scopes=s, other=o) for s, o in
                                              ((("ab", "bc"), "b"), (("ab", "bc"), "cb"), (("a", "b"), "b"), (("bc", "a"), "a"), (("ab",), "ba"),
                                               (("a", "ab", "b"), "b"), (("c", "abc"), "ca"))] +
                 [dict(scopes=("a", "ba"), other="a", via=v) for v in ("div", "cancel")] +
                 [dict(scopes=("ab", "bc"), other="b", forms=("cov", "can"), form="both")],
                 bounds="up to three parts, divisor covered by a part"),
        Scenario("divide by part", divide_part, lambda t: [dict(scopes=s, index=i) for s in (("a", "b"), ("ab", "bc"), ("ab", "ba", "b"), ("b", "cd", "a"))
                                                           for i in range(len(s))] + [dict(scopes=("ab",), index=0)],
                 bounds="up to three parts"),
        Scenario("shared parts", shared, [dict(scopes=s, index=i) for s in (("a",), ("a", "b"), ("ab", "bc"), ("ab", "ba", "b")) for i in range(len(s))], bounds="up to four parts, two of which are one object", limit=60),
        Scenario("many parts", joint, lambda t: [dict(scopes=s, forms="wide can") for s in (("ab", "bc", "cd", "de"), ("a", "b", "c", "d", "e"), ("cab", "b", "ed", "ca"), ("ab",) * 5)], bounds=f"four or five parts over up to five variables, {WIDE}", limit=90),
        Scenario("many parts multiplied", multiply, lambda t: [dict(scopes=s, other=o, forms="wide can", form="can") for s, o in ((("ab", "bc", "cd", "de"), "dc"), (("a", "b", "c", "d"), "c"), (("cab", "b", "ed", "ca"), "af"), (("a", "ab", "abc", "b"), "ba"))],
                 bounds=f"four parts over up to six variables, {WIDE}", limit=90),
        Scenario("many parts divided", divide, lambda t: [dict(scopes=s, other=o, forms="wide can", form="can") for s, o in ((("ab", "bc", "cd", "de"), "d"), (("a", "b", "c", "d"), "c"), (("cab", "b", "ed", "ca"), "ac"), (("a", "ab", "abc", "b"), "ba"))],
                 bounds=f"four parts over up to five variables, {WIDE}", limit=90),
        Scenario("refused", divide_refused, [dict(scopes=s, other=o) for s, o in ((("a", "b"), "ab"), (("ab",), "c"), (("ab", "bc"), "ac"))],
                 bounds="divisor not covered by any part"),
        Scenario("sequence", sequence, lambda t: [dict(scopes=("a", "b"), others=("ab", "a"), n=tier(t, 2, 3)),
                                                  dict(scopes=("ab", "c"), others=("b", "bc"), n=tier(t, 2, 3))],
                 bounds="every sequence of two (thorough three) products and quotients"),
        Scenario("equality", equality, [dict(left=l, right=r) for l, r in
                                        ((((0,), (2,)), ((2,), (0,))), (((0, 1), (2,)), ((0,), (1, 2))), (((0,), (1,), (2,)), ((0, 1), (2,))),
                                         (((0, 1, 2),), ((2,), (1,), (0,))), (((0, 3), (1,)), ((3,), (0, 1))))],
                 bounds="the same parts in another order or grouping"),
        Scenario("tolerances", tolerance, [dict(kind=k, rtol=r, atol=a) for k in ("part", "plain", "other part", "regrouped") for r, a in ((0.0, 0.5), (0.5, 0.0))
                                           if k != "other part" or r == 0.0], bounds="one parameter that deviates by any amount"),
        Scenario("inequality", inequality, [dict(scopes=s, change=c) for s, c in ((("a", "b"), 0), (("a", "b"), 1), (("ab", "b"), 1), (("ab",), 0))],
                 bounds="one part changed arbitrarily", limit=60),
        Scenario("divergence", divergence, [dict(left=("a", "b"), right=("b", "a")), dict(left=("a",), right=("a", "a"))],
                 bounds="dimension <= 2", limit=60),
        Scenario("vacuous", vacuous, [dict(scopes=s) for s in (("a",), ("a", "b"), ("ab", "bc"))], bounds="up to two parts"),
    ],
    "F02": [
        Scenario("history", histories, lambda t: [dict(scopes=s, n=tier(t, 2, 3), ops=o) for s, o in ((("ab", "bc"), HIST), (("a", "ab", "c"), HIST))] + [dict(scopes=("ab", "c"), n=3, ops=("multiply", "observe", "marginal"))],
                 bounds="every sequence of two or three operations, three variables", limit=120),
        Scenario("many parts", marginal, lambda t: [dict(scopes=s, vrs=v, keep=k, forms="wide can") for s, v, k in
                                                    ((("ab", "bc", "cd", "de"), "c", True), (("ab", "bc", "cd", "de"), "ae", True), (("a", "b", "c", "d", "e"), "bd", False), (("cab", "b", "ed", "ca"), "a", False), (("ab", "cd", "e", "bc"), "ed", True))],
                 bounds=f"four or five parts over up to five variables, {WIDE}", limit=90),
        Scenario("many parts observed", reduce, lambda t: [dict(scopes=s, obs=o, forms="wide can") for s, o in ((("ab", "bc", "cd", "de"), "c"), (("a", "b", "c", "d", "e"), "db"), (("cab", "b", "ed", "ca"), "aeb"))],
                 bounds=f"four or five parts over up to five variables, {WIDE}", limit=90),
        Scenario("many parts normalised", normalise, lambda t: [dict(scopes=s, forms="wide can") for s in (("ab", "bc", "cd"), ("a", "b", "c", "d"), ("cab", "b", "ed", "ca"))],
                 bounds=f"up to four parts over up to five variables, {WIDE}", limit=90),
        Scenario("marginal of any origin", marginal, lambda t: [dict(scopes=("a", "b"), vrs="b", keep=bool(i % 2), forms=("@" + d, "@" + DERIVED[i - 5])) for i, d in enumerate(DERIVED)], bounds="parts that other operations returned", limit=90),
        Scenario("reduce of any origin", reduce, lambda t: [dict(scopes=("ab", "b"), obs="b", forms=("@" + d, "@" + DERIVED[i - 5])) for i, d in enumerate(DERIVED)], bounds="parts that other operations returned", limit=90),
        Scenario("same scopes", marginal, [dict(scopes=s, vrs=v, keep=k, forms="wide can") for s in (("abc", "bca"), ("cab", "bac", "ac")) for v, k in (("a", True), ("cb", True), ("b", False))],
                 bounds=f"two or three parts over the same variables in different orders, {WIDE}", limit=60),
        Scenario("marginal", marginal, lambda t: [dict(scopes=s, vrs=v, keep=k) for s, v, k in
                                                  ((("a", "b"), "a", True), (("a", "b"), "b", True), (("ab", "bc"), "b", False), (("ab", "bc"), "c", True),
                                                   (("ab", "bc"), "ca", True), (("bc", "ab"), "a", False), (("ab", "c"), "a", True), (("ab", "c"), "bc", True),
                                                   (("ab", "bc", "cd"), "bc", False), (("ab", "cd", "bc"), "bc", False), (("ab", "bc", "cd"), "c", False),
                                                   (("ab", "c", "d"), "cd", False), (("a", "ab", "b"), "b", True), (("cd", "ab"), "ad", True),
                                                   (("ab", "ba"), "b", True), (("ab", "bc"), "abc", True), (("ab", "c"), "ca", False))] +
                 [dict(scopes=("ab", "bc"), vrs="ac", forms=("cov", "both")), dict(scopes=("a", "b"), vrs="b", forms=("cov", "canboth"))] +
                 tier(t, [], [dict(scopes=s, vrs=v, keep=k) for s in (("ab", "bc"), ("ac", "b"), ("a", "bc", "b"), ("ab", "c", "cb"), ("ab", "bc", "ca"))
                              for v in ("a", "b", "c", "ab", "cb", "ac") for k in (True, False)]),
                 bounds="up to three parts over up to four variables, at most two (thorough three) integrated out", limit=60),
        Scenario("reduce", reduce, lambda t: [dict(scopes=s, obs=o) for s in (("ab", "bc"), ("a", "b"), ("ab", "c"))
                                              for o in ("a", "b", "ba")] + [dict(scopes=("a", "ab", "b"), obs=o, forms="can") for o in ("a", "b", "ba")] +
                 [dict(scopes=("ab", "bc", "cd"), obs=o, forms="can") for o in ("cb", "dca", "b", "bacd")] + [dict(scopes=("ab", "bc"), obs="cab")] +
                 [dict(scopes=("ab", "bc"), obs="b", forms=("cov", "both"))] + [dict(scopes=("abc", "bac"), obs=o, forms="wide can") for o in ("ab", "ca")] +
                 [dict(scopes=("bca", "acb", "bac"), obs="bc", forms=("wide cov", "wide can", "wide can")), dict(scopes=("ab", "ba"), obs="ab"), dict(scopes=("ab", "ba"), obs="b")] +
                 tier(t, [], [dict(scopes=s, obs=o) for s in (("ab", "bc", "ca"), ("c", "ab", "b"), ("abc", "b", "a")) for o in ("a", "cb", "bac", "ac")]),
                 bounds="up to three parts over up to four variables, any values"),
        Scenario("reduce then marginalise", reduce_marginal, [dict(scopes=s, obs=o, out=x) for s, o, x in
                                                              ((("ab", "bc"), "b", "a"), (("ab", "bc"), "a", "b"), (("ab", "bc", "cd"), "c", "b"),
                                                               (("a", "bc"), "a", "b"))],
                 bounds="up to three parts over up to four variables", limit=60),
        Scenario("normalise", normalise, lambda t: [dict(scopes=s) for s in (("a",), ("a", "b"), ("ab", "b"), ("a", "ab", "b"), ("ab", "c"), ("ab", "bc"))] +
                 [dict(scopes=("a", "b"), forms=("cov", "both"))] + tier(t, [], [dict(scopes=("ab", "bc", "a"))]),
                 bounds="up to three parts over up to three variables", limit=60),
    ],
}
