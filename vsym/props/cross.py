"""Properties that cut across the factor classes: purity (X01), rejections (X02), templates (X03), sampling (X04)."""
import itertools

import numpy as np

from . import Scenario, product
from . import cluster as K
from ._gauss import Quad, any_quad, can_gauss, col, cov_gauss, gauss_mod, make, rows, same_quad
from ._tables import CARD, Table, add_all, cells, dense, names_for, ordered_as, same_function, sparse, sym_table
from .factorised import fact, same_fn
from .gaussian import cpd_ref
from .mixture import GM, mix, same_mix
from .nonlinear import NL, Cpd, nlm_check

CAT = "veroku.factors.categorical"
SPA = "veroku.factors.sparse_categorical"


# ------------------------------------------------------------------------------------------------------------- X01
def scribble(x, seen=None):
    """Overwrite everything that can be reached through public attributes and changed in place."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            x[...] = 77.0
    elif isinstance(x, dict):
        for k in list(x):
            scribble(x[k], seen)
            x[k] = 77.0
    elif isinstance(x, list):
        for y in x:
            scribble(y, seen)
        if x and isinstance(x[0], str):
            x[:] = [v + "_changed" for v in x]
        elif x:
            x.pop()
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, seen)
    elif hasattr(x, "var_names"):
        for k, v in list(vars(x).items()):
            if not k.startswith("_"):
                scribble(v, seen)


def purity(env, op, factors, check, *args):
    """Apply op to factors (and args); afterwards, and after changing the result, check() must hold."""
    held = [list(a) for a in args]
    r = op(*factors, *args)
    check("operands")
    for a, h in zip(args, held):
        env.true("arguments unchanged", len(a) == len(h) and all(env.identical([(x, y)]) if not isinstance(x, str) else x == y for x, y in zip(a, h)))
    scribble(r)
    check("operands after changing the result")


DENSE_OPS = {
    "multiply": lambda f, g: f.multiply(g), "*": lambda f, g: f * g, "absorb": lambda f, g: f.absorb(g),
    "divide": lambda f, g: f.divide(g), "/": lambda f, g: f / g, "cancel": lambda f, g: f.cancel(g),
    "kl": lambda f, g: f.kl_divergence(g), "kl raw": lambda f, g: f.kl_divergence(g.normalize(), normalize_factor=False),
    "equals": lambda f, g: f.equals(g),
    "normalize": lambda f: f.normalize(), "copy": lambda f: f.copy(), "joint": lambda f: f.joint_distribution,
    "vacuous": lambda f: f.is_vacuous, "distance": lambda f: f.distance_from_vacuous(), "argmax": lambda f: f.argmax(),
    "argmax names": lambda f: f.argmax_assignment_names(), "array": lambda f: f.dense_distribution_array,
    "weight": lambda f: f.weight, "names": lambda f: f.var_names,
    "marginalize": lambda f, v: f.marginalize(v), "sum out": lambda f, v: f.marginalize(v, keep=False),
    "reorder": lambda f, v: f.reorder(v),
    "reduce": lambda f, v, x: f.reduce(v, x), "observe": lambda f, v, x: f.observe(v, x), "potential": lambda f, v, x: f.potential(v, x),
}


def tables_pure(env, cls, op, left, right=None, vrs=None, values=None, missing=(), named=False):
    A = sym_table(env, "p", left)
    B = sym_table(env, "q", right) if right else None
    for t in (A, B):
        if t:
            for i, c in enumerate(cells(t.names, t.cards)):
                if i in missing:
                    t.p[c] = env.const(0)
    mk = (lambda t: dense(env, t, named)) if cls == "dense" else (lambda t: sparse(env, t, missing))
    fs = [mk(t) for t in (A, B) if t]

    def check(label):
        for f, t in zip(fs, (A, B)):
            same_function(env, label, f, t)
            ordered_as(env, label, f, t.names)
            if named:
                env.true(f"{label}/assignment names", all(list(f.vars_assignments_names_dict[n]) == names_for(n, CARD[n]) for n in t.names))
    args = [list(a) for a in (vrs, values) if a is not None]
    purity(env, DENSE_OPS[op], fs, check, *args)


def tables_constructor(env, cls, how):
    """Changing what was passed to a constructor afterwards."""
    A = sym_table(env, "p", "ab")
    names, cards = ["a", "b"], [2, 3]
    cs = cells(A.names, A.cards)
    args = dict(var_names=names)
    if how == "tensor":
        args["log_probs_tensor"] = env.arr([env.log(A.p[c]) for c in cs]).reshape(2, 3)
        args["variables_assignment_names"] = [names_for("a", 2), names_for("b", 3)]
    elif how == "probs":
        args.update(probs_table={c: A.p[c] for c in cs}, cardinalities=cards)
    else:
        args.update(log_probs_table={c: env.log(A.p[c]) for c in cs}, cardinalities=cards)
    f = getattr(env.mod(CAT if cls == "dense" else SPA), "Categorical" if cls == "dense" else "SparseCategorical")(**args)
    keep = f.copy()
    scribble(args)
    for label, g in (("factor", f), ("copy", keep)):
        same_function(env, f"{label} after changing the arguments", g, A)
        ordered_as(env, f"{label} after changing the arguments", g, "ab")
        env.true("cardinalities", list(g.cardinalities) == [2, 3])
        if how == "tensor":
            env.true("assignment names", list(g.vars_assignments_names_dict["b"]) == names_for("b", 3))
    same_function(env, "product", f.multiply(keep), A.times(A))


GAUSS_OPS = {
    "multiply": lambda f, g: f.multiply(g), "*": lambda f, g: f * g, "absorb": lambda f, g: f.absorb(g),
    "divide": lambda f, g: f.divide(g), "/": lambda f, g: f / g, "cancel": lambda f, g: f.cancel(g),
    "kl": lambda f, g: f.kl_divergence(g), "kl raw": lambda f, g: f.kl_divergence(g, normalize_factor=False),
    "equals": lambda f, g: f.equals(g),
    "normalize": lambda f: f.normalize(), "copy": lambda f: f.copy(), "joint": lambda f: f.joint_distribution,
    "vacuous": lambda f: f.is_vacuous, "distance": lambda f: f.distance_from_vacuous(), "weight": lambda f: f.get_weight(),
    "cov": lambda f: f.get_cov() is None, "prec": lambda f: f.get_prec() is None, "log weight": lambda f: f.get_log_weight(),
    "split": lambda f: f._split_gaussian(), "names": lambda f: f.var_names,
    "marginalize": lambda f, v: f.marginalize(v), "sum out": lambda f, v: f.marginalize(v, keep=False),
    "reduce": lambda f, v, x: f.reduce(v, x), "observe": lambda f, v, x: f.observe(v, x),
    "log potential": lambda f, v, x: f.log_potential(x, vrs=v), "potential": lambda f, x: f.potential(x),
}


def gauss_pure(env, op, form, left, right=None, rform=None, vrs=None, values=0):
    a = make(env, form, "p", left, diag=True)
    fs, qs = [a[0]], [a[1]]
    if right:
        b = make(env, rform or form, "r", right, diag=True)
        fs.append(b[0])
        qs.append(b[1])

    def check(label):
        for i, (f, q) in enumerate(zip(fs, qs)):
            same_quad(env, f"{label}: {i}", f, q, order=q.names, evaluate=False)
    args = ([list(vrs)] if vrs is not None else []) + ([[env.real(f"v{i}") for i in range(values)]] if values else [])
    purity(env, GAUSS_OPS[op], fs, check, *args)


def gauss_constructor(env, form, names):
    n = len(names)
    names = list(names)
    M = env.spd("M", n)
    v = env.vec("v", n)
    w = env.real("w")
    G = gauss_mod(env).Gaussian
    m, u, vs = M.copy(), v.copy(), list(names)
    if form == "cov":
        f = G(cov=m, mean=u, log_weight=w, var_names=vs)
    else:
        f = G(prec=m, h_vec=u, g_val=w, var_names=vs)
    scribble([m, u, vs])
    m[...] = 77.0
    u[...] = 77.0
    vs[:] = ["q"] * n
    if form == "cov":
        env.eq("covariance", f.get_cov(), M)
        env.eq("mean", f.get_mean(), v)
        env.eq("log weight", f.get_log_weight(), w)
    else:
        env.eq("precision", f.get_prec(), M)
        env.eq("h", f.get_h(), v)
        env.eq("g", f.get_g(), w)
    env.true("names", list(f.var_names) == names)


def gauss_getters(env, form, names):
    """What the getters hand out is not tied to other factors."""
    f, q, _ = make(env, form, "p", names)
    c = f.copy()
    for get in (c.get_cov, c.get_mean, c.get_prec, c.get_h):
        get()[...] = 77.0
    same_quad(env, "original", f, q, order=list(names), evaluate=False)


def mixture_pure(env, op, names="ab", other=None, forms=("cov", "can")):
    M, q, _ = mix(env, "p", names, forms, diag=True)
    o = None
    if other in ("cov", "can"):
        o, qo, _ = make(env, other, "r", names, diag=True)
    elif other == "mix":
        o, qo, _ = mix(env, "r", names, ("cov", "can"), diag=True)
    n = len(names)
    x = [env.real(f"v{i}") for i in range(n)]
    ops = {
        "multiply": lambda: M.multiply(o), "divide": lambda: M.divide(o), "equals": lambda: M.equals(o),
        "copy": lambda: M.copy(), "normalize": lambda: M.normalize(), "marginalize": lambda: M.marginalize([names[-1]]),
        "sum out": lambda: M.marginalize([names[-1]], keep=False), "reduce": lambda: M.reduce([names[0]], x[:1]),
        "log weight": lambda: M.get_log_weight(), "potential": lambda: M.potential(x), "match": lambda: M.moment_match_to_single_gaussian(),
        "component": lambda: M.get_component(0).copy(), "vacuous": lambda: M.is_vacuous, "joint": lambda: M.joint_distribution,
    }
    parts = []
    if op == "constructor":
        parts = [c.copy() for c in M.components]
        N = env.mod(GM).GaussianMixture(parts)

        def check(label):
            for c, qc in zip(N.components, q):
                same_quad(env, label, c, qc, evaluate=False)
            env.true("number of components", len(N.components) == len(q) and list(N.var_names) == list(names))
        check("mixture")
        scribble(parts)
        check("mixture after changing its components' sources")
        return

    def check(label):
        for c, qc in zip(M.components, q):
            same_quad(env, label, c, qc, evaluate=False, order=list(names))
        env.true("number of components", len(M.components) == len(q))
        if other in ("cov", "can"):
            same_quad(env, label, o, qo, evaluate=False, order=list(names))
        elif other:
            for c, qc in zip(o.components, qo):
                same_quad(env, label, c, qc, evaluate=False)
            env.true("number of components", len(o.components) == len(qo))
    purity(env, ops[op], [], check)


FSC = ("ab", "bc", "d")


def factorised_pure(env, op, form="can", scopes=FSC, vrs="b", keep=True, other="b"):
    ps = [make(env, form, f"p{i}", s, diag=True) for i, s in enumerate(scopes)]
    F = env.mod("veroku.factors.experimental.factorised_factor").FactorizedFactor([p[0] for p in ps])
    o = make(env, "cov", "r", other, diag=True)
    vs = list(vrs)
    xs = [env.real(f"x_{v}") for v in vs]
    ops = {
        "constructor": lambda: F, "copy": lambda: F.copy(), "joint": lambda: F.joint_distribution, "multiply": lambda: F.multiply(o[0]),
        "divide": lambda: F.divide(o[0]), "reduce": lambda: F.reduce(vs, xs), "marginalize": lambda: F.marginalize(vs, keep=keep),
        "normalize": lambda: F.normalize(), "vacuous": lambda: F.is_vacuous, "equals": lambda: F.equals(F.copy()) and None,
        "distance": lambda: F.distance_from_vacuous(), "cov": lambda: F.get_cov() is None, "divide by part": lambda: F.divide(ps[1][0]),
        "diverge": lambda: F.kl_divergence(F.normalize()) and None,
    }

    def check(label):
        for (f, q, _), s in zip(ps + [o], list(scopes) + [other]):
            same_quad(env, label, f, q, evaluate=False, order=list(s))
        if op != "constructor":
            env.true("number of parts", len(F.factors) == len(ps))
            for f, (_, q, _) in zip(F.factors, ps):
                same_quad(env, f"{label}: part", f, q, evaluate=False)
        env.true("arguments", vs == list(vrs) and len(xs) == len(vs))
    purity(env, ops[op], [], check)


def nonlinear_pure(env, op, mixture=False):
    c = Cpd(env, "x", "y", offset=False)
    p = make(env, "cov", "p", "x")
    u = make(env, "can", "u", "y")
    r = c.f.multiply(p[0])
    ref = c.q.times(p[1])
    x = env.real("o")
    if mixture:
        r = env.mod(NL).NonLinearGaussianMixture([c.f], split_singles_before_absorb=False).multiply(p[0])
    ops = {
        "multiply": lambda: r.multiply(u[0]), "divide": lambda: r.divide(u[0]), "reduce": lambda: r.reduce(["y"], [x]),
        "reduce x": lambda: r.reduce(["x"], [x]), "marginalize": lambda: r.marginalize(["y"]), "copy": lambda: r.copy(),
        "times vacuous": lambda: r.multiply(make(env, "vac", "w", "x")[0]), "over vacuous": lambda: r.divide(make(env, "vac", "w", "y")[0]),
        "joint": lambda: r.joint_distribution, "first prior": lambda: c.f.multiply(p[0]), "normalize": lambda: r.normalize(),
    }

    def check(label):
        j = r.joint_distribution
        for g in (j.components if mixture else [j]):
            same_quad(env, f"{label}: joint", g.copy(), ref, evaluate=False)
        same_quad(env, f"{label}: prior", p[0], p[1], evaluate=False, order=["x"])
        same_quad(env, f"{label}: update", u[0], u[1], evaluate=False, order=["y"])
        # the conditional itself stays a conditional
        same_quad(env, f"{label}: conditional", c.f.multiply(p[0]).joint_distribution.copy(), ref, evaluate=False)
    if op == "constructor":
        xs, ys = ["x"], ["y"]
        N = env.spd("N2", 1)
        n2 = N.copy()
        a = env.real("A2")
        f = env.mod(NL).NonLinearGaussian(xs, ys, lambda v, names: a * v, n2)
        scribble([xs, ys])
        n2[...] = 77.0
        j = f.multiply(p[0]).joint_distribution
        same_quad(env, "after changing the arguments", j, cpd_ref(env, env.arr([[a]]), N, ["x"], ["y"]).times(p[1]), evaluate=False)
        return
    purity(env, ops[op], [], check)


def graph_pure(env, kind, what):
    """A graph keeps its own copies of factors and evidence, and hands out its own marginals."""
    scopes = ("ab", "bc", "b")
    if kind == "gauss":
        ps = [make(env, "can", f"p{i}", s, diag=True) for i, s in enumerate(scopes)]
        fs = [p[0] for p in ps]

        def check(label):
            for f, (_, q, _), s in zip(fs, ps, scopes):
                same_quad(env, label, f, q, evaluate=False, order=list(s))
    else:
        ts, fs = K.tables(env, scopes, kind)

        def check(label):
            for f, t in zip(fs, ts):
                same_function(env, label, f, t)
                ordered_as(env, label, f, t.names)
    val = env.real("v") if kind == "gauss" else 1
    kw = {} if what == "plain" else {what: {"a": val}}
    g = K.graph(env, fs, **kw)
    ev = kw.get(what)
    check("factors after construction")
    for path in list(g.graph_message_paths):
        path.pass_next_message()
    check("factors after messages")
    if ev:
        env.true("evidence unchanged", list(ev) == ["a"] and env.identical([(ev["a"], val)]))
    m1 = g.get_marginal(["c"])
    keep = m1.copy()
    scribble(m1)
    check("factors after a marginal was changed")
    scribble(fs)
    if ev:
        ev["a"] = 0
        ev["z"] = 1
    m2 = g.get_marginal(["c"])
    if kind == "gauss":
        env.eq("marginal again", [m2.get_prec()[0, 0], m2.get_h()[0, 0], m2.get_g()], [keep.get_prec()[0, 0], keep.get_h()[0, 0], keep.get_g()])
    else:
        env.eq("marginal again", [m2.potential(["c"], [i]) for i in (0, 1)], [keep.potential(["c"], [i]) for i in (0, 1)])


# ------------------------------------------------------------------------------------------------------------- X02
def D(env, names, cards=None, pre="p"):
    return dense(env, sym_table(env, pre, list(names), {**CARD, **(cards or {})}))


def SP(env, names, cards=None, pre="p", missing=()):
    return sparse(env, sym_table(env, pre, list(names), {**CARD, **(cards or {})}), missing)


def G(env, names, form="cov", pre="p"):
    return make(env, form, pre, list(names))[0]


def rejected_tables(env, case):
    C = env.mod(CAT).Categorical
    S = env.mod(SPA).SparseCategorical
    r = [env.log(env.real(f"t{i}", "+")) for i in range(6)]
    tab = {c: r[i] for i, c in enumerate(cells("ac", CARD))}
    arr = env.arr
    wrong = {"c": 3}
    cases = {
        "dense repeated names": lambda: C(var_names=["a", "a"], log_probs_tensor=arr(r[:4]).reshape(2, 2)),
        "dense repeated names, three variables": lambda: C(var_names=["a", "b", "a"], log_probs_tensor=arr(r[:4] + r[:4]).reshape(2, 2, 2)),
        "dense repeated names, table": lambda: C(var_names=["a", "a"], cardinalities=[2, 2], probs_table=tab),
        "dense too many axes": lambda: C(var_names=["a"], log_probs_tensor=arr(r[:4]).reshape(2, 2)),
        "dense too few axes": lambda: C(var_names=["a", "b"], log_probs_tensor=arr(r[:2])),
        "dense too few cardinalities": lambda: C(var_names=["a", "b"], cardinalities=[2], probs_table={(0,): r[0]}),
        "dense too many cardinalities": lambda: C(var_names=["a"], cardinalities=[2, 2], probs_table=tab),
        "dense short assignment": lambda: C(var_names=["a", "b"], cardinalities=[2, 2], probs_table={(0, 1): r[0], (0,): r[1]}),
        "dense long assignment": lambda: C(var_names=["a", "b"], cardinalities=[2, 2], probs_table={(0, 1, 0): r[1]}),
        "dense assignment out of range": lambda: C(var_names=["a", "b"], cardinalities=[2, 3], probs_table={(0, 1): r[0], (2, 1): r[1]}),
        "dense negative assignment": lambda: C(var_names=["a", "b"], cardinalities=[2, 3], probs_table={(0, -1): r[1]}),
        "dense no parameters": lambda: C(var_names=["a", "b"]),
        "dense no table": lambda: C(var_names=["a", "b"], cardinalities=[2, 2]),
        "dense table without cardinalities": lambda: C(var_names=["a", "c"], probs_table=tab),
        "sparse repeated names": lambda: S(var_names=["a", "a"], cardinalities=[2, 2], log_probs_table=tab),
        "sparse too few cardinalities": lambda: S(var_names=["a", "b"], cardinalities=[2], log_probs_table={(0,): r[0]}),
        "sparse too many cardinalities": lambda: S(var_names=["a"], cardinalities=[2, 2], log_probs_table={(0,): r[0]}),
        "sparse short assignment": lambda: S(var_names=["a", "b"], cardinalities=[2, 2], log_probs_table={(0, 1): r[0], (0,): r[1]}),
        "sparse long assignment": lambda: S(var_names=["a", "b"], cardinalities=[2, 2], probs_table={(0, 0, 1): r[0]}),
        "sparse assignment out of range": lambda: S(var_names=["a", "b"], cardinalities=[2, 3], log_probs_table={(1, 3): r[0]}),
        "sparse no table": lambda: S(var_names=["a", "b"], cardinalities=[2, 2]),
        "assignment names: wrong number of variables": lambda: C(var_names=["a", "c"], log_probs_tensor=arr(r[:4]).reshape(2, 2), variables_assignment_names=[["u", "v"]]),
        "assignment names: wrong number of names": lambda: C(var_names=["a", "c"], log_probs_tensor=arr(r[:4]).reshape(2, 2), variables_assignment_names=[["u", "v"], ["u", "v", "w"]]),
        "assignment names: repeated": lambda: C(var_names=["a", "c"], log_probs_tensor=arr(r[:4]).reshape(2, 2), variables_assignment_names=[["u", "v"], ["u", "u"]]),
        "assignment names: different": lambda: C(var_names=["a"], log_probs_tensor=arr(r[:2]), variables_assignment_names=[["u", "v"]]).multiply(
            C(var_names=["a"], log_probs_tensor=arr(r[2:4]), variables_assignment_names=[["u", "w"]])),
    }
    def named(names, pre, pool):
        return C(var_names=list(names), log_probs_tensor=arr(r[:2 ** len(names)]).reshape([2] * len(names)), variables_assignment_names=[pool[n] for n in names])
    n1 = named("ac", "n", {"a": ["u", "v"], "c": ["x", "y"]})
    for other, what in ((named("ca", "m", {"a": ["u", "v"], "c": ["x", "z"]}), "different"), (named("ca", "m", {"a": ["v", "u"], "c": ["x", "y"]}), "permuted"),
                        (C(var_names=["a", "c"], log_probs_tensor=arr(r[:4]).reshape(2, 2)), "missing")):
        for op in ("multiply", "divide", "cancel", "kl_divergence"):
            cases[f"assignment names: {what}, {op}"] = lambda op=op, o=other: getattr(n1, op)(o)
    for cls, mk in (("dense", D), ("sparse", SP)):
        f, g = mk(env, "ac", pre="f"), mk(env, "cd", wrong, pre="g")
        same = mk(env, "ca", wrong, pre="h")
        one = mk(env, "c", {"c": 1}, pre="k")
        cases.update({
            f"{cls} product, different cardinalities": lambda f=f, g=g: f.multiply(g),
            f"{cls} product operator, different cardinalities": lambda f=f, g=g: g * f,
            f"{cls} absorb, different cardinalities": lambda f=f, g=g: f.absorb(g),
            f"{cls} quotient, different cardinalities": lambda f=f, g=g: f.divide(g),
            f"{cls} quotient operator, different cardinalities": lambda f=f, g=same: f / g,
            f"{cls} cancel, different cardinalities": lambda f=f, g=g: f.cancel(g),
            f"{cls} divergence, different cardinalities": lambda f=f, g=same: f.kl_divergence(g),
            f"{cls} product, cardinality one": lambda f=f, g=one: f.multiply(g),
            f"{cls} product, cardinality one first": lambda f=f, g=one: g.multiply(f),
            f"{cls} quotient, cardinality one": lambda f=f, g=one: f.divide(g),
            f"{cls} cancel, cardinality one": lambda f=f, g=one: f.cancel(g),
            f"{cls} divergence, different scope": lambda f=f, m=mk: f.kl_divergence(m(env, "ad", pre="u")),
            f"{cls} divergence, smaller scope": lambda f=f, m=mk: f.kl_divergence(m(env, "a", pre="u")),
            f"{cls} divergence, larger scope": lambda f=f, m=mk: f.kl_divergence(m(env, "acd", pre="u")),
            f"{cls} value, missing variable": lambda f=f: f.potential(["a"], [0]),
            f"{cls} value, wrong variable": lambda f=f: f.potential(["a", "d"], [0, 0]),
            f"{cls} value, extra variable": lambda f=f: f.potential(["a", "c", "d"], [0, 0, 0]),
            f"{cls} observe, wrong variable": lambda f=f: f.reduce(["d"], [0]),
            f"{cls} observe, extra variable": lambda f=f: f.reduce(["a", "d"], [0, 0]),
            f"{cls} observe, missing value": lambda f=f: f.reduce(["a", "c"], [0]),
            f"{cls} marginal, wrong variable": lambda f=f: f.marginalize(["d"], keep=True),
            f"{cls} marginal, extra variable": lambda f=f: f.marginalize(["a", "d"], keep=True),
            f"{cls} reorder, wrong variable": lambda f=f: f.reorder(["a", "d"]),
            f"{cls} reorder, missing variable": lambda f=f: f.reorder(["c"]),
            f"{cls} reorder, extra variable": lambda f=f: f.reorder(["c", "a", "d"]),
            f"{cls} reorder, repeated variable": lambda f=f: f.reorder(["c", "a", "c"]),
            f"{cls} observe, extra value": lambda f=f: f.reduce(["a"], [0, 1]),
            f"{cls} observe, no value": lambda f=f: f.reduce(["c"], []),
            f"{cls} observe, repeated variable": lambda f=f: f.reduce(["a", "a"], [0, 1]),
            f"{cls} observe, repeated variable, all": lambda f=f: f.reduce(["a", "c", "a"], [0, 1, 1]),
            f"{cls} observe, out of range": lambda f=f: f.reduce(["a"], [2]),
            f"{cls} observe all, out of range": lambda f=f: f.reduce(["c", "a"], [1, 2]),
            f"{cls} value, too few": lambda f=f: f.potential(["a", "c"], [0]),
            f"{cls} value, too many": lambda f=f: f.potential(["c", "a"], [0, 1, 1]),
            f"{cls} value, repeated variable": lambda f=f: f.potential(["c", "a", "c"], [0, 1, 1]),
            f"{cls} value, out of range": lambda f=f: f.potential(["c", "a"], [2, 0]),
            f"{cls} value by names, repeated": lambda f=f: f.potential(["a", "a"], [0, 1]),
        })
    cases.update({
        "dense tensor and cardinalities": lambda: C(var_names=["a", "c"], cardinalities=[2, 3], log_probs_tensor=arr(r[:4]).reshape(2, 2)),
        "dense tensor and permuted cardinalities": lambda: C(var_names=["a", "b"], cardinalities=[3, 2], log_probs_tensor=arr(r).reshape(2, 3)),
        "dense tensor and more cardinalities": lambda: C(var_names=["a", "b"], cardinalities=[2, 3, 1], log_probs_tensor=arr(r).reshape(2, 3)),
        "dense equality, different cardinalities": lambda: D(env, "ac").equals(D(env, "ac", wrong, pre="q")),
    })
    types = {"dense": D(env, "ac", pre="d"), "sparse": SP(env, "ac", pre="s"), "gaussian": G(env, "ac", pre="g")}
    for a, b in itertools.permutations(types, 2):
        x, y = types[a], types[b]
        for what in ("multiply", "divide", "cancel", "kl_divergence"):
            cases[f"{a} {what} {b}"] = lambda x=x, y=y, what=what: getattr(x, what)(y)
    # equality of a table with a factor of another kind
    for a, b in (("dense", "sparse"), ("dense", "gaussian"), ("sparse", "dense"), ("sparse", "gaussian"), ("gaussian", "dense")):
        x, y = types[a], types[b]
        cases[f"{a} equals {b}"] = lambda x=x, y=y: x.equals(y)
    names = sorted(cases)
    for n in names[case::8]:
        env.raises(n, cases[n])


def rejected_gauss(env, case):
    GA = gauss_mod(env).Gaussian
    M3, M2 = env.spd("M", 3), env.spd("N", 2)
    v3, v2 = env.vec("v", 3), env.vec("u", 2)
    w = env.real("w")
    ab = ["a", "b"]
    R = env.mat("R", 2, 3)
    cases = {
        "repeated names": lambda: GA(cov=M2, mean=v2, log_weight=w, var_names=["a", "a"]),
        "repeated names, canonical": lambda: GA(prec=M3, h_vec=v3, g_val=w, var_names=["a", "b", "a"]),
        "covariance too large": lambda: GA(cov=M3, mean=v2, log_weight=w, var_names=ab),
        "covariance too small": lambda: GA(cov=M2, mean=v3, log_weight=w, var_names=["a", "b", "c"]),
        "covariance not square": lambda: GA(cov=R, mean=v2, log_weight=w, var_names=ab),
        "mean too long": lambda: GA(cov=M2, mean=v3, log_weight=w, var_names=ab),
        "mean too short": lambda: GA(cov=M3, mean=v2, log_weight=w, var_names=["a", "b", "c"]),
        "too few names": lambda: GA(cov=M2, mean=v2, log_weight=w, var_names=["a"]),
        "too many names": lambda: GA(cov=M2, mean=v2, log_weight=w, var_names=["a", "b", "c"]),
        "precision too large": lambda: GA(prec=M3, h_vec=v2, g_val=w, var_names=ab),
        "precision too small": lambda: GA(prec=M2, h_vec=v3, g_val=w, var_names=["a", "b", "c"]),
        "precision not square": lambda: GA(prec=R, h_vec=v2, g_val=w, var_names=ab),
        "h too long": lambda: GA(prec=M2, h_vec=v3, g_val=w, var_names=ab),
        "h too short": lambda: GA(prec=M3, h_vec=v2, g_val=w, var_names=["a", "b", "c"]),
        "too few names, canonical": lambda: GA(prec=M2, h_vec=v2, g_val=w, var_names=["a"]),
        "too many names, canonical": lambda: GA(prec=M2, h_vec=v2, g_val=w, var_names=["a", "b", "c"]),
        "mixed parameters": lambda: GA(prec=M2, mean=v2, g_val=w, var_names=ab),
        "no covariance": lambda: GA(mean=v2, log_weight=w, var_names=ab),
        "no mean": lambda: GA(cov=M2, log_weight=w, var_names=ab),
        "no weight": lambda: GA(cov=M2, mean=v2, var_names=ab),
        "no precision": lambda: GA(h_vec=v2, g_val=w, var_names=ab),
        "no h": lambda: GA(prec=M2, g_val=w, var_names=ab),
        "no g": lambda: GA(prec=M2, h_vec=v2, var_names=ab),
        "no names": lambda: GA(cov=M2, mean=v2, log_weight=w),
        "no parameters": lambda: GA(var_names=ab),
    }
    for form in ("cov", "can"):
        f = G(env, "ab", form, pre=form)
        x, y, z = (env.real(n) for n in "xyz")
        cases.update({
            f"{form} value, too short": lambda f=f: f.log_potential([x]),
            f"{form} value, too long": lambda f=f: f.log_potential([x, y, z]),
            f"{form} potential, too short": lambda f=f: f.potential([x]),
            f"{form} value, wrong variables": lambda f=f: f.log_potential([x, y], vrs=["a", "c"]),
            f"{form} value, missing variable": lambda f=f: f.log_potential([x], vrs=["a"]),
            f"{form} value, extra variable": lambda f=f: f.log_potential([x, y, z], vrs=["a", "b", "c"]),
            f"{form} value by names, too long": lambda f=f: f.log_potential([x, y, z], vrs=["b", "a"]),
            f"{form} observe, wrong variable": lambda f=f: f.reduce(["c"], [x]),
            f"{form} observe, extra variable": lambda f=f: f.reduce(["a", "c"], [x, y]),
            f"{form} observe, missing value": lambda f=f: f.reduce(["a", "b"], [x]),
            f"{form} observe, extra value": lambda f=f: f.reduce(["a"], [x, y]),
            f"{form} observe, repeated variable": lambda f=f: f.reduce(["a", "a"], [x, y]),
            f"{form} observe, repeated variable, all": lambda f=f: f.reduce(["a", "b", "a"], [x, y, z]),
            f"{form} marginal, wrong variable": lambda f=f: f.marginalize(["c"], keep=True),
            f"{form} marginal, extra variable": lambda f=f: f.marginalize(["a", "c"], keep=True),
            f"{form} divergence, different scope": lambda f=f: f.kl_divergence(G(env, "ac", "cov", "q")),
            f"{form} divergence, smaller scope": lambda f=f: f.kl_divergence(G(env, "a", "cov", "q")),
            f"{form} divergence, larger scope": lambda f=f: f.kl_divergence(G(env, "abc", "can", "q")),
        })
    names = sorted(cases)
    for n in names[case::4]:
        env.raises(n, cases[n])


def rejected_others(env, case):
    Mix = env.mod(GM).GaussianMixture
    N = env.mod(NL).NonLinearGaussian
    NM = env.mod(NL).NonLinearGaussianMixture
    FFm = env.mod("veroku.factors.experimental.factorised_factor").FactorizedFactor
    x, y, z = (env.real(n) for n in "xyz")
    ga, gb, gab, gba, gac = (G(env, s, "cov", "p" + s) for s in ("a", "b", "ab", "ba", "ac"))
    M = Mix([gab, G(env, "ab", "can", "q")])
    A = env.real("A")
    n1, n2 = env.spd("n1", 1), env.spd("n2", 2)
    nl = N(["a"], ["b"], lambda v, names: A * v, n1)
    ff = FFm([gab, G(env, "c", "can", "r")])
    ts, fs = K.tables(env, ["ab", "bc"])
    g = K.graph(env, fs)
    gg = K.graph(env, [gab, G(env, "bc", "cov", "s")])
    cases = {
        "mixture of different scopes": lambda: Mix([ga, gb]),
        "mixture of different orders": lambda: Mix([gab, gba]),
        "mixture of different sizes": lambda: Mix([gab, ga]),
        "empty mixture": lambda: Mix([]),
        "mixture times table": lambda: M * D(env, "a"),
        "mixture divided by table": lambda: M / D(env, "a"),
        "mixture value, wrong variables": lambda: M.log_potential([x, y], vrs=["a", "c"]),
        "mixture value, too short": lambda: M.log_potential([x]),
        "mixture value, too long": lambda: M.potential([x, y, z]),
        "mixture observe, wrong variable": lambda: M.reduce(["c"], [x]),
        "mixture observe, missing value": lambda: M.reduce(["a", "b"], [x]),
        "mixture observe, repeated variable": lambda: M.reduce(["a", "a"], [x, y]),
        "mixture observe, extra value": lambda: M.reduce(["a"], [x, y]),
        "nonlinear observe, wrong variable": lambda: nl.reduce(["c"], [x]),
        "nonlinear observe, extra variable": lambda: nl.multiply(ga).reduce(["a", "c"], [x, y]),
        "nonlinear observe, missing value": lambda: nl.reduce(["a", "b"], [x]),
        "nonlinear observe, extra value": lambda: nl.multiply(ga).reduce(["a"], [x, y]),
        "nonlinear observe, repeated variable": lambda: nl.reduce(["b", "b"], [x, y]),
        "nonlinear marginal, wrong variable": lambda: nl.multiply(ga).marginalize(["c"], keep=True),
        "nonlinear mixture observe, wrong variable": lambda: NM([nl]).reduce(["c"], [x]),
        "nonlinear mixture observe, missing value": lambda: NM([nl]).reduce(["a", "b"], [x]),
        "factorised observe, wrong variable": lambda: ff.reduce(["d"], [x]),
        "factorised observe, extra variable": lambda: ff.reduce(["a", "d"], [x, y]),
        "factorised observe, missing value": lambda: ff.reduce(["a", "c"], [x]),
        "factorised observe, missing value of an own part": lambda: ff.reduce(["c", "b"], [x]),
        "factorised observe, extra value": lambda: ff.reduce(["a"], [x, y]),
        "factorised observe, repeated variable": lambda: ff.reduce(["a", "a"], [x, y]),
        "factorised marginal, extra variable": lambda: ff.marginalize(["a", "q"], keep=True),
        "factorised marginal, extra variables": lambda: ff.marginalize(["c", "q", "b"]),
        "mixture marginal, wrong variable": lambda: M.marginalize(["c"], keep=True),
        "Gaussian compared with a mixture": lambda: gab.equals(M),
        "nonlinear, overlapping variables": lambda: N(["a"], ["a"], lambda v, names: v, n1),
        "nonlinear, overlapping variables of several": lambda: N(["a", "b"], ["c", "b"], lambda v, names: v, n2),
        "nonlinear, noise too large": lambda: N(["a"], ["b"], lambda v, names: v, n2),
        "nonlinear, noise too small": lambda: N(["a"], ["b", "c"], lambda v, names: v, n1),
        "nonlinear, repeated conditioning variable": lambda: N(["a", "a"], ["b"], lambda v, names: v, n1),
        "nonlinear, repeated conditional variable": lambda: N(["a"], ["b", "b"], lambda v, names: v, n2),
        "nonlinear times unknown scope": lambda: nl.multiply(G(env, "c", "cov", "u")),
        "nonlinear times mixed scope": lambda: nl.multiply(gac),
        "nonlinear times both scopes": lambda: nl.multiply(gab),
        "nonlinear times table": lambda: nl.multiply(D(env, "a")),
        "nonlinear divided by table": lambda: nl.divide(D(env, "a")),
        "nonlinear divided by unknown scope": lambda: nl.divide(G(env, "c", "cov", "u")),
        "nonlinear divided by both scopes": lambda: nl.multiply(ga).divide(gab),
        "nonlinear mixture, empty": lambda: NM([]),
        "nonlinear mixture of Gaussians": lambda: NM([gab]),
        "nonlinear mixture, different scopes": lambda: NM([nl, N(["a"], ["c"], lambda v, names: v, n1)]),
        "nonlinear mixture times table": lambda: NM([nl]).multiply(D(env, "a")),
        "factorised value, missing variable": lambda: ff.log_potential([x, y], vrs=["a", "b"]),
        "factorised marginal, wrong variable": lambda: ff.marginalize(["q"], keep=True),
        "graph marginal, no covering cluster": lambda: g.get_marginal(["a", "c"]),
        "graph marginal, unknown variable": lambda: g.get_marginal(["q"]),
        "graph marginal, unknown and known variable": lambda: g.get_marginal(["a", "q"]),
        "Gaussian graph marginal, no covering cluster": lambda: gg.get_marginal(["c", "a"]),
        "Gaussian graph marginal, unknown variable": lambda: gg.get_marginal(["q"]),
    }
    T = env.mod("veroku.factors._factor_template").FactorTemplate
    cases["template with conditioning names only"] = lambda: T(conditioning_var_templates=["a_{i}"])
    cases["template with conditional names only"] = lambda: T(conditional_var_templates=["a_{i}"])
    names = sorted(cases)
    for n in names[case::4]:
        env.raises(n, cases[n])


# ------------------------------------------------------------------------------------------------------------- X03
FORMATS = [({"i": 0, "t": 7}, ["a_{i}", "b{t}"]), ({"i": "left"}, ["{i}", "fixed"]), ({"i": 3}, ["x_{i}_{i}", "y_{i}"]),
           ({"i": 1, "unused": 2}, ["b_{i}", "a_{i}"])]


def formatted(fmt):
    d, t = FORMATS[fmt]
    return dict(d), list(t), [x.format(**d) for x in t]


def check_formattable(env, T, fmt):
    d, t, _ = formatted(fmt)
    env.true("formattable", T.formattable(dict(d)))
    d.pop("i")
    env.true("not formattable without i", not T.formattable(d))


def table_template(env, kind, fmt=0, given=False, missing=(), cd=(2, 3)):
    d, tmpl, names = formatted(fmt)
    if given:
        names = ["u", "v"]
    kw = dict(var_names=list(names)) if given else dict(format_dict=d)
    cards = dict(zip(names, cd))
    p = {c: env.real("p%d%d" % c, "0+") for c in cells(names, cards)}
    for i, c in enumerate(sorted(p)):
        if i in missing:
            p[c] = env.const(0)
    t = Table(names, cards, p)
    have = {c: v for i, (c, v) in enumerate(sorted(p.items())) if i not in missing}
    given_tab = dict(have)
    shape, cd = tuple(cd), list(cd)
    if kind == "sparse":
        T = env.mod(SPA).SparseCategoricalTemplate(probs_table=given_tab, cardinalities=cd, var_templates=tmpl)
    elif kind == "dense table":
        T = env.mod(CAT).CategoricalTemplate(var_templates=tmpl, cardinalities=cd, probs_table=given_tab)
    else:
        arr = env.arr([env.log(p[c]) for c in sorted(p)]).reshape(*shape)
        T = env.mod(CAT).CategoricalTemplate(var_templates=tmpl, log_probs_tensor=arr)
    if not given:
        check_formattable(env, T, fmt)
    f = T.make_factor(**kw)
    same_function(env, "made", f, t)
    ordered_as(env, "made", f, names)
    scribble(f)
    f2 = T.make_factor(**kw)
    same_function(env, "made again", f2, t)
    ordered_as(env, "made again", f2, names)
    other = {k: "z" for k in d}
    if fmt == 0 and not given:
        f3 = T.make_factor(format_dict=other)
        same_function(env, "made with other names", f3, Table(["a_z", "bz"], dict(zip(["a_z", "bz"], shape)), p))
        same_function(env, "product of two instances", f2.multiply(f3), t.times(Table(["a_z", "bz"], dict(zip(["a_z", "bz"], shape)), p)))
    env.true("arguments unchanged", sorted(given_tab) == sorted(have) and env.identical([(given_tab[c], have[c]) for c in have]) and cd == list(shape)
             and tmpl == FORMATS[fmt][1] and (given or d == FORMATS[fmt][0]))
    env.true("class", type(f).__name__ == ("SparseCategorical" if kind == "sparse" else "Categorical"))


def gauss_template(env, form, fmt=0, given=False):
    d, tmpl, names = formatted(fmt)
    if given:
        names = ["u", "v"]
    kw = dict(var_names=list(names)) if given else dict(format_dict=d)
    M = env.spd("K", 2) if form == "proper" else env.arr(np.zeros((2, 2)))
    h = env.vec("h", 2) if form == "proper" else env.arr(np.zeros((2, 1)))
    g = env.real("g")
    q = Quad(env, names, rows(M), col(h), g)
    par = {"prec": M.copy(), "h": h.copy(), "g": g}
    T = gauss_mod(env).GaussianTemplate(par, tmpl)
    if not given:
        check_formattable(env, T, fmt)
    f = T.make_factor(**kw)
    same_quad(env, "made", f, q, order=names, evaluate=form == "proper")
    env.true("vacuous", bool(f.is_vacuous) == (form == "zero"))
    scribble(f)
    f2 = T.make_factor(**kw)
    same_quad(env, "made again", f2, q, order=names, evaluate=False)
    if form == "proper":
        m = q.moments()
        env.eq("covariance", f2.get_cov(), m.cov)
        env.eq("mean", f2.get_mean(), [[v] for v in m.mean])
    env.eq("parameters unchanged", [par["prec"][i, j] for i in (0, 1) for j in (0, 1)] + col(par["h"]) + [par["g"]],
           [M[i, j] for i in (0, 1) for j in (0, 1)] + col(h) + [g])
    if fmt == 0 and not given:
        f3 = T.make_factor(format_dict={k: "z" for k in d})
        same_quad(env, "made with other names", f3, Quad(env, ["a_z", "bz"], q.K, q.h, q.g), evaluate=False, order=["a_z", "bz"])


def wide_template(env, kind, cards=(3, 1, 2)):
    """Three and four variables, whose names are in no particular order; two parameters of the names."""
    tmpl, d = ["m{k}_{i}", "b", "k{i}", "a{k}"], {"k": 4, "i": "z"}
    kw = dict(format_dict=d)
    if kind == "gauss":
        names = [t.format(**d) for t in tmpl]
        _, q, _ = make(env, "can", "p", names, diag="wide")
        T = gauss_mod(env).GaussianTemplate({"prec": env.arr(q.K), "h": env.arr([[x] for x in q.h]), "g": q.g}, tmpl)
        for i in range(2):
            f = T.make_factor(**kw)
            same_quad(env, f"made {i}", f, q, order=names)
            scribble(f)
        return
    tmpl = tmpl[:3]
    names = [t.format(**d) for t in tmpl]
    t = sym_table(env, "p", names, dict(zip(names, cards)), sign="0+")
    if kind == "sparse":
        T = env.mod(SPA).SparseCategoricalTemplate(probs_table=dict(t.p), cardinalities=list(cards), var_templates=tmpl)
    elif kind == "dense table":
        T = env.mod(CAT).CategoricalTemplate(var_templates=tmpl, cardinalities=list(cards), probs_table=dict(t.p))
    else:
        T = env.mod(CAT).CategoricalTemplate(var_templates=tmpl, log_probs_tensor=env.arr([env.log(t.p[c]) for c in sorted(t.p)]).reshape(*cards))
    for i in range(2):
        f = T.make_factor(**kw)
        same_function(env, f"made {i}", f, t)
        ordered_as(env, f"made {i}", f, names)
        scribble(f)


def linear_template(env, nx, ny, diag=False):
    A = env.mat("A", ny, nx)
    N = env.spd("N", ny, diag=diag)
    xt, yt = ["x{k}_{t}".replace("{k}", str(i)) for i in range(nx)], ["y%d_{t}" % i for i in range(ny)]
    a, n, xs, ys = A.copy(), N.copy(), list(xt), list(yt)
    T = gauss_mod(env).make_linear_gaussian_cpd_template(a, n, xs, ys)
    for t in (1, 2):
        f = T.make_factor(format_dict={"t": t})
        vx, vy = [x.format(t=t) for x in xt], [y.format(t=t) for y in yt]
        same_quad(env, f"factor {t}", f, cpd_ref(env, A, N, vx, vy), order=vx + vy, evaluate=False)
        p, q, _ = make(env, "cov", f"p{t}", vx, diag=True)
        same_quad(env, f"joint {t}", f.multiply(p), cpd_ref(env, A, N, vx, vy).times(q), evaluate=False)
        scribble(f)
    env.true("formattable", T.formattable({"t": 1}) and not T.formattable({"s": 1}))
    env.true("arguments unchanged", xs == xt and ys == yt)
    env.eq("matrices unchanged", rows(a) + rows(n), rows(A) + rows(N)) if nx == ny else None


def nonlinear_template(env, fmt, given=False):
    d, tmpl, names = formatted(fmt)
    A, b = env.real("A"), env.real("b")
    N = env.spd("N", 1)
    n = N.copy()
    T = env.mod(NL).NonLinearGaussianTemplate(tmpl[:1], tmpl[1:], lambda v, vs: A * v + b, n)
    if not given:
        check_formattable(env, T, fmt)
        kw = dict(format_dict=d)
    else:
        names = ["u", "v"]
        kw = dict(conditioning_vars=["u"], conditional_vars=["v"])
    base = cpd_ref(env, env.arr([[A]]), N, names[:1], names[1:])
    k = 1 / N[0, 0]
    q = Quad(env, names, base.K, [-A * k * b, k * b], base.g - b * b * k * 0.5)
    p, qp, _ = make(env, "cov", "p", names[:1])
    for i in range(2):
        f = T.make_factor(**kw)
        env.true("conditioning and conditional variables", list(f.conditioning_vars) == names[:1] and list(f.conditional_vars) == names[1:])
        same_quad(env, f"joint {i}", f.multiply(p).joint_distribution, q.times(qp), evaluate=False)
        scribble(f)
    env.eq("noise unchanged", n, N)


NLFORMATS = [({"a": 2, "b": 1}, ["x{a}", "w{b}"], ["y{b}"]), ({"a": 5, "b": 3}, ["x{b}"], ["y{a}"]), ({"b": 2, "a": "k"}, ["x{a}{b}", "w{a}"], ["y{b}{a}"]),
             ({"k": 4, "j": 2}, ["x"], ["y{k}_{j}"])]


def nonlinear_template_names(env, fmt):
    """Several names with several values."""
    d, xt, yt = NLFORMATS[fmt]
    xs, ys = [t.format(**d) for t in xt], [t.format(**d) for t in yt]
    A = env.mat("A", 1, len(xs))
    N = env.spd("N", 1)
    seen = []

    def transform(v, names):
        seen.append(list(names))
        at = [list(names).index(x) for x in xs]
        return sum(A[0, i] * v[k:k + 1, :] for i, k in enumerate(at))
    c, r = list(xt), list(yt)
    T = env.mod(NL).NonLinearGaussianTemplate(c, r, transform, N.copy())
    env.true("formattable", T.formattable(dict(d)))
    for k in d:
        env.true(f"not formattable without {k}", T.formattable({i: x for i, x in d.items() if i != k}) == (not any("{%s}" % k in t for t in xt + yt)))
    p, qp, _ = make(env, "cov", "p", xs, diag=True)
    for i in range(2):
        f = T.make_factor(format_dict=dict(d))
        env.true("conditioning and conditional variables", list(f.conditioning_vars) == xs and list(f.conditional_vars) == ys and list(f.var_names) == xs + ys)
        same_quad(env, f"joint {i}", f.multiply(p).joint_distribution, cpd_ref(env, A, N, xs, ys).times(qp), evaluate=False)
        scribble(f)
    env.true("templates unchanged", c == xt and r == yt)
    env.true("the transform is given the conditioning variables", all(sorted(s) == sorted(xs) for s in seen))


def template_needs_names(env):
    p = {c: env.real("p%d%d" % c, "+") for c in cells("ab", CARD)}
    T = env.mod(SPA).SparseCategoricalTemplate(probs_table=p, cardinalities=[2, 3])
    env.raises("sparse template without names", lambda: T.make_factor(), ValueError)
    same_function(env, "with names", T.make_factor(var_names=["a", "b"]), Table(["a", "b"], CARD, p))
    for kind in (0, 1):
        if kind:
            T = env.mod(CAT).CategoricalTemplate(var_templates=["a{i}", "b{j}"], cardinalities=[2, 3], probs_table=p)
        else:
            T = env.mod(SPA).SparseCategoricalTemplate(probs_table=p, cardinalities=[2, 3], var_templates=["a{i}", "b{j}"])
        env.raises("missing value", lambda: T.make_factor(format_dict={"i": 1}))
        env.raises("names given twice", lambda: T.make_factor(format_dict={"i": 1, "j": 2}, var_names=["a", "b"]))
        env.raises("equal names", lambda: env.mod(SPA).SparseCategoricalTemplate(probs_table=p, cardinalities=[2, 3], var_templates=["a{i}", "a{j}"]).make_factor(format_dict={"i": 1, "j": 1}))


# ------------------------------------------------------------------------------------------------------------- X04
class Source:
    """Stands in for numpy's random source: independent standard normal draws and component choices are inputs."""

    def __init__(self, env, picks=()):
        self.env = env
        self.z = []
        self.picks = []
        self.plan = list(picks)
        env.stub_random("normal", self.normal)
        env.stub_random("standard_normal", lambda size=None: self.normal(0.0, 1.0, size))
        env.stub_random("randn", lambda *shape: self.normal(0.0, 1.0, shape or None))
        env.stub_random("multivariate_normal", self.multivariate)
        env.stub_random("choice", self.choice)

    def draw(self):
        v = self.env.real(f"z{len(self.z)}")
        self.z.append(v)
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self.draw()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
        n = 1
        for s in size:
            n *= s
        return loc + scale * self.env.arr([self.draw() for _ in range(n)]).reshape(*size)

    def multivariate(self, mean, cov, size=None):
        L = self.env.np.linalg.cholesky(cov)
        n = 1 if size is None else int(size)
        d = len(L)
        out = L @ self.env.arr([[self.draw() for _ in range(n)] for _ in range(d)])
        res = self.env.arr([[out[i, j] + mean[i] for i in range(d)] for j in range(n)])
        return res[0] if size is None else res

    def choice(self, a, size=None, replace=True, p=None):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        n = 1 if size is None else int(size)
        ps = [1.0 / len(opts)] * len(opts) if p is None else [p[i] for i in range(len(opts))]
        got = []
        for _ in range(n):
            k = self.env.choice(f"pick{len(self.picks)}", len(opts))
            self.picks.append((k, ps, len(opts)))
            got.append(opts[k])
        return got[0] if size is None else np.array(got)


def quad_of(m, x):
    """(x - mean)' K (x - mean)"""
    env = m.env
    Kinv = env.inv(m.cov)
    d = [x[i] - m.mean[i] for i in range(len(x))]
    return add_all([d[i] * Kinv[i][j] * d[j] for i in range(len(d)) for j in range(len(d))])


def check_samples(env, src, s, moms, n):
    """
    The draws are an affine image x = b + A z of independent standard normal draws z.  Their joint density is that of n
    independent draws from the given normal distributions exactly when the sum of the Mahalanobis distances is z'z.
    """
    dim = len(moms[0].names)
    env.true("one column per draw, one row per variable", tuple(s.shape) == (dim, n))
    if tuple(s.shape) != (dim, n):
        return
    env.true("as many normal draws as entries", len(src.z) == dim * n)
    env.eq("distances", add_all([quad_of(m, [s[i, j] for i in range(dim)]) for j, m in enumerate(moms)]), add_all([z * z for z in src.z]))


def sample_gauss(env, names, form, n):
    f, q, m = make(env, form, "p", names)
    src = Source(env)
    s = f.sample(n)
    check_samples(env, src, s, [(m or q.moments())] * n, n)
    same_quad(env, "operand", f, q, order=list(names), evaluate=False)


def sample_mixture(env, names, forms, n):
    M, qs, ms = mix(env, "p", names, forms, diag=len(names) > 1)
    src = Source(env)
    s = M.sample(n)
    env.true("one component per draw", len(src.picks) == n)
    ws = [env.exp(m.lw) for m in ms]
    tot = add_all(ws)
    for k, ps, kk in src.picks:
        env.true("choice among all components", kk == len(forms))
        env.eq("probabilities", ps, [w / tot for w in ws])
    check_samples(env, src, s, [ms[k] for k, _, _ in src.picks], n)


def sample_nonlinear(env, n):
    c = Cpd(env, "x", "y", offset=True)
    f, q, m = make(env, "cov", "p", "x")
    r = c.f.multiply(f)
    src = Source(env)
    s = r.sample(n)
    names = list(r.joint_distribution.var_names)
    check_samples(env, src, s, [c.q.times(q).over(names).moments()] * n, n)


def sample_nonlinear_mixture(env, count, n):
    """Draws from a nonlinear Gaussian mixture: one component, chosen by its weight in the joint, for every draw."""
    c = Cpd(env, "x", "y", offset=True)
    parts = [make(env, "cov", f"p{i}", "x") for i in range(count)]
    mixture = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([f for f, _, _ in parts])
    r = env.mod(NL).NonLinearGaussianMixture([c.f], split_singles_before_absorb=False).multiply(mixture)
    names = list(r.joint_distribution.var_names)
    want = [c.q.times(q).over(names).moments() for _, q, _ in parts]
    src = Source(env)
    s = r.sample(n)
    env.true("one component per draw", len(src.picks) == n)
    ws = [env.exp(m.lw) for _, _, m in parts]
    for k, ps, kk in src.picks:
        env.true("choice among all components", kk == count)
        env.eq("probabilities", ps, [w / add_all(ws) for w in ws])
    check_samples(env, src, s, [want[k] for k, _, _ in src.picks], n)


def sample_nonlinear_history(env, ops):
    """Samples come from the joint as it is now, whatever was read or drawn before."""
    c = Cpd(env, "x", "y", offset=True)
    f, q, m = make(env, "cov", "p", "x")
    r, ref, vals = c.f.multiply(f), c.q.times(q), {}
    reads = {"mean": "get_mean", "covariance": "get_cov", "g": "get_g", "weight": "get_log_weight"}
    for i, op in enumerate(ops):
        if op in reads:
            getattr(r, reads[op])()
        elif op == "sample":
            src = Source(env)
            r.sample(1)
        elif op == "prior":
            g, qg, _ = make(env, "cov", f"q{i}", "x")
            r, ref = r.multiply(g), ref.times(qg)
        elif op == "update":
            g, qg, _ = make(env, "can", f"q{i}", "y")
            r, ref = r.multiply(g), ref.times(qg)
        elif op == "divide":
            g, qg, _ = make(env, "can", f"q{i}", "y")
            r, ref = r.multiply(g).divide(g), ref
        elif op == "observe":
            vals["x"] = env.real(f"o{i}")
            r = r.reduce(["x"], [vals["x"]])
        elif op == "copy":
            r = r.copy()
        elif op == "weight+":
            r.add_log_weight(env.real(f"w{i}"))
    src = Source(env)
    s = r.sample(1)
    names = list(r.joint_distribution.var_names)
    check_samples(env, src, s, [ref.slice(vals).over(names).moments()], 1)


def th(t, q, more):
    return q + (more if t == "thorough" else [])


def ops_cfgs():
    out = []
    for cls, miss in (("dense", []), ("sparse", [0, 3])):
        for op, l, r in (("multiply", "ab", "bc"), ("*", "ab", "ba"), ("absorb", "ac", "c"), ("divide", "ab", "ab"), ("divide", "ac", "ca"), ("/", "ab", "b"),
                         ("cancel", "ac", "ac"), ("cancel", "ab", "ba"), ("kl", "ac", "ca"), ("kl raw", "ac", "ac"), ("equals", "ac", "ca"), ("equals", "ac", "ac")):
            if cls == "sparse" and op.startswith("kl"):
                out.append(dict(cls=cls, op=op, left=l, right=r))
                continue
            m = miss if l == r and op != "/" else []
            out.append(dict(cls=cls, op=op, left=l, right=r, missing=[] if op in ("divide", "/", "kl", "kl raw") else m))
        for op in ("normalize", "copy", "joint", "vacuous", "distance", "array", "names") + (("argmax", "argmax names") if cls == "dense" else ("weight", "argmax")):
            out.append(dict(cls=cls, op=op, left="a" if op in ("vacuous", "distance") else "ac", named=cls == "dense"))
        for op, v in (("marginalize", "b"), ("marginalize", "ca"), ("sum out", "b"), ("sum out", "ab"), ("reorder", "cab"), ("reorder", "abc")):
            out.append(dict(cls=cls, op=op, left="abc", vrs=list(v), named=cls == "dense"))
        for op, v, x in (("reduce", "b", [2]), ("observe", "ca", [1, 0]), ("potential", "bca", [1, 0, 1]), ("reduce", "", []), ("reduce", "abc", [0, 1, 1])):
            out.append(dict(cls=cls, op=op, left="abc", vrs=list(v), values=x, missing=[] if cls == "dense" else [1, 5]))
    return out


def gauss_cfgs(t):
    out = []
    for form in ("cov", "can", "both", "canboth"):
        for op, l, r in (("multiply", "ab", "bc"), ("*", "ab", "ba"), ("absorb", "ab", "ab"), ("divide", "ab", "ba"), ("/", "ab", "b"), ("cancel", "ab", "ab"),
                         ("kl", "ab", "ba"), ("kl raw", "a", "a"), ("equals", "ab", "ba")):
            out.append(dict(op=op, form=form, left=l, right=r, rform="can" if form == "cov" and op in ("*", "divide") else None))
        for op in ("normalize", "copy", "joint", "vacuous", "distance", "weight", "cov", "prec", "log weight", "names"):
            out.append(dict(op=op, form=form, left="ba"))
        out.append(dict(op="split", form=form, left="a"))
        for op, v in (("marginalize", "b"), ("marginalize", "cb"), ("sum out", "ac"), ("marginalize", "bca")):
            out.append(dict(op=op, form=form, left="abc", vrs=list(v)))
        for op, v in (("reduce", "b"), ("observe", "ca"), ("log potential", "cab")):
            out.append(dict(op=op, form=form, left="abc", vrs=list(v), values=len(v)))
        out.append(dict(op="potential", form=form, left="ab", values=2))
    for op, l, r in (("multiply", "ab", "bc"), ("divide", "ab", "b")):
        out.append(dict(op=op, form="vac", left=l, right=r, rform="can"))
        out.append(dict(op=op, form="any", left=l, right=r, rform="any"))
    return out


PROPS = {
    "X01": [
        Scenario("tables", tables_pure, ops_cfgs(), bounds="tables of up to 12 cells, every operation once"),
        Scenario("table arguments", tables_constructor, [dict(cls="dense", how="tensor"), dict(cls="dense", how="probs"), dict(cls="sparse", how="probs"), dict(cls="sparse", how="log")],
                 bounds="two variables, six cells"),
        Scenario("Gaussians", gauss_pure, gauss_cfgs, bounds="up to three variables, uncorrelated where three", limit=60),
        Scenario("Gaussian arguments", gauss_constructor, product(form=("cov", "can"), names=("a", "ba")), bounds="two variables"),
        Scenario("Gaussian getters", gauss_getters, product(form=("cov", "can", "both"), names=("a", "ba")), bounds="two variables"),
        Scenario("mixtures", mixture_pure, [dict(op=o, other=k) for o, k in (("multiply", "cov"), ("multiply", "mix"), ("divide", "can"), ("equals", "mix"))] +
                 [dict(op=o) for o in ("copy", "normalize", "marginalize", "sum out", "reduce", "log weight", "potential", "component", "vacuous", "joint", "constructor")] +
                 [dict(op=o, forms=[f]) for o in ("copy", "normalize", "marginalize", "sum out", "reduce", "match", "joint", "log weight") for f in ("cov", "can")] +
                 [dict(op=o, other=k, forms=[f]) for o, k in (("multiply", "mix"), ("divide", "can"), ("equals", "mix")) for f in ("cov", "can")] +
                 [dict(op="match", names="a")], bounds="one and two components, two variables", limit=60),
        Scenario("factorised", factorised_pure, [dict(op=o) for o in ("constructor", "copy", "joint", "multiply", "divide", "normalize", "vacuous", "distance", "cov", "divide by part", "equals")] +
                 [dict(op="reduce", vrs=v, scopes=s) for s in (FSC, ("d", "ab", "bc"), ("bc", "a")) for v in ("b", "d", "da", "ab", "bca", "c") if set(v) <= set("".join(s))] +
                 [dict(op="marginalize", vrs=v, keep=k, scopes=s) for s in (FSC, ("d", "ab", "bc")) for v, k in (("bd", True), ("b", False), ("d", True), ("d", False), ("abd", True))] +
                 [dict(op=o, form=f, other=x) for o in ("multiply", "divide") for f in ("cov", "both") for x in ("b", "cb", "d")] +
                 [dict(op=o, form=f) for o in ("normalize", "copy", "joint", "reduce", "marginalize") for f in ("cov", "both")] +
                 [dict(op="diverge", form=f, scopes=("a", "b"), other="a") for f in ("can", "cov")], bounds="three parts over four variables", limit=60),
        Scenario("nonlinear", nonlinear_pure, [dict(op=o) for o in ("multiply", "divide", "reduce", "reduce x", "marginalize", "copy", "joint", "first prior", "normalize", "constructor", "times vacuous", "over vacuous")] +
                 [dict(op=o, mixture=True) for o in ("multiply", "divide", "reduce", "marginalize", "copy", "joint")], bounds="one conditioning and conditional variable", limit=60),
        Scenario("graphs", graph_pure, product(kind=("dense", "sparse", "gauss"), what=("plain", "evidence", "special_evidence")), bounds="three factors over three variables"),
    ],
    "X02": [
        Scenario("tables", rejected_tables, [dict(case=i) for i in range(8)], bounds="the listed inconsistencies; all values"),
        Scenario("Gaussians", rejected_gauss, [dict(case=i) for i in range(4)], bounds="the listed inconsistencies; all parameters"),
        Scenario("mixtures, nonlinear and factorised factors, graphs, templates", rejected_others, [dict(case=i) for i in range(4)], bounds="the listed inconsistencies; all parameters"),
    ],
    "X03": [
        Scenario("tables", table_template, [dict(kind=k, fmt=i, missing=m) for k in ("dense table", "dense tensor", "sparse") for i in range(4)
                                            for m in ([], [0, 4]) if not (m and i) and not (m and k == "dense tensor")] +
                 [dict(kind=k, given=True) for k in ("dense table", "dense tensor", "sparse")] +
                 [dict(kind=k, fmt=i, cd=c) for k in ("dense table", "dense tensor", "sparse") for i, c in ((0, (3, 2)), (3, (3, 1)))], bounds="up to six cells, given name patterns"),
        Scenario("more variables", wide_template, lambda t: [dict(kind="gauss")] + [dict(kind=k, cards=c) for k in ("dense table", "dense tensor", "sparse") for c in ((3, 1, 2), (2, 3, 2))], bounds="three (Gaussian: four) variables, up to twelve cells"),
        Scenario("Gaussians", gauss_template, [dict(form=f, fmt=i) for f in ("proper", "zero") for i in range(4)] + [dict(form="proper", given=True)], bounds="two variables, given name patterns"),
        Scenario("linear Gaussians", linear_template, lambda t: th(t, [dict(nx=1, ny=1), dict(nx=2, ny=1), dict(nx=1, ny=2)], [dict(nx=2, ny=2, diag=True)]), bounds="up to three variables (thorough four)", limit=120),
        Scenario("nonlinear Gaussians", nonlinear_template, [dict(fmt=i) for i in range(4)] + [dict(fmt=0, given=True)], bounds="one conditioning and conditional variable, given name patterns"),
        Scenario("nonlinear Gaussians, several names", nonlinear_template_names, [dict(fmt=i) for i in range(len(NLFORMATS))], bounds="up to two conditioning variables, given name patterns, affine transform", limit=120),
        Scenario("names", template_needs_names, [dict()], bounds="six cells"),
    ],
    "X04": [
        Scenario("Gaussians", sample_gauss, lambda t: [dict(names=s, form=f, n=n) for s in ("a", "ba") for f in ("cov", "can", "both") for n in (1, 2)] +
                 th(t, [], [dict(names="bac", form="cov", n=1), dict(names="ba", form="cov", n=4)]), bounds="up to two variables (three thorough), two draws", limit=120),
        Scenario("mixtures", sample_mixture, lambda t: [dict(names="a", forms=["cov", "can"], n=2), dict(names="a", forms=["cov"] * 3, n=1), dict(names="a", forms=["cov"] * 2, n=3), dict(names="ba", forms=["cov", "cov"], n=2)] +
                 th(t, [], [dict(names="a", forms=["cov"] * 3, n=3), dict(names="ba", forms=["can", "cov", "can"], n=2)]),
                 bounds="up to three components, three draws, every choice of components", limit=120),
        Scenario("nonlinear", sample_nonlinear, [dict(n=1), dict(n=2)], bounds="one conditioning and conditional variable", limit=120),
        Scenario("nonlinear mixture", sample_nonlinear_mixture, [dict(count=1, n=2), dict(count=2, n=1), dict(count=2, n=2), dict(count=3, n=1)], bounds="up to three components and two draws", limit=120),
        Scenario("nonlinear history", sample_nonlinear_history, [dict(ops=list(o)) for o in (("mean", "prior"), ("sample", "prior"), ("covariance", "update"), ("g", "observe"), ("sample", "update"),
                                                                                             ("weight", "copy", "observe"), ("prior", "mean", "divide"), ("sample", "weight+"))],
                 bounds="one conditioning and conditional variable, given histories", limit=120),
    ],
}
