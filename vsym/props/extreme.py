"""Log values far outside the range of a double (X05)."""
from . import Scenario, product
from .mixture import Found
from ._gauss import Mom, Quad, col, gauss_mod, rows
from ._tables import CARD, Table, add_all, cells, names_for

SCALE = 1000


def log_cells(env, pre, names, zeros=(), fine=1, shared=True):
    """cell -> log value: a shared offset of the order of 1000 plus a part per cell (`fine` = its scale)."""
    base = env.real(pre) * SCALE if shared else 0
    out = {}
    for i, t in enumerate(cells(names, CARD)):
        out[t] = None if i in zeros else base + env.real(pre + "".join(map(str, t))) * fine
    return out


def table(env, kind, pre, names, zeros=(), fine=1, shared=True, ls=None):
    """(reference table, factor); cells in `zeros` are zero (left out of the sparse table)."""
    out = ls
    ls = log_cells(env, pre, names, zeros, fine, shared)
    if out is not None:
        out.update(ls)
    T = Table(names, CARD, {t: env.const(0) if l is None else env.huge(l) for t, l in ls.items()})
    if kind == "dense":
        C = env.mod("veroku.factors.categorical").Categorical
        arr = env.arr([float("-inf") if l is None else l for l in ls.values()]).reshape([CARD[n] for n in names])
        return T, C(var_names=list(names), log_probs_tensor=arr, cardinalities=None)
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    return T, Sp(var_names=list(names), log_probs_table={t: l for t, l in ls.items() if l is not None},
                 cardinalities=[CARD[n] for n in names])


def proportional(env, label, f, T):
    """The normalised factor is T divided by its total, as a whole and within every value of the first variable."""
    def claim(lab, g, t):
        n = env.ranged(lab, g.normalize)
        z = t.total()
        vs = list(n.var_names)
        env.true(f"{lab}: scope", sorted(vs) == sorted(t.names))
        asg = t.assignments()
        env.eq(f"{lab}: normalised", [n.potential(vs, [a[v] for v in vs]) for a in asg], [t.at(a) / z for a in asg])
    claim(label, f, T)
    if len(T.names) > 1:
        v = T.names[0]
        for x in range(T.cards[v]):
            s = T.slice({v: x})
            if all(is_zero(env, p) for p in s.p.values()):
                continue
            claim(f"{label} at {v}={x}", env.ranged(label, lambda: f.reduce([v], [x])), s)


def is_zero(env, p):
    return env.is_true(p == 0)


def combine(env, kind, op, left, right, zeros=(), zr=(), fine=1):
    A, fa = table(env, kind, "p", left, zeros, fine)
    B, fb = table(env, kind, "q", right, zr, fine)
    r = env.ranged(op, lambda: getattr(fa, op)(fb))
    if op in ("multiply", "absorb"):
        proportional(env, "product", r, A.times(B))
        back = env.ranged("undo", lambda: r.cancel(fb))
        proportional(env, "restored", back, A.combine(B, lambda a, b: env.const(0) if is_zero(env, b) else a))
    else:
        def q(a, b):
            return env.const(0) if is_zero(env, b) else a / b
        proportional(env, "quotient", r, A.combine(B, q))


def alone(env, kind, names, zeros=(), fine=1):
    A, fa = table(env, kind, "p", names, zeros, fine)
    proportional(env, "as given", fa, A)
    for v in names:
        out = [n for n in names if n != v]
        proportional(env, f"marginal {v}", env.ranged("marginalize", lambda: fa.marginalize([v])), A.sum_to([v]))
        if len(names) > 2:
            proportional(env, f"without {v}", env.ranged("marginalize", lambda: fa.marginalize([v], keep=False)), A.sum_to(out))
    proportional(env, "reordered", env.ranged("reorder", lambda: fa.reorder(list(reversed(names)))), A)
    proportional(env, "copy", fa.copy(), A)


def chain(env, kind, n):
    """The marginal of a product of many small factors."""
    T, f = table(env, kind, "p0", "a")
    for i in range(1, n):
        B, fb = table(env, kind, f"p{i}", "a" if i % 2 else "ax")
        T, f = T.times(B), env.ranged("product", lambda: f.multiply(fb))
    proportional(env, "product", f, T)
    proportional(env, "marginal", env.ranged("marginal", lambda: f.marginalize(["a"])), T.sum_to(["a"]))


def ratio(env, T):
    z = T.total()
    return {t: v / z for t, v in T.p.items()}, z


def plain(env, x):
    return x if env.symbolic else float(x)


def diverge(env, kind, names, order, zeros=(), fine=1):
    A, fa = table(env, kind, "p", names, zeros, fine)
    B, fb = table(env, kind, "q", order, (), fine)
    B2 = {t: B.at(dict(zip(names, t))) for t in A.p}
    zp, zq = A.total(), add_all(list(B2.values()))
    want = env.const(0)
    uni = env.const(0)
    k = len(A.p)
    for t, p in A.p.items():
        if is_zero(env, p):
            continue
        w = plain(env, p / zp)
        want = want + w * (env.log(p) - env.log(zp) - env.log(B2[t]) + env.log(zq))
        uni = uni + w * (env.log(p) - env.log(zp) + env.log(env.const(k)))
    if env.symbolic:  # Gibbs' inequality (C06 decides it for all tables)
        env.assume(want >= 0)
        env.assume(uni >= 0)
    env.eq("divergence", env.ranged("divergence", lambda: fa.kl_divergence(fb)), want)
    env.eq("distance from vacuous", env.ranged("distance", fa.distance_from_vacuous), uni)


def maximal(env, kind, names, zeros=(), fine=1000):
    ls = {}
    A, fa = table(env, kind, "p", names, zeros, fine, ls=ls)
    got = env.ranged("argmax", fa.argmax)
    asg = dict(zip(fa.var_names, [int(x) for x in got]))
    best = ls[tuple(asg[n] for n in names)]
    env.true("possible", best is not None)
    if best is not None:
        env.true("maximal", env.both(*[best >= v for v in ls.values() if v is not None]))


# ------------------------------------------------------------------------------------------------------- Gaussians
def gauss(env, pre, names, form, off=0, fine=SCALE, diag=False):
    """(factor, Quad, Mom): the log weight (or the constant) is of the order of 1000."""
    names = list(names)
    n = len(names)
    G = gauss_mod(env).Gaussian
    if form in ("cov", "both"):
        C, m, lw = env.spd(pre + "C", n, diag=diag), env.vec(pre + "m", n), off + env.real(pre + "w") * fine
        f = G(cov=C.copy(), mean=m.copy(), log_weight=lw, var_names=list(names))
        if form == "both":
            f.get_prec()
        M = Mom(env, names, rows(C), col(m), lw)
        return f, M.quad(), M
    K, h, g = env.spd(pre + "K", n, diag=diag), env.vec(pre + "h", n), off + env.real(pre + "g") * fine
    f = G(prec=K.copy(), h_vec=h.copy(), g_val=g, var_names=list(names))
    if form == "canboth":
        f.get_cov()
    Q = Quad(env, names, rows(K), col(h), g)
    return f, Q, Q.moments()


def logs(env, label, f, q, pre="x"):
    pt = {n: env.real(f"{pre}_{n}") for n in sorted(q.names)}
    env.eq(f"{label}: log value", env.ranged(label, lambda: f.log_potential([pt[v] for v in f.var_names])), q.at(pt))
    m = q.moments()
    env.eq(f"{label}: log weight", env.ranged(label, f.get_log_weight), m.lw)
    n = env.ranged(label, f.normalize)
    env.eq(f"{label}: normalised", n.log_potential([pt[v] for v in n.var_names]), q.scaled(-m.lw).at(pt))


def gaussian(env, left, right, fl, fr):
    fa, qa, _ = gauss(env, "p", left, fl)
    fb, qb, _ = gauss(env, "q", right, fr)
    logs(env, "given", fa, qa)
    r = env.ranged("multiply", lambda: fa.multiply(fb))
    logs(env, "product", r, qa.times(qb))
    d = env.ranged("divide", lambda: r.divide(fb))
    if set(right) <= set(left):
        logs(env, "restored", d, qa)
    v = sorted(set(left) | set(right))[0]
    both = qa.times(qb)
    rest = [n for n in both.names if n != v]
    if rest:
        logs(env, "marginal", env.ranged("marginalize", lambda: r.marginalize([v], keep=False)), both.integrate([v]))
        x = env.real("o")
        logs(env, "observed", env.ranged("reduce", lambda: r.reduce([v], [x])), both.slice({v: x}))


def gauss_kl(env, form, other):
    fa, qa, _ = gauss(env, "p", "a", form)
    fb, qb, _ = gauss(env, "q", "a", other)
    ma, mb = qa.moments(), qb.moments()
    va, vb, d = ma.cov[0][0], mb.cov[0][0], ma.mean[0] - mb.mean[0]
    want = (va / vb + d * d / vb - 1 + env.log(vb / va)) * 0.5
    env.eq("divergence", fa.kl_divergence(fb), want)


# -------------------------------------------------------------------------------------------------------- mixtures
def mixture(env, names, forms):
    base = env.real("w") * SCALE
    parts = [gauss(env, f"p{i}", names, fm, base, 1, diag=True) for i, fm in enumerate(forms)]
    M = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([p[0] for p in parts])
    qs, ms = [p[1] for p in parts], [p[2] for p in parts]
    ws = [env.huge(m.lw) for m in ms]
    tot = add_all(ws)
    pt = {n: env.real(f"x_{n}") for n in names}

    def value(label, m, quads, scale=None):
        t = add_all([env.huge(q.at(pt)) for q in quads])
        env.eq(f"{label}: log value", env.ranged(label, lambda: m.log_potential([pt[v] for v in m.var_names])),
               env.log(t if scale is None else t / scale))
    value("mixture", M, qs)
    env.eq("log weight", env.ranged("log weight", M.get_log_weight), env.log(tot))
    value("normalised", env.ranged("normalize", M.normalize), qs, tot)
    o, qo, _ = gauss(env, "o", names, "can", diag=True)
    value("product", env.ranged("multiply", lambda: M.multiply(o)), [q.times(qo) for q in qs])
    value("quotient", env.ranged("divide", lambda: M.divide(o)), [q.div(qo) for q in qs])


def matched(env, names, forms):
    base = env.real("w") * SCALE
    parts = [gauss(env, f"p{i}", names, fm, base, 1, diag=True) for i, fm in enumerate(forms)]
    M = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([p[0] for p in parts])
    ms = [p[2] for p in parts]
    ws = [env.huge(m.lw) for m in ms]
    tot = add_all(ws)
    ps = [plain(env, w / tot) for w in ws]
    n = len(names)
    mean = [add_all([p * m.mean[i] for p, m in zip(ps, ms)]) for i in range(n)]
    cov = [[add_all([p * (m.cov[i][j] + (m.mean[i] - mean[i]) * (m.mean[j] - mean[j])) for p, m in zip(ps, ms)])
            for j in range(n)] for i in range(n)]
    g = env.ranged("moment match", M.moment_match_to_single_gaussian)
    env.eq("mean", g.get_mean(), [[x] for x in mean])
    env.eq("covariance", g.get_cov(), cov)
    env.eq("log weight", env.ranged("log weight", g.get_log_weight), env.log(tot))


def drawn(env, forms):
    base = env.real("w") * SCALE
    parts = [gauss(env, f"p{i}", "a", fm, base, 1) for i, fm in enumerate(forms)]
    M = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([p[0] for p in parts])
    from .cross import Source
    src = Source(env)
    env.ranged("sample", lambda: M.sample(1))
    ws = [env.huge(p[2].lw) for p in parts]
    tot = add_all(ws)
    env.true("one choice", len(src.picks) == 1)
    for _, ps, _ in src.picks:
        env.eq("probabilities", ps, [plain(env, w / tot) for w in ws])


def mode(env, forms):
    base = env.real("w") * SCALE
    parts = [gauss(env, f"p{i}", "a", fm, base, 1) for i, fm in enumerate(forms)]
    M = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([p[0] for p in parts])
    runs = []

    def optimiser(fun, x0):
        runs.append(env.arr([env.real(f"x{len(runs)}")]))
        return Found(fun, runs[-1], True)
    env.stub_optimiser(optimiser)
    r = env.ranged("argmax", M.argmax)[0]
    at = lambda x: add_all([env.huge(p[1].at({"a": x})) for p in parts])
    env.true("an outcome", env.any(*[env.same(r, x[0]) for x in runs]))
    near = env.const(0 if env.symbolic else 1e-6)
    for x in runs:
        env.true("no run found more", at(r) * env.huge(near) >= at(x[0]))


TABLES = [dict(kind=k, left=l, right=r, zeros=z, zr=zr, fine=f) for k in ("dense", "sparse") for l, r, z, zr, f in (
    ("a", "a", (), (), 1), ("ac", "ca", (), (), 1000), ("ac", "a", (1,), (), 1), ("a", "ac", (), (2,), 1), ("ac", "cd", (0,), (), 500), ("a", "c", (), (), 1))]

PROPS = {"X05": [
    Scenario("products", combine, lambda t: [dict(op="multiply", **c) for c in TABLES if t == "thorough" or c["kind"] == "dense" or c["left"] != "ac" or c["fine"] == 1],
             bounds="log values = 1000 x + c y for arbitrary reals x (per table) and y (per cell), c in {1, 500, 1000}, up to two variables per table, listed zero cells"),
    Scenario("quotients", combine, lambda t: [dict(op=op, **c) for c in TABLES for op in ("divide", "cancel")
                                              if (set(c["right"]) <= set(c["left"])) and not c["zr"] and (op == "cancel" or c["kind"] == "dense")],
             bounds="as for products"),
    Scenario("one table", alone, lambda t: [dict(kind=k, names=n, zeros=z, fine=f) for k in ("dense", "sparse") for n, z, f in
                                            (("a", (), 1), ("ac", (), 1), ("ac", (1,), 1000), ("ca", (0,), 500)) + ((("ac", (0, 3), 1), ("acd", (2,), 1), ("b", (), 1)) if t == "thorough" else ())],
             bounds="as for products; every marginal, slices at every value of the first variable"),
    Scenario("many factors", chain, lambda t: [dict(kind=k, n=n) for k in ("dense", "sparse") for n in ((3,) if t == "quick" else (3, 4))],
             bounds="three (four) factors over one or two binary variables"),
    Scenario("divergence", diverge, lambda t: [dict(kind=k, names=n, order=o, zeros=z, fine=f) for k in ("dense", "sparse") for n, o, z, f in
                                               (("a", "a", (), 1), ("a", "a", (), 1000), ("a", "a", (0,), 1), ("ac", "ca", (), 1)) if k == "dense" or z],
             bounds="up to four cells (sparse: one stored cell)"),
    Scenario("argmax", maximal, lambda t: [dict(kind=k, names=n, zeros=z) for k in ("dense", "sparse") for n, z in (("a", ()), ("ac", (1,)))],
             bounds="up to four cells"),
    Scenario("Gaussians", gaussian, lambda t: [dict(left=l, right=r, fl=a, fr=b) for l, r in (("a", "a"), ("ab", "b"), ("a", "b")) for a, b in
                                               (("cov", "can"), ("can", "cov"), ("both", "canboth"))],
             bounds="log weights and constants 1000 x for arbitrary real x, up to two variables"),
    Scenario("Gaussian divergence", gauss_kl, lambda t: product(form=["cov", "can"], other=["cov", "can"]), bounds="one variable"),
    Scenario("mixtures", mixture, lambda t: [dict(names="a", forms=f) for f in (("cov", "cov"), ("can", "cov"), ("both", "can", "cov"))] + ([dict(names="ab", forms=("cov", "can"))] if t == "thorough" else []),
             bounds="two or three components"),
    Scenario("moment match", matched, lambda t: [dict(names="a", forms=f) for f in (("cov", "cov"), ("cov", "can"))] + [dict(names="ab", forms=("cov", "cov"))],
             bounds="two components, up to two variables"),
    Scenario("mode", mode, lambda t: [dict(forms=f) for f in (("cov", "cov"), ("can", "cov"))], bounds="two components, any outcomes of the local optimiser"),
    Scenario("sampling", drawn, lambda t: [dict(forms=f) for f in (("cov", "cov"), ("can", "cov"))], bounds="two components, one draw"),
]}
