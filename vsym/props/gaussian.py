"""Gaussian factors (G01-G09)."""
import itertools

from . import Scenario, marg, product
from ._gauss import (DERIVED, Mom, Quad, any_quad, can_gauss, col, cov_gauss, gauss_mod, make, point, rows, same_mom, same_quad)
from ._tables import add_all
from ._origins import magnified, smalls


# ------------------------------------------------------------------------------------------------------------- G01
def convert(env, form, names, free=False):
    """Every parameter of either form, and the value at any point, belong to one function."""
    f, q, m = make(env, form, "p", names, free)
    names = list(names)
    m = m or q.moments()
    pt = point(env, names)
    env.eq("value before conversion", f.log_potential([pt[v] for v in q.names]), q.at(pt))
    same_quad(env, "canonical", f, q, order=q.names)
    same_mom(env, "covariance", f, m, order=q.names)
    env.eq("weight", f.get_weight(), env.exp(m.lw))
    env.eq("value after conversion", f.log_potential([pt[v] for v in q.names]), q.at(pt))
    env.eq("value", f.potential([pt[v] for v in q.names]), env.exp(q.at(pt)))


READS = {
    "K": lambda env, f, q, m, pt: env.eq("precision", f.get_prec(), q.K),
    "h": lambda env, f, q, m, pt: env.eq("h", f.get_h(), [[x] for x in q.h]),
    "g": lambda env, f, q, m, pt: env.eq("g", f.get_g(), q.g),
    "C": lambda env, f, q, m, pt: env.eq("covariance", f.get_cov(), m.cov),
    "m": lambda env, f, q, m, pt: env.eq("mean", f.get_mean(), [[x] for x in m.mean]),
    "w": lambda env, f, q, m, pt: env.eq("log weight", f.get_log_weight(), m.lw),
    "x": lambda env, f, q, m, pt: env.eq("value", f.log_potential([pt[v] for v in reversed(q.names)],
                                                                  vrs=list(reversed(q.names))), q.at(pt)),
}


def reads(env, form, names, n, diag=False):
    """Any sequence of reads gives consistent parameters."""
    f, q, m = make(env, form, "p", names, diag=diag)
    m = m or q.moments()
    pt = point(env, list(names))
    for i in range(n):
        k = env.pick(f"read{i}", list(READS))
        READS[k](env, f, q, m, pt)


def scribble(env, form, names):
    """What the getters hand out can be changed without changing the factor."""
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    for get in (f.get_cov, f.get_mean, f.get_prec, f.get_h):
        a = get()
        a[0, 0] = a[0, 0] + 7.0
    same_quad(env, "canonical", f, q)
    same_mom(env, "covariance", f, m)


def scalars(env, kind):
    """Numbers, lists and arrays are accepted for the parameters alike."""
    G = gauss_mod(env).Gaussian
    if kind == "cov-scalar":
        c, m, w = env.real("c", "+"), env.real("m"), env.logw("w")
        f = G(cov=c, mean=m, log_weight=w, var_names=["a"])
        same_quad(env, "scalar", f, Mom(env, ["a"], [[c]], [m], w).quad())
    elif kind == "can-scalar":
        k, h, g = env.real("k", "+"), env.real("h"), env.real("g")
        f = G(prec=k, h_vec=h, g_val=g, var_names=["a"])
        same_quad(env, "scalar", f, Quad(env, ["a"], [[k]], [h], g))
    elif kind == "cov-list":
        C, m, w = rows(env.spd("C", 2)), env.reals("m", 2), env.logw("w")
        f = G(cov=[list(r) for r in C], mean=list(m), log_weight=w, var_names=["a", "b"])
        same_quad(env, "list", f, Mom(env, ["a", "b"], C, m, w).quad())
    elif kind == "can-list":
        K, h, g = rows(env.spd("K", 2)), env.reals("h", 2), env.real("g")
        f = G(prec=[list(r) for r in K], h_vec=[[x] for x in h], g_val=[g], var_names=["b", "a"])
        same_quad(env, "list", f, Quad(env, ["b", "a"], K, h, g))
    elif kind == "row-mean":
        C, m, w = env.spd("C", 2), env.reals("m", 2), env.logw("w")
        f = G(cov=C.copy(), mean=env.arr([m]), log_weight=w, var_names=["a", "b"])
        same_quad(env, "row", f, Mom(env, ["a", "b"], rows(C), m, w).quad())
    elif kind == "standard":
        f = gauss_mod(env).make_std_gaussian(["b", "a"])
        one, zero = env.const(1.0), env.const(0.0)
        same_quad(env, "standard", f, Mom(env, ["b", "a"], [[one, zero], [zero, one]], [zero, zero], zero).quad())
    elif kind == "random":
        lo = iter("abcdefgh")

        def uniform(a, b, size):
            return env.mat(next(lo), *size, sign="+" if a > 0 else None)
        env.stub_random("uniform", uniform)
        f = gauss_mod(env).make_random_gaussian(["x", "y"], [-2, 2], [1, 3])
        C, m = f.get_cov(), f.get_mean()
        env.eq("off-diagonal", [C[0, 1], C[1, 0]], [0.0, 0.0])
        env.true("proper", env.both(C[0, 0] > 0, C[1, 1] > 0))
        same_quad(env, "random", f, Mom(env, ["x", "y"], rows(C), col(m), env.const(0.0)).quad())


# ------------------------------------------------------------------------------------------------------------- G02
def multiply(env, left, right, fl="any", fr="any", via="multiply"):
    fa, qa, _ = make(env, fl, "p", left)
    fb, qb, _ = make(env, fr, "q", right)
    op = (lambda a, b: a * b) if via == "mul" else (lambda a, b: getattr(a, via)(b))
    same_quad(env, "product", op(fa, fb), qa.times(qb))
    same_quad(env, "commuted", op(fb, fa), qa.times(qb))
    same_quad(env, "left operand", fa, qa, evaluate=False, order=qa.names)
    same_quad(env, "right operand", fb, qb, evaluate=False, order=qb.names)


def divide(env, left, right, fl="any", fr="any", via="divide"):
    fa, qa, _ = make(env, fl, "p", left)
    fb, qb, _ = make(env, fr, "q", right)
    r = fa / fb if via == "div" else getattr(fa, via)(fb)
    same_quad(env, "quotient", r, qa.div(qb))
    same_quad(env, "left operand", fa, qa, evaluate=False, order=qa.names)
    same_quad(env, "right operand", fb, qb, evaluate=False, order=qb.names)


def triple(env, scopes, forms=("any", "any", "any")):
    F = [make(env, fm, "pqr"[i], s) for i, (s, fm) in enumerate(zip(scopes, forms))]
    (a, qa, _), (b, qb, _), (c, qc, _) = F
    ref = qa.times(qb).times(qc)
    same_quad(env, "left", a.multiply(b).multiply(c), ref)
    same_quad(env, "right", a.multiply(b.multiply(c)), ref)
    same_quad(env, "with quotient", a.multiply(b).divide(c), qa.times(qb).div(qc))


def undo(env, left, right, fl="cov", fr="cov"):
    fa, qa, _ = make(env, fl, "p", left)
    fb, qb, _ = make(env, fr, "q", right)
    same_quad(env, "undone", fa.multiply(fb).divide(fb), qa.over(qa.names + [n for n in qb.names if n not in qa.names]))


def itself(env, names, form):
    """A factor as both operands."""
    f, q, _ = make(env, form, "p", names)
    same_quad(env, "square", f.multiply(f), q.times(q))
    r = f.divide(f)
    same_quad(env, "one", r, q.div(q))
    env.true("one is vacuous", r.is_vacuous)
    same_quad(env, "cube", f * f * f, q.times(q).times(q), evaluate=False)
    same_quad(env, "restored", f.multiply(f).divide(f), q, evaluate=False)
    env.true("equal to itself", f.equals(f) and f == f and not f != f)
    same_quad(env, "operand", f, q, evaluate=False, order=q.names)


def slight_gauss(env, op, near="", form="can"):
    """Below the tolerance of a comparison there still is a difference: nothing is taken for vacuous, equal or normalised."""
    env.tol()
    G = gauss_mod(env).Gaussian
    K, h, g = env.real("K", "+"), env.real("h"), env.real("g")
    env.assume(env.both(K >= 1, K <= 3))
    for v in (h, g):
        env.assume(env.both(v <= 1, v >= -1))
    if op == "normalise":
        d = smalls(env, 1)[0]
        f = G(cov=env.arr([[K]]), mean=[h], log_weight=d, var_names=["a"]) if form == "cov" else \
            G(prec=env.arr([[K]]), h_vec=[h], g_val=d - h * h / K / 2 - (env.log(env.const(2.0) * env.pi()) - env.log(K)) / 2, var_names=["a"])
        if near == "mixture":
            f = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([f])
        magnified(env, "log weight", f.get_log_weight(), d)
        magnified(env, "normalised", f.normalize().get_log_weight(), 0.0)
        return
    d = smalls(env, 3, apart=False)
    q = [v + w for v, w in zip((K, h, g), d)] if near == "same" else d
    f = G(prec=env.arr([[K]]), h_vec=[h], g_val=g, var_names=["a"])
    o = G(prec=env.arr([[q[0]]]), h_vec=[q[1]], g_val=q[2], var_names=["a"])
    for label, r, (x, y) in (("", getattr(f, op)(o), ((K, h, g), q)), (" the other way", getattr(o, op)(f), (q, (K, h, g)))):
        want = [a + b if op == "multiply" else a - b for a, b in zip(x, y)]
        magnified(env, "precision" + label, r.get_prec()[0][0], want[0])
        magnified(env, "h" + label, r.get_h()[0][0], want[1])
        magnified(env, "g" + label, r.get_g(), want[2])


# ------------------------------------------------------------------------------------------------------------- G03
def marginal(env, form, names, vrs, keep=True, free=False):
    f, q, m = make(env, form, "p", names, free)
    m = m or q.moments()
    kept = list(vrs) if keep else [n for n in names if n not in vrs]
    r = marg(f, vrs, keep)
    same_mom(env, "marginal", r, m.over(kept))
    same_quad(env, "marginal as function", r, m.over(kept).quad(), evaluate=False)
    if len(vrs) == 1:
        same_quad(env, "marginal of one variable", marg(f, vrs, keep, bare=True), m.over(kept).quad(), evaluate=False)
    same_quad(env, "operand", f, q, evaluate=False, order=q.names)


def marginal_everything(env, form, names, how):
    """Integrating out all variables leaves the total weight, which still multiplies."""
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    o, qo, _ = make(env, "can", "q", "z")
    if how == "out":
        r = f.marginalize(list(names), keep=False)
    elif how == "steps":
        r = f
        for v in names:
            r = r.marginalize([v], keep=False)
    else:
        r = f.marginalize([])
    env.true("no variables", list(r.var_names) == [])
    env.eq("weight", r.get_log_weight(), m.lw)
    p = o.multiply(r)
    env.true("scope", list(p.var_names) == ["z"])
    env.eq("product: precision", p.get_prec(), qo.K)
    env.eq("product: h", p.get_h(), [[x] for x in qo.h])
    env.eq("product: g", p.get_g(), qo.g + m.lw)


def marginal_steps(env, form, names, first, then):
    """Summing out in steps is summing out at once."""
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    r = f.marginalize(list(first), keep=False).marginalize(list(then), keep=False)
    kept = [n for n in names if n not in first and n not in then]
    same_mom(env, "in steps", r, m.over(kept))


def marginal_product(env, left, right, out):
    """Summing a variable out of a product whose other operand does not have it."""
    fa, qa, ma = make(env, "can", "p", left)
    fb, qb, mb = make(env, "can", "q", right)
    r = fa.multiply(fb).marginalize(list(out), keep=False)
    s = fa.marginalize(list(out), keep=False).multiply(fb)
    kept = [n for n in dict.fromkeys(left + right) if n not in out]
    env.true("scope", sorted(r.var_names) == sorted(kept) == sorted(s.var_names))
    ks = list(s.var_names)
    ix = [r.var_names.index(v) for v in ks]
    K, h = r.get_prec(), r.get_h()
    env.eq("precision", [[K[i, j] for j in ix] for i in ix], s.get_prec())
    env.eq("h", [[h[i, 0]] for i in ix], s.get_h())
    env.eq("g", r.get_g(), s.get_g())


# ------------------------------------------------------------------------------------------------------------- G04
def reduce(env, form, names, obs, as_array=False):
    f, q, _ = make(env, form, "p", names)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    given = [vals[v] for v in obs]
    r = f.reduce(list(obs), env.arr([[x] for x in given]) if as_array else given)
    same_quad(env, "observed", r, q.slice(vals))
    same_quad(env, "operand", f, q, evaluate=False, order=q.names)


def reduce_steps(env, form, names, first, then):
    f, q, _ = make(env, form, "p", names)
    vals = {v: env.real(f"o_{v}") for v in sorted(first + then)}
    r = f.reduce(list(first), [vals[v] for v in first]).reduce(list(then), [vals[v] for v in then])
    same_quad(env, "in steps", r, q.slice(vals))


def reduce_product(env, left, right, obs):
    """Observation commutes with products."""
    fa, qa, _ = make(env, "any", "p", left)
    fb, qb, _ = make(env, "any", "q", right)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    r = fa.multiply(fb).reduce(list(obs), [vals[v] for v in obs])
    same_quad(env, "product then observe", r, qa.times(qb).slice(vals))


def reduce_marginal(env, form, names, obs, out):
    """Conditioning and marginalising other variables commute."""
    f, q, _ = make(env, form, "p", names)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    g = [vals[v] for v in obs]
    r = f.reduce(list(obs), g).marginalize(list(out), keep=False)
    s = f.marginalize(list(out), keep=False).reduce(list(obs), g)
    env.true("scope", sorted(r.var_names) == sorted(s.var_names))
    ks = list(s.var_names)
    ix = [r.var_names.index(v) for v in ks]
    K, h = r.get_prec(), r.get_h()
    env.eq("precision", [[K[i, j] for j in ix] for i in ix], s.get_prec())
    env.eq("h", [[h[i, 0]] for i in ix], s.get_h())
    env.eq("g", r.get_g(), s.get_g())


# ------------------------------------------------------------------------------------------------------------- G05
def normalise(env, form, names, free=False):
    f, q, m = make(env, form, "p", names, free)
    m = m or q.moments()
    env.eq("log weight", f.get_log_weight(), m.lw)
    env.eq("weight", f.get_weight(), env.exp(m.lw))
    r = f.normalize()
    unit = Mom(env, m.names, m.cov, m.mean, env.const(0.0))
    same_mom(env, "normalised", r, unit)
    same_quad(env, "normalised as function", r, unit.quad())
    same_mom(env, "operand", f, m)
    same_quad(env, "operand", f, q, evaluate=False)
    same_mom(env, "twice", r.normalize(), unit)


OPS = ("add", "readcov", "readcan", "copy", "normalize", "multiply", "divide")
LIGHT = ("add", "readcov", "readcan", "copy", "normalize", "compare", "diverge", "evaluate")


def history(env, form, names, n, ops=OPS):
    """Weights stay right through any sequence of updates, reads, copies and products."""
    f, q, m = make(env, form, "p", names, diag=True)
    m = m or q.moments()
    fb, qb, mb = make(env, "cov", "q", names, diag=True)
    if {"compare", "diverge"} & set(ops):
        fc = make(env, "both", "r", list(reversed(names)), diag=True)[0]
    if {"expand", "observe"} & set(ops):
        fw, qw, _ = make(env, "can", "s", ["w"] + list(names[:1]), diag=False)
    lw = m.lw
    for i in range(n):
        k = env.pick(f"op{i}", list(ops))
        if k == "add":
            c = env.real(f"c{i}")
            f._add_log_weight(c)
            q = q.scaled(c)
            lw = lw + c
        elif k == "readcov":
            env.eq("log weight", f.get_log_weight(), lw)
        elif k == "readcan":
            env.eq("g", f.get_g(), q.g)
        elif k == "copy":
            f = f.copy()
        elif k == "normalize":
            f = f.normalize()
            q = q.scaled(-lw)
            lw = env.const(0.0)
        elif k == "multiply":
            f = f.multiply(fb)
            q = q.times(qb)
            lw = q.moments().lw
        elif k == "divide":
            # only products may be divided back (the result has to stay proper)
            f = f.multiply(fb).multiply(fb).divide(fb)
            q = q.times(qb)
            lw = q.moments().lw
        elif k == "compare":
            # the divisor is listed in another order
            fc.equals(f)
            f.equals(fc)
        elif k == "diverge":
            f.kl_divergence(fc)
            fc.kl_divergence(f)
        elif k == "evaluate":
            pt = point(env, names, "e")
            env.eq("value", f.log_potential([pt[v] for v in names]), q.at(pt))
        elif k == "expand":
            f = f.multiply(fw).marginalize([n for n in names])
            q = q.times(qw).integrate(["w"]).over(list(names))
            lw = q.moments().lw
        elif k == "observe":
            o = env.real(f"o{i}")
            f = f.multiply(fw).reduce(["w"], [o])
            q = q.times(qw).slice({"w": o})
            lw = q.moments().lw
    same_quad(env, "final", f, q)
    env.eq("final log weight", f.get_log_weight(), lw)
    m = q.moments()
    env.eq("final mean", f.get_mean(), [[x] for x in m.over(list(f.var_names)).mean])
    env.eq("final covariance", f.get_cov(), m.over(list(f.var_names)).cov)


def independent(env, form, names, change):
    """A copy and its original do not influence each other."""
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    c = f.copy()
    first, second = (f, c) if change == "original" else (c, f)
    d = env.real("d")
    first._add_log_weight(d)
    for nm in ("cov", "mean", "prec", "h_vec"):
        a = getattr(first, nm)
        if a is not None:
            a[0, 0] = a[0, 0] + 1.0
    first._var_names[0] = "renamed"
    same_quad(env, "other", second, q, order=q.names)
    same_mom(env, "other", second, m)


# ------------------------------------------------------------------------------------------------------------- G06
def kl_ref(env, mp, mq):
    """KL(p || q) of the normalised densities."""
    n = len(mp.names)
    mq = mq.over(mp.names)
    Kq = env.inv(mq.cov)
    t = env.log(env.det(mq.cov)) - env.log(env.det(mp.cov)) - float(n)
    for i in range(n):
        for j in range(n):
            t = t + Kq[i][j] * mp.cov[j][i]
            t = t + (mp.mean[i] - mq.mean[i]) * Kq[i][j] * (mp.mean[j] - mq.mean[j])
    return t * 0.5


def kl_value(env, names, other, fl="cov", fr="cov", diag=False, shared=None, raw=False):
    fa, qa, ma = make(env, fl, "p", names, diag=diag)
    if shared == "cov":
        mb = Mom(env, list(other), ma.over(list(other)).cov, env.reals("qm", len(other)), env.logw("qw"))
        fb = gauss_mod(env).Gaussian(cov=env.arr(mb.cov), mean=env.arr([[x] for x in mb.mean]), log_weight=mb.lw,
                                     var_names=list(other))
        qb = mb.quad()
    elif shared == "mean":
        mb = Mom(env, list(other), rows(env.spd("qC", len(other), diag=diag)), ma.over(list(other)).mean,
                 env.logw("qw"))
        fb = gauss_mod(env).Gaussian(cov=env.arr(mb.cov), mean=env.arr([[x] for x in mb.mean]), log_weight=mb.lw,
                                     var_names=list(other))
        qb = mb.quad()
    else:
        fb, qb, mb = make(env, fr, "q", other, diag=diag)
    ma = ma or qa.moments()
    mb = mb or qb.moments()
    d = fa.kl_divergence(fb, normalize_factor=False) if raw else fa.kl_divergence(fb)
    env.eq("divergence", d, env.abs(kl_ref(env, ma, mb)))
    same_quad(env, "operand", fa, qa, evaluate=False, order=qa.names)
    same_quad(env, "other operand", fb, qb, evaluate=False, order=qb.names)


def kl_sign(env, fl="cov", fr="cov", equal_var=False):
    """Never negative, zero only for equal normalised factors (one dimension)."""
    fa, qa, ma = make(env, fl, "p", "a")
    if equal_var:
        mb = Mom(env, ["a"], (ma or qa.moments()).cov, env.reals("qm", 1), env.logw("qw"))
        fb = gauss_mod(env).Gaussian(cov=env.arr(mb.cov), mean=env.arr([mb.mean]), log_weight=mb.lw, var_names=["a"])
    else:
        fb, qb, mb = make(env, fr, "q", "a")
        mb = mb or qb.moments()
    ma = ma or qa.moments()
    d = fa.kl_divergence(fb)
    env.true("non-negative", d >= 0)
    same = env.both(ma.cov[0][0] == mb.cov[0][0], ma.mean[0] == mb.mean[0])
    if env.is_true(same):
        env.eq("zero for equals", d, 0.0)
    elif equal_var:
        env.true("positive for different means", d > 0)


def kl_weight(env, names, form="cov"):
    """Scaling either factor does not matter; a factor is at distance zero from itself in any order and form."""
    fa, qa, ma = make(env, form, "p", names)
    rev = list(reversed(names))
    q2 = qa.over(rev).scaled(env.real("s"))
    fb = gauss_mod(env).Gaussian(prec=env.arr(q2.K), h_vec=env.arr([[x] for x in q2.h]), g_val=q2.g, var_names=rev)
    env.eq("zero", fa.kl_divergence(fb), 0.0)
    env.eq("zero back", fb.kl_divergence(fa), 0.0)


def kl_vacuous(env, names, form="cov"):
    fa, qa, ma = make(env, form, "p", names)
    va, _, _ = make(env, "vac", "v", names)
    vb, _, _ = make(env, "vac", "w", list(reversed(names)))
    env.eq("both", va.kl_divergence(vb), 0.0)
    env.true("from vacuous", va.kl_divergence(fa) == float("inf"))
    env.true("to vacuous", fa.kl_divergence(va) == float("inf"))
    env.true("distance of a proper factor", fa.distance_from_vacuous() == float("inf"))
    env.eq("distance of a vacuous factor", va.distance_from_vacuous(), 0.0)


# ------------------------------------------------------------------------------------------------------------- G07
def equal_forms(env, names, fl, perm, fr):
    """The same function in another order and form compares equal, both ways."""
    fa, qa, ma = make(env, fl, "p", names)
    other = [names[i] for i in perm]
    G = gauss_mod(env).Gaussian
    if fr in ("can", "canboth"):
        qb = qa.over(other)
        fb = G(prec=env.arr(qb.K), h_vec=env.arr([[x] for x in qb.h]), g_val=qb.g, var_names=other)
        if fr == "canboth":
            fb.get_cov()
    else:
        mb = (ma or qa.moments()).over(other)
        fb = G(cov=env.arr(mb.cov), mean=env.arr([[x] for x in mb.mean]), log_weight=mb.lw, var_names=other)
        if fr == "both":
            fb.get_prec()
    env.true("equal", fa.equals(fb))
    env.true("equal, asked the other way", fb.equals(fa))
    env.true("operator ==", fa == fb)
    env.true("operator !=", not (fa != fb))
    same_quad(env, "unchanged", fa, qa, evaluate=False, order=qa.names)
    same_quad(env, "other unchanged", fb, qa, evaluate=False, order=other)


def equal_iff(env, names, fl, perm, fr):
    """Equal exactly when all parameters agree (exact comparison of reals stands in for the tolerance)."""
    fa, qa, ma = make(env, fl, "p", names)
    other = [names[i] for i in perm]
    fb, qb, mb = make(env, fr, "q", other)
    if fl != "cov":
        x, y = qa, qb.over(list(names))
        conds = [env.same(x.g, y.g)] + [env.same(a, b) for a, b in zip(x.h, y.h)]
        conds += [env.same(x.K[i][j], y.K[i][j]) for i in range(len(names)) for j in range(i + 1)]
    else:
        x, y = ma, (mb or qb.moments()).over(list(names))
        conds = [env.same(env.exp(x.lw), env.exp(y.lw))] + [env.same(a, b) for a, b in zip(x.mean, y.mean)]
        conds += [env.same(x.cov[i][j], y.cov[i][j]) for i in range(len(names)) for j in range(i + 1)]
    env.iff("equals", fa.equals(fb), env.both(*conds))


def equal_scopes(env, left, right):
    fa, qa, _ = make(env, "cov", "p", left)
    fb, qb, _ = make(env, "can", "q", right)
    env.true("different scopes", not fa.equals(fb))
    env.true("different scopes, asked the other way", not fb.equals(fa))


def equal_tolerance(env, names, form, which, near, given=None):
    """One parameter deviates: by less than 1e-8 it must not matter, by clearly more than the tolerance it must."""
    env.tol()
    names = list(names)
    n = len(names)
    G = gauss_mod(env).Gaussian
    A = env.spd("C", n, diag=True) if form == "cov" else any_quad(env, "p", names)[0].get_prec()
    m = env.reals("m", n)
    w = env.real("w", "+" if form == "cov" else None)
    for v in [*m, w, *[A[i, j] for i in range(n) for j in range(n)]]:
        env.assume(env.both(v <= 10, v >= -10))
    if form == "can":
        env.assume(A[0, 0] >= 1)
    d = env.real("d")
    if near:
        env.assume(env.both(d <= 1e-8, d >= -1e-8))
    else:
        # the tolerance is at most 1e-4 + 1e-4 * 15, or what is given
        gap = 10 * given * 16 if given else 0.02
        env.assume(env.any(d >= gap, d <= -gap))
        env.assume(env.both(d <= 5, d >= -5))
    if form == "cov" and which == "weight":
        env.assume(w + d >= 0.001)
    A2, m2, w2 = A.copy(), list(m), w
    if which == "weight":
        w2 = w + d
    elif which == "vector":
        m2[n - 1] = m[n - 1] + d
    elif which == "diagonal":
        A2[n - 1, n - 1] = A[n - 1, n - 1] + d
    else:
        A2[0, 1] = A[0, 1] + d
        A2[1, 0] = A[1, 0] + d
    if form == "cov":
        fa = G(cov=A, mean=m, log_weight=env.log(w), var_names=names)
        fb = G(cov=A2, mean=m2, log_weight=env.log(w2), var_names=names)
    else:
        fa = G(prec=A, h_vec=m, g_val=w, var_names=names)
        fb = G(prec=A2, h_vec=m2, g_val=w2, var_names=names)
    tolerances = dict(rtol=given, atol=given) if given else {}
    env.true("nearly equal" if near else "clearly different", bool(fa.equals(fb, **tolerances)) == bool(near))


# ------------------------------------------------------------------------------------------------------------- G08
def cpd_ref(env, A, N, xs, ys):
    """log N(y; A x, N) as a Quad over xs + ys."""
    K = env.inv(rows(N))
    nx, ny = len(xs), len(ys)

    def a(i, j):
        return A[i, j]
    KA = [[add_all([K[i][k] * a(k, j) for k in range(ny)]) for j in range(nx)] for i in range(ny)]
    AKA = [[add_all([a(k, i) * KA[k][j] for k in range(ny)]) for j in range(nx)] for i in range(nx)]
    M = [[AKA[i][j] for j in range(nx)] + [-KA[j][i] for j in range(ny)] for i in range(nx)] + \
        [[-KA[i][j] for j in range(nx)] + [K[i][j] for j in range(ny)] for i in range(ny)]
    g = -(env.log(env.const(2) * env.pi()) * ny + env.log(env.det(rows(N)))) * 0.5
    zero = env.const(0.0)
    return Quad(env, list(xs) + list(ys), M, [zero] * (nx + ny), g)


def cpd(env, nx, ny, diag=False):
    A, N = env.mat("A", ny, nx), env.spd("N", ny, diag=diag)
    xs, ys = [f"x{i}" for i in range(nx)], [f"y{i}" for i in range(ny)]
    A0, N0 = A.copy(), N.copy()
    f = gauss_mod(env).make_linear_gaussian(A, N, list(xs), list(ys))
    same_quad(env, "conditional", f, cpd_ref(env, A0, N0, xs, ys))
    env.eq("arguments unchanged", [[A[i, j] for j in range(nx)] for i in range(ny)], rows(A0))
    env.eq("noise unchanged", rows(N), rows(N0))


def cpd_joint(env, nx, ny, diag=True):
    """Conditional times prior is the exact joint; its marginal over y is the propagated Gaussian."""
    A, N = env.mat("A", ny, nx), env.spd("N", ny, diag=diag)
    xs, ys = [f"x{i}" for i in range(nx)], [f"y{i}" for i in range(ny)]
    f = gauss_mod(env).make_linear_gaussian(A, N, list(xs), list(ys))
    fp, qp, mp = make(env, "cov", "p", xs, diag=diag)
    j = fp.multiply(f)
    S, mu = mp.cov, mp.mean
    AS = [[add_all([A[i, k] * S[k][jj] for k in range(nx)]) for jj in range(nx)] for i in range(ny)]
    ASA = [[add_all([AS[i][k] * A[jj, k] for k in range(nx)]) + N[i, jj] for jj in range(ny)] for i in range(ny)]
    Am = [add_all([A[i, k] * mu[k] for k in range(nx)]) for i in range(ny)]
    C = [S[i] + [AS[jj][i] for jj in range(ny)] for i in range(nx)] + [AS[i] + ASA[i] for i in range(ny)]
    ref = Mom(env, xs + ys, C, mu + Am, mp.lw)
    same_mom(env, "joint", j, ref)
    same_mom(env, "prediction", j.marginalize(list(ys)), ref.over(ys))


def cpd_template(env, nx, ny, use):
    A, N = env.mat("A", ny, nx), env.spd("N", ny)
    xt, yt = ["x_{t}_%d" % i for i in range(nx)], ["y_%d_{t}" % i for i in range(ny)]
    t = gauss_mod(env).make_linear_gaussian_cpd_template(A, N, list(xt), list(yt))
    if use == "format":
        xs, ys = [v.format(t=3) for v in xt], [v.format(t=3) for v in yt]
        f = t.make_factor(format_dict={"t": 3})
    else:
        xs, ys = [f"u{i}" for i in range(nx)], [f"v{i}" for i in range(ny)]
        f = t.make_factor(var_names=xs + ys)
    ref = cpd_ref(env, A, N, xs, ys)
    same_quad(env, "from template", f, ref, order=xs + ys)
    g = t.make_factor(format_dict={"t": 4}) if use == "format" else t.make_factor(var_names=xs + ys)
    same_quad(env, "from template again", f, ref, order=xs + ys)
    env.eq("independent of names", g.get_g(), ref.g)
    fp, qp, mp = make(env, "cov", "p", xs, diag=True)
    same_quad(env, "times prior", fp.multiply(f), qp.times(ref), evaluate=False)


# ------------------------------------------------------------------------------------------------------------- G09
def neutral(env, left, right, form="cov"):
    """Products and quotients with a constant function."""
    fa, qa, ma = make(env, form, "p", left)
    va, qv, _ = make(env, "vac", "v", right)
    for label, r, ref in (("product", fa.multiply(va), qa.times(qv)), ("commuted", va.multiply(fa), qa.times(qv)),
                          ("quotient", fa.divide(va), qa.div(qv))):
        same_quad(env, label, r, ref)
        if set(right) <= set(left):
            env.true(f"{label}: not vacuous", not r.is_vacuous)


def vacuous_ops(env, names, sub):
    va, q, _ = make(env, "vac", "v", names)
    env.true("flag", va.is_vacuous and va._is_vacuous)
    m = va.marginalize(list(sub))
    env.true("marginal is vacuous", m.is_vacuous and m._is_vacuous)
    env.true("marginal scope", sorted(m.var_names) == sorted(sub))
    env.eq("marginal precision", m.get_prec(), [[0.0] * len(sub) for _ in sub])
    env.eq("marginal h", m.get_h(), [[0.0] for _ in sub])
    vals = [env.real(f"o_{v}") for v in sub]
    if len(sub) == len(names):
        same_quad(env, "nothing integrated out", m, q)
        same_quad(env, "nothing summed out", va.marginalize([], keep=False), q)
    if len(sub) < len(names):
        r = va.reduce(list(sub), vals)
        env.true("observed is vacuous", r.is_vacuous)
        same_quad(env, "observed", r, q.slice(dict(zip(sub, vals))))
    vb, _, _ = make(env, "vac", "w", list(reversed(names)))
    env.true("vacuous factors are equal", va.equals(vb))
    c = va.copy()
    env.true("copy is vacuous", c.is_vacuous and c._is_vacuous)
    same_quad(env, "copy", c, q)
    p = va.multiply(vb)
    env.true("product of vacuous factors", p.is_vacuous and p._is_vacuous)
    env.eq("distance", va.distance_from_vacuous(), 0.0)
    env.raises("no covariance", va.get_cov)


def vacuous_after_division(env, names, form):
    """Dividing a factor by itself leaves no information."""
    fa, qa, ma = make(env, form, "p", names)
    r = fa.divide(fa.copy())
    env.true("flag", r.is_vacuous and r._is_vacuous)
    same_quad(env, "quotient", r, qa.div(qa))
    m = r.marginalize(list(names[:1]))
    env.true("marginal is vacuous", m._is_vacuous)
    env.true("proper factors are not vacuous", not fa.is_vacuous)
    env.eq("distance", r.distance_from_vacuous(), 0.0)


def vacuous_iff(env, names):
    """The flag is set exactly for zero precision."""
    f, q, _ = make(env, "any", "p", names)
    n = len(names)
    cond = env.both(*[q.K[i][j] == 0 for i in range(n) for j in range(i + 1)])
    env.iff("flag", f.is_vacuous, cond)
    env.iff("stored flag", f._is_vacuous, cond)
    env.iff("flag of a copy", f.copy()._is_vacuous, cond)


def vacuous_whole(env, names, parts, kind):
    """A mixture is vacuous exactly when all of its components are, a product of factors when all or none are."""
    fs = []
    for i, p in enumerate(parts):
        if p == "vacuous":
            fs.append(gauss_mod(env).Gaussian.make_vacuous(list(names), g_val=env.real(f"g{i}")))
        elif p == "divided":
            f = make(env, "can", f"p{i}", names)[0]
            fs.append(f.divide(f.copy()))
        else:
            fs.append(make(env, p, f"p{i}", names)[0])
    if kind == "mixture":
        W = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture(fs)
    else:
        W = env.mod("veroku.factors.experimental.factorised_factor").FactorizedFactor(fs)
    want = all(p in ("vacuous", "divided") for p in parts)
    env.true("flag", bool(W.is_vacuous) == want)
    env.true("flag of a copy", bool(W.copy().is_vacuous) == want)


WHOLES = [["cov", "vacuous"], ["vacuous", "can"], ["vacuous", "vacuous"], ["can", "cov"], ["vacuous"], ["both"], ["divided", "vacuous"], ["cov", "divided"], ["divided", "can", "vacuous"], ["vacuous", "divided", "vacuous"]]

# ------------------------------------------------------------------------------------------------------------ configs
FORMS = ("cov", "can", "both", "canboth")
SCOPES_Q = [("a", "a"), ("ab", "ab"), ("ab", "ba"), ("ab", "a"), ("ab", "b"), ("b", "ab"), ("ab", "bc"), ("ba", "bc"),
            ("a", "b"), ("b", "a"), ("cab", "bc"), ("b", "cab"), ("ca", "db"), ("ab", "cd"),
            ("bc", "abc"), ("ca", "abc"), ("abc", "ac"), ("ac", "cba"), ("abc", "dcb"), ("abc", "bda"), ("c", "abc"), ("abcd", "dbca"), ("abcd", "abdc"), ("db", "abcd")] + \
    [("abc", "".join(p)) for p in itertools.permutations("abc")]
FORMPAIRS_Q = [("cov", "cov"), ("cov", "can"), ("can", "both"), ("canboth", "cov")]


def scopes(tier):
    if tier == "quick":
        return SCOPES_Q
    out = []
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for p in itertools.permutations("abc", n):
                for q in itertools.permutations("bcd" if m < 3 else "abc", m):
                    out.append(("".join(p), "".join(q)))
    out += [("abcd", "dbca"), ("dcab", "bd"), ("ac", "dbca"), ("abcd", "ce"), ("bca", "edc")]
    return list(dict.fromkeys(out + SCOPES_Q))


def mul_cfgs(tier):
    out = [dict(left=l, right=r) for l, r in scopes(tier)]
    fp = FORMPAIRS_Q if tier == "quick" else list(itertools.product(FORMS, FORMS))
    for fl, fr in fp:
        out += [dict(left="ab", right="ba", fl=fl, fr=fr), dict(left="ab", right="bc", fl=fl, fr=fr),
                dict(left="b", right="ab", fl=fl, fr=fr)]
    return out


def via(cfgs, *vias):
    return cfgs + [dict(c, via=v) for v in vias for c in cfgs[:6]]


def marg_cfgs(tier):
    out = [dict(form=f, names="a", vrs="a") for f in FORMS]
    for f in FORMS:
        for vrs in ("a", "b", "ab", "ba"):
            out.append(dict(form=f, names="ab", vrs=vrs))
        out.append(dict(form=f, names="ba", vrs="b", keep=False))
        out.append(dict(form=f, names="ba", vrs="a", keep=False))
    subs = [("c", True), ("ca", True), ("b", False), ("ac", False), ("cab", True), ("bca", True)]
    for f in (("cov", "can") if tier == "quick" else FORMS):
        for vrs, k in subs:
            out.append(dict(form=f, names="abc", vrs=vrs, keep=k))
    out += [dict(form=f, names="ab", vrs=v, free=True) for f in ("cov", "can") for v in ("a", "ba")]
    if tier != "quick":
        for f in ("cov", "can"):
            for n in (1, 2, 3):
                for vrs in itertools.permutations("abc", n):
                    out.append(dict(form=f, names="cab", vrs="".join(vrs)))
                    out.append(dict(form=f, names="bac", vrs="".join(vrs), keep=n < 3))
        out += [dict(form="cov", names="abcd", vrs=v) for v in ("db", "c", "acd", "dcba")]
        out += [dict(form="any2", names="ab", vrs="a")][:0]
        out += [dict(form="cov", names="abc", vrs="ca", free=True)]
    return out


def red_cfgs(tier):
    out = [dict(form=f, names="a", obs="a") for f in FORMS]
    for f in ("any",) + FORMS:
        for obs in ("a", "b", "ab", "ba"):
            out.append(dict(form=f, names="ba", obs=obs))
    for obs in ("a", "c", "ca", "ac", "bc", "cba"):
        out.append(dict(form="any", names="bca", obs=obs))
        out.append(dict(form="any", names="cab", obs=obs, as_array=True))
    if tier != "quick":
        for n in (1, 2, 3, 4):
            for obs in itertools.permutations("abcd", n):
                out.append(dict(form="any", names="dbac", obs="".join(obs)))
        for f in FORMS:
            for n in (1, 2):
                for obs in itertools.permutations("abc", n):
                    out.append(dict(form=f, names="cab", obs="".join(obs)))
    return out


AT = tuple("@" + d for d in DERIVED)
L2, L3 = ["x1", "x10"], ["x10", "x", "x1"]


def derived_pairs(*scopes, fl="fl", fr="fr", **kw):
    """Operands that other operations returned, every origin on either side."""
    out = []
    for i, d in enumerate(AT):
        l, r = scopes[i % len(scopes)]
        out.append({"left": l, "right": r, fl: d, fr: AT[(i * 5 + 3) % len(AT)], **kw})
    return out


def perms(n):
    return list(itertools.permutations(range(n)))


def dims(tier, q, t):
    return q if tier == "quick" else t


PD = "any positive-definite covariance/precision, mean/h and weight/g"

WIDE = "covariances/precisions with two free parameters and fixed integer factors, any mean/h and weight/g"

PROPS = {
    "G01": [
        Scenario("any origin", convert, lambda t: [dict(form=d, names=n) for d in AT for n in ("a", "ab")], bounds="factors that other operations returned; dimension <= 2", limit=90),
        Scenario("convert", convert, lambda t: product(form=FORMS, names=dims(t, ["a", "ba"], ["a", "ba", "cab"])) +
                 [dict(form=f, names="ab", free=True) for f in ("cov", "can")] +
                 [dict(form=f, names="bac") for f in ("cov", "can") if t == "quick"],
                 bounds=f"dimension <= 3, {PD}, any evaluation point", limit=60),
        Scenario("reads", reads, lambda t: [dict(form=f, names=n, n=k, diag=d) for f, n, k, d in
                                            ([("cov", "b", 3, False), ("can", "b", 3, False), ("cov", "ba", 2, False), ("can", "ba", 2, False)]
                                             if t == "quick" else
                                             [("cov", "b", 4, False), ("can", "b", 4, False), ("cov", "ba", 3, False), ("can", "ba", 3, False)])],
                 bounds="every sequence of up to 3 (thorough 4) reads, dimension <= 2"),
        Scenario("history", history, lambda t: [dict(form=f, names="a", n=2, ops=LIGHT) for f in FORMS] +
                 [dict(form=f, names="ba", n=1, ops=LIGHT) for f in FORMS] + [dict(form=f, names="a", n=2, ops=("add", "readcov", "readcan", "multiply", "expand", "observe")) for f in ("cov", "can")] +
                 dims(t, [], [dict(form=f, names="ba", n=2, ops=LIGHT) for f in FORMS] + [dict(form=f, names="a", n=3, ops=LIGHT) for f in FORMS]),
                 bounds="every sequence of up to two (thorough three) operations, dimension <= 2", limit=100),
        Scenario("scribble", scribble, product(form=FORMS, names=["ab"]), bounds="dimension 2"),
        Scenario("larger", convert, lambda t: [dict(form="wide " + f, names=n) for f in FORMS for n in dims(t, ["dbca", "ebdca"], ["dbca", "ebdca", "fbeadc"])],
                 bounds=f"dimension 4 and 5 (thorough 6), {WIDE}", limit=90),
        Scenario("constructors", scalars, [dict(kind=k) for k in ("cov-scalar", "can-scalar", "cov-list", "can-list",
                                                                  "row-mean", "standard", "random")],
                 bounds="dimension <= 2"),
    ],
    "G02": [
        Scenario("slight differences", slight_gauss, product(op=["multiply", "divide"], near=["vacuous", "same"]), bounds="one variable; parameters within [-1, 3] and differences of 0.00002 to 0.00004"),
        Scenario("operands of any origin", multiply, lambda t: derived_pairs(("ab", "ba"), ("a", "ab"), ("ab", "bc")), bounds="operands that other operations returned; up to three joint variables", limit=90),
        Scenario("divisors of any origin", divide, lambda t: derived_pairs(("ab", "ba"), ("ab", "b"), ("ab", "a")), bounds="operands that other operations returned; up to three joint variables", limit=90),
        Scenario("long names", multiply, [dict(left=L2, right=L3), dict(left=L3, right=L2[::-1]), dict(left=L2, right=["x2"]), dict(left=["x"], right=["x1"])], bounds="names that contain each other"),
        Scenario("long names divided", divide, [dict(left=L2, right=L2[::-1]), dict(left=L3, right=L2), dict(left=L3, right=["x1"])], bounds="names that contain each other"),
        Scenario("multiply", multiply, lambda t: via(mul_cfgs(t), "mul", "absorb"),
                 bounds="up to 4 joint variables, arbitrary symmetric precisions (any form for up to 3), any point"),
        Scenario("divide", divide, lambda t: via(mul_cfgs(t), "div", "cancel"), bounds="as multiply"),
        Scenario("larger", multiply, lambda t: [dict(left=l, right=r, fl="wide " + f, fr=g) for f, g, l, r in
                                                (("cov", "wide can", "dbca", "acbd"), ("can", "wide both", "dbca", "ebd"), ("both", "wide cov", "cab", "fbecd"), ("can", "wide can", "dabec", "afcbg"))],
                 bounds=f"five to seven joint variables, {WIDE}", limit=90),
        Scenario("larger divided", divide, lambda t: [dict(left=l, right=r, fl="wide " + f, fr=g) for f, g, l, r in
                                                      (("cov", "wide can", "dbca", "acbd"), ("can", "wide both", "ebdca", "cbd"), ("can", "wide can", "dabec", "afcbg"))],
                 bounds=f"five to seven joint variables, {WIDE}", limit=90),
        Scenario("itself", itself, lambda t: [dict(names=n, form=f) for f in FORMS for n in ("a", "ba")] + [dict(names="ab", form="any"), dict(names="dbca", form="wide can"), dict(names="ab", form="@product")],
                 bounds="the same object as both operands; dimension <= 4", limit=60),
        Scenario("associate", triple, lambda t: [dict(scopes=s) for s in (("ab", "bc", "ca"), ("ab", "a", "c"), ("b", "ca", "ab"))] +
                 [dict(scopes=("ab", "ba", "b"), forms=("cov", "can", "both"))], bounds="three factors over three variables"),
        Scenario("undo", undo, lambda t: [dict(left=l, right=r) for l, r in (("ab", "ba"), ("ab", "a"), ("a", "ab"), ("ab", "bc"))] +
                 [dict(left="ab", right="bc", fl=a, fr=b) for a, b in (("can", "cov"), ("both", "canboth"))],
                 bounds="up to 3 joint variables"),
    ],
    "G03": [
        Scenario("any origin", marginal, lambda t: [dict(form=d, names=n, vrs=v, keep=k) for i, d in enumerate(AT) for n, v, k in
                                                    (("a", "a", True), (("ab", "a", True), ("ba", "a", False), ("ab", "ba", True))[i % 3])],
                 bounds="factors that other operations returned; dimension <= 2", limit=90),
        Scenario("long names", marginal, [dict(form=f, names=n, vrs=v, keep=k) for f in ("cov", "can") for n, v, k in ((L2, ["x10"], True), (L2, ["x1"], False), (L2, L2[::-1], True))],
                 bounds="names that contain each other", limit=60),
        Scenario("marginal", marginal, marg_cfgs, bounds=f"dimension <= 3 (thorough 4), {PD}, every form", limit=60),
        Scenario("larger", marginal, lambda t: [dict(form="wide " + f, names="dbca", vrs=v, keep=k) for f in FORMS for v, k in (("b", True), ("ca", True), ("ad", False), ("bda", True))] +
                 [dict(form="wide " + f, names="ebdca", vrs=v, keep=k) for f in ("cov", "can") for v, k in (("c", True), ("da", True), ("b", False))] +
                 dims(t, [], [dict(form="wide " + f, names="fbeadc", vrs=v, keep=k) for f in ("cov", "can") for v, k in (("c", True), ("da", True), ("b", False))]),
                 bounds=f"dimension 4 and 5 (thorough 6), {WIDE}", limit=90),
        Scenario("everything", marginal_everything, lambda t: [dict(form=f, names=n, how=h) for f in FORMS for n in ("a", "ba") for h in ("keep", "out", "steps")],
                 bounds=f"dimension <= 2, {PD}, every form", limit=60),
        Scenario("steps", marginal_steps, lambda t: [dict(form=f, names="abc", first=a, then=b) for f in dims(t, ("cov", "can"), FORMS)
                                                     for a, b in (("a", "b"), ("c", "a"), ("b", "c"))], bounds="dimension 3", limit=60),
        Scenario("of product", marginal_product, [dict(left="ab", right="b", out="a"), dict(left="ab", right="bc", out="a"),
                                                  dict(left="a", right="b", out="a")], bounds="up to 3 joint variables", limit=60),
    ],
    "G04": [
        Scenario("any origin", reduce, lambda t: [dict(form=d, names="ab" if i % 2 else "ba", obs=o) for i, d in enumerate(AT) for o in ("a", "ab")] + [dict(form=d, names="abc", obs="ca") for d in ("@restored", "@times vacuous", "@product")],
                 bounds="factors that other operations returned; dimension <= 3", limit=90),
        Scenario("long names", reduce, [dict(form=f, names=n, obs=o) for f in ("any", "cov") for n, o in ((L3, ["x1"]), (L3, ["x", "x10"]), (L2, L2[::-1]))], bounds="names that contain each other"),
        Scenario("reduce", reduce, red_cfgs, bounds="dimension <= 3 (thorough 4), arbitrary symmetric precision, any values"),
        Scenario("larger", reduce, lambda t: [dict(form="any", names="dbac", obs=o) for o in ("cb", "adc", "bcda")] +
                 [dict(form="wide " + f, names=n, obs=o) for f in FORMS for n, o in (("dbac", "c"), ("dbac", "adb"), ("ebdac", "ace"), ("ebdac", "dc"))] +
                 dims(t, [], [dict(form="any", names="dbefac", obs=o) for o in ("cb", "adcf", "bcda")]),
                 bounds=f"dimension 4 and 5 (thorough 6), arbitrary symmetric precision or {WIDE}", limit=90),
        Scenario("steps", reduce_steps, lambda t: [dict(form=f, names="bca", first=a, then=b) for f in ("any", "cov", "can")
                                                   for a, b in (("a", "b"), ("c", "a"), ("ca", "b"))], bounds="dimension 3"),
        Scenario("of product", reduce_product, [dict(left="ab", right="bc", obs=o) for o in ("b", "a", "cb", "abc")],
                 bounds="three joint variables"),
        Scenario("then marginalise", reduce_marginal, [dict(form=f, names="abc", obs=o, out=x) for f in ("can", "cov")
                                                       for o, x in (("a", "b"), ("c", "a"))], bounds="dimension 3", limit=60),
    ],
    "G05": [
        Scenario("slight differences", slight_gauss, product(op=["normalise"], form=["cov", "can"]), bounds="one variable; parameters within [-1, 3] and differences of 0.00002 to 0.00004"),
        Scenario("any origin", normalise, lambda t: [dict(form=d, names=n) for d in AT for n in ("a", "ab")], bounds="factors that other operations returned; dimension <= 2", limit=90),
        Scenario("normalise", normalise, lambda t: product(form=FORMS, names=dims(t, ["a", "ba"], ["a", "ba", "abc"])) +
                 [dict(form=f, names="ab", free=True) for f in ("cov", "can")], bounds=f"dimension <= 3, {PD}", limit=60),
        Scenario("history", history, lambda t: [dict(form=f, names="a", n=k, ops=o) for f in FORMS for k, o in
                                                (((3, ("add", "readcov", "readcan", "copy", "normalize")), (2, OPS))
                                                 if t == "quick" else ((4, ("add", "readcov", "readcan", "copy", "normalize")), (3, OPS)))] +
                 ([dict(form=f, names="ab", n=2, ops=OPS) for f in FORMS] if t != "quick" else []),
                 bounds="every sequence of up to 3 (thorough 4) operations, dimension 1 (thorough also 2)"),
        Scenario("larger", normalise, lambda t: [dict(form="wide " + f, names=n) for f in FORMS for n in dims(t, ["dbca", "ebdca"], ["dbca", "ebdca", "fbeadc"])],
                 bounds=f"dimension 4 and 5 (thorough 6), {WIDE}", limit=90),
        Scenario("independent copies", independent, product(form=FORMS, names=["ab"], change=["original", "copy"]),
                 bounds="dimension 2"),
    ],
    "G06": [
        Scenario("any origin", kl_value, lambda t: [dict(names="a", other="a", fl=d, fr=AT[(i * 5 + 3) % len(AT)]) for i, d in enumerate(AT)], bounds="factors that other operations returned; dimension 1", limit=90),
        Scenario("value", kl_value, lambda t: [dict(names="a", other="a", fl=x, fr=y) for x, y in
                                               dims(t, [("cov", "cov"), ("can", "cov"), ("both", "can")], list(itertools.product(FORMS, FORMS)))] +
                 [dict(names="ab", other=o, diag=True) for o in ("ab", "ba")] +
                 [dict(names="ab", other=o, diag=True, fl=x, fr=y, raw=w) for o in ("ab", "ba") for x, y in (("cov", "both"), ("both", "can"), ("canboth", "canboth"), ("can", "cov"))
                  for w in (False, True)] +
                 [dict(names="abc", other=o, diag=True) for o in ("cab", "bca", "acb")] +
                 [dict(names="ab", other="ba", shared=s) for s in ("cov", "mean")] + [dict(names="ab", other="ba")] +
                 ([dict(names="ab", other=o, fl=x, fr=y) for o in ("ab", "ba") for x, y in (("can", "cov"), ("cov", "can"), ("both", "canboth"))]
                  if t != "quick" else []),
                 bounds="dimension <= 2, up to the sign that the implementation drops", limit=60),
        Scenario("larger", kl_value, lambda t: [dict(names=n, other=o, fl="wide " + x, fr="wide " + y) for n, o in (("abc", "cab"), ("abcd", "bdca")) for x, y in (("cov", "can"), ("both", "cov"))],
                 bounds=f"dimension 3 and 4, {WIDE}", limit=90),
        Scenario("sign", kl_sign, lambda t: [dict(fl=x, fr=y) for x in ("cov", "can") for y in ("cov", "can")] +
                 [dict(fl=x, equal_var=True) for x in ("cov", "can")], bounds="dimension 1"),
        Scenario("weight", kl_weight, product(names=["a", "ab"], form=["cov", "can"]), bounds="dimension <= 2", limit=60),
        Scenario("vacuous", kl_vacuous, product(names=["a", "ab"], form=["cov", "can"]), bounds="dimension <= 2"),
    ],
    "G07": [
        Scenario("any origin", equal_forms, lambda t: [dict(names=n, fl=d, perm=perms(len(n))[-1], fr=FORMS[i % 4]) for i, d in enumerate(AT) for n in ("a", "ab")], bounds="factors that other operations returned; dimension <= 2", limit=90),
        Scenario("same function", equal_forms, lambda t: [dict(names=n, fl=x, perm=p, fr=y) for n in ("a", "ba")
                                                          for x in FORMS for y in FORMS for p in perms(len(n))
                                                          if t != "quick" or n == "ba" or x == y] +
                 [dict(names="abc", fl=x, perm=p, fr=y) for x, y in (("can", "can"), ("cov", "cov")) for p in perms(3)],
                 bounds="dimension <= 3", limit=60),
        Scenario("larger", equal_forms, lambda t: [dict(names=n, fl="wide " + x, perm=p, fr=y) for n, p in (("dbca", (2, 0, 3, 1)), ("ebdca", (4, 2, 0, 1, 3))) for x, y in (("can", "can"), ("cov", "cov"), ("both", "can"))],
                 bounds=f"dimension 4 and 5, {WIDE}", limit=90),
        Scenario("iff", equal_iff, lambda t: [dict(names="a", fl=x, perm=(0,), fr=y) for x in FORMS for y in FORMS] +
                 [dict(names="ab", fl=x, perm=p, fr=x) for x in ("cov", "can") for p in perms(2)],
                 bounds="dimension <= 2, exact comparison of reals"),
        Scenario("scopes", equal_scopes, [dict(left=l, right=r) for l, r in (("a", "b"), ("ab", "a"), ("ab", "ac"), ("ab", "cab"))],
                 bounds="up to three variables"),
        Scenario("tolerance", equal_tolerance, [dict(names=n, form=f, which=w, near=k) for f in ("cov", "can") for n, w in
                                                (("a", "weight"), ("a", "vector"), ("a", "diagonal"), ("ab", "vector"), ("ab", "off"))
                                                for k in (True, False)] +
                 [dict(names="a", form=f, which=w, near=k, given=g) for f in ("cov", "can") for w in ("weight", "vector", "diagonal") for k, g in ((False, 1e-5), (True, 1e-5), (True, 1e-2))],
                 bounds="parameters within [-10, 10], deviations of at most 1e-8 or at least 0.02 (tolerance 1e-5: 0.0016)", timeout_ms=15000),
    ],
    "G08": [
        Scenario("conditional", cpd, lambda t: [dict(nx=a, ny=b) for a, b in dims(t, [(1, 1), (2, 1), (1, 2), (2, 2)], [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2)])],
                 bounds="up to 2 (thorough 3) conditioning and conditional variables, any transform and noise", limit=90),
        Scenario("larger", cpd, lambda t: [dict(nx=a, ny=b, diag="wide") for a, b in ((4, 1), (3, 3), (2, 4), (1, 5))], bounds=f"up to six variables, any transform, {WIDE}", limit=90),
        Scenario("larger joint", cpd_joint, lambda t: [dict(nx=a, ny=b, diag="wide") for a, b in ((4, 1), (2, 2), (1, 4), (3, 2))], bounds=f"up to five variables, any transform, {WIDE}", limit=90),
        Scenario("joint", cpd_joint, lambda t: [dict(nx=a, ny=b) for a, b in dims(t, [(1, 1), (2, 1), (1, 2)], [(1, 1), (2, 1), (1, 2), (2, 2)])],
                 bounds="dimensions up to 2", limit=90),
        Scenario("template", cpd_template, lambda t: [dict(nx=a, ny=b, use=u) for u in ("format", "names") for a, b in dims(t, [(1, 1), (2, 1)], [(1, 1), (2, 1), (1, 2)])],
                 bounds="dimensions up to 2", limit=90),
    ],
    "G09": [
        Scenario("any origin", neutral, lambda t: [dict(left="ab", right=("b", "ba", "bc")[i % 3], form=d) for i, d in enumerate(AT)], bounds="factors that other operations returned; three joint variables", limit=90),
        Scenario("neutral", neutral, lambda t: [dict(left=l, right=r, form=f) for f in dims(t, ("cov", "can"), FORMS) for l, r in
                                                (("a", "a"), ("ab", "ba"), ("ab", "a"), ("ab", "b"), ("ab", "bc"), ("a", "ba"), ("a", "b"))],
                 bounds="up to three joint variables"),
        Scenario("larger", neutral, lambda t: [dict(left=l, right=r, form="wide " + f) for f in ("cov", "can") for l, r in
                                               (("abd", "c"), ("dbca", "cad"), ("bac", "dab"), ("db", "caed"), ("dbca", "e"))],
                 bounds=f"up to five joint variables, {WIDE}", limit=90),
        Scenario("operations", vacuous_ops, [dict(names=n, sub=s) for n, s in (("a", "a"), ("ab", "b"), ("ab", "ba"), ("abc", "ca"))],
                 bounds="dimension <= 3"),
        Scenario("self division", vacuous_after_division, product(names=["a", "ab"], form=FORMS), bounds="dimension <= 2"),
        Scenario("mixtures", vacuous_whole, lambda t: [dict(names=n, parts=p, kind=k) for n in ("a", "ba") for p in WHOLES for k in ("mixture", "factorised")
                                                      if k == "mixture" or len(set(x in ("vacuous", "divided") for x in p)) == 1],
                 bounds="up to three parts of dimension <= 2"),
        Scenario("flag", vacuous_iff, [dict(names="a"), dict(names="ab")], bounds="dimension <= 2, arbitrary symmetric precision"),
    ],
}
