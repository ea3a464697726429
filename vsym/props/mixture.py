"""Gaussian mixtures (M01-M03)."""
import itertools

from . import Scenario, marg, product
from ._gauss import DERIVED, Mom, Quad, col, gauss_mod, make, paired, point, rows, same_mom, same_quad
from ._tables import add_all

from .gaussian import WIDE, slight_gauss

GM = "veroku.factors.experimental.gaussian_mixture"


def mix(env, pre, names, forms, diag=False, method=0):
    """(mixture, [Quad], [Mom])."""
    parts = [make(env, fm, f"{pre}{i}", names, diag=diag) for i, fm in enumerate(forms)]
    M = env.mod(GM).GaussianMixture([p[0] for p in parts], cancel_method=method)
    return M, [p[1] for p in parts], [p[2] or p[1].moments() for p in parts] if forms[0] != "any" else None


MIXED = ("product", "mixture product", "reduced", "normalised", "marginal", "divided", "copy", "from copy", "matched divided")


def derived_mix(env, pre, names, origin, method=0):
    """(mixture, [Quad], [Mom]) of a mixture that an operation returned; canonical components unless moments are needed."""
    names = list(names)
    if origin == "product":
        M, q, _ = mix(env, pre, names, ("can", "cov"), diag=True, method=method)
        o, qo, _ = make(env, "can", pre + "o", names[::-1], diag=True)
        M, q = M.multiply(o), [a.times(qo) for a in q]
    elif origin == "mixture product":
        M, q, _ = mix(env, pre, names, ("can",), diag=True, method=method)
        o, qs, _ = mix(env, pre + "o", names, ("can", "both"), diag=True, method=1)
        M, q = M.multiply(o), [a.times(b) for a in q for b in qs]
    elif origin == "reduced":
        M, q, _ = mix(env, pre, names[:1] + ["zz"] + names[1:], ("can", "both"), diag=len(names) > 1, method=method)
        v = env.real(pre + "o")
        M, q = M.reduce(["zz"], [v]), [a.slice({"zz": v}) for a in q]
    elif origin == "normalised":
        M, q, ms = mix(env, pre, names, ("cov", "can"), diag=True, method=method)
        lw = env.log(add_all([env.exp(m.lw) for m in ms]))
        M, q = M.normalize(), [a.scaled(-lw) for a in q]
    elif origin == "marginal":
        M, q, ms = mix(env, pre, ["zz"] + names, ("cov", "both"), diag=len(names) > 1, method=method)
        M, q = M.marginalize(names), [m.over(names).quad() for m in ms]
    elif origin == "divided":
        M, q, _ = mix(env, pre, names, ("can", "cov"), diag=True, method=method)
        o, qo, _ = make(env, "can", pre + "o", names[-1:])
        M = M.multiply(o).divide(o)
    elif origin == "matched divided":
        M, q, _ = mix(env, pre, names, ("can", "cov"), diag=True, method=method)
        o, (qo,), _ = mix(env, pre + "o", names, ("cov",), diag=True)
        M = M.multiply(o).divide(o)
    elif origin in ("copy", "from copy"):
        M, q, _ = mix(env, pre, names, ("cov", "can"), diag=True, method=method)
        c = M.copy()
        if origin == "copy":
            M = c
        else:
            c.components[0]._add_log_weight(1.0)
    else:
        raise ValueError(origin)
    return M, q, [a.moments() for a in q]


def any_origin(env, op, names, origin, method=0):
    M, q, ms = derived_mix(env, "p", names, origin, method)
    check_method(env, M, method)
    env.true("components", len(M.components) == len(q))
    same_mix(env, "mixture", M, q)
    if op == "multiply":
        o, qo, _ = make(env, "can", "r", names[-1:])
        same_mix(env, "product", M.multiply(o), [a.times(qo) for a in q])
    elif op == "divide":
        o, qo, _ = make(env, "can", "r", names[:1])
        r = M.divide(o)
        same_mix(env, "quotient", r, [a.div(qo) for a in q])
        same_mix(env, "quotient times divisor", r * o, q)
    elif op == "reduce":
        v = env.real("o")
        same_mix(env, "observed", M.reduce([names[0]], [v]), [a.slice({names[0]: v}) for a in q])
    elif op == "weights":
        ms = [m.over(list(M.var_names)) for m in ms]
        W = add_all([env.exp(m.lw) for m in ms])
        env.eq("log weight", M.get_log_weight(), env.log(W))
        r = M.normalize()
        for c, m in paired(env, r.components, ms):
            env.eq("component weight", c.get_weight(), env.exp(m.lw) / W)
        same_mom(env, "matched", M.moment_match_to_single_gaussian(), matched(env, ms))
    elif op == "marginal":
        r = M.marginalize(list(names[:1]))
        for c, m in paired(env, r.components, [m.over(list(names[:1])) for m in ms]):
            same_mom(env, "component", c, m)
        r = M.marginalize(list(names[1:]), keep=False)
        for c, m in paired(env, r.components, [m.over(list(names[:1])) for m in ms]):
            same_mom(env, "component, summed out", c, m)
    elif op == "equals":
        same = env.mod(GM).GaussianMixture([c.copy() for c in reversed(M.components)])
        env.true("equal in another order", M.equals(same) and same.equals(M) and M == same and not M != same)
        if origin != "normalised":  # (the solver does not decide the case with logarithms of sums)
            same.components[0]._add_log_weight(env.log(env.const(2.0)))
            env.true("one weight changed", not M.equals(same) and not same.equals(M))
    same_mix(env, "operand", M, q, logs=False)


def total(env, quads, pt):
    return add_all([env.exp(q.at(pt)) for q in quads])


def same_mix(env, label, M, quads, logs=True):
    names = sorted(quads[0].names)
    env.true(f"{label}: scope", sorted(M.var_names) == names)
    for c in M.components:
        env.true(f"{label}: component scope", list(c.var_names) == list(M.var_names))
    pt = point(env, names)
    want = total(env, quads, pt)
    xs = [pt[v] for v in M.var_names]
    env.eq(f"{label}: value", M.potential(xs), want)
    if logs:
        env.eq(f"{label}: log value", M.log_potential(xs), env.log(want))
        if len(names) > 1:
            vs = list(reversed(M.var_names))
            env.eq(f"{label}: log value by names", M.log_potential([pt[v] for v in vs], vrs=vs), env.log(want))


def check_method(env, M, method):
    env.true("division method kept", M.cancel_method == method)


# ------------------------------------------------------------------------------------------------------------- M01
def evaluate(env, names, forms, diag=False):
    M, q, _ = mix(env, "p", names, forms, diag)
    same_mix(env, "mixture", M, q)
    same_mix(env, "copy", M.copy(), q)


def multiply(env, left, right, fl, fr, via="multiply", method=0):
    M, q, _ = mix(env, "p", left, fl, method=method)
    if isinstance(fr, str):
        o, qo, _ = make(env, fr, "r", right)
        qs = [qo]
    else:
        o, qs, _ = mix(env, "r", right, fr, method=1)
    r = M * o if via == "mul" else getattr(M, via)(o)
    same_mix(env, "product", r, [a.times(b) for a in q for b in qs])
    check_method(env, r, method)
    same_mix(env, "operand", M, q, logs=False)
    if not isinstance(fr, str):
        r2 = o.multiply(M)
        same_mix(env, "commuted", r2, [a.times(b) for a in q for b in qs], logs=False)
        check_method(env, r2, 1)


def itself(env, names, forms, diag=False):
    """A mixture as both operands."""
    M, q, ms = mix(env, "p", names, forms, diag=diag)
    same_mix(env, "multiplied by itself", M.multiply(M), [a.times(b) for a in q for b in q])
    same_mix(env, "operand", M, q, logs=False)
    env.true("equal to itself", M.equals(M) and M == M)
    if len(q) == 1:
        same_mix(env, "divided by itself", M.divide(M), [a.div(a) for a in q])
    f, qf, _ = make(env, "can", "s", names)
    twice = env.mod(GM).GaussianMixture([f, f])
    same_mix(env, "a component listed twice", twice, [qf, qf])
    same_mix(env, "multiplied by its component", twice.multiply(f), [qf.times(qf)] * 2)
    same_mix(env, "divided by its component", twice.divide(f), [qf.div(qf)] * 2)
    same_mix(env, "operand listed twice", twice, [qf, qf], logs=False)


def divide(env, left, right, fl, fr, via="divide", method=0):
    """Division by a single Gaussian, or by a mixture with one component."""
    M, q, _ = mix(env, "p", left, fl, method=method)
    if isinstance(fr, str):
        o, qo, _ = make(env, fr, "r", right)
    else:
        o, (qo,), _ = mix(env, "r", right, fr)
    r = M / o if via == "div" else getattr(M, via)(o)
    same_mix(env, "quotient", r, [a.div(qo) for a in q])
    check_method(env, r, method)


def divide_matched(env, names, fl, fr):
    """Method 0: division by a larger mixture divides by its moment-matched Gaussian."""
    M, q, _ = mix(env, "p", names, fl)
    o, qs, ms = mix(env, "r", names, fr, diag=True)
    s = matched(env, ms).quad()
    r = M.divide(o)
    pt = point(env, list(names))
    xs = [pt[v] for v in r.var_names]
    for c, a in paired(env, r.components, [a.div(s) for a in q]):
        env.eq("component", c.log_potential(xs), a.at(pt))
    env.true("number of components", len(r.components) == len(q))


def reduce(env, names, forms, obs, method=2):
    M, q, _ = mix(env, "p", names, forms, method=method)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    r = M.reduce(list(obs), [vals[v] for v in obs])
    same_mix(env, "observed", r, [a.slice(vals) for a in q])
    check_method(env, r, method)


# ------------------------------------------------------------------------------------------------------------- M02
def matched(env, ms):
    """The Gaussian with the total weight, mean and covariance of the sum."""
    n = len(ms[0].names)
    w = [env.exp(m.lw) for m in ms]
    W = add_all(w)
    mean = [add_all([w[k] * m.mean[i] for k, m in enumerate(ms)]) / W for i in range(n)]
    cov = [[add_all([w[k] * (m.cov[i][j] + (m.mean[i] - mean[i]) * (m.mean[j] - mean[j])) for k, m in enumerate(ms)]) / W
            for j in range(n)] for i in range(n)]
    return Mom(env, ms[0].names, cov, mean, env.log(W))


def weights(env, names, forms, diag=False):
    M, q, ms = mix(env, "p", names, forms, diag=diag)
    W = add_all([env.exp(m.lw) for m in ms])
    env.eq("log weight", M.get_log_weight(), env.log(W))
    r = M.normalize()
    env.eq("normalised weight", r.get_log_weight(), 0.0)
    env.true("number of components", len(r.components) == len(ms))
    pt = point(env, list(names))
    env.eq("normalised value", r.potential([pt[v] for v in r.var_names]), total(env, q, pt) / W)
    env.eq("operand's log weight", M.get_log_weight(), env.log(W))
    for c, m in paired(env, r.components, ms):
        env.eq("component weight", c.get_weight(), env.exp(m.lw) / W)
        env.eq("component mean", c.get_mean(), [[x] for x in m.mean])
        env.eq("component covariance", c.get_cov(), m.cov)


def marginal(env, names, forms, vrs, keep=True, diag=False, method=2):
    M, q, ms = mix(env, "p", names, forms, diag=diag, method=method)
    kept = list(vrs) if keep else [n for n in names if n not in vrs]
    if len(vrs) == 1:
        for c, m in paired(env, marg(M, vrs, keep, bare=True).components, [m.over(kept) for m in ms]):
            same_mom(env, "component of the marginal of one variable", c, m)
    r = marg(M, vrs, keep)
    check_method(env, r, method)
    env.true("number of components", len(r.components) == len(ms))
    for c, m in paired(env, r.components, [m.over(kept) for m in ms]):
        same_mom(env, "component", c, m)
    if len(kept) == 1 and diag:
        same_mix(env, "marginal", r, [m.over(kept).quad() for m in ms])


def moment_match(env, names, forms, diag=False):
    M, q, ms = mix(env, "p", names, forms, diag=diag)
    same_mom(env, "matched", M.moment_match_to_single_gaussian(), matched(env, ms))


def split(env, form):
    """Splitting a Gaussian into three keeps the mean and the variance."""
    f, q, m = make(env, form, "p", "a")
    m = m or q.moments()
    M = f._split_gaussian()
    env.true("three components", len(M.components) == 3)
    ws = [c.get_weight() for c in M.components]
    env.eq("weights sum to the factor's weight", add_all(ws), env.exp(m.lw))
    ws = [w / env.exp(m.lw) for w in ws]
    mean = add_all([w * c.get_mean()[0, 0] for w, c in zip(ws, M.components)])
    env.eq("mean", mean, m.mean[0])
    var = add_all([w * (c.get_cov()[0, 0] + (c.get_mean()[0, 0] - mean) * (c.get_mean()[0, 0] - mean))
                   for w, c in zip(ws, M.components)])
    env.eq("variance", var, m.cov[0][0])


# ------------------------------------------------------------------------------------------------------------- M03
def equal_exact(env, left, right, names="a", pool=2):
    """Components drawn from a pool of Gaussians, with repetitions, in any order."""
    parts = [make(env, "can", f"p{i}", names) for i in range(pool)]
    C = env.mod(GM).GaussianMixture
    A, B = C([parts[i][0] for i in left]), C([parts[i][0] for i in right])

    def eq(i, j):
        if i == j:
            return True
        x, y = parts[i][1], parts[j][1]
        n = len(names)
        return env.both(env.same(x.g, y.g), *[env.same(a, b) for a, b in zip(x.h, y.h)],
                        *[env.same(x.K[a][b], y.K[a][b]) for a in range(n) for b in range(a + 1)])
    cond = False
    if len(left) == len(right):
        cond = env.any(*[env.both(*[eq(i, j) for i, j in zip(left, p)]) for p in set(itertools.permutations(right))])
    env.iff("equal", A.equals(B), cond)
    env.iff("equal, asked the other way", B.equals(A), cond)


def equal_tolerance(env, n, rel=False, fixed=False):
    """
    Within an absolute tolerance of 1/2 (or a relative one of 1/10), equality of components is not transitive: pairing
    has to be complete. fixed: one component of each mixture is the same, known one.
    """
    env.tol()
    G = gauss_mod(env).Gaussian
    C = env.mod(GM).GaussianMixture
    k = n - 1 if fixed else n
    low, high = (1, 20) if rel else (-10, 10)
    a, b = env.reals("a", k), env.reals("b", k)
    for x in a + b:
        env.assume(env.both(x <= high, x >= low))
    if fixed:
        a, b = [4.0] + list(a), [4.0] + list(b)
    near = {}
    for i in range(n):
        for j in range(n):
            if fixed and i == j == 0:
                near[i, j] = True
                continue
            d = a[i] - b[j]
            if rel:
                # near, and not near, whichever of the two the tolerance is relative to
                within = [env.both(d <= 0.095 * v, d >= -0.095 * v) for v in (a[i], b[j])]
                beyond = [env.both(*[d >= 0.105 * v for v in (a[i], b[j])]), env.both(*[d <= -0.105 * v for v in (a[i], b[j])])]
                near[i, j] = env.both(*within)
                env.assume(env.any(near[i, j], *beyond))
            else:
                near[i, j] = env.both(d <= 0.45, d >= -0.45)
                env.assume(env.any(near[i, j], d >= 0.55, d <= -0.55))
    A = C([G(prec=1.0, h_vec=x, g_val=0.0, var_names=["a"]) for x in a])
    B = C([G(prec=1.0, h_vec=x, g_val=0.0, var_names=["a"]) for x in b])
    tols = dict(rtol=0.1, atol=0.0) if rel else dict(rtol=0.0, atol=0.5)
    cond = env.any(*[env.both(*[near[i, p[i]] for i in range(n)]) for p in itertools.permutations(range(n))])
    env.iff("equal", A.equals(B, **tols), cond)
    env.iff("equal, asked the other way", B.equals(A, **tols), cond)


def equal_number(env, left, right):
    C = env.mod(GM).GaussianMixture
    g = [make(env, "can", f"p{i}", "a")[0] for i in range(max(left, right))]
    env.true("different numbers of components", not C(g[:left]).equals(C(g[:right])))


def tier(t, q, th):
    return q if t == "quick" else th


# ------------------------------------------------------------------------------------------------------------- M04
class Found:
    """What a local optimiser reports: an arbitrary point, and whether it converged."""

    def __init__(self, fun, x, success):
        self._fun, self.x, self.success = fun, x, success
        self.status, self.message = (0, "") if success else (1, "")

    @property
    def fun(self):
        return self._fun(self.x)

    def __getitem__(self, k):
        return getattr(self, k)


def mode(env, names, forms, diag=True, outcomes=None, objective=True):
    """The mode is the best of the optimisations that succeeded, one started from every component's mean."""
    M, q, ms = mix(env, "p", names, forms, diag=diag)
    runs = []

    def optimiser(fun, x0):
        k = len(runs)
        ok = env.pick(f"converged{k}", [True, False]) if outcomes is None else outcomes[k % len(outcomes)]
        x = env.arr([env.real(f"x{k}_{n}") for n in M.var_names])
        if env.np.ndim(x0) > 1:
            raise ValueError("'x0' must only have one dimension.")
        runs.append((fun, x0, x, ok))
        return Found(fun, x, ok)
    env.stub_optimiser(optimiser)
    at = lambda xs: total(env, q, dict(zip(M.var_names, xs)))
    try:
        r, failed = M.argmax(), False
    except Exception as e:
        if type(e).__name__ != "OptimizationFailedError":
            raise
        failed = True
    starts = [list(env.np.asarray(s)) for _, s, _, _ in runs]
    env.true("starting points", len(starts) == len(ms))
    for m in ms:
        env.true("a run starts at every component's mean", env.any(*[env.both(*[env.same(a, b) for a, b in zip(s, m.mean)]) for s in starts]))
    if objective:
        u = point(env, list(M.var_names), "u")
        fu, pu = runs[0][0](env.arr([u[n] for n in M.var_names])), total(env, q, u)
        near = (lambda x, y: x == y) if env.symbolic else (lambda x, y: abs(x - y) <= 1e-6 * (1 + abs(y)))
        env.true("the objective is the potential, or its logarithm, with the sign changed", env.any(near(fu, -env.log(pu)), near(fu, -pu)))
    good = [list(x) for _, _, x, ok in runs if ok]
    env.true("fails if and only if no run converged", failed == (not good))
    if good and not failed:
        r = list(env.np.asarray(r).reshape(-1))
        env.true("dimension", len(r) == len(names))
        env.true("an outcome of a converged run", env.any(*[env.both(*[env.same(a, b) for a, b in zip(r, g)]) for g in good]))
        slack = 0 if env.symbolic else 1e-9
        for g in good:
            env.true("no converged run found more", at(r) * (1 + slack) >= at(g))
    same_mix(env, "operand", M, q, logs=False)


class Fitted:
    """A fitted scikit-learn mixture."""

    def __init__(self, means, covs, weights):
        self.means_, self.covariances_, self.weights_ = means, covs, weights


def imported(env, names, n, factor=False):
    d = len(names)
    covs = [env.spd(f"c{k}", d) for k in range(n)]
    means = env.mat("m", n, d)
    ws = env.reals("w", n, "+")
    g = Fitted(means.copy(), env.arr([c.copy() for c in covs]).reshape(n, d, d), env.arr(list(ws)))
    M = env.mod(GM).GaussianMixture.from_sklearn_gmm(g, list(names))
    ref = [Mom(env, list(names), rows(covs[k]), [means[k, i] for i in range(d)], env.log(ws[k])) for k in range(n)]
    env.true("number of components", len(M.components) == n and M.num_components == n)
    env.true("scope", list(M.var_names) == list(names))
    for c, m in paired(env, M.components, ref):
        same_mom(env, "component", c, m, order=list(names))
    env.eq("total weight", M.get_log_weight(), env.log(add_all(ws)))
    g.means_[0, 0] = g.means_[0, 0] + 1.0
    g.covariances_[0, 0, 0] = g.covariances_[0, 0, 0] + 1.0
    for c, m in paired(env, M.components, ref):
        same_mom(env, "component after changing the fitted model", c, m, order=list(names))


# ------------------------------------------------------------------------------------------------------------- M05
def reciprocal(env, a, bs):
    """1 / (the Gaussian function with the total weight, mean and covariance of the functions b / a), one dimension."""
    qs = [b.div(a) for b in bs]
    cov = [1 / q.K[0][0] for q in qs]
    mean = [c * q.h[0] for c, q in zip(cov, qs)]
    two_pi = 2 * env.np.pi
    # the logarithm of |weight|: every quotient is negative definite, so that the weights have the same (imaginary) phase
    w = [env.exp(q.g + mu * q.h[0] / 2 + env.log(-two_pi * c) / 2) for q, mu, c in zip(qs, mean, cov)]
    W = add_all(w)
    m = add_all([x * mu for x, mu in zip(w, mean)]) / W
    v = add_all([x * (c + (mu - m) * (mu - m)) for x, mu, c in zip(w, mean, cov)]) / W
    env.assume(v < 0)
    g = env.log(W) - m * m / v / 2 - env.log(-two_pi * v) / 2
    return Quad(env, a.names, [[-1 / v]], [-m / v], -g)


def precise(env, pre, n, other=None, wide=(), names="a"):
    """n one dimensional canonical Gaussians; more precise (those numbered in wide: less precise) than every one of `other`."""
    parts = [make(env, "can", f"{pre}{i}", names, diag=True) for i in range(n)]
    for i, (_, q, _) in enumerate(parts):
        for _, o, _ in other or ():
            for j in range(len(names)):
                env.assume(q.K[j][j] < o.K[j][j] if (i + j) in wide else q.K[j][j] > o.K[j][j])
    return parts


def divide_m2(env, na, nb, proportional=False, scale=False, shape=None, wide=(), names="a"):
    """shape: divisor components with one mean ("centre", as are the quotients'), or with one precision ("spread")."""
    G = env.mod(GM).GaussianMixture
    if shape:
        K, mu = env.real("k0", "+"), env.real("mu")
        bs = []
        for k in range(nb):
            kk = K if k == 0 or shape == "spread" else env.real(f"k{k}", "+")
            q = Quad(env, ["a"], [[kk]], [kk * mu if shape == "centre" else env.real(f"h{k}")], env.real(f"g{k}"))
            bs.append((gauss_mod(env).Gaussian(prec=kk, h_vec=q.h[0], g_val=q.g, var_names=["a"]), q, None))
    else:
        bs = precise(env, "q", 1 if proportional else nb, names=names)
    if proportional:
        f, q, _ = bs[0]
        for k in range(1, nb):
            lw = env.real(f"lw{k}")
            c = f.copy()
            c._add_log_weight(lw)
            bs.append((c, q.scaled(lw), None))
    if shape == "centre":
        as_ = []
        for k in range(na):
            kk = add_all([b[1].K[0][0] for b in bs]) + env.real(f"kp{k}", "+")
            q = Quad(env, ["a"], [[kk]], [kk * mu], env.real(f"gp{k}"))
            as_.append((gauss_mod(env).Gaussian(prec=kk, h_vec=q.h[0], g_val=q.g, var_names=["a"]), q, None))
    else:
        as_ = precise(env, "p", na, bs, wide, names)
    A = G([f for f, _, _ in as_], cancel_method=2)
    B = G([f for f, _, _ in bs], cancel_method=env.pick("method of the divisor", [0, 1, 2]) if na == nb == 2 else 0)
    if proportional:
        lw = env.log(add_all([env.exp(q.g - bs[0][1].g) for _, q, _ in bs]))
        want = [q.div(bs[0][1]).scaled(-lw) for _, q, _ in as_]
    else:
        want = [reciprocal(env, q, [b for _, b, _ in bs]) for _, q, _ in as_]
    r = A.divide(B)
    env.true("one component for every component of the dividend", len(r.components) == na)
    check_method(env, r, 2)
    for i, (c, w) in enumerate(paired(env, r.components, want)):
        same_quad(env, f"component {i}", c, w)
    if proportional:
        pt = point(env, list(names))
        env.eq("exact quotient", r.potential([pt[v] for v in names]), total(env, [q for _, q, _ in as_], pt) / total(env, [q for _, q, _ in bs], pt))
    if scale:
        lw = env.real("scale")
        S = A.copy()
        for c in S.components:
            c._add_log_weight(lw)
        for c, w in paired(env, S.divide(B).components, [w.scaled(lw) for w in want]):
            same_quad(env, "scaled dividend", c, w)
        S = B.copy()
        for c in S.components:
            c._add_log_weight(lw)
        for c, w in paired(env, A.divide(S).components, [w.scaled(-lw) for w in want]):
            same_quad(env, "scaled divisor", c, w)
    same_mix(env, "dividend", A, [q for _, q, _ in as_], logs=False)
    same_mix(env, "divisor", B, [q for _, q, _ in bs], logs=False)


def divide_m0(env, names, other, forms, oforms):
    """Division method 0: every component is divided by the single Gaussian that matches the divisor's moments."""
    A, qa, _ = mix(env, "p", list(names), forms, diag=True)
    B, qb, ms = mix(env, "q", list(other), oforms, diag=True, method=env.pick("method of the divisor", [0, 2]))
    m = matched(env, ms)
    o = m.quad()
    r = A.divide(B)
    check_method(env, r, 0)
    for i, (c, w) in enumerate(paired(env, r.components, [q.div(o) for q in qa])):
        same_quad(env, f"component {i}", c, w)
    same_mix(env, "dividend", A, qa, logs=False)
    same_mix(env, "divisor", B, qb, logs=False)


def divide_m1(env, names, other, na, nb, diag=True, last=True):
    """
    Division method 1: the optimiser and the second derivatives are recorded stand-ins with arbitrary results.  Every
    maximum of the quotient that is found becomes a component with the quotient's value and curvature there.
    """
    names, n = list(names), len(names)
    A, qa, _ = mix(env, "p", names, ("can", "both", "can")[:na], diag=diag, method=1)
    B, qb, _ = mix(env, "q", list(other), ("can",) * nb, diag=diag)
    for q in qa:
        for o in qb:
            o = o.over(names)
            for k in range(n):
                env.assume(q.K[k][k] > o.K[k][k])  # the quotient has a maximum
            if n == 2 and not diag:
                D = [[q.K[k][l] - o.K[k][l] for l in range(2)] for k in range(2)]
                env.assume(D[0][0] * D[1][1] > D[0][1] * D[1][0])
    u = point(env, names, "u")
    up = env.arr([u[v] for v in names])
    log_quotient = lambda pt: env.log(total(env, qa, pt)) - env.log(total(env, qb, pt))
    close = (lambda x, y: env.identical([(x, y)])) if env.symbolic else (lambda x, y: abs(x - y) <= 1e-6 * (1 + abs(y)))
    runs, bends = [], []

    def optimiser(fun, x0):
        search = close(scalar(fun(up)), -log_quotient(u))
        x = env.arr([env.real(f"x{len(runs)}_{k}" if search else f"s{k}") for k in range(n)])  # any starting point
        ok = last or len(runs) != na * nb + na - 1
        runs.append((fun, x0, x, ok))
        return Found(fun, x, ok)

    class Hessian:
        def __init__(self, fun, *a, **k):
            self.fun = fun

        def __call__(self, x):
            k = len(bends)
            H = [[env.real(f"c{k}_{i}", "+") if i == j else env.real(f"c{k}_{min(i, j)}{max(i, j)}") for j in range(n)] for i in range(n)]
            if n == 2:
                env.assume(H[0][0] * H[1][1] > H[0][1] * H[1][0])
            bends.append((self.fun, list(env.np.asarray(x).reshape(-1)), H))
            sign = 1 if close(scalar(self.fun(up)), -log_quotient(u)) else -1
            if sign < 0 and not close(scalar(self.fun(up)), log_quotient(u)):
                env.fail("curvature", "of another function than the quotient")
            return env.arr([[sign * v for v in row] for row in H])
    scalar = lambda v: env.np.asarray(v).reshape(-1)[0]
    env.stub_optimiser(optimiser)
    env.stub_hessian(Hessian)
    r = A.divide(B)
    check_method(env, r, 1)
    found = [(x, ok) for fun, _, x, ok in runs if close(scalar(fun(up)), -log_quotient(u))]
    env.true("a maximisation of the quotient for every component", len(found) == na)
    modes = [list(x) for x, ok in found if ok]
    env.true("one component for every curvature", len(bends) == len(r.components))
    for i, (c, (_, at, H)) in enumerate(zip(r.components, bends)):
        env.true("at a maximum that was found", env.any(*[env.both(*[env.same(x, y) for x, y in zip(at, m)]) for m in modes]))
        pt = dict(zip(names, at))
        g = log_quotient(pt) - add_all([at[k] * H[k][l] * at[l] for k in range(n) for l in range(n)]) / 2
        same_quad(env, f"component {i}", c, Quad(env, names, H, [add_all([H[k][l] * at[l] for l in range(n)]) for k in range(n)], g), evaluate=False)
        env.eq(f"component {i}: value at the maximum", c.log_potential([pt[v] for v in c.var_names]), log_quotient(pt))
    for m in modes:
        env.true("every maximum is near a component", env.any(*[env.both(*[abs(x - y) <= 0.01 for x, y in zip(at, m)]) for _, at, _ in bends]))
    same_mix(env, "dividend", A, qa, logs=False)
    same_mix(env, "divisor", B, qb, logs=False)


def vacuity(env, names, n):
    """A mixture is vacuous exactly if all its components are."""
    G = env.mod("veroku.factors.gaussian").Gaussian
    flags = [bool(env.bit(f"vacuous{i}")) for i in range(n)]
    parts = [G.make_vacuous(list(names), g_val=env.real(f"g{i}")) if v else make(env, ("can", "cov")[i % 2], f"p{i}", names, diag=True)[0] for i, v in enumerate(flags)]
    M = env.mod(GM).GaussianMixture(parts)
    env.true("vacuous", bool(M.is_vacuous) == all(flags))
    env.true("copy", bool(M.copy().is_vacuous) == all(flags))


PROPS = {
    "M01": [
        Scenario("vacuity", vacuity, product(names=["a", "ba"], n=[1, 2, 3]), bounds="up to three components, dimension <= 2"),
        Scenario("any origin", any_origin, lambda t: [dict(op=o, names=n, origin=d, method=(i + j) % 3) for i, d in enumerate(MIXED) for j, (o, n) in
                                                      enumerate((("multiply", "ab" if i % 2 else "a"), ("divide", "a" if i % 2 else "ab"), ("reduce", "ab")))],
                 bounds="mixtures that other operations returned; two components, dimension <= 2", limit=90),
        Scenario("components of any origin", evaluate, lambda t: [dict(names="a", forms=("@" + a, "@" + b)) for a, b in zip(DERIVED[::2], DERIVED[1::2])],
                 bounds="components that other operations returned; dimension 1", limit=90),
        Scenario("evaluate", evaluate, lambda t: [dict(names="ab", forms=("cov", "can")), dict(names="a", forms=("both", "can", "canboth")),
                                                  dict(names="b", forms=("cov",))] +
                 tier(t, [], [dict(names="bca", forms=("can", "can", "can")), dict(names="ab", forms=("cov", "both", "can"))]),
                 bounds="up to three components, dimension <= 2 (thorough 3), any point"),
        Scenario("multiply", multiply, lambda t: [
            dict(left="ab", right="ba", fl=("any", "any"), fr="any", method=1), dict(left="ab", right="b", fl=("any", "any"), fr="any", via="mul"),
            dict(left="a", right="ab", fl=("any", "any"), fr="any", via="absorb"), dict(left="ab", right="bc", fl=("any", "any"), fr="any"),
            dict(left="ab", right="ba", fl=("any", "any"), fr=("any", "any")), dict(left="a", right="b", fl=("cov", "can"), fr=("can", "cov")),
            dict(left="ab", right="a", fl=("any",), fr=("any", "any", "any"), method=2), dict(left="a", right="a", fl=("cov", "both"), fr=("cov", "can"))] +
            tier(t, [], [dict(left="ab", right="cb", fl=("any",) * 3, fr=("any",) * 2), dict(left="abc", right="bca", fl=("any",) * 2, fr=("any",) * 3),
                         dict(left="ab", right="ba", fl=("cov", "can"), fr=("cov", "can"))]),
            bounds="up to three components each, arbitrary parameters, up to 3 joint variables", limit=60),
        Scenario("itself", itself, [dict(names="a", forms=("cov", "can")), dict(names="ab", forms=("can",)), dict(names="ba", forms=("can", "both"), diag=True)], bounds="the same object as both operands; two components, dimension <= 2", limit=60),
        Scenario("larger", evaluate, lambda t: [dict(names=n, forms=f, diag="wide") for n, f in (("dbca", ("cov", "can", "both")), ("ab", ("can",) * 5), ("ebdca", ("can", "can")), ("a", ("can",) * 8))],
                 bounds=f"up to eight components, dimension <= 5, {WIDE}", limit=90),
        Scenario("larger products", multiply, lambda t: [dict(left=l, right=r, fl=["wide " + f for f in a], fr=b if isinstance(b, str) else ["wide " + f for f in b], method=k) for l, r, a, b, k in
                                                         (("dbca", "ebd", ("can", "can"), ("can", "can"), 1), ("ab", "ba", ("can",) * 4, ("can",) * 3, 0), ("cab", "dab", ("can",) * 3, "wide can", 2))],
                 bounds=f"up to four by three components, up to five joint variables, {WIDE}", limit=90),
        Scenario("larger observed", reduce, lambda t: [dict(names="dbca", forms=("wide can", "wide cov"), obs=o, method=k) for o, k in (("b", 0), ("da", 1), ("acb", 2))] +
                 [dict(names="ab", forms=["wide can"] * 5, obs="a")],
                 bounds=f"up to five components, dimension <= 4, {WIDE}", limit=90),
        Scenario("divide", divide, lambda t: [
            dict(left="ab", right="ba", fl=("any", "any"), fr="any", method=1), dict(left="ab", right="b", fl=("any", "any", "any"), fr=("any",), method=2),
            dict(left="a", right="a", fl=("cov", "can"), fr="cov", via="div"), dict(left="ab", right="bc", fl=("any", "any"), fr=("any",), via="cancel")],
            bounds="up to three components by one Gaussian", limit=60),
        Scenario("divide by matched", divide_matched, lambda t: [dict(names="a", fl=("cov", "can"), fr=("cov", "cov"))] +
                 tier(t, [], [dict(names="ab", fl=("cov",), fr=("cov", "cov")), dict(names="a", fl=("cov",), fr=("cov", "cov", "cov"))]),
                 bounds="two by two components, dimension 1", limit=60),
        Scenario("reduce", reduce, lambda t: [dict(names="ab", forms=("any", "any"), obs=o, method=m) for m, o in ((0, "a"), (1, "b"))] +
                 [dict(names="bca", forms=("any", "any"), obs=o) for o in ("ac", "ba", "c")] +
                 [dict(names="ab", forms=("cov", "both", "can"), obs="b")],
                 bounds="up to three components, dimension <= 3"),
    ],
    "M02": [
        Scenario("slight differences", slight_gauss, product(op=["normalise"], near=["mixture"], form=["cov", "can"]), bounds="one variable; parameters within [-1, 3] and differences of 0.00002 to 0.00004"),
        Scenario("any origin", any_origin, lambda t: [dict(op="weights", names="a", origin=d, method=i % 3) for i, d in enumerate(MIXED)] +
                 [dict(op="marginal", names="ab", origin=d, method=i % 3) for i, d in enumerate(MIXED)],
                 bounds="mixtures that other operations returned; two components, dimension <= 2", limit=90),
        Scenario("components of any origin", weights, lambda t: [dict(names="a", forms=("@" + a, "@" + b)) for a, b in zip(DERIVED[::2], DERIVED[1::2])],
                 bounds="components that other operations returned; dimension 1", limit=90),
        Scenario("weights", weights, lambda t: [dict(names="a", forms=("cov", "can")), dict(names="a", forms=("cov", "both", "canboth")),
                                                dict(names="ba", forms=("cov", "both")), dict(names="ba", forms=("cov", "can"), diag=True)] +
                 tier(t, [], [dict(names="ab", forms=("can", "can")), dict(names="ab", forms=("cov", "cov", "both"))]),
                 bounds="up to three components, dimension <= 2", limit=60),
        Scenario("marginal", marginal, lambda t: [dict(names="ab", forms=("cov", "can"), vrs=v, keep=k, method=m) for v, k, m in
                                                  (("a", True, 0), ("b", True, 1), ("a", False, 2), ("ba", True, 2))] +
                 [dict(names="ab", forms=("cov", "both"), vrs="b", diag=True)] +
                 tier(t, [], [dict(names="cab", forms=("cov", "can"), vrs=v, keep=k) for v, k in (("bc", True), ("a", True), ("c", False))]),
                 bounds="two components, dimension 2 (thorough 3)", limit=60),
        Scenario("moment match", moment_match, lambda t: [dict(names="a", forms=("cov", "can")), dict(names="a", forms=("cov", "cov", "cov")),
                                                          dict(names="ba", forms=("cov", "both")), dict(names="ba", forms=("cov",))] +
                 tier(t, [], [dict(names="ab", forms=("cov", "cov", "cov")), dict(names="ab", forms=("can", "cov"), diag=True)]),
                 bounds="up to three components, dimension <= 2", limit=60),
        Scenario("larger", weights, lambda t: [dict(names=n, forms=f, diag="wide") for n, f in (("dbca", ("cov", "can")), ("ab", ("cov", "can", "both", "canboth")), ("ba", ("cov",) * 6))],
                 bounds=f"up to six components, dimension <= 4, {WIDE}", limit=90),
        Scenario("larger marginal", marginal, lambda t: [dict(names=n, forms=f, vrs=v, keep=k, diag="wide", method=m) for n, f, v, k, m in
                                                         (("dbca", ("cov", "can"), "cb", True, 0), ("dbca", ("both", "can"), "ac", False, 1), ("ab", ("cov",) * 5, "b", True, 2))],
                 bounds=f"up to five components, dimension <= 4, {WIDE}", limit=90),
        Scenario("larger matched", moment_match, lambda t: [dict(names=n, forms=f, diag="wide") for n, f in (("cba", ("cov", "cov")), ("dbca", ("cov", "both")), ("ab", ("cov",) * 4))],
                 bounds=f"up to four components, dimension <= 4, {WIDE}", limit=90),
        Scenario("split", split, product(form=["cov", "can", "both"]), bounds="dimension 1"),
    ],
    "M03": [
        Scenario("any origin", any_origin, lambda t: [dict(op="equals", names="a", origin=d) for d in MIXED if d not in ("copy", "from copy", "marginal")],
                 bounds="mixtures that other operations returned; dimension 1", limit=90),
        Scenario("pairing", equal_exact, lambda t: [dict(left=l, right=r) for l, r in
                                                    (((0,), (0,)), ((0,), (1,)), ((0, 1), (1, 0)), ((0, 1), (0, 0)), ((0, 0), (0, 1)), ((0, 0, 1), (0, 1, 1)),
                                                     ((0, 1, 1), (1, 0, 1)))] +
                 [dict(left=(0, 1, 2), right=r, pool=3) for r in ((2, 0, 1), (1, 1, 2), (2, 1, 2))] +
                 [dict(left=(0, 1), right=(1, 0), names="ab"), dict(left=(0, 1), right=(2, 0), pool=3)],
                 bounds="up to three components with repetitions, dimension <= 2, exact comparison"),
        Scenario("tolerance", equal_tolerance, lambda t: [dict(n=n, rel=r) for n in (1, 2) for r in (False, True)] + [dict(n=3, fixed=True, rel=r) for r in (False, True)] +
                 tier(t, [], [dict(n=3), dict(n=3, rel=True)]),
                 bounds="two components, or three of which one is fixed (thorough: one more), absolute tolerance 1/2 or relative tolerance 1/10 on real parameters", max_paths=20000),
        Scenario("number", equal_number, [dict(left=a, right=b) for a, b in ((1, 2), (2, 1), (3, 2), (2, 3))], bounds="up to three"),
    ],
    "M04": [
        Scenario("mode", mode, lambda t: [dict(names="a", forms=("cov",)), dict(names="a", forms=("cov", "can")), dict(names="a", forms=("both", "cov", "can"), objective=False, outcomes=(True, False, True)),
                                          dict(names="ba", forms=("can", "cov"), objective=False), dict(names="ab", forms=("cov", "cov", "both"), objective=False, outcomes=(True, True, False))] +
                 tier(t, [], [dict(names="a", forms=("both", "cov", "can"), objective=False), dict(names="ab", forms=("cov", "can"), diag=False), dict(names="a", forms=("cov", "can", "both", "cov"), objective=False)]),
                 bounds="up to three (thorough four) components, dimension <= 2; any points from the local optimiser, each run converging or not", limit=60),
        Scenario("fitted model", imported, lambda t: [dict(names="a", n=2), dict(names="ba", n=2), dict(names="ab", n=1)] + tier(t, [], [dict(names="cab", n=2), dict(names="ab", n=3)]),
                 bounds="up to three components, dimension <= 2 (thorough 3)"),
    ],
    "M05": [
        Scenario("by the matched Gaussian", divide_m0, [dict(names="a", other="a", forms=["can"], oforms=["cov", "cov"]), dict(names="a", other="a", forms=["cov", "can"], oforms=["cov", "can"]),
                                                        dict(names="ab", other="a", forms=["can"], oforms=["cov", "cov"]), dict(names="a", other="a", forms=["both"], oforms=["cov"] * 3)],
                 bounds="up to two by two or one by three components, dimension 1 (dividend <= 2)", limit=90),
        Scenario("modes of the quotient", divide_m1, [dict(names="a", other="a", na=1, nb=2), dict(names="a", other="a", na=2, nb=2), dict(names="a", other="a", na=2, nb=2, last=False),
                                                      dict(names="ab", other="ab", na=1, nb=2), dict(names="ab", other="ba", na=1, nb=2), dict(names="ab", other="ba", na=2, nb=2),
                                                      dict(names="ab", other="ba", na=1, nb=2, diag=False), dict(names="cab", other="bca", na=1, nb=2), dict(names="a", other="a", na=3, nb=3)],
                 bounds="up to three by three components, dimension <= 3 (mostly diagonal precisions); any points from the optimiser, any curvatures", limit=90),
        Scenario("exact", divide_m2, lambda t: [dict(na=1, nb=2, proportional=True), dict(na=2, nb=2, proportional=True), dict(na=2, nb=3, proportional=True)]
                 + [dict(na=n, nb=2, proportional=True, wide=w) for n, w in ((1, [0]), (2, [1]), (2, [0, 1]))]
                 + [dict(na=1, nb=2, proportional=True, wide=w, names="ba") for w in ([], [0, 1], [1])]
                 + [dict(na=3, nb=2, proportional=True, wide=[1]), dict(na=2, nb=3, proportional=True, wide=[0], names="ab"), dict(na=1, nb=2, proportional=True, wide=[1], names="cab")],
                 bounds="up to two by three components with proportional components in the divisor, more or less precise than the dividend, dimension <= 3 (above one: diagonal precisions)", limit=90),
        Scenario("matched", divide_m2, lambda t: [dict(na=n, nb=2, shape=sh, scale=sc) for sh in ("centre", "spread") for n, sc in ((1, False), (1, True), (2, False))]
                 + [dict(na=1, nb=3, shape=sh) for sh in ("centre", "spread")],
                 bounds="up to two by two or one by three components, dimension 1, where the dividend's components are the more precise ones", limit=90),
    ],
}
