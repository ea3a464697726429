"""Sigma points and nonlinear Gaussians with affine transforms (N01-N02)."""
import itertools

from . import Scenario, marg, product
from ._gauss import DERIVED, Mom, Quad, cov_gauss, gauss_mod, make, paired, point, rows, same_mom, same_quad
from ._tables import add_all
from .gaussian import WIDE, cpd_ref

SP = "veroku.factors._sigma_points"
NL = "veroku.factors.experimental.nonlinear_gaussian"
GM = "veroku.factors.experimental.gaussian_mixture"


# ------------------------------------------------------------------------------------------------------------- N01
def col_moments(env, pts):
    n, k = pts.shape
    mean = [add_all([pts[i, c] for c in range(k)]) / float(k) for i in range(n)]
    cov = [[add_all([(pts[i, c] - mean[i]) * (pts[j, c] - mean[j]) for c in range(k)]) / float(k) for j in range(n)]
           for i in range(n)]
    return mean, cov


def flat(env, c, n):
    return [[c[i, j] for j in range(n)] for i in range(n)] if n > 1 else [[c.reshape(-1)[0] if hasattr(c, "reshape") else c]]


def sigma(env, n, form, free=False):
    names = ["c", "a", "b", "d", "x10", "x9"][:n]
    f, q, m = make(env, form, "p", names, free)
    m = m or q.moments()
    env.true("order", list(f.var_names) == m.names)
    S = env.mod(SP)
    pts = S.get_sigma_points_array(f)
    mean, cov = col_moments(env, pts)
    env.eq("mean of the points", mean, m.mean)
    env.eq("covariance of the points", cov, m.cov)
    c2, m2 = S.sigma_point_array_to_gaussian_params(pts)
    env.eq("recovered mean", m2, [[x] for x in m.mean])
    env.eq("recovered covariance", flat(env, c2, n), m.cov)
    c3, m3 = S.sigma_points_to_gaussian_params([pts[:, i:i + 1] for i in range(pts.shape[1])])
    env.eq("recovered mean from list", m3, [[x] for x in m.mean])
    env.eq("recovered covariance from list", flat(env, c3, n), m.cov)


def push(env, n, k, form="cov"):
    names = ["c", "a", "b", "d", "x10", "x9"][:n]
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    S = env.mod(SP)
    A, b = env.mat("A", k, n), env.vec("b", k)
    pts = S.get_sigma_points_array(f)
    C, mu = S.sigma_points_array_to_joint_params(pts, lambda x, vs: A @ x + b, names)
    AS = [[add_all([A[i, r] * m.cov[r][j] for r in range(n)]) for j in range(n)] for i in range(k)]
    ASA = [[add_all([AS[i][r] * A[j, r] for r in range(n)]) for j in range(k)] for i in range(k)]
    Am = [add_all([A[i, r] * m.mean[r] for r in range(n)]) + b[i, 0] for i in range(k)]
    env.eq("joint mean", mu, [[x] for x in m.mean + Am])
    env.eq("joint covariance", C, [list(m.cov[i]) + [AS[j][i] for j in range(k)] for i in range(n)] +
           [AS[i] + ASA[i] for i in range(k)])


# ------------------------------------------------------------------------------------------------------------- N02
class Cpd:
    """A nonlinear Gaussian with an affine transform, and its function."""

    def __init__(self, env, xs, ys, offset=True, diag=True, lw=False, pre=""):
        xs, ys = list(xs), list(ys)
        nx, ny = len(xs), len(ys)
        self.env, self.xs, self.ys = env, xs, ys
        A = env.mat(pre + "A", ny, nx)
        b = env.vec(pre + "b", ny) if offset else None
        N = env.spd(pre + "N", ny, diag=diag)
        w = env.real(pre + "lw") if lw else 0.0

        def transform(x, var_names):
            # the rows of x are given in the order of var_names
            order = [list(var_names).index(v) for v in xs]
            r = A @ x[order, :]
            return r + b if b is not None else r
        self.f = env.mod(NL).NonLinearGaussian(list(xs), list(ys), transform, N.copy(), log_weight=w)
        q = cpd_ref(env, A, N, xs, ys)
        if b is not None:
            # N(y; Ax + b): shift y
            K = env.inv(rows(N))
            bb = [b[i, 0] for i in range(ny)]
            Kb = [add_all([K[i][j] * bb[j] for j in range(ny)]) for i in range(ny)]
            h = [-add_all([A[i, j] * Kb[i] for i in range(ny)]) for j in range(nx)] + Kb
            q = Quad(env, q.names, q.K, h, q.g - add_all([bb[i] * Kb[i] for i in range(ny)]) * 0.5)
        self.q = q.scaled(w)


def params_equal(env, label, f, q):
    """The getters of the nonlinear Gaussian itself."""
    vs = list(f.joint_distribution.var_names)
    q = q.over(vs)
    env.eq(f"{label}: h", f.get_h(), [[x] for x in q.h])
    env.eq(f"{label}: precision", f.get_prec(), q.K)
    env.eq(f"{label}: g", f.get_g(), q.g)


def nl_joint(env, xs, ys, scope, form="cov", offset=True, lw=False, diag=True):
    c = Cpd(env, xs, ys, offset=offset, lw=lw, diag=diag)
    f, q, m = make(env, form, "p", scope, diag=diag)
    r = c.f.multiply(f)
    ref = c.q.times(q)
    same_quad(env, "joint", r.joint_distribution, ref, evaluate=False)
    params_equal(env, "getters", r, ref)
    same_quad(env, "prior", f, q, evaluate=False, order=q.names)
    env.true("operand stays vacuous", c.f.joint_distribution._is_vacuous)


def nl_evidence(env, xs, ys, scope, obs, update=None, order=0, offset=False, lw=False, diag=True):
    """Prior over `scope` (or none), an update of some conditional variables, evidence on any variables, in any order."""
    c = Cpd(env, xs, ys, offset=offset, lw=lw, diag=diag)
    ops = []
    ref = c.q
    if scope:
        f, q, _ = make(env, "cov", "p", scope, diag=diag)
        ops.append(lambda r: r.multiply(f))
        ref = ref.times(q)
    if update:
        u, qu, _ = make(env, "cov", "u", update, diag=diag)
        ops.append(lambda r: r.multiply(u))
        ref = ref.times(qu)
    vals = {v: env.real(f"o_{v}") for v in sorted(obs)}
    if obs:
        ops.append(lambda r: r.reduce(list(obs), [vals[v] for v in obs]))
    ops = list(itertools.permutations(ops))[order % max(1, len(list(itertools.permutations(ops))))]
    r = c.f
    for op in ops:
        r = op(r)
    same_quad(env, "joint", r.joint_distribution, ref.slice(vals), evaluate=False)


def nl_steps(env, xs, ys, first, then, scope):
    """Observing in steps."""
    c = Cpd(env, xs, ys, offset=False)
    f, q, _ = make(env, "cov", "p", scope, diag=True)
    vals = {v: env.real(f"o_{v}") for v in sorted(first + then)}
    r = c.f.reduce(list(first), [vals[v] for v in first]).multiply(f).reduce(list(then), [vals[v] for v in then])
    same_quad(env, "joint", r.joint_distribution, c.q.times(q).slice(vals), evaluate=False)


def nl_divide(env, xs, ys, scope, div, where, offset=False):
    """Multiplying a message in and dividing it out again, over conditioning or conditional variables."""
    c = Cpd(env, xs, ys, offset=offset)
    f, q, _ = make(env, "cov", "p", scope, diag=True)
    g, qg, _ = make(env, "cov", "r", div, diag=True)
    if where == "undo":
        r = c.f.multiply(f).multiply(g).divide(g)
        ref = c.q.times(q)
    elif where == "undo first":
        r = c.f.multiply(g).multiply(f).divide(g)
        ref = c.q.times(q)
    else:  # divide by a factor that was not multiplied in (over conditional variables)
        r = c.f.multiply(f).divide(g)
        ref = c.q.times(q).div(qg)
    same_quad(env, "joint", r.joint_distribution, ref, evaluate=False)
    params_equal(env, "getters", r, ref)


def nl_marginal(env, xs, ys, scope, vrs, keep=True, update=None, lw=False):
    c = Cpd(env, xs, ys, offset=True, lw=lw)
    f, q, _ = make(env, "cov", "p", scope, diag=True)
    r, ref = c.f.multiply(f), c.q.times(q)
    if update:
        u, qu, _ = make(env, "cov", "u", update, diag=True)
        r, ref = r.multiply(u), ref.times(qu)
    out = [n for n in ref.names if n not in vrs] if keep else list(vrs)
    m = marg(r, vrs, keep)
    same_quad(env, "marginal", m, ref.integrate(out), evaluate=False)
    same_quad(env, "operand", r.joint_distribution, ref, evaluate=False)


def nl_vacuous(env, xs, ys, scope, obs):
    """Too little information about the conditioning variables."""
    c = Cpd(env, xs, ys)
    r = c.f
    if scope:
        f, q, _ = make(env, "cov", "p", scope, diag=True)
        r = r.multiply(f)
    if obs:
        r = r.reduce(list(obs), [env.real(f"o_{v}") for v in obs])
    j = r.joint_distribution
    env.true("vacuous", j._is_vacuous and j.is_vacuous)
    env.true("scope", sorted(j.var_names) == sorted(xs + ys))
    m = r.marginalize(list(xs))
    if not scope:
        env.true("marginal is vacuous", m._is_vacuous)
    for v in ys:
        if v not in scope and v not in obs:
            m = r.marginalize([v])
            env.true("marginal of an unknown variable is vacuous", m._is_vacuous and m.is_vacuous)
            env.true("scope of the marginal", list(m.var_names) == [v])
    if scope and not obs and set(scope) <= set(xs):
        # the conditional integrates to one over the conditional variables
        same_quad(env, "marginal of the known part", r.marginalize(list(scope)), q, evaluate=False)
    names = list(xs) + list(ys)
    for k in range(1, len(names)):
        for kept in itertools.combinations(names, k):
            # the same marginal, whether the kept or the removed variables are given
            m, other = r.marginalize(list(kept)), r.marginalize([v for v in names if v not in kept], keep=False)
            env.true("either way: vacuous", m.is_vacuous == other.is_vacuous)
            env.true("either way: scope", sorted(m.var_names) == sorted(other.var_names))
            if not m.is_vacuous and not other.is_vacuous and sorted(m.var_names) == sorted(other.var_names):
                for key in ("get_prec", "get_h", "get_g"):
                    env.eq("either way: " + key, getattr(m, key)(), getattr(other, key)())
    env.true("still vacuous", r.joint_distribution._is_vacuous)


def nl_weight(env, xs, ys):
    c = Cpd(env, xs, ys, offset=False, lw=True)
    f, q, m = make(env, "cov", "p", xs, diag=True)
    r = c.f.multiply(f)
    d = env.real("d")
    r.add_log_weight(d)
    ref = c.q.times(q).scaled(d)
    env.eq("log weight", r.get_log_weight(), c.f.log_weight + m.lw + d)
    same_quad(env, "joint", r.joint_distribution, ref, evaluate=False)
    n = r.normalize()
    env.eq("normalised", n.get_log_weight(), 0.0)
    env.eq("mean", n.get_mean(), r.get_mean())
    env.eq("covariance", n.get_cov(), r.get_cov())


OPS = ("prior", "update", "observe x", "observe y", "read", "copy", "reweight", "cancel")


def nl_history(env, n, ops=OPS, first=None):
    """Any sequence of products, observations, reads and copies; one conditioning and two conditional variables."""
    c = Cpd(env, "x", "yz", offset=False)
    r, ref = c.f, c.q
    vals = {}
    informed = improper = False
    for i in range(n):
        k = first if first and i == 0 else env.pick(f"op{i}", list(ops))
        if k == "prior":
            f, q, _ = make(env, "cov", f"p{i}", "x")
            r, ref = r.multiply(f), ref.times(q)
            informed = True
        elif k == "update":
            f, q, _ = make(env, "can", f"u{i}", "y", diag=True)
            r, ref = r.multiply(f), ref.times(q)
        elif k == "observe x":
            vals["x"] = env.real(f"ox{i}")
            r = r.reduce(["x"], [vals["x"]])
            informed = True
        elif k == "observe y":
            vals["y"] = env.real(f"oy{i}")
            r = r.reduce(["y"], [vals["y"]])
        elif k == "reweight":
            d = env.real(f"d{i}")
            r.add_log_weight(d)
            ref = ref.scaled(d)
        elif k == "cancel":
            f, q, _ = make(env, "can", f"c{i}", "z", diag=True)
            r, ref, improper = r.divide(f), ref.div(q), True
        elif k == "read":
            for get in (r.get_g, r.get_h, r.get_prec) + (() if improper else (r.get_log_weight, r.get_mean, r.get_cov)):
                env.attempt(get)
            if informed:
                env.eq("g", r.get_g(), ref.slice(vals).g)
        elif k == "copy":
            r = r.copy()
    j = r.joint_distribution
    if informed:
        now = ref.slice(vals)
        # every getter on its own, since one of them may refresh what another one returns
        over = now.over(list(j.var_names))
        env.eq("h", r.copy().get_h(), [[x] for x in over.h])
        env.eq("precision", r.copy().get_prec(), over.K)
        env.eq("g", r.copy().get_g(), over.g)
        if not improper:
            for get in ("get_log_weight", "get_mean", "get_cov"):
                env.eq(get, getattr(r.copy(), get)(), getattr(j.copy(), get)())
            if len(now.names) > 1:
                m = r.marginalize([now.names[-1]])
                for get in ("get_log_weight", "get_mean", "get_cov"):
                    env.eq(f"marginal: {get}", getattr(m, get)(), getattr(j.marginalize([now.names[-1]]), get)())
        params_equal(env, "getters", r, now)
        same_quad(env, "joint", j, now, evaluate=False)
    else:
        env.true("vacuous", j._is_vacuous)


def nl_equals(env, read):
    """Comparison looks at the current joint, whatever was read before."""
    c = Cpd(env, "x", "y", offset=False)
    f, q, _ = make(env, "cov", "p", "x")
    r = c.f.multiply(f)
    if read:
        r.get_g()
    j = c.q.times(q)
    same = gauss_mod(env).Gaussian(prec=env.arr(j.K), h_vec=env.arr([[v] for v in j.h]), g_val=j.g, var_names=["x", "y"])
    env.true("equal to its joint", r.equals(same))
    env.true("equal to its joint (back)", same.equals(r.joint_distribution))
    w = env.real("w", "+")
    env.assume(w > 2)
    other = gauss_mod(env).Gaussian(prec=env.arr(j.K), h_vec=env.arr([[v] for v in j.h]), g_val=j.g + env.log(w), var_names=["x", "y"])
    env.true("different from another", not r.equals(other))


def nlm_check(env, label, M, quads):
    """The joint of the mixture of conditionals is the sum of the component joints."""
    J = M.joint_distribution
    env.true(f"{label}: components", len(J.components) == len(quads))
    for comp, q in paired(env, J.components, quads):
        same_quad(env, label, comp, q, evaluate=False)


def nlm(env, op, split=False, comps=2):
    cs = [Cpd(env, "x", "y", offset=False, pre=f"c{i}") for i in range(comps)]
    NLGM = env.mod(NL).NonLinearGaussianMixture
    M = NLGM([c.f for c in cs], split_singles_before_absorb=split)
    G, Mix = gauss_mod(env).Gaussian, env.mod(GM).GaussianMixture
    pri = [make(env, "cov", f"p{i}", "x") for i in range(2)]
    if op == "single":
        r = M.multiply(pri[0][0])
        pq = [pri[0][1]]
        if split:
            pq = None
    else:
        r = M.multiply(Mix([p[0] for p in pri]))
        pq = [p[1] for p in pri]
    env.true("split setting kept", r.split_singles_before_absorb == split)
    if pq is None:
        # the prior is replaced by its three-way split
        env.eq("weight", r.joint_distribution.get_log_weight(), env.log(add_all([env.exp(pri[0][2].lw) for _ in cs])))
        s = pri[0][0]._split_gaussian()
        pq = [Quad(env, ["x"], rows(g.get_prec()), [g.get_h()[0, 0]], g.get_g()) for g in s.components]
    ref = [c.q.times(p) for p in pq for c in cs]
    if op in ("single", "mixture"):
        nlm_check(env, "joint", r, ref)
    elif op == "update":
        u, qu, _ = make(env, "cov", "u", "y")
        if split:
            s = u._split_gaussian()
            uq = [Quad(env, ["y"], rows(g.get_prec()), [g.get_h()[0, 0]], g.get_g()) for g in s.components]
        else:
            uq = [qu]
        nlm_check(env, "joint", r.multiply(u), [a.times(b) for b in uq for a in ref])
    elif op == "divide":
        u, qu, _ = make(env, "cov", "u", "y")
        nlm_check(env, "joint", r.divide(u), [a.div(qu) for a in ref])
    elif op == "divide matched":
        us = [make(env, "cov", f"u{i}", "y") for i in range(1)]
        nlm_check(env, "joint", r.divide(Mix([u[0] for u in us])), [a.div(us[0][1]) for a in ref])
    elif op == "reduce":
        v = env.real("o")
        nlm_check(env, "joint", r.reduce(["y"], [v]), [a.slice({"y": v}) for a in ref])
    elif op == "marginal":
        m = r.marginalize(["y"])
        env.true("components", len(m.components) == len(ref))
        for comp, a in paired(env, m.components, [a.integrate(["x"]) for a in ref]):
            same_quad(env, "marginal", comp, a, evaluate=False)
    elif op == "copy":
        nlm_check(env, "joint", r.copy(), ref)
        env.true("split setting of the copy", r.copy().split_singles_before_absorb == split)
    nlm_check(env, "operand", r, ref)


def nlm_then(env, op, split):
    """The choice whether absorbed one-dimensional Gaussians are split survives every operation."""
    c = Cpd(env, "x", "y", offset=False)
    f, q, _ = make(env, "cov", "p", "x")
    M = env.mod(NL).NonLinearGaussianMixture([c.f.multiply(f)], split_singles_before_absorb=split)
    ref = c.q.times(q)
    u, qu, _ = make(env, "cov", "u", "y")
    if op == "reduce":
        v = env.real("o")
        M, ref = M.reduce(["x"], [v]), ref.slice({"x": v})
    elif op == "divide":
        M, ref = M.divide(u), ref.div(qu)
    elif op == "divide mixture":
        M, ref = M.divide(env.mod(GM).GaussianMixture([u])), ref.div(qu)
    elif op == "copy":
        M = M.copy()
    elif op == "multiply":
        M = M.multiply(env.mod(GM).GaussianMixture([u, u]))
        ref = ref.times(qu)
    n = 2 if op == "multiply" else 1
    env.true("split setting", M.split_singles_before_absorb == split)
    w, qw, _ = make(env, "cov", "w", "y")
    if split:
        env.true("components", len(M.multiply(w).nlgs) == 3 * n)
    else:
        nlm_check(env, "joint", M.multiply(w), [ref.times(qw)] * n)


def nl_times_mixture(env):
    """A conditional times a mixture is the mixture of conditionals."""
    c = Cpd(env, "x", "y", offset=False)
    pri = [make(env, "cov", f"p{i}", "x") for i in range(2)]
    r = c.f.multiply(env.mod(GM).GaussianMixture([p[0] for p in pri]))
    nlm_check(env, "joint", r, [c.q.times(p[1]) for p in pri])


def nl_vacuous_factor(env, op, scope, when, mixture=False, split=False, form="vac"):
    """A vacuous factor is the constant exp(g); absorbing it scales the function, and gives a factor of its own."""
    c = Cpd(env, "x", "y", offset=False, lw=True)
    p, q, _ = make(env, "cov", "p", "x")
    v, qv, _ = make(env, form, "v", scope)
    if form == "any":
        env.assume(v.get_prec()[0, 0] <= -0.001)   # zero precision counts as vacuous, whatever h is
    ref = c.q.times(q)
    r = c.f
    if when == "after":
        r = r.multiply(p)
    if mixture:
        r = env.mod(NL).NonLinearGaussianMixture([r], split_singles_before_absorb=split)
    w = r.multiply(v) if op == "multiply" else r.divide(v)
    out = w
    if when == "before":
        r, out = r.multiply(p), w.multiply(p)
    want = ref.times(qv) if op == "multiply" else ref.div(qv)
    if mixture:
        nlm_check(env, "absorbed", out, [want])
        nlm_check(env, "operand", r, [ref])
        return
    same_quad(env, "absorbed", out.joint_distribution, want, evaluate=False)
    w.add_log_weight(env.real("d"))
    same_quad(env, "operand", r.joint_distribution, ref, evaluate=False)
    same_quad(env, "operand, once more", c.f.multiply(p).joint_distribution, ref, evaluate=False)


def tier(t, q, th):
    return q if t == "quick" else th


PROPS = {
    "N01": [
        Scenario("any origin", sigma, lambda t: [dict(n=n, form="@" + d) for d in DERIVED for n in (1, 2)], bounds="Gaussians that other operations returned; dimension <= 2", limit=90),
        Scenario("sigma points", sigma, lambda t: [dict(n=n, form=f) for n in (1, 2) for f in ("cov", "can", "both")] + [dict(n=3, form="cov"), dict(n=2, form="cov", free=True)] +
                 tier(t, [], [dict(n=3, form="can"), dict(n=3, form="cov", free=True), dict(n=4, form="cov")]),
                 bounds="dimension <= 3 (thorough 4), any mean and positive-definite covariance", limit=120),
        Scenario("affine image", push, lambda t: [dict(n=n, k=k) for n, k in tier(t, [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)], [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (3, 3), (1, 3)])],
                 bounds="dimension <= 3, any affine transform", limit=120),
        Scenario("larger", sigma, lambda t: [dict(n=n, form="wide " + f) for n, f in ((4, "cov"), (5, "cov"), (4, "can"))] + tier(t, [], [dict(n=6, form="wide cov"), dict(n=5, form="wide can")]),
                 bounds=f"dimension 4 and 5 (thorough 6), {WIDE}", limit=120),
        Scenario("larger affine image", push, lambda t: [dict(n=n, k=k, form="wide cov") for n, k in ((4, 1), (4, 2), (5, 1), (1, 4), (2, 4))] + tier(t, [], [dict(n=4, k=4, form="wide cov")]),
                 bounds=f"up to five dimensions mapped to up to four, any affine transform, {WIDE}", limit=120),
    ],
    "N02": [
        Scenario("priors of any origin", nl_joint, lambda t: [dict(xs="x", ys="y", scope="x", form="@" + d, offset=False) for d in DERIVED], bounds="priors that other operations returned; one conditioning and conditional variable", limit=90),
        Scenario("joint", nl_joint, lambda t: [dict(xs="x", ys="y", scope="x", form=f, lw=True) for f in ("cov", "can", "both")] +
                 [dict(xs="xw", ys="y", scope=s) for s in ("xw", "wx")] + [dict(xs="x", ys="yz", scope="x"), dict(xs="x", ys="zy", scope="x", diag=False)] +
                 tier(t, [], [dict(xs="xw", ys="yz", scope="wx"), dict(xs="xw", ys="y", scope="wx", diag=False)]),
                 bounds="up to two conditioning and conditional variables, any affine transform, noise and prior", limit=120),
        Scenario("larger", nl_joint, lambda t: [dict(xs="xwv", ys="y", scope=s, diag="wide", lw=True) for s in ("xwv", "vxw")] + [dict(xs="x", ys="zyu", scope="x", diag="wide")] +
                 tier(t, [], [dict(xs="xw", ys="yz", scope="wx", diag="wide")]),
                 bounds=f"three conditioning or conditional variables, any affine transform, {WIDE}", limit=120),
        Scenario("larger, evidence", nl_evidence, lambda t: [dict(xs="xwv", ys="y", scope=s, obs=o, order=k, diag="wide") for s, o, k in (("vxw", "y", 0), ("vx", "w", 1), ("xwv", "vy", 1), ("w", "xv", 0), ("wv", "xy", 1))] +
                 [dict(xs="x", ys="zyu", scope="x", obs=o, update=u, order=k, diag="wide") for o, u, k in (("y", "", 0), ("u", "yz", 1), ("zu", "y", 3), ("uy", "", 1))],
                 bounds=f"three conditioning or conditional variables, {WIDE}", limit=120),
        Scenario("evidence", nl_evidence, lambda t: [dict(xs="x", ys="y", scope=s, obs=o, update=u, order=k) for s, o, u, k in
                                                     (("x", "y", "", 0), ("x", "y", "", 1), ("", "x", "", 0), ("x", "x", "", 0), ("x", "xy", "", 1), ("", "yx", "", 0),
                                                      ("x", "", "y", 1), ("x", "y", "y", 3), ("", "x", "y", 1), ("x", "x", "y", 5))] +
                 [dict(xs="xw", ys="y", scope=s, obs=o, order=k, lw=w) for s, o, k, w in
                  (("x", "w", 0, False), ("w", "x", 1, True), ("xw", "w", 0, True), ("wx", "x", 1, False), ("", "wx", 0, True), ("w", "yx", 0, False), ("wx", "yw", 1, False))] +
                 [dict(xs="x", ys="yz", scope="x", obs=o, update=u, order=k, lw=w) for o, u, k, w in
                  (("y", "", 0, False), ("z", "y", 2, True), ("zy", "", 1, False), ("y", "zy", 4, False), ("zx", "y", 0, False))] +
                 [dict(xs="x", ys="y", scope="x", obs="y", offset=True, lw=True)],
                 bounds="up to two conditioning or conditional variables, evidence and updates in any order", limit=120),
        Scenario("evidence in steps", nl_steps, [dict(xs="xw", ys="y", first=a, then=b, scope=s) for a, b, s in (("x", "w", "x"), ("w", "y", "x"), ("y", "x", "wx"))] +
                 [dict(xs="x", ys="yz", first="z", then="y", scope="x")], bounds="three variables", limit=120),
        Scenario("divide", nl_divide, [dict(xs="x", ys="y", scope="x", div=d, where=w) for d, w in (("x", "undo"), ("x", "undo first"), ("y", "undo"), ("y", "undo first"), ("y", "plain"))] +
                 [dict(xs="xw", ys="y", scope="wx", div=d, where=w) for d, w in (("x", "undo"), ("xw", "undo"), ("y", "plain"))] +
                 [dict(xs="x", ys="yz", scope="x", div=d, where=w) for d, w in (("z", "undo"), ("zy", "undo first"), ("z", "plain"))],
                 bounds="up to three variables", limit=120),
        Scenario("marginal", nl_marginal, [dict(xs="x", ys="y", scope="x", vrs=v, keep=k, update=u, lw=w) for v, k, u, w in
                                           (("x", True, "", True), ("y", True, "", True), ("y", False, "", False), ("x", False, "y", False), ("yx", True, "", False))] +
                 [dict(xs="xw", ys="y", scope="wx", vrs=v) for v in ("y", "wy", "x")] + [dict(xs="x", ys="yz", scope="x", vrs=v) for v in ("z", "zx", "zy")],
                 bounds="up to three variables", limit=120),
        Scenario("too little information", nl_vacuous, [dict(xs=a, ys=b, scope=s, obs=o) for a, b, s, o in
                                                        (("x", "y", "", ""), ("x", "y", "", "y"), ("x", "y", "y", ""), ("xw", "y", "x", ""), ("xw", "y", "", "w"), ("xw", "y", "w", "y"),
                                                         ("x", "yz", "", ""), ("x", "yz", "y", ""), ("x", "zy", "y", ""), ("xw", "yz", "w", ""), ("x", "yz", "", "z"))],
                 bounds="up to three variables"),
        Scenario("weight", nl_weight, [dict(xs="x", ys="y"), dict(xs="xw", ys="y")], bounds="up to three variables", limit=120),
        Scenario("history", nl_history, lambda t: [dict(n=tier(t, 3, 4), first=o) for o in OPS], bounds="every sequence of three (thorough four) operations, three variables", max_paths=5000),
        Scenario("equals", nl_equals, product(read=[True, False]), bounds="one conditioning and conditional variable"),
        Scenario("mixture", nlm, lambda t: [dict(op=o, split=s) for o in ("single", "mixture") for s in (False, True)] +
                 [dict(op=o) for o in ("update", "divide", "divide matched", "reduce", "marginal", "copy")] + [dict(op="update", split=True, comps=1)],
                 bounds="two conditionals, priors of up to two (three after splitting) components", limit=120),
        Scenario("mixture, then absorb", nlm_then, product(op=["reduce", "divide", "divide mixture", "copy", "multiply"], split=[False, True]),
                 bounds="one conditional, then an operation, then a one-dimensional factor", limit=120),
        Scenario("times mixture", nl_times_mixture, [dict()], bounds="two components"),
        Scenario("constant factors", nl_vacuous_factor, product(op=["multiply", "divide"], scope=["x", "y", "xy"], when=["before", "after"]) +
                 [dict(op=o, scope=s, when="after", mixture=True) for o in ("multiply", "divide") for s in ("x", "y")] +
                 [dict(op="multiply", scope=s, when="after", mixture=True, split=True) for s in ("x", "y")] +
                 [dict(op="multiply", scope="y", when="after", mixture=True, split=True, form="any")],
                 bounds="vacuous factors with an arbitrary constant (and improper ones of any parameters), over the conditioning or conditional variable or both"),
    ],
}
