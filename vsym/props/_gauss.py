"""Reference semantics of Gaussian factors: the log of a factor is -1/2 x'Kx + h'x + g over named variables."""
from ._tables import add_all


class Quad:
    """log f(x) = -1/2 x'Kx + h'x + g."""

    def __init__(self, env, names, K, h, g):
        self.env, self.names, self.K, self.h, self.g = env, list(names), K, h, g

    def ix(self, names):
        return [self.names.index(n) for n in names]

    def at(self, pt):
        n = self.names
        t = self.g
        for i, a in enumerate(n):
            t = t + self.h[i] * pt[a]
            for j, b in enumerate(n):
                t = t - self.K[i][j] * pt[a] * pt[b] * 0.5
        return t

    def over(self, names):
        """The same function with the arguments listed in another order (and possibly more of them)."""
        def k(a, b):
            return self.K[self.names.index(a)][self.names.index(b)] if a in self.names and b in self.names else 0.0
        return Quad(self.env, names, [[k(a, b) for b in names] for a in names],
                    [self.h[self.names.index(a)] if a in self.names else 0.0 for a in names], self.g)

    def combine(self, o, f):
        names = self.names + [n for n in o.names if n not in self.names]
        a, b = self.over(names), o.over(names)
        n = len(names)
        return Quad(self.env, names, [[f(a.K[i][j], b.K[i][j]) for j in range(n)] for i in range(n)],
                    [f(a.h[i], b.h[i]) for i in range(n)], f(a.g, b.g))

    def times(self, o):
        return self.combine(o, lambda x, y: x + y)

    def div(self, o):
        return self.combine(o, lambda x, y: x - y)

    def scaled(self, lw):
        return Quad(self.env, self.names, self.K, self.h, self.g + lw)

    def slice(self, obs):
        keep = [n for n in self.names if n not in obs]
        ob = [n for n in self.names if n in obs]
        k, o = self.ix(keep), self.ix(ob)
        v = [obs[n] for n in ob]
        g = self.g
        for a, i in enumerate(o):
            g = g + self.h[i] * v[a]
            for b, j in enumerate(o):
                g = g - self.K[i][j] * v[a] * v[b] * 0.5
        h = []
        for i in k:
            t = self.h[i]
            for b, j in enumerate(o):
                t = t - self.K[i][j] * v[b]
            h.append(t)
        return Quad(self.env, keep, [[self.K[i][j] for j in k] for i in k], h, g)

    def integrate(self, out):
        """The integral over the variables `out` (completing the square; they must have a proper sub-precision)."""
        env = self.env
        keep = [n for n in self.names if n not in out]
        out = [n for n in self.names if n in out]
        if not out:
            return self.over(keep)
        k, o = self.ix(keep), self.ix(out)
        Kyy = [[self.K[i][j] for j in o] for i in o]
        V = env.inv(Kyy)
        no = range(len(o))
        B = [[add_all([self.K[i][o[b]] * V[b][a] for b in no]) for a in no] for i in k]  # Kxy V
        K = [[self.K[i][j] - add_all([B[r][a] * self.K[o[a]][j] for a in no]) for j in k] for r, i in enumerate(k)]
        h = [self.h[i] - add_all([B[r][a] * self.h[o[a]] for a in no]) for r, i in enumerate(k)]
        g = self.g + add_all([self.h[o[a]] * V[a][b] * self.h[o[b]] for a in no for b in no]) * 0.5 + \
            (env.log(env.const(2) * env.pi()) * len(o) - env.log(env.det(Kyy))) * 0.5
        return Quad(env, keep, K, h, g)

    def moments(self):
        env = self.env
        cov = env.inv(self.K)
        n = len(self.names)
        mean = [add_all([cov[i][j] * self.h[j] for j in range(n)]) for i in range(n)]
        lw = self.g + add_all([self.h[i] * mean[i] for i in range(n)]) * 0.5 + \
            (env.log(env.const(2) * env.pi()) * n - env.log(env.det(self.K))) * 0.5
        return Mom(env, self.names, cov, mean, lw)


class Mom:
    """A weighted normal density: exp(lw) N(x; mean, cov)."""

    def __init__(self, env, names, cov, mean, lw):
        self.env, self.names, self.cov, self.mean, self.lw = env, list(names), cov, mean, lw

    def quad(self):
        env = self.env
        n = len(self.names)
        if n == 0:
            return Quad(env, [], [], [], self.lw)
        K = env.inv(self.cov)
        h = [add_all([K[i][j] * self.mean[j] for j in range(n)]) for i in range(n)]
        g = self.lw - add_all([h[i] * self.mean[i] for i in range(n)]) * 0.5 - \
            (env.log(env.const(2) * env.pi()) * n + env.log(env.det(self.cov))) * 0.5
        return Quad(env, self.names, K, h, g)

    def over(self, names):
        k = [self.names.index(n) for n in names]
        return Mom(self.env, names, [[self.cov[i][j] for j in k] for i in k], [self.mean[i] for i in k], self.lw)


def lst(m):
    """A matrix as nested lists, a column vector as a list."""
    n, k = m.shape
    return [m[i, 0] for i in range(n)] if k == 1 and n != 1 else [[m[i, j] for j in range(k)] for i in range(n)]


def rows(m):
    return [[m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])]


def col(m):
    return [m[i, 0] for i in range(m.shape[0])]


def gauss_mod(env):
    return env.mod("veroku.factors.gaussian")


def cov_gauss(env, pre, names, form="cov", free=False, logw=True, diag=False):
    """(factor, Mom) of an arbitrary proper Gaussian, built from covariance form."""
    n = len(names)
    names = list(names)
    C = env.spd_free(pre + "C", n) if free else env.spd(pre + "C", n, diag=diag)
    m = env.vec(pre + "m", n)
    lw = env.logw(pre + "w") if logw else env.const(0.0)
    G = gauss_mod(env).Gaussian
    f = G(cov=C.copy(), mean=m.copy(), log_weight=lw, var_names=list(names))
    if form == "both":
        f.get_prec()
    return f, Mom(env, names, rows(C), col(m), lw)


def can_gauss(env, pre, names, form="can", free=False, diag=False):
    """(factor, Quad) of an arbitrary proper Gaussian, built from canonical form."""
    n = len(names)
    names = list(names)
    K = env.spd_free(pre + "K", n) if free else env.spd(pre + "K", n, diag=diag)
    h = env.vec(pre + "h", n)
    g = env.real(pre + "g")
    f = gauss_mod(env).Gaussian(prec=K.copy(), h_vec=h.copy(), g_val=g, var_names=list(names))
    if form == "canboth":
        f.get_cov()
    return f, Quad(env, names, rows(K), col(h), g)


def any_quad(env, pre, names):
    """(factor, Quad): arbitrary symmetric precision, not necessarily positive definite."""
    n = len(names)
    names = list(names)
    K = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            K[i][j] = K[j][i] = env.real(f"{pre}K{j}{i}")
    h = [env.real(f"{pre}h{i}") for i in range(n)]
    g = env.real(pre + "g")
    f = gauss_mod(env).Gaussian(prec=env.arr(K), h_vec=env.arr([[x] for x in h]), g_val=g, var_names=list(names))
    return f, Quad(env, names, K, h, g)


def make(env, form, pre, names, free=False, diag=False):
    """(factor, Quad, Mom or None)."""
    if form.startswith("wide "):
        form, diag = form[5:], "wide"
    if form in ("cov", "both"):
        f, m = cov_gauss(env, pre, names, form, free, diag=diag)
        return f, m.quad(), m
    if form in ("can", "canboth"):
        f, q = can_gauss(env, pre, names, form, free, diag=diag)
        return f, q, None
    if form == "any":
        f, q = any_quad(env, pre, names)
        return f, q, None
    if form == "vac":
        g = env.real(pre + "g")
        f = gauss_mod(env).Gaussian.make_vacuous(list(names), g_val=g)
        n = len(names)
        return f, Quad(env, names, [[0.0] * n for _ in range(n)], [0.0] * n, g), None
    if form.startswith("@"):
        return derived(env, form[1:], pre, list(names), diag)
    raise ValueError(form)


# proper Gaussians that are results of operations; the second group only claims a quadratic (no moments are given)
DERIVED = ("marginal", "marginal can", "reduced", "reduced cov", "normalised", "normalised can", "reweighted", "reweighted copy", "compared", "restored", "times vacuous", "template",
           "matched", "own product", "quotient", "product")


def derived(env, origin, pre, names, diag=False):
    """(factor, Quad, Mom or None) of a proper Gaussian that an operation returned (or changed in place)."""
    z = "zz"
    m = None
    if origin == "marginal":
        f, q, m = make(env, "cov", pre, names[:1] + [z] + names[1:], diag=diag)
        f, m = f.marginalize(list(names)), m.over(names)
        q = m.quad()
    elif origin == "marginal can":
        f, q, _ = make(env, "can", pre, [z] + names, diag=diag)
        f, q = f.marginalize([z], keep=False), q.integrate([z])
    elif origin in ("reduced", "reduced cov"):
        f, q, _ = make(env, "can" if origin == "reduced" else "both", pre, names + [z], diag=diag)
        v = env.real(pre + "o")
        f, q = f.reduce([z], [v]), q.slice({z: v})
    elif origin == "normalised":
        f, q, m = make(env, "both", pre, names, diag=diag)
        f, q, m = f.normalize(), q.scaled(-m.lw), Mom(env, m.names, m.cov, m.mean, env.const(0.0))
    elif origin == "normalised can":
        f, q, _ = make(env, "can", pre, names, diag=diag)
        f, q = f.normalize(), q.scaled(-q.moments().lw)
    elif origin in ("reweighted", "reweighted copy"):
        f, q, m = make(env, "both", pre, names, diag=diag)
        w = env.real(pre + "d")
        g = f.copy() if origin != "reweighted" else f
        g._add_log_weight(w)
        f, q, m = g, q.scaled(w), Mom(env, m.names, m.cov, m.mean, m.lw + w)
    elif origin == "compared":
        f, q, m = make(env, "cov", pre, names, diag=diag)
        o, _, _ = make(env, "can", pre + "c", names[::-1], diag=True)
        o.equals(f)
        f.equals(o)
        f.kl_divergence(o)
    elif origin == "restored":
        f, q, m = make(env, "cov", pre, names, diag=diag)
        o, _, _ = make(env, "can", pre + "c", names[::-1], diag=True)
        f = f.multiply(o).divide(o)
    elif origin == "times vacuous":
        f, q, _ = make(env, "can", pre, names, diag=diag)
        v, qv, _ = make(env, "vac", pre + "v", names[-1:])
        f, q = v.multiply(f), q.times(qv)
    elif origin == "template":
        f, q, m = make(env, "can", pre, names, diag=diag)
        par = {"prec": f.get_prec(), "h": f.get_h(), "g": f.get_g()}
        f = gauss_mod(env).GaussianTemplate(par, ["{n}" + v for v in names]).make_factor(format_dict={"n": ""})
    elif origin == "matched":
        f, q, m = make(env, "cov", pre, names, diag=diag)
        f = env.mod("veroku.factors.experimental.gaussian_mixture").GaussianMixture([f]).moment_match_to_single_gaussian()
    elif origin == "own product":
        f, q, _ = make(env, "can", pre, names, diag=diag)
        f, q = f.multiply(f), q.times(q)
    elif origin == "quotient":
        # the square of a factor, divided by one over fewer variables that was multiplied in
        f, q, _ = make(env, "can", pre, names, diag=diag)
        o, qo, _ = make(env, "cov", pre + "c", names[-1:])
        f = f.multiply(o).divide(o)
    elif origin == "product":
        f, q, _ = make(env, "can", pre, names, diag=diag)
        o, qo, _ = make(env, "both", pre + "c", names[-1:])
        f, q = o.multiply(f), q.times(qo)
    else:
        raise ValueError(origin)
    return f, q.over(list(f.var_names)), None if m is None else m.over(list(f.var_names))


def point(env, names, pre="x"):
    return {n: env.real(f"{pre}_{n}") for n in names}


def same_quad(env, label, f, q, params=True, evaluate=True, order=None):
    """f is the function q (checked by value at an arbitrary point and by its canonical parameters)."""
    env.true(f"{label}: scope", sorted(f.var_names) == sorted(q.names))
    if sorted(f.var_names) != sorted(q.names):
        return
    if order is not None:
        env.true(f"{label}: variable order", list(f.var_names) == list(order))
    q = q.over(list(f.var_names))
    n = len(q.names)
    if evaluate and n:
        pt = point(env, sorted(q.names))
        want = q.at(pt)
        env.eq(f"{label}: value", f.log_potential([pt[v] for v in f.var_names]), want)
        if n > 1:
            vs = list(reversed(f.var_names))
            env.eq(f"{label}: value by names", f.log_potential([pt[v] for v in vs], vrs=vs), want)
        if n > 2:
            vs = list(f.var_names)[1:] + list(f.var_names)[:1]
            env.eq(f"{label}: value by names (rotated)", f.log_potential([pt[v] for v in vs], vrs=vs), want)
    if params:
        env.eq(f"{label}: g", f.get_g(), q.g)
        if n:
            env.eq(f"{label}: h", f.get_h(), [[x] for x in q.h])
            env.eq(f"{label}: precision", f.get_prec(), q.K)


def same_mom(env, label, f, m, order=None):
    """f is the weighted normal density m (checked by its moments)."""
    env.true(f"{label}: scope", sorted(f.var_names) == sorted(m.names))
    if sorted(f.var_names) != sorted(m.names):
        return
    if order is not None:
        env.true(f"{label}: variable order", list(f.var_names) == list(order))
    m = m.over(list(f.var_names))
    env.eq(f"{label}: covariance", f.get_cov(), m.cov)
    env.eq(f"{label}: mean", f.get_mean(), [[x] for x in m.mean])
    env.eq(f"{label}: log weight", f.get_log_weight(), m.lw)


def paired(env, comps, refs, key=None):
    """
    Pairs of components and references (Quad or Mom): the order of a mixture's components means nothing, so each
    component is paired with a reference that has the same parameters, and the remaining ones by position.
    """
    comps, left = list(comps), list(refs)
    if len(comps) != len(left):
        env.fail("number of components", f"{len(comps)} instead of {len(left)}")
        return []

    def pairs(c, r, full):
        names = list(c.var_names)
        if sorted(names) != sorted(r.names):
            return None
        c, o = c.copy(), r.over(names)
        n = range(len(names))
        if isinstance(r, Mom):
            M, v, w, h, x, y = c.get_cov(), c.get_mean(), c.get_log_weight(), o.mean, o.cov, o.lw
        else:
            M, v, w, h, x, y = c.get_prec(), c.get_h(), c.get_g(), o.h, o.K, o.g
        return [(M[i, j], x[i][j]) for i in n for j in n] + [(v[i, 0], h[i]) for i in n] + ([(w, y)] if full else [])
    out = [None] * len(comps)
    for full in (True, False):
        for i, c in enumerate(comps):
            if out[i] is not None:
                continue
            for r in left:
                ps, err = env.attempt(lambda: pairs(c, r, full))
                if err is None and ps is not None and env.identical(ps):
                    out[i] = r
                    left.remove(r)
                    break
    for i, c in enumerate(comps):
        if out[i] is None:
            out[i] = left.pop(0)
    return list(zip(comps, out))
