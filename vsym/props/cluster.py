"""Cluster graphs: structure, the represented joint, message passing and scheduling (K01-K05)."""
import hashlib
import math

from . import Scenario, product
from ._gauss import Quad, make, same_quad
from ._tables import Table, add_all, cells, dense, same_function, sparse, sym_table

from .gaussian import WIDE

CG = "veroku.cluster_graph"
BIN = {v: 2 for v in list("abcdefghxyz") + ["x1", "x2", "x10"]}
MIXED = {**BIN, "b": 3, "c": 1, "x10": 3, "d": 3}
X = ["x1", "x10", "x2"]


def graph(env, factors, **kw):
    return env.mod(CG).ClusterGraph(factors, disable_tqdm=True, **kw)


def clusters(g):
    return list(g._clusters)


def edges(g):
    """{(i, j): separator variables, as seen from cluster i}"""
    cl = clusters(g)
    at = {c.cluster_id: i for i, c in enumerate(cl)}
    return {(i, at[n]): list(c.get_sepset(n)) for i, c in enumerate(cl) for n in c.neighbour_ids}


# ------------------------------------------------------------------------------------------------------------- K01
def structure_claims(env, g, scopes, observed):
    """Family preservation, running intersection, separators.  scopes: the (reduced) scopes of the given factors."""
    cl = clusters(g)
    sc = [set(c.var_names) for c in cl]
    ids = [c.cluster_id for c in cl]
    env.true("cluster identifiers are distinct", len(set(ids)) == len(ids))
    for i, s in enumerate(scopes):
        env.true(f"factor {i} is covered", any(set(s) <= c for c in sc))
    env.true("clusters only have given scopes", all(any(c == set(s) for s in scopes) for c in sc))
    es = edges(g)
    for (i, j), s in es.items():
        env.true("edges are symmetric", sorted(es.get((j, i), [])) == sorted(s))
        env.true("separators are shared variables", len(s) > 0 and len(set(s)) == len(s) and set(s) <= (sc[i] & sc[j]))
        env.true("observed variables are in no separator", not set(s) & set(observed))
        env.true("no cluster is its own neighbour", i != j)
    for v in sorted(set().union(*sc) if sc else ()):
        if v in observed:
            continue
        have = [i for i, c in enumerate(sc) if v in c]
        ev = [(i, j) for (i, j), s in es.items() if v in s and i < j]
        seen, todo = set(), have[:1]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += [b if a == k else a for a, b in ev if k in (a, b)]
        env.true(f"clusters with {v} form a tree", len(ev) == len(have) - 1 and seen == set(have))
    paths = [(p.sender_cluster.cluster_id, p.receiver_cluster.cluster_id) for p in g.graph_message_paths]
    env.true("one message path per direction of every edge",
             sorted(paths) == sorted((ids[i], ids[j]) for i, j in es))


def structure(env, nf, nv, evidence=None):
    """Every choice of scopes (up to renaming of variables)."""
    names = "abcdef"[:nv]
    mem = []
    for i in range(nf):
        row = []
        for k in range(nv):
            row.append(env.bit(f"m{i}{names[k]}"))
            # variables are interchangeable: keep the choices whose columns are in descending order
            if k and all(r[k - 1] == r[k] for r in mem):
                env.assume(row[k - 1] >= row[k])
        env.assume(any(row))
        mem.append(row)
    scopes = [[v for v, b in zip(names, r) if b] for r in mem]
    for i in range(nf):
        if i % 2:
            scopes[i].reverse()
    obs = {}
    if evidence is not None:
        obs = {v: 0 for v in env.pick("observed", [names[0], names[-1]] + ([names[1], names[:2]] if nv > 2 else []))}
    given = {} if evidence is None else {evidence: obs}
    if evidence == "both":
        spec = env.pick("special", [v for v in names if v not in obs])
        given = {"evidence": obs, "special_evidence": {spec: 0}}
    ones = {v: 1 for v in names}
    ts = [sym_table(env, f"w{i}", s, ones) for i, s in enumerate(scopes)]
    g = graph(env, [dense(env, t) for t in ts], **given)
    left = [[v for v in s if v not in given.get("evidence", ())] for s in scopes]
    structure_claims(env, g, left, [v for d in given.values() for v in d])
    got = prod_all([c.factor.potential(list(c.var_names), [0] * len(c.var_names)) for c in clusters(g)])
    env.eq("every factor is used exactly once", got, prod_all([t.p[k] for t in ts for k in t.p]))


def structure_long(env, chain, shared, evidence=None, singles=()):
    """Longer lists: each factor of a chain (or ring, or star) contains the shared variable or not."""
    scopes = [list(s) for s in chain]
    for i, s in enumerate(scopes):
        if env.bit(f"m{i}"):
            s.insert(i % (len(s) + 1), shared)
    scopes += [list(s) for s in singles]
    names = sorted(set().union(*map(set, scopes)))
    ones = {v: 1 for v in names}
    ts = [sym_table(env, f"w{i}", s, ones) for i, s in enumerate(scopes)]
    given = {k: {v: 0 for v in vs if v in names} for k, vs in (evidence or {}).items()}
    g = graph(env, [dense(env, t) for t in ts], **given)
    left = [[v for v in s if v not in given.get("evidence", ())] for s in scopes]
    structure_claims(env, g, left, [v for d in given.values() for v in d])
    got = prod_all([c.factor.potential(list(c.var_names), [0] * len(c.var_names)) for c in clusters(g)])
    env.eq("every factor is used exactly once", got, prod_all([t.p[k] for t in ts for k in t.p]))


def prod_all(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


# ------------------------------------------------------------------------------------------------------------- K02
def tables(env, scopes, kind="dense", zeros=(), cards=BIN, pre="p", few=False):
    if few:  # the first cell of every table is arbitrary, the others are fixed
        ts = []
        for i, s in enumerate(scopes):
            cs = cells(list(s), cards)
            ts.append(Table(list(s), cards, {c: env.const(float(2 + (7 * i + 3 * k) % 5)) if k else env.real(f"{pre}{i}", "+") for k, c in enumerate(cs)}))
        return ts, [dense(env, t) if kind == "dense" else sparse(env, t) for t in ts]
    ts = [sym_table(env, f"{pre}{i}", list(s), cards, zeros=z) for i, (s, z) in
          enumerate(zip(scopes, list(zeros) + [()] * len(scopes)))]
    if kind == "dense":
        return ts, [dense(env, t) for t in ts]
    return ts, [sparse(env, t, missing=z) for t, z in zip(ts, list(zeros) + [()] * len(scopes))]


def times_all(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r.times(t)
    return r


def at(f, asg):
    vs = list(f.var_names)
    return f.potential(vs, [asg[v] for v in vs])


def contents(env, scopes, kind="dense", obs="", zeros=(), cards=BIN):
    """The clusters multiply to the given factors, reduced by the evidence."""
    ts, fs = tables(env, scopes, kind, zeros, cards)
    ev = {v: env.choice(f"ev_{v}", cards[v]) for v in obs}
    g = graph(env, fs, evidence=ev) if obs else graph(env, fs)
    ref = times_all([t.slice({v: x for v, x in ev.items() if v in t.names}) for t in ts])
    cl = clusters(g)
    env.true("scope", set().union(*[set(c.var_names) for c in cl]) == set(ref.names))
    env.eq("product of the clusters", [prod_all([at(c.factor, a) for c in cl]) for a in ref.assignments()],
           [ref.at(a) for a in ref.assignments()])
    structure_claims(env, g, [[v for v in s if v not in obs] for s in scopes], obs)
    env.true("evidence unchanged", set(ev) == set(obs))
    for i, (t, f) in enumerate(zip(ts, fs)):
        same_function(env, f"given factor {i}", f, t)


def quad_prod(qs):
    r = qs[0]
    for q in qs[1:]:
        r = r.times(q)
    return r


def contents_gauss(env, scopes, forms="can", obs="", twice=False):
    fm = [forms] * len(scopes) if isinstance(forms, str) else forms
    ps = [make(env, f, f"p{i}", s) for i, (s, f) in enumerate(zip(scopes, fm))]
    ev = {v: env.real(f"o_{v}") for v in obs}
    given = [p[0] for p in ps]
    g = graph(env, given, evidence=ev) if obs else graph(env, given)
    if twice:  # a second graph from the same factors is not affected by the first
        for p in list(g.graph_message_paths):
            p.pass_next_message()
        g = graph(env, given, evidence=ev) if obs else graph(env, given)
    ref = quad_prod([p[1].slice({v: x for v, x in ev.items() if v in p[1].names}) for p in ps])
    cl = clusters(g)
    f = cl[0].factor
    for c in cl[1:]:
        f = f.multiply(c.factor)
    same_quad(env, "product of the clusters", f, ref, evaluate=False)
    structure_claims(env, g, [[v for v in s if v not in obs] for s in scopes], obs)
    for i, (fa, q, _) in enumerate(ps):
        same_quad(env, f"given factor {i}", fa, q, evaluate=False, order=list(q.names))


# ------------------------------------------------------------------------------------------------------------- K03
def zero(env, x):
    return env.identical([(x, 0.0)])


def tdiv(env, a, b):
    return a.combine(b, lambda x, y: env.const(0) if zero(env, x) and zero(env, y) else x / y)


class Ref:
    """Message passing on reference tables (or quadratics) along the edges of a cluster graph."""

    def __init__(self, env, g, init, marg, mul, div):
        self.env, self.cl, self.marg, self.mul, self.div = env, clusters(g), marg, mul, div
        self.ids = [c.cluster_id for c in self.cl]
        self.val = init
        self.sep = edges(g)
        self.sent = {}

    def message(self, i, j):
        m = self.marg(self.val[i], self.sep[(i, j)])
        if (j, i) in self.sent:
            m = self.div(m, self.sent[(j, i)])
        return m

    def deliver(self, i, j):
        m = self.message(i, j)
        v = self.mul(self.val[j], m)
        if (i, j) in self.sent:
            v = self.div(v, self.sent[(i, j)])
        self.val[j] = v
        self.sent[(i, j)] = m

    def key(self, p):
        return self.ids.index(p.sender_cluster.cluster_id), self.ids.index(p.receiver_cluster.cluster_id)


def initial(env, c):
    """A cluster's content as a reference table."""
    f = c.factor
    vs = list(f.var_names)
    cards = dict(f.var_cards)
    return Table(vs, cards, {t: f.potential(vs, list(t)) for t in cells(vs, cards)})


def neutral_gains(env):
    """Divergences only drive the scheduling; where schedules are chosen explicitly they are not needed."""
    for m, c in (("veroku.factors.categorical", "Categorical"), ("veroku.factors.sparse_categorical", "SparseCategorical"),
                 ("veroku.factors.gaussian", "Gaussian")):
        k = getattr(env.mod(m), c)
        env.patch(k, "distance_from_vacuous", lambda self: 1.0)
        env.patch(k, "kl_divergence", lambda self, other, normalize_factor=True: 1.0)


def schedules(env, scopes, n, kind="dense", zeros=(), joint_each=False, cards=BIN):
    """Every sequence of n messages."""
    neutral_gains(env)
    ts, fs = tables(env, scopes, kind, zeros, cards)
    g = graph(env, fs)
    full = times_all(ts)
    cl = clusters(g)
    same = [set(c.var_names) for c in cl] == [set(s) for s in scopes]
    ref = Ref(env, g, list(ts) if same else [initial(env, c) for c in cl], lambda v, s: v.sum_to(s), lambda a, b: a.times(b), lambda a, b: tdiv(env, a, b))
    keys = sorted(ref.sep)
    n = n if keys else 0  # a single cluster has nobody to send to
    for step in range(n):
        k = env.pick(f"send{step}", keys)
        path = [p for p in g.graph_message_paths if ref.key(p) == k][0]
        same_function(env, f"message {step}", path.next_message.factor, ref.message(*k))
        path.pass_next_message()
        ref.deliver(*k)
        if joint_each or step == n - 1:
            same_function(env, f"joint after {step + 1}", g.get_posterior_joint(), full)
    if n == 0:
        same_function(env, "joint", g.get_posterior_joint(), full)
    for p in g.graph_message_paths:
        same_function(env, "pending message", p.next_message.factor, ref.message(*ref.key(p)))
    for i, c in enumerate(cl):
        same_function(env, f"cluster {i}", c.factor, ref.val[i])


CL = "veroku._cg_helpers._cluster"


def messages(env, kind="dense"):
    """Messages on their own: equal exactly when ends and factors are; divergences are those of the factors."""
    M = env.mod(CL).Message
    (A, B), (f, g) = tables(env, ["ab", "ba"], kind, [(0, 3)] * 2 if kind == "sparse" else ())
    m, n = M(f, "one", "two"), M(g, "one", "two")
    env.true("ends", (m.sender_id, m.receiver_id, sorted(m.var_names)) == ("one", "two", ["a", "b"]))
    same_function(env, "factor", m.factor, A)
    env.true("equal messages", m.equals(n) == f.equals(g))
    env.true("equal messages, any difference allowed", bool(m.equals(n, rtol=0.0, atol=1.0)) == bool(f.equals(g, rtol=0.0, atol=1.0)))
    env.true("equals its copy", m.equals(m.copy()) and m.copy().equals(m))
    for s, r in (("one", "three"), ("three", "two"), ("two", "one")):
        env.true(f"other ends {s} {r}", not m.equals(M(f, s, r)) and not M(f, s, r).equals(m))
    env.eq("divergence", m.kl_divergence(n), f.kl_divergence(g))
    env.eq("distance from vacuous", m.distance_from_vacuous(), f.distance_from_vacuous())
    c = m.copy()
    env.true("copy: ends", (c.sender_id, c.receiver_id) == ("one", "two"))
    same_function(env, "copy", c.factor, A)
    for h in (c.factor, m.factor):
        if kind == "sparse":
            h.log_probs_table.clear()
        else:
            h.log_probs_tensor[...] = 0.0
    same_function(env, "factor afterwards", m.factor, A)
    same_function(env, "copy afterwards", c.factor, A)


def exchange(env, scopes, sep, n, kind="dense", prefix=""):
    """Clusters that are linked by hand: every sequence of n messages."""
    K = env.mod(CL)
    ts, fs = tables(env, scopes, kind)
    cs = [K.Cluster(f, cluster_name_prefix=f"{prefix}{i}-") for i, f in enumerate(fs)]
    ids = [c.cluster_id for c in cs]
    env.true("identifiers", ids == [f"{prefix}{i}-" + ",".join(s) for i, s in enumerate(scopes)])
    given = list(sep)
    cs[0].add_neighbour(cs[1], sepset=given)
    cs[1].add_neighbour(cs[0], sepset=sep[::-1])
    given.append("q")
    cs[0].get_sepset(ids[1]).append("r")
    env.true("neighbours", [c.neighbour_ids for c in cs] == [[ids[1]], [ids[0]]])
    env.true("separators", list(cs[0].get_sepset(ids[1])) == list(sep) and sorted(cs[1].get_sepset(ids[0])) == sorted(sep))
    env.raises("no shared variables", lambda: cs[0].add_neighbour(cs[1], sepset=[]))
    val, last = list(ts), {}
    for step in range(n):
        i = env.pick(f"send{step}", [0, 1])
        j = 1 - i
        m = cs[i].make_message(ids[j])
        want = val[i].sum_to(list(sep))
        if (j, i) in last:
            want = tdiv(env, want, last[j, i])
        same_function(env, f"message {step}", m.factor, want)
        env.true("ends", (m.sender_id, m.receiver_id) == (ids[i], ids[j]))
        env.raises("not meant for the sender", lambda: cs[i].receive_message(m))
        cs[j].receive_message(m)
        val[j] = val[j].times(want)
        if (i, j) in last:
            val[j] = tdiv(env, val[j], last[i, j])
        last[i, j] = want
        for k in (0, 1):
            same_function(env, f"cluster {k} after {step}", cs[k].factor, val[k])
    cs[0].remove_all_neighbours()
    env.true("no neighbours left", cs[0].neighbour_ids == [] and cs[1].neighbour_ids == [ids[0]])


def slight(env, kind, first):
    """Messages that say almost nothing, or almost what the one before said, count like any other."""
    K = env.mod(CL)
    env.tol()
    p = env.reals("p", 2)
    e = env.reals("e", 2)
    for v in p:
        env.assume(env.both(v <= 1, v >= -1))
    for v in (*e, e[1] - e[0]):
        env.assume(env.both(v <= 4, v >= -4))
        env.assume(env.any(v <= -2, v >= 2))
    d = [v / 100000 for v in e]
    u = env.const(0.0) if first == "uniform" else p[1]

    def fac(x, y):
        # log value x at 0 and y at 1
        if kind == "dense":
            return env.mod("veroku.factors.categorical").Categorical(["a"], log_probs_tensor=env.arr([x, y]))
        if kind == "sparse":
            return env.mod("veroku.factors.sparse_categorical").SparseCategorical(["a"], cardinalities=[2], log_probs_table={(0,): x, (1,): y})
        one = env.const(1.0)
        return env.mod("veroku.factors.gaussian").Gaussian(prec=env.arr([[one]]) if kind == "gauss" else env.arr([[one * 0.0]]), h_vec=env.arr([[y - x]]), g_val=x, var_names=["a"])
    if kind in ("gauss", "vacuous"):
        start = env.mod("veroku.factors.gaussian").Gaussian(prec=env.arr([[env.const(3.0)]]), h_vec=env.arr([[p[0]]]), g_val=p[1], var_names=["a"])
    else:
        start = fac(p[0], env.const(0.0))
    c = K.Cluster(start, cluster_name_prefix="0-")
    c.add_neighbour(K.Cluster(fac(p[0], p[1]), cluster_name_prefix="1-"), sepset=["a"])
    me, other = c.cluster_id, "1-a"
    for i, (x, y) in enumerate(((u, u + d[0]), (u, u + d[1]), (u + d[0], u))):
        c.receive_message(K.Message(fac(x, y), other, me))
        f = c.factor
        if kind in ("gauss", "vacuous"):
            env.eq(f"h after {i}", f.get_h(), [[p[0] + y - x]])
            env.eq(f"g after {i}", f.get_g(), p[1] + x)
        else:
            a, b = f.potential(["a"], [0]), f.potential(["a"], [1])
            env.eq(f"value at 0 after {i}", a, env.exp(p[0] + x))
            env.eq(f"value at 1 after {i}", b, env.exp(y))


def schedules_gauss(env, scopes, n, form="can", joint_each=False):
    neutral_gains(env)
    ps = [make(env, form, f"p{i}", s) for i, s in enumerate(scopes)]
    g = graph(env, [p[0] for p in ps])
    full = quad_prod([p[1] for p in ps])
    cl = clusters(g)
    env.true("one cluster per factor", [set(c.var_names) for c in cl] == [set(s) for s in scopes])
    ref = Ref(env, g, [p[1] for p in ps], lambda v, s: v.integrate([x for x in v.names if x not in s]).over(list(s)),
              lambda a, b: a.times(b), lambda a, b: a.div(b))
    keys = sorted(ref.sep)
    n = n if keys else 0  # a single cluster has nobody to send to
    for step in range(n):
        k = env.pick(f"send{step}", keys)
        path = [p for p in g.graph_message_paths if ref.key(p) == k][0]
        same_quad(env, f"message {step}", path.next_message.factor, ref.message(*k), evaluate=False)
        path.pass_next_message()
        ref.deliver(*k)
        if joint_each or step == n - 1:
            same_quad(env, f"joint after {step + 1}", g.get_posterior_joint(), full, evaluate=False)
    for p in g.graph_message_paths:
        same_quad(env, "pending message", p.next_message.factor, ref.message(*ref.key(p)), evaluate=False)
    for i, c in enumerate(cl):
        same_quad(env, f"cluster {i}", c.factor, ref.val[i], evaluate=False)


# ------------------------------------------------------------------------------------------------------------- K04
def arbitrary_gains(env, equal, paths=0, first=None, order=None):
    """
    Divergences become arbitrary numbers above the tolerance, and zero for messages that are the same function.
    With `first`, only schedules that begin with that one of the `paths` initial messages.  With `order`, the one schedule
    given by equal, rising or falling gains.
    """
    n = [0]
    seen = []

    def fresh(*_):
        n[0] += 1
        if order:
            return {"equal": 2.0, "rising": 1.0 + n[0], "falling": 1.0 + 1.0 / n[0]}[order]
        v = env.real(f"gain{n[0]}", "+")
        env.assume(v > 1)
        if first is not None and n[0] <= paths:
            seen.append(v)
            if n[0] == first + 1:
                for w in seen[:-1]:
                    env.assume(w < v)
            elif n[0] > first + 1:
                env.assume(v < seen[first])
        return v

    def kl(self, other, normalize_factor=True):
        return 0.0 if equal(self, other) else fresh()
    for m, c in (("veroku.factors.categorical", "Categorical"), ("veroku.factors.sparse_categorical", "SparseCategorical"),
                 ("veroku.factors.gaussian", "Gaussian")):
        k = getattr(env.mod(m), c)
        env.patch(k, "distance_from_vacuous", fresh)
        env.patch(k, "kl_divergence", kl)
    return n


def equal_tables(env):
    def eq(a, b):
        if set(a.var_names) != set(b.var_names):
            return False
        vs = list(a.var_names)
        cs = dict(a.var_cards)
        return env.identical([(a.potential(vs, list(t)), b.potential(vs, list(t))) for t in cells(vs, cs)])
    return eq


def equal_gauss(env):
    def eq(a, b):
        if list(a.var_names) != list(b.var_names):
            return False
        prs = [(a.get_g(), b.get_g())]
        d = len(a.var_names)
        A, B, p, q = a.get_h(), b.get_h(), a.get_prec(), b.get_prec()
        prs += [(A[i, 0], B[i, 0]) for i in range(d)] + [(p[i, j], q[i, j]) for i in range(d) for j in range(d)]
        return env.identical(prs)
    return eq


def components(scopes, observed):
    """Index groups of scopes connected by unobserved variables."""
    left = [set(s) - set(observed) for s in scopes]
    comp = list(range(len(scopes)))
    for i in range(len(scopes)):
        for j in range(i):
            if left[i] & left[j]:
                a, b = comp[i], comp[j]
                comp = [b if c == a else c for c in comp]
    return comp


def same_upto_scale(env, label, f, t):
    vs = list(f.var_names)
    env.true(f"{label}: scope", sorted(vs) == sorted(t.names))
    if sorted(vs) != sorted(t.names):
        return
    got = [f.potential(vs, [a[v] for v in vs]) for a in t.assignments()]
    want = [t.at(a) for a in t.assignments()]
    for k in range(1, len(got)):
        env.eq(f"{label}: ratio", got[k] * want[0], got[0] * want[k])
    env.true(f"{label}: positive", got[0] > 0)


def subsets(names, most=2):
    import itertools
    return [list(c) for k in range(1, most + 1) for c in itertools.combinations(names, k)]


def look(g, special=""):
    """What has been read before must not be what is read later."""
    for c in clusters(g):
        for vs in subsets([v for v in c.var_names if v not in special]):
            g.get_marginal(vs)
    if not special:
        g.get_posterior_joint()


def trees(env, scopes, kind="dense", zeros=(), obs="", special="", runs=1, max_iter=50, first=None, cards=BIN, order=None, few=False, early=False):
    """Processing a tree gives exact marginals, whatever the order of the messages."""
    arbitrary_gains(env, equal_tables(env), 2 * len(scopes) - 2, first, order)
    ts, fs = tables(env, scopes, kind, zeros, cards, few=few)
    ev = {v: env.choice(f"ev_{v}", cards[v]) for v in obs}
    sp = {v: env.choice(f"sp_{v}", cards[v]) for v in special}
    kw = {}
    if obs:
        kw["evidence"] = ev
    if special:
        kw["special_evidence"] = sp
    g = graph(env, fs, **kw)
    for _ in range(runs):
        if early:
            look(g, special)
        g.process_graph(tol=0.5, max_iter=max_iter)
    full = times_all([t.slice({v: x for v, x in ev.items() if v in t.names}) for t in ts])
    post = full.slice(sp)
    # without a path between them clusters cannot learn each other's constants
    check = same_function if len(set(components(scopes, list(obs) + list(special)))) == 1 else same_upto_scale
    for i, c in enumerate(clusters(g)):
        f = c.factor
        here = [v for v in f.var_names if v in special]
        if here:
            f = f.reduce(here, [sp[v] for v in here])
        check(env, f"cluster {i}", f, post.sum_to([v for v in c.var_names if v not in special]))
        for vs in subsets([v for v in c.var_names if v not in special], 4):
            check(env, f"marginal of {''.join(vs)}", g.get_marginal(vs), post.sum_to(vs))
    if not special:
        same_function(env, "joint", g.get_posterior_joint(), full)
    env.raises("a scope that no cluster covers", lambda: g.get_marginal(list(post.names) + ["q"]), ValueError)


def trees_gauss(env, scopes, form="can", obs="", special="", diag=False, runs=1, first=None, order=None, early=False):
    arbitrary_gains(env, equal_gauss(env), 2 * len(scopes) - 2, first, order)
    fm = [form] * len(scopes) if isinstance(form, str) else form
    ps = [make(env, f, f"p{i}", s, diag=diag) for i, (s, f) in enumerate(zip(scopes, fm))]
    ev = {v: env.real(f"o_{v}") for v in obs}
    sp = {v: env.real(f"s_{v}") for v in special}
    kw = {}
    if obs:
        kw["evidence"] = ev
    if special:
        kw["special_evidence"] = sp
    g = graph(env, [p[0] for p in ps], **kw)
    for _ in range(runs):
        if early:
            look(g, special)
        g.process_graph(tol=0.5)
    full = quad_prod([p[1].slice({v: x for v, x in ev.items() if v in p[1].names}) for p in ps])
    post = full.slice(sp)

    joined = len(set(components(scopes, list(obs) + list(special)))) == 1

    def marg(vs):
        return post.integrate([v for v in post.names if v not in vs])

    def check(label, f, q):
        # without a path between them clusters cannot learn each other's constants
        same_quad(env, label, f, q if joined else Quad(env, q.names, q.K, q.h, f.get_g()), evaluate=False)
    for i, c in enumerate(clusters(g)):
        f = c.factor
        here = [v for v in f.var_names if v in special]
        if here:
            f = f.reduce(here, [sp[v] for v in here])
        rest = [v for v in c.var_names if v not in special]
        check(f"cluster {i}", f, marg(rest))
        for vs in subsets(rest, 3 if diag == "wide" else 1):
            check(f"marginal of {''.join(vs)}", g.get_marginal(vs), marg(vs))
    env.raises("a scope that no cluster covers", lambda: g.get_marginal(["q"]), ValueError)


def trees_nonlinear(env, special="y", single=False, runs=1):
    """A tree with a nonlinear (here: affine) conditional and evidence that is not used to reduce the factors."""
    from .nonlinear import Cpd
    arbitrary_gains(env, equal_gauss(env))
    c = Cpd(env, "x", "y", offset=False)
    f, q, _ = make(env, "cov", "p", "x" if single else ["x", "z"])
    sp = {v: env.real(f"s_{v}") for v in special}
    g = graph(env, [c.f, f], **({"special_evidence": sp} if special else {}))
    for _ in range(runs):
        g.process_graph(tol=0.5)
    post = c.q.times(q).slice(sp)
    for v in post.names:
        same_quad(env, f"marginal of {v}", g.get_marginal([v]), post.integrate([w for w in post.names if w != v]), evaluate=False)


# ------------------------------------------------------------------------------------------------------------- K05
def digest(key):
    return hashlib.md5(repr(key).encode()).hexdigest()[:10]


class Formal:
    """Products of uninterpreted factors; sums over products take out what does not depend on the summed variables."""

    def __init__(self, atoms):
        self.atoms = {k: e for k, e in atoms.items() if e}

    @staticmethod
    def atom(name, scope):
        return Formal({(name, tuple(sorted(scope))): 1})

    def mul(self, o, sign=1):
        r = dict(self.atoms)
        for k, e in o.atoms.items():
            r[k] = r.get(k, 0) + sign * e
        return Formal(r)

    def marg(self, out):
        out = sorted(out)
        inner = {k: e for k, e in self.atoms.items() if set(k[1]) & set(out)}
        r = {k: e for k, e in self.atoms.items() if k not in inner}
        sc = sorted(set().union(*[set(k[1]) for k in inner]) - set(out)) if inner else []
        if out:
            name = ("sum", tuple(sorted(inner.items(), key=repr)), tuple(v for v in out if not inner or any(v in k[1] for k in inner)))
            r[(name, tuple(sc))] = r.get((name, tuple(sc)), 0) + 1
        return Formal(r)

    def slice(self, obs):
        return Formal({((("at", k[0], tuple(sorted((v, x) for v, x in obs.items() if v in k[1]))), tuple(v for v in k[1] if v not in obs))
                        if set(k[1]) & set(obs) else k): e for k, e in self.atoms.items()})

    @property
    def key(self):
        return tuple(sorted(self.atoms.items(), key=repr))


def formal_factors(env, inf=False, gains=None, paths=0, first=None):
    """A factor class whose values are formal products and whose divergences are arbitrary non-negative reals."""
    Base = env.mod("veroku.factors._factor").Factor
    log = {"asked": {}}
    seen = []

    def gain(kind, *keys):
        if kind == "d":
            if inf:
                return float("inf")
            if (kind,) + keys not in log["asked"]:
                log["asked"][(kind,) + keys] = v = env.real("d" + digest(keys), "0+")
                n = len(log["asked"])
                if first is not None and n <= paths:
                    seen.append(v)
                    for w in (seen[:-1] if n == first + 1 else seen[first:first + 1] if n > first + 1 else ()):
                        env.assume((v if n > first + 1 else w) < (w if n > first + 1 else v))
            return log["asked"][(kind,) + keys]
        if keys[0] == keys[1]:
            return 0.0
        if gains is not None and (kind,) + keys not in log["asked"] and len(log["asked"]) >= gains:
            return 0.0  # at most so many non-zero gains
        return log["asked"].setdefault((kind,) + keys, env.real("k" + digest(keys), "0+"))

    class Symbol(Base):
        def __init__(self, value, var_names):
            super().__init__(var_names=list(var_names))
            self.value = value

        def copy(self):
            return Symbol(Formal(dict(self.value.atoms)), self.var_names)

        def equals(self, factor, rtol=None, atol=None):
            return set(self.var_names) == set(factor.var_names) and self.value.key == factor.value.key

        def multiply(self, factor):
            return Symbol(self.value.mul(factor.value), self.var_names + [v for v in factor.var_names if v not in self.var_names])

        def divide(self, factor):
            return Symbol(self.value.mul(factor.value, -1), self.var_names + [v for v in factor.var_names if v not in self.var_names])

        def marginalize(self, vrs, keep=True):
            kept = [v for v in self.var_names if (v in vrs) == bool(keep)]
            return Symbol(self.value.marg([v for v in self.var_names if v not in kept]), kept)

        def reduce(self, vrs, values):
            return Symbol(self.value.slice(dict(zip(vrs, values))), [v for v in self.var_names if v not in vrs])

        def normalize(self):
            return Symbol(self.value.mul(Formal.atom(("norm", self.value.key), ()), -1), self.var_names)

        def distance_from_vacuous(self):
            return gain("d", self.value.key)

        def kl_divergence(self, factor, normalize_factor=True):
            return gain("k", self.value.key, factor.value.key)

        def show(self):
            pass

        def __repr__(self):
            return repr(self.value.key)
    return Symbol, gain


def scheduling(env, scopes, max_iter=1, inf=False, runs=1, tol="sym", special="", gains=None, first=None):
    """Which messages process_graph sends, in which order, and when it stops."""
    Symbol, gain = formal_factors(env, inf, gains, 2 * len(scopes) - 2, first)
    vals = [Formal.atom(f"f{i}", s) for i, s in enumerate(scopes)]
    sp = {v: 0 for v in special}
    g = graph(env, [Symbol(v, list(s)) for v, s in zip(vals, scopes)], **({"special_evidence": sp} if special else {}))
    g.debug = True
    cl = clusters(g)
    env.true("one cluster per factor", [set(c.var_names) for c in cl] == [set(s) for s in scopes])
    ref = Ref(env, g, list(vals), None, lambda a, b: a.mul(b), lambda a, b: a.mul(b, -1))
    sc = [set(s) for s in scopes]

    def message(i, j):
        v = ref.val[i].slice(sp) if special else ref.val[i]
        m = v.marg(sc[i] - set(sp) - set(ref.sep[(i, j)]))
        return m.mul(ref.sent[(j, i)], -1) if (j, i) in ref.sent else m
    keys = sorted(ref.sep)
    pend = {k: message(*k) for k in keys}
    pg = {k: gain("d", pend[k].key) for k in keys}
    for p in g.graph_message_paths:
        env.eq("initial gain", p.next_information_gain, pg[ref.key(p)])
    limit = env.real("tol", "0+") if tol == "sym" else tol
    total = 0
    for run in range(runs):
        before = len(g.passed_messages)
        n = max_iter if isinstance(max_iter, int) else env.pick(f"max_iter{run}", list(max_iter))
        g.process_graph(tol=limit, max_iter=n)
        sent = list(g.passed_messages)[before:]
        dist = list(g.sync_message_passing_max_distances)
        total += len(sent)
        env.true("number of messages", len(sent) <= n * len(keys) and g.num_messages_passed == total)
        env.true("one recorded distance per message", len(dist) == len(sent))
        for t, m in enumerate(sent):
            k = (ref.ids.index(m.sender_id), ref.ids.index(m.receiver_id))
            env.true("the message is the pending one", m.factor.value.key == pend[k].key)
            env.true("the sent message has the largest gain", env.both(*[pg[k] >= pg[o] for o in keys if pg[o] is not pg[k]]))
            i, j = k
            v = ref.val[j].mul(pend[k])
            if k in ref.sent:
                v = v.mul(ref.sent[k], -1)
            ref.val[j], ref.sent[k] = v, pend[k]
            pg[k] = 0.0
            for o in keys:
                if o[0] == j:
                    pend[o] = message(*o)
                    pg[o] = gain("k", ref.sent[o].key, pend[o].key) if o in ref.sent else gain("d", pend[o].key)
            env.true("the recorded distance is the largest pending gain", env.both(*[dist[t] >= pg[o] for o in keys]))
            env.true("the recorded distance is a pending gain", env.any(*[dist[t] == pg[o] for o in keys]))
            if t < len(sent) - 1:
                env.true("messages are only sent while a gain exceeds the tolerance", env.any(*[pg[o] > limit for o in keys]))
        if keys and n and len(sent) < n * len(keys):
            env.true("stopping below the allowed number means every gain is within the tolerance", env.both(*[pg[o] <= limit for o in keys]))
    for p in g.graph_message_paths:
        k = ref.key(p)
        env.true("pending messages are current", p.next_message.factor.value.key == pend[k].key)
        env.eq("gain of a pending message", p.next_information_gain, pg[k])
    for i, c in enumerate(cl):
        env.true(f"cluster {i}", c.factor.value.key == ref.val[i].key)


def real_gains(env, kind="dense", updates=1):
    """The gains computed on actual messages."""
    from .dense import kl_value
    ts, fs = tables(env, CH3, kind)
    g = graph(env, fs)
    ref = Ref(env, g, list(ts), lambda v, s: v.sum_to(s), lambda a, b: a.times(b), lambda a, b: tdiv(env, a, b))
    by = {ref.key(p): p for p in g.graph_message_paths}

    def distance(m):
        one = env.const(1)
        return kl_value(env, m, Table(m.names, BIN, {t: one / len(m.p) for t in m.p}))
    for k, p in by.items():
        env.eq("initial gain", p.next_information_gain, distance(ref.message(*k)))
    last = env.pick("first", [(0, 1), (2, 1)])
    other = (1, 2) if last == (0, 1) else (1, 0)
    by[other].pass_next_message()
    ref.deliver(*other)
    env.eq("gain after sending", by[other].next_information_gain, 0.0)
    by[last].pass_next_message()
    ref.deliver(*last)
    env.eq("gain of an update", by[other].next_information_gain, kl_value(env, ref.sent[other], ref.message(*other)))


def real_gains_gauss(env, diag=False):
    from .gaussian import kl_ref
    ps = [make(env, "can", f"p{i}", s, diag=diag) for i, s in enumerate(CH3)]
    g = graph(env, [p[0] for p in ps])
    ref = Ref(env, g, [p[1] for p in ps], lambda v, s: v.integrate([x for x in v.names if x not in s]).over(list(s)),
              lambda a, b: a.times(b), lambda a, b: a.div(b))
    by = {ref.key(p): p for p in g.graph_message_paths}
    for k, p in by.items():
        env.true("initial gain", p.next_information_gain == float("inf"))
    by[(1, 2)].pass_next_message()
    ref.deliver(1, 2)
    env.eq("gain after sending", by[(1, 2)].next_information_gain, 0.0)
    by[(0, 1)].pass_next_message()
    ref.deliver(0, 1)
    a, b = ref.sent[(1, 2)].moments(), ref.message(1, 2).moments()
    env.eq("gain of an update", by[(1, 2)].next_information_gain, env.abs(kl_ref(env, a, b)))


def tier(t, q, th):
    return q if t == "quick" else q + th


CH2, CH3, LOOP, STAR = ["ab", "bc"], ["ab", "bc", "cd"], ["ab", "bc", "ca"], ["ab", "ac", "ad"]

PROPS = {
    "K01": [
        Scenario("structure", structure, lambda t: [dict(nf=n, nv=v, evidence=e) for n, v in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3)) for e in (None, "evidence", "special_evidence", "both") if v > 2 or e != "both"] +
                 tier(t, [dict(nf=4, nv=2), dict(nf=4, nv=3), dict(nf=3, nv=4)], [dict(nf=4, nv=3, evidence=e) for e in ("evidence", "special_evidence")] + [dict(nf=5, nv=2), dict(nf=5, nv=3), dict(nf=4, nv=4), dict(nf=3, nv=4, evidence="evidence")]),
                 bounds="up to three factors over three variables (thorough four over three and three over four), every scope", max_paths=20000, validate=20),
        Scenario("longer lists", structure_long, lambda t: [dict(chain=["ab", "bc", "cd", "de", "ef", "fg"], shared="x"), dict(chain=["ab", "bc", "cd", "de", "ea"], shared="x"),
                                                            dict(chain=["ab", "ac", "ad", "ae", "af"], shared="x", singles=["x"]), dict(chain=["ab", "cd", "bc", "e", "da"], shared="x", singles=["xa", "x"]),
                                                            dict(chain=["abc", "bcd", "cde", "def", "efa"], shared="x"), dict(chain=["ab", "bc", "cd", "de", "ea"], shared="x", evidence=dict(evidence="a")),
                                                            dict(chain=["ab", "bc", "cd", "de", "ea"], shared="x", evidence=dict(special_evidence="c")),
                                                            dict(chain=["ab", "bc", "cd", "de", "ea"], shared="x", evidence=dict(evidence="a", special_evidence="c"))] +
                 tier(t, [], [dict(chain=["ab", "bc", "cd", "de", "ef", "fg", "gh", "ha"], shared="x"), dict(chain=["ab", "bc", "cd", "de", "ea", "ac", "bd"], shared="x", singles=["x"])]),
                 bounds="lists of up to eight factors of which any subset contains one more variable", max_paths=20000, validate=20),
    ],
    "K02": [
        Scenario("discrete", contents, lambda t: [dict(scopes=s, obs=o) for s, o in
                                                  ((["ab", "b", "bc"], ""), (["a", "ab"], ""), (["ab", "ba"], ""), (["ab", "abc", "b"], "a"), (["a", "a"], ""), (LOOP, ""), (LOOP, "a"),
                                                   (["c", "ab", "abc", "b"], ""), (["b", "ab", "b"], "b"), (["ab", "bc"], "b"), (["ab", "bc"], "abc"), (["a", "b"], "ab"), (["ab", "b"], "a"))] +
                 [dict(scopes=s, obs=o, kind=k) for k in ("dense", "sparse") for s, o in ((["abc", "bac"], "ab"), (["bca", "abd"], "dab"), (["abd", "dbc", "ab"], "bd"))] +
                 [dict(scopes=["bca", "bac", "cb"], obs="ca")] +
                 [dict(scopes=["ab", "b", "bc"], obs="b", kind="sparse"), dict(scopes=["ab", "b", "bc"], zeros=[(0,), (1,)]), dict(scopes=["ab", "ba", "b"], zeros=[(0,), (), (1,)], kind="sparse")],
                 bounds="listed scopes, binary variables, every table and evidence value"),
        Scenario("mixed cardinalities", contents, lambda t: [dict(scopes=s, obs=o, cards=MIXED, kind=k) for k in ("dense", "sparse") for s, o in
                                                             (([["x1", "x10"], ["x10"], ["x2", "x10"]], ""), (["bac", "cb", "a"], "b"), ([["x10", "x1"], ["x1", "x2"]], ["x10", "x1"]), (["cb", "bd"], ""), (["bac", "ad"], "ab"))],
                 bounds="listed scopes, cardinalities one to three, every table and evidence value"),
        Scenario("Gaussian", contents_gauss, lambda t: [dict(scopes=s, obs=o) for s, o in
                                                        ((["ab", "b", "bc"], ""), (["a", "ab"], ""), (["ab", "ba"], ""), (["ab", "bc"], "b"), (LOOP, "a"), (["ab", "b"], "ab"), (["b", "ab", "cb"], "c"))] +
                 [dict(scopes=["abc", "bac"], forms="wide can", obs="ba"), dict(scopes=["bca", "dba"], forms=["wide can", "wide cov"], obs="dab"), dict(scopes=["cab", "ba", "bcd"], forms="wide can", obs="cb")] +
                 [dict(scopes=["ab", "b"], forms=["cov", "can"]), dict(scopes=["ab", "bc"], forms=["can", "can"], twice=True)],
                 bounds="listed scopes of up to three one-dimensional variables per factor"),
    ],
    "K03": [
        Scenario("discrete", schedules, lambda t: [dict(scopes=CH2, n=3, joint_each=True), dict(scopes=CH3, n=3), dict(scopes=LOOP, n=2, joint_each=True), dict(scopes=["abc", "bcd"], n=2),
                                                   dict(scopes=CH2, n=3, zeros=[(0, 2)]), dict(scopes=CH2, n=3, zeros=[(1,), (1, 0)]), dict(scopes=CH2, n=2, kind="sparse", zeros=[(1,), (2,)]),
                                                   dict(scopes=["ab", "b", "bc"], n=0), dict(scopes=["ab", "ba"], n=3), dict(scopes=STAR, n=2), dict(scopes=LOOP, n=2, zeros=[(1,), (2,), (0,)]),
                                                   dict(scopes=["ab", "b", "bc", "c"], n=2), dict(scopes=LOOP, n=2, kind="sparse", zeros=[(), (1,)])] +
                 tier(t, [], [dict(scopes=CH2, n=6), dict(scopes=CH3, n=4), dict(scopes=LOOP, n=3), dict(scopes=STAR, n=3), dict(scopes=["abc", "bcd"], n=4), dict(scopes=CH2, n=4, kind="sparse", zeros=[(1,), (2,)]),
                              dict(scopes=CH3, n=4, zeros=[(1,), (2,), (0, 3)])]),
                 bounds="every schedule of the stated number of messages, binary variables", limit=200),
        Scenario("messages", messages, product(kind=["dense", "sparse"]), bounds="two tables over the same two binary variables"),
        Scenario("clusters linked by hand", exchange, [dict(scopes=["ab", "bc"], sep="b", n=3), dict(scopes=["abc", "cb"], sep="bc", n=2, prefix="p"), dict(scopes=["ab", "b"], sep="b", n=3, kind="sparse")],
                 bounds="two clusters over up to three binary variables, every sequence of up to three messages"),
        Scenario("slight messages", slight, product(kind=["dense", "sparse", "gauss", "vacuous"], first=["uniform", "any"]),
                 bounds="one variable, three messages whose log values differ by 0.00002 to 0.00004 from one another or from a uniform one"),
        Scenario("mixed cardinalities", schedules, lambda t: [dict(scopes=s, n=2, cards=MIXED, kind=k) for k in ("dense", "sparse") for s in ([["x1", "x10"], ["x10", "x2"]], ["abc", "cbd"], [["x10", "x2", "x1"], ["x1"], ["x2", "a", "x10"]])],
                 bounds="every schedule of two messages, cardinalities one to three", limit=200),
        Scenario("Gaussian", schedules_gauss, lambda t: [dict(scopes=CH2, n=3), dict(scopes=CH3, n=2)] +
                 tier(t, [], [dict(scopes=CH2, n=5), dict(scopes=CH3, n=3), dict(scopes=LOOP, n=1), dict(scopes=CH2, n=2, form="cov")]), bounds="every schedule of the stated number of messages, one-dimensional variables", limit=200),
    ],
    "K04": [
        Scenario("discrete", trees, lambda t: [dict(scopes=CH3, first=k) for k in range(4)] + [dict(scopes=["ab", "b", "bc"]), dict(scopes=CH2, obs="b"), dict(scopes=CH3, obs="a"), dict(scopes=CH2, special="a"), dict(scopes=CH2, special="b"),
                                               dict(scopes=["abc", "bcd"]), dict(scopes=["ab", "a"], special="b"), dict(scopes=CH2, runs=2), dict(scopes=CH2, zeros=[(0, 2), ()]),
                                               dict(scopes=CH2, kind="sparse", zeros=[(1,), (2,)]), dict(scopes=["ab", "c"]), dict(scopes=["ab", "a"], special="b", runs=2),
                                               dict(scopes=["abc", "bd"], obs="a", special="c"), dict(scopes=["abc", "cb"], obs="a", special="c", runs=2), dict(scopes=["ab", "bc"], special="b", runs=2)] +
                 [dict(scopes=["ab", "ba"]), dict(scopes=["abd", "bac"], obs="dc"), dict(scopes=["abcd", "bad"], obs="cb")] +
                 [dict(scopes=CH2, early=True, runs=2), dict(scopes=["abc", "cb"], special="c", early=True), dict(scopes=CH2, kind="sparse", early=True), dict(scopes=["ab", "bc"], obs="c", early=True)] +
                 tier(t, [], [dict(scopes=STAR, obs="d", first=k) for k in range(6)] + [dict(scopes=CH3, special="a", first=k) for k in range(4)] + [dict(scopes=["abc", "bcd", "d"]), dict(scopes=["ab", "cb"], kind="sparse"),
                              dict(scopes=["abc", "cbd"], zeros=[(0, 7), (3,)])]),
                 bounds="listed trees over binary variables, every table, every order of messages; marginals read before as well as after", limit=200),
        Scenario("mixed cardinalities", trees, lambda t: [dict(scopes=s, obs=o, special=p, cards=MIXED, kind=k) for s, o, p, k in
                                                          (([["x1", "x10"], ["x10", "x2"]], "", "", "dense"), ([["x10", "x1"], ["x10"], ["x2", "x10"]], ["x2"], "", "dense"), (["bac", "cd"], "", "ba", "dense"), (["bac", "ad"], "", "cb", "dense"),
                                                           ([["x10", "x1"], ["x1", "x2"]], "", ["x10"], "sparse"), ([["x2", "x10", "x1"], ["x1"]], "", ["x10", "x2"], "dense"), (["abd", "b"], "d", "a", "sparse"), (["bad", "bc"], "", "da", "dense"))],
                 bounds="listed trees, cardinalities one to three, up to two variables with evidence that is kept", limit=200),
        Scenario("larger trees", trees, lambda t: [dict(scopes=s, obs=o, special=p, order=r, few=True) for r in ("equal", "rising", "falling") for s, o, p in
                                                   tier(t, [(["ab", "bc", "cd", "de"], "", "")], [(["ab", "bc", "cd", "de", "ef"], "", "")]) + [(["ab", "ac", "ad", "de"], "", "e"), (["ab", "bc", "cd", "de"], "c", ""), (["ab", "bc", "ef", "fg"], "", ""), (["a", "ab", "bc"], "", ""), (["abcd", "de", "bf"], "", ""), (["edbc", "ab", "bcf"], "", "f"), (["ab", "bc", "b", "cd"], "", "")]],
                 bounds="trees of up to four (thorough five) clusters of binary variables, tables with one arbitrary cell each, three schedules", limit=200),
        Scenario("larger Gaussian trees", trees_gauss, lambda t: [dict(scopes=s, obs=o, special=p, form="can", diag="wide", order=r) for r in ("equal", "rising", "falling") for s, o, p in
                                                                  ((["ab", "bc", "cd", "de"], "", ""), (["ab", "ac", "ad", "de"], "", "e"), (["ab", "bc", "cd", "de"], "c", ""), (["a", "ab", "bc", "b", "cd"], "", ""))],
                 bounds=f"trees of up to four clusters over up to five variables, three schedules, {WIDE}", limit=200),
        Scenario("Gaussian, several observed", trees_gauss, lambda t: [dict(scopes=s, obs=o, special=p, form="can", diag="wide") for s, o, p in
                                                                       ((["bac", "cd"], "", "ba"), ([["x10", "x1", "x2"], ["x1"]], "", ["x10", "x2"]), (["dba", "bc"], "d", "ac"), (["cab", "bd"], "ca", ""), (["abd", "bac"], "dc", ""), (["abc", "dcb"], "", ""))],
                 bounds=f"listed trees, {WIDE}", limit=200),
        Scenario("Gaussian", trees_gauss, lambda t: [dict(scopes=CH2), dict(scopes=CH2, obs="b"), dict(scopes=CH2, special="c"), dict(scopes=["ab", "a"], special="b"), dict(scopes=["ab", "a"], special="b", runs=2)] +
                 [dict(scopes=CH2, early=True), dict(scopes=["ab", "a"], special="b", early=True, runs=2)] +
                 tier(t, [], [dict(scopes=CH3, diag=True, first=k) for k in range(4)]),
                 bounds="listed trees, one-dimensional variables", limit=200),
        Scenario("nonlinear", trees_nonlinear, product(special=["y", ""], single=[True, False], runs=[1, 2]), bounds="one affine conditional and a prior", limit=200),
    ],
    "K05": [
        Scenario("schedule", scheduling, lambda t: [dict(scopes=CH2, max_iter=[0, 1, 2]), dict(scopes=CH2, max_iter=2, inf=True), dict(scopes=CH2, max_iter=1, runs=2), dict(scopes=["ab", "cd"]),
                                                    dict(scopes=CH2, special="a"), dict(scopes=CH3, max_iter=1, inf=True), dict(scopes=CH3, max_iter=2, inf=True, gains=2),
                                                    dict(scopes=LOOP, max_iter=1, inf=True, gains=3), dict(scopes=STAR, max_iter=1, inf=True, gains=3), dict(scopes=LOOP, max_iter=2, inf=True, gains=2, tol=0.5)] +
                 [dict(scopes=CH3, max_iter=1, tol=0.5, first=k, gains=5) for k in range(4)] +
                 tier(t, [], [dict(scopes=CH3, max_iter=2, first=k, gains=6, tol=0.5) for k in range(4)] + [dict(scopes=LOOP, max_iter=2, inf=True, gains=4), dict(scopes=STAR, max_iter=2, inf=True, gains=5),
                              dict(scopes=CH3, max_iter=1, runs=2, inf=True, gains=4), dict(scopes=["abc", "bcd", "cda"], max_iter=1, inf=True, gains=3), dict(scopes=["ab", "bc", "cd", "da"], max_iter=1, inf=True, gains=3)]),
                 bounds="listed graphs, every sequence of gains", max_paths=5000),
        Scenario("gains of tables", real_gains, [dict()], bounds="a chain of three binary tables", limit=100),
        Scenario("gains of Gaussians", real_gains_gauss, [dict()], bounds="a chain of three factors over two variables each", limit=100),
    ],
}
