"""Reference semantics of discrete factors: a factor is a function from assignments to non-negative reals."""
import math
import itertools

CARD = {"a": 2, "b": 3, "c": 2, "d": 2, "e": 1, "f": 1, "x": 2, "y": 2, "z": 2, "w": 3, "x1": 2, "x10": 3, "x2": 2}
# longer names, some of which are beginnings of others
X1, X10, X2 = "x1", "x10", "x2"
LONG = [([X1, X10], [X10, X2]), ([X10, X1], [X1, X10]), ([X10, X1], [X1]), ([X1], [X10, "x", X1])]


def cells(names, cards):
    return [tuple(t) for t in itertools.product(*[range(cards[n]) for n in names])]


class Table:
    """names, cards, p: assignment tuple -> real (float or symbolic)."""

    def __init__(self, names, cards, p):
        self.names = list(names)
        self.cards = {n: cards[n] for n in names}
        self.p = p

    def at(self, asg):
        return self.p[tuple(asg[n] for n in self.names)]

    def assignments(self):
        return [dict(zip(self.names, t)) for t in cells(self.names, self.cards)]

    def total(self):
        return add_all([self.p[t] for t in self.p])

    def sum_to(self, keep):
        keep = list(keep)
        out = {}
        for t in cells(self.names, self.cards):
            asg = dict(zip(self.names, t))
            k = tuple(asg[n] for n in keep)
            out[k] = out[k] + self.p[t] if k in out else self.p[t]
        return Table(keep, self.cards, out)

    def slice(self, obs):
        keep = [n for n in self.names if n not in obs]
        return Table(keep, self.cards, {t: self.at({**obs, **dict(zip(keep, t))}) for t in cells(keep, self.cards)})

    def combine(self, o, f):
        names = self.names + [n for n in o.names if n not in self.names]
        cards = {**self.cards, **o.cards}
        return Table(names, cards, {t: f(self.at(dict(zip(names, t))), o.at(dict(zip(names, t))))
                                    for t in cells(names, cards)})

    def times(self, o):
        return self.combine(o, lambda a, b: a * b)

    def scaled(self, c):
        return Table(self.names, self.cards, {t: v * c for t, v in self.p.items()})


def add_all(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def sym_table(env, prefix, names, cards=None, sign="+", zeros=()):
    """An arbitrary table; cells listed in zeros (by flat index) are exactly zero, `sign` constrains the others."""
    cards = cards or CARD
    p = {}
    for i, t in enumerate(cells(names, cards)):
        p[t] = env.const(0) if i in zeros else env.real(prefix + "".join(map(str, t)), sign)
    return Table(names, cards, p)


def large_table(env, prefix, names, cards, zeros=()):
    """Many cells, three of which are arbitrary; the others are given numbers."""
    cs = cells(names, cards)
    free = {0, len(cs) // 2 + 1, len(cs) - 1}
    return Table(names, cards, {t: env.const(0) if i in zeros else env.real(f"{prefix}{i}", "+") if i in free else env.const(float(1 + (5 * i + len(names)) % 7))
                                for i, t in enumerate(cs)})


def names_for(var, card):
    return [f"{var}_{i}" for i in range(card)]


def assignment_names(var, card, named):
    """`named`: True (every variable has its own names), False (numbers), or the variables that have names."""
    return names_for(var, card) if named is True or (named and var in named) else list(range(card))


def names_survive(env, label, f, named):
    env.true(f"{label}/assignment names", all(list(f.vars_assignments_names_dict[v]) == assignment_names(v, f.var_cards[v], named) for v in f.var_names)
             and sorted(f.vars_assignments_names_dict) == sorted(f.var_names))


def dense(env, t, named=False):
    C = env.mod("veroku.factors.categorical").Categorical
    shape = [t.cards[n] for n in t.names]
    arr = env.arr([env.log(t.p[c]) for c in cells(t.names, t.cards)]).reshape(shape)
    kw = {}
    if named:
        kw["variables_assignment_names"] = [assignment_names(n, t.cards[n], named) for n in t.names]
    return C(var_names=list(t.names), log_probs_tensor=arr, **kw)


def sparse(env, t, missing=(), default=None):
    """Cells listed in `missing` (flat index) are left to the default (their value must be exp(default))."""
    Sp = env.mod("veroku.factors.sparse_categorical").SparseCategorical
    tab = {c: env.log(t.p[c]) for i, c in enumerate(cells(t.names, t.cards)) if i not in missing}
    kw = {} if default is None else {"default_log_prob": default}
    return Sp(var_names=list(t.names), log_probs_table=tab, cardinalities=[t.cards[n] for n in t.names], **kw)


def sparse_table(env, prefix, names, missing, cards=None, default=None, sign="+", zeros=()):
    """(Table, factor): missing cells have the default's value (zero unless given)."""
    t = sym_table(env, prefix, names, cards, sign, zeros)
    for i, c in enumerate(cells(t.names, t.cards)):
        if i in missing:
            t.p[c] = env.const(0) if default is None else env.exp(default)
    return t, sparse(env, t, missing, default)


def same_function(env, label, factor, t, where=None, order=True):
    """The factor's scope is t's scope and its value at every assignment is t's value."""
    got = list(factor.var_names)
    if sorted(got) != sorted(t.names):
        env.fail(f"{label}/scope", f"scope {got} instead of {t.names}")
        return
    if t.names:
        cards = dict(factor.var_cards)
        if cards != t.cards:
            env.fail(f"{label}/cardinalities", f"{cards} instead of {t.cards}")
            return
    vals, want = [], []
    for asg in t.assignments():
        if where is not None and not where(asg):
            continue
        vals.append(factor.potential(got, [asg[n] for n in got]))
        want.append(t.at(asg))
    env.eq(f"{label}/values", vals, want)


def ordered_as(env, label, factor, names):
    env.true(f"{label}/order", list(factor.var_names) == list(names))


# --------------------------------------------------------------------------------------- operands of any origin
ORIGINS = ("reduced", "reduced first", "marginal", "reordered", "product", "disjoint product", "normalised", "cancelled", "divided", "copy",
           "table", "template", "reduced product", "marginal of reordered")


def made(env, kind, pre, names, origin, missing=(), default=None, zeros=(), named=False, cards=None, large=False):
    """
    (Table, factor) over the variables `names`, where the factor is the result of other operations.  The table holds the
    values the factor itself reports, so that claims on it are about the operation that is applied next.
    """
    names = list(names)
    cards = {**CARD, "z": 2, "q": 2, **(cards or {})}
    aux = "z" if "z" not in names else "q"

    def new(p, ns, zs=()):
        t = large_table(env, p, ns, cards, zs) if large else sym_table(env, p, ns, cards, zeros=zs)
        if kind == "dense":
            return dense(env, t, named)
        n = len(t.p)
        ms = [i for i in missing if i < n] + [i for i in zs if i % 2]
        for i in missing:
            if i < n:
                c = cells(t.names, t.cards)[i]
                t.p[c] = env.const(0) if default is None else default
        return sparse(env, t, ms if default is None else [i for i in missing if i < n], None if default is None else env.log(default))
    def positive(ns):
        t = sym_table(env, pre + "o", ns, cards)
        return dense(env, t, named) if kind == "dense" else sparse(env, t, (), None if default is None else env.log(default))
    if origin == "fresh":
        f = new(pre, names, zeros)
    elif origin == "reduced":
        f = new(pre, names + [aux]).reduce([aux], [1])
    elif origin == "reduced first":
        f = new(pre, [aux] + names).reduce([aux], [0])
    elif origin == "marginal":
        f = new(pre, names[:1] + [aux] + names[1:]).marginalize(list(names))
    elif origin == "reordered":
        f = new(pre, names[::-1]).reorder(list(names))
    elif origin == "product":
        f = new(pre, names).multiply(new(pre + "o", names[::-1], zeros))
    elif origin == "disjoint product":
        f = new(pre, names[:1]).multiply(new(pre + "o", names[1:])) if len(names) > 1 else new(pre, names)
    elif origin == "normalised":
        f = new(pre, names).normalize()
    elif origin == "cancelled":
        f = new(pre, names, zeros).cancel(positive(names[-1:]))
    elif origin == "divided":
        f = new(pre, names, zeros).divide(positive(names[:1]))
    elif origin == "copy":
        f = new(pre, names, zeros).copy()
    elif origin in ("table", "template"):
        t = sym_table(env, pre, names, cards, zeros=zeros)
        tab = {c: t.p[c] for i, c in enumerate(cells(t.names, t.cards)) if i not in missing}
        cs = [cards[n] for n in names]
        if origin == "template":
            m, c = ("categorical", "CategoricalTemplate") if kind == "dense" else ("sparse_categorical", "SparseCategoricalTemplate")
            T = getattr(env.mod("veroku.factors." + m), c)
            f = T(probs_table=tab, cardinalities=cs, var_templates=["{%s}" % n for n in names]).make_factor(format_dict={n: n for n in names})
        else:
            m, c = ("categorical", "Categorical") if kind == "dense" else ("sparse_categorical", "SparseCategorical")
            kw = {} if default is None or kind == "dense" else {"default_log_prob": env.log(default)}
            if kind == "dense" and named:
                kw["variables_assignment_names"] = [assignment_names(n, cards[n], named) for n in names]
            f = getattr(env.mod("veroku.factors." + m), c)(var_names=list(names), probs_table=tab, cardinalities=cs, **kw)
    elif origin == "reduced product":
        f = new(pre, names[:1] + [aux]).multiply(new(pre + "o", [aux] + names[::-1])).reduce([aux], [1])
    elif origin == "marginal of reordered":
        f = new(pre, names + [aux]).reorder([aux] + names[::-1]).marginalize([aux], keep=False)
    else:
        raise ValueError(origin)
    have = list(f.var_names)
    env.true("scope of the operand", sorted(have) == sorted(names))
    return Table(have, cards, {c: f.potential(have, list(c)) for c in cells(have, cards)}), f


def same_entry(env, a, b):
    """Two non-negative entries agree; concretely they must agree to rounding or be clearly apart, on the log scale."""
    if env.symbolic:
        return a == b
    if a <= 0 or b <= 0:
        return a == b
    return env.same(math.log(a), math.log(b))
