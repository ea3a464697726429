"""What is printed: string representations, show(), arrays and data frames (X07)."""
import contextlib
import io
import re

from . import Scenario
from ._gauss import DERIVED, make, same_quad
from ._origins import BIG, FIVE, ONES
from ._tables import ORIGINS, X1, X2, X10, assignment_names, made, ordered_as, same_function
from .factorised import fact
from .mixture import mix
from .nonlinear import Cpd

CL = "veroku._cg_helpers._cluster"


def shown(f):
    """What f.show() prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f.show()
    return out.getvalue()


# -------------------------------------------------------------------------------------------------------------- tables
def table_rows(env, label, text, names):
    """{assignment over names: text of the value}, or None if the text is no such table."""
    lines = [l.split() for l in text.splitlines() if l.split()]
    head = lines[0] if lines else []
    if sorted(head) != sorted(list(names) + ["prob"]):
        env.fail(f"{label}: header", f"{head}")
        return None
    at = {h: i for i, h in enumerate(head)}
    out = {}
    for l in lines[1:]:
        if len(l) != len(head):
            env.fail(f"{label}: line", f"{l}")
            return None
        t = tuple(l[at[n]] for n in names)
        if t in out:
            env.fail(f"{label}: assignment shown twice", f"{t}")
            return None
        out[t] = l[at["prob"]]
    return out


def check_text(env, label, text, T, complete=True):
    rows = table_rows(env, label, text, T.names)
    if rows is None:
        return
    known = {tuple(str(i) for i in c): v for c, v in T.p.items()}
    if not set(rows) <= set(known):
        env.fail(f"{label}: assignments", f"{sorted(set(rows) - set(known))[:3]}")
        return
    env.printed(f"{label}: values", list(rows.values()), [known[t] for t in rows], decimals=4)
    missing = [v for t, v in known.items() if t not in rows]
    if complete:
        env.true(f"{label}: every assignment is listed", not missing)
    elif missing:
        # a sparse table leaves out assignments, all of which have the same (default) value
        env.eq(f"{label}: assignments left out", missing, [missing[0]] * len(missing))


def same_cell(have, want):
    return have == want if isinstance(want, str) else float(have) == float(want)


def check_grid(env, label, grid, columns, T, named=None):
    """Rows of values (in the order of the columns): the assignment and its value, each once."""
    if sorted(columns) != sorted(T.names + ["prob"]):
        env.fail(f"{label}: columns", f"{columns}")
        return
    env.true(f"{label}: number of rows", len(grid) == len(T.p))
    at = {h: i for i, h in enumerate(columns)}
    vals, want, seen = [], [], set()
    labels = {n: assignment_names(n, T.cards[n], named) if named is not None else list(range(T.cards[n])) for n in T.names}
    for r in grid:
        hit = [c for c in T.p if all(same_cell(r[at[n]], labels[n][i]) for n, i in zip(T.names, c))]
        if len(hit) != 1 or hit[0] in seen:
            env.fail(f"{label}: assignments", f"{r[:-1]}")
            return
        seen.add(hit[0])
        vals.append(r[at["prob"]])
        want.append(T.p[hit[0]])
    env.eq(f"{label}: values", vals, want)


def grid_of(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def frame(df):
    return [[df.iloc[i, j] for j in range(df.shape[1])] for i in range(df.shape[0])], list(df.columns)


def table(env, kind, names, origin, zeros=(), missing=(), default=False, named=False, cards=None, view="text"):
    d = env.real("d", "+") if default else None
    if kind != "dense" or origin == "template":
        named = False
    T, f = made(env, kind, "p", names, origin, missing, d, zeros, named, cards=cards)
    if view == "text":
        check_text(env, "text", repr(f), T, kind == "dense")
        check_text(env, "str", str(f), T, kind == "dense")
        check_text(env, "show", shown(f), T, kind == "dense")
        M = env.mod(CL).Message(f, "0-cluster", "1_cluster")
        head, _, body = repr(M).partition("factor:")
        env.true("message", re.findall(r"sender_id:\s*(\S+)", head) == ["0-cluster"] and re.findall(r"receiver_id:\s*(\S+)", head) == ["1_cluster"])
        check_text(env, "message", body, T, kind == "dense")
    elif view == "array":
        check_grid(env, "array", grid_of(f.dense_distribution_array), T.names + ["prob"], T)
        if list(f.var_names) != T.names:
            env.fail("array: order")
    else:
        g, cols = frame(f.get_df())
        check_grid(env, "frame", g, cols, T)
        env.true("frame: columns", cols == T.names + ["prob"])
        g, cols = frame(f.get_df(named_assignments=True))
        check_grid(env, "frame with names", g, cols, T, named)
        env.true("frame with names: columns", cols == T.names + ["prob"])
    same_function(env, "afterwards", f, T)
    ordered_as(env, "afterwards", f, T.names)


def table_cfgs(tier):
    scopes = ["ab", "eab", "a", "cba"] if tier == "quick" else ["ab", "ba", "eab", "aeb", "a", "cba", "abcd", [X10, "x", X1], [X1, X2]]
    out = []
    for i, o in enumerate(("fresh",) + ORIGINS):
        for j, s in enumerate(scopes):
            if tier == "quick" and o != "fresh" and (i + j) % 2:
                continue
            for view in ("text", "array", "frame"):
                out.append(dict(kind="dense", names=s, origin=o, view=view, named=("acz", True, False)[(i + j) % 3]))
                if view != "frame":
                    out.append(dict(kind="sparse", names=s, origin=o, view=view))
    for view in ("text", "array", "frame"):
        out += [dict(kind="dense", names=s, origin="fresh", cards=c, view=view, named=n) for s, c, n in (("ab", BIG, False), ("abde", ONES, True), ("e", None, True))]
        out.append(dict(kind="dense", names="ab", origin="fresh", zeros=[0, 4], view=view, named=True))
        if tier != "quick":
            out.append(dict(kind="dense", names="abcde", origin="fresh", cards=FIVE, view=view, named="ace"))
    for view in ("text", "array"):
        out += [dict(kind="sparse", names=s, origin=o, missing=m, default=d, view=view)
                for s, o, m, d in (("ab", "fresh", (1, 4), True), ("ba", "fresh", (0, 5), False), ("ab", "reordered", (2,), True), ("ca", "reduced", (1,), True), ("a", "fresh", (1,), True),
                                   ("abc", "fresh", (0, 3, 7), True), ("ab", "marginal", (1,), False))]
        out += [dict(kind="sparse", names="ab", origin="fresh", cards=BIG, view=view), dict(kind="sparse", names=[X1, X10, X2], origin="fresh", missing=(3,), default=True, view=view)]
    return out


# ------------------------------------------------------------------------------------------------------------ Gaussians
HEAD = re.compile(r"^(noise covariance|prec|h|g|cov|mean|log_weight)\s*=\s*(.*)$")


def blocks(text):
    """
    The Gaussians in a text: [(names, {parameter: text})]; a block starts with the list of variables, parameters start
    with a line "name =".  What comes before the first list of variables is the first block (with no names).
    """
    out, cur = [(None, {})], None
    for line in text.splitlines():
        v = re.match(r"^vars\s*=\s*\[(.*)\]\s*$", line)
        h = HEAD.match(line)
        if v:
            out.append(([x.strip().strip("'\"") for x in v.group(1).split(",")] if v.group(1).strip() else [], {}))
            cur = None
        elif h:
            cur = h.group(1)
            out[-1][1].setdefault(cur, []).append(h.group(2))
        elif cur is not None and re.match(r"^\s*(\[|\u27e6|[-+]?[0-9.]|[-+]?(nan|inf))", line):
            out[-1][1][cur].append(line)
        else:
            cur = None
    return [(n, {k: " ".join(x) for k, x in d.items()}) for n, d in out]


def numbers(text):
    """(rows of texts) of a printed matrix, vector or number."""
    text = text.strip()
    if not text.startswith("["):
        return [[text]]
    return [r.split() for r in re.findall(r"\[([^\[\]]*)\]", text)]


def check_matrix(env, label, text, want):
    got = numbers(text)
    if [len(r) for r in got] != [len(r) for r in want]:
        env.fail(f"{label}: shape", f"{[len(r) for r in got]}")
        return
    env.printed(label, [x for r in got for x in r], [x for r in want for x in r])


def check_gauss(env, label, block, f, q, m, complete=True):
    names, d = block
    if names is None or sorted(names) != sorted(q.names):
        env.fail(f"{label}: variables", f"{names}")
        return
    env.true(f"{label}: order of the variables", names == list(f.var_names))
    can, cov = {"prec", "h", "g"} <= set(d), {"cov", "mean", "log_weight"} <= set(d)
    if complete:
        env.true(f"{label}: canonical parameters are shown", can)
    env.true(f"{label}: one complete form is shown", can or cov)
    if can:
        o = q.over(names)
        check_matrix(env, f"{label}: precision", d["prec"], o.K)
        check_matrix(env, f"{label}: h", d["h"], [[x] for x in o.h])
        check_matrix(env, f"{label}: g", d["g"], [[o.g]])
    if cov:
        if m is None:
            m = q.moments()
        o = m.over(names)
        check_matrix(env, f"{label}: covariance", d["cov"], o.cov)
        check_matrix(env, f"{label}: mean", d["mean"], [[x] for x in o.mean])
        check_matrix(env, f"{label}: log weight", d["log_weight"], [[o.lw]])
    return cov


def gaussian(env, form, names, diag=False):
    f, q, m = make(env, form, "p", names, diag=diag)
    for label, text in (("text", repr(f)), ("str", str(f))):
        bs = blocks(text)
        env.true(f"{label}: one block", len(bs) == 2)
        has = check_gauss(env, label, bs[-1], f, q, m)
        if form != "vac":
            env.true(f"{label}: moments are shown", has)
    bs = blocks(shown(f))
    env.true("show: one block", len(bs) == 2)
    check_gauss(env, "show", bs[-1], f, q, m, False)
    same_quad(env, "afterwards", f, q, evaluate=False, order=list(q.names))


def gaussian_cfgs(tier):
    names = ["a", "ba"] if tier == "quick" else ["a", "ba", ["x10", "x1"]]
    out = [dict(form=fm, names=n) for fm in ("cov", "both", "can", "canboth", "vac") for n in names]
    out += [dict(form="@" + o, names=names[i % len(names)], diag=True) for i, o in enumerate(DERIVED)]
    out += [dict(form=fm, names="cab", diag=True) for fm in (("cov", "can", "vac") if tier == "quick" else ("cov", "can", "vac", "both", "canboth"))]
    return out


def collection(env, what, forms, names):
    """Mixtures and factorised Gaussians show each of their parts."""
    if what == "mixture":
        M, qs, ms = mix(env, "p", names, forms, diag=True)
        fs = M.components
    else:
        M, _, ps = fact(env, "p", names, forms)
        fs, qs, ms = [p[0] for p in ps], [p[1] for p in ps], [p[2] for p in ps]
    bs = blocks(shown(M))
    env.true("number of parts", len(bs) == len(fs) + 1)
    for i, (b, f, q, m) in enumerate(zip(bs[1:], fs, qs, ms)):
        check_gauss(env, f"part {i}", b, f, q, m, False)
    for f, q in zip(fs, qs):
        same_quad(env, "afterwards", f, q, evaluate=False)


def nonlinear(env, xs, ys, form=None, update=None):
    """The transform's noise, the scope, the joint and the factors that were multiplied in."""
    c = Cpd(env, xs, ys)
    M, q = c.f, c.q
    parts = {}
    for key, fm, names in (("conditional update", update, ys), ("conditioning", form, xs)):
        if fm:
            o, qo, m = make(env, fm, key[-6], names, diag=True)
            M, q = M.multiply(o), q.times(qo)
            parts[key] = (o, qo, m)
    text = shown(M)
    N = c.f.noise_cov
    check_matrix(env, "noise covariance", blocks(text)[0][1].get("noise covariance", ""), [[N[i, j] for j in range(len(ys))] for i in range(len(ys))])
    for key, want in (("conditioning", xs), ("conditional", ys)):
        line = [l for l in text.splitlines() if l.startswith(f"{key} variables:")]
        env.true(f"{key} variables", len(line) == 1 and re.findall(r"'([^']*)'", line[0]) == list(want))
    sections, cur = {}, None
    for l in text.splitlines():
        h = re.match(r"^(joint_distribution|conditional update distribution|conditioning distribution)\s*=", l)
        if h:
            cur = h.group(1)
            sections[cur] = ""
        elif cur:
            sections[cur] += l + "\n"
    if form:
        # without a distribution of the conditioning variables there is no joint to show
        parts["joint_"] = (M.joint_distribution, q, None)
    for key, (o, qo, m) in parts.items():
        sec = sections.get(f"{key} distribution" if key != "joint_" else "joint_distribution", "")
        bs = blocks(sec)
        env.true(f"{key}: shown", len(bs) == 2)
        check_gauss(env, key, bs[-1], o, qo, m, False)
    if form:
        same_quad(env, "afterwards", M.joint_distribution, q, evaluate=False)


def collection_cfgs(tier):
    return [dict(what="mixture", forms=("cov", "can"), names="ab"), dict(what="mixture", forms=("both", "can", "cov"), names="a"),
            dict(what="factorised", forms=("cov", "can"), names=["ab", "c"]), dict(what="factorised", forms=("can", "both", "cov"), names=["a", "ba", "a"])]


PROPS = {"X07": [
    Scenario("tables as text, arrays and data frames", table, table_cfgs,
             "repr, str, show, messages, dense_distribution_array and get_df of dense and sparse tables of every origin; up to 4 variables (5 thorough), cardinality up to 12, trivial variables, long names, "
             "own assignment names of some variables, zero cells, default values"),
    Scenario("Gaussians as text", gaussian, gaussian_cfgs, "repr, str and show of proper and vacuous Gaussians in every form and from every origin, dimension up to 3 (diagonal above 2)"),
    Scenario("mixtures and factorised Gaussians as text", collection, collection_cfgs, "show of up to 3 parts"),
    Scenario("nonlinear Gaussians as text", nonlinear, lambda tier: [
        dict(xs="a", ys="yb"), dict(xs="a", ys="y", form="can"), dict(xs="ba", ys="y", form="cov"), dict(xs="a", ys="y", form="both", update="can"), dict(xs="a", ys="y", update="cov")],
        "show, affine transforms in general position, up to 2 + 1 or 1 + 2 variables, factors over either side multiplied in"),
]}
