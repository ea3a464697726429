"""What is drawn: the arguments that the plotting functions hand to the plotting library (X08)."""
import numpy as np

from . import Scenario, product
from .. import pens
from ._gauss import gauss_mod, make, point, same_quad
from ._tables import X1, X2, X10, add_all, assignment_names, made, same_function
from .cluster import graph, tables
from .mixture import mix
from .nonlinear import Cpd

NL = "veroku.factors.experimental.nonlinear_gaussian"
GM = "veroku.factors.experimental.gaussian_mixture"
INF = float("inf")
POINTS = 4
PLACES = 8
LIM = {"x": [-2.5, 2.75], "y": [0.5, 3.5]}


def flatten(a):
    """The cells of a (possibly nested) sequence, in order."""
    if isinstance(a, np.ndarray):
        return [a[i] for i in np.ndindex(*a.shape)]
    return [a] if not isinstance(a, (list, tuple)) else [c for r in a for c in flatten(r)]


def drawn_value(env, quads, at, log):
    """The (log-)potential of the sum of the components at a point."""
    if log and len(quads) == 1:
        return quads[0].at(at)
    v = add_all([env.exp(q.at(at)) for q in quads])
    return env.log(v) if log else v


def same_values(env, label, quads, names, points, values, log):
    """The values drawn are those of the sum of the components (one component: compared by their logarithms)."""
    if env.symbolic and not log and len(quads) == 1:
        values, log = [env.log(v) for v in values], True
    env.eq(f"{label}: values", values, [drawn_value(env, quads, dict(zip(names, p)), log) for p in points])


def covers(env, label, drawn, moms, i):
    """The points drawn reach at least one standard deviation to each side of the mean of every component."""
    for m in moms:
        sd = env.sqrt(m.cov[i][i])
        env.true(f"{label}: upper limit", drawn[-1] >= m.mean[i] + sd)
        env.true(f"{label}: lower limit", drawn[0] <= m.mean[i] - sd)


def check_line(env, label, curve, quads, log, lim=None, moms=None):
    xs, ys = list(curve[0]), list(curve[1])
    v = quads[0].names[0]
    if len(xs) != len(ys) or len(xs) < 2:
        env.fail(f"{label}: points", f"{len(xs)} and {len(ys)}")
        return
    if lim:
        env.eq(f"{label}: limits", [xs[0], xs[-1]], lim)
    else:
        covers(env, label, xs, moms, 0)
        if len(quads) > 1:
            return  # sums of exponentials at places that depend on the parameters: with given limits only
    same_values(env, label, quads, [v], [(x,) for x in xs], ys, log)


def check_contour(env, label, log_, quads, log, lim=None, moms=None):
    """A contour plot: cell (i, j) is the value where the variables named on the axes have those coordinates."""
    hits = [a for n, a, k in log_ if n in ("contourf", "contour", "pcolormesh")]
    if not hits:
        env.fail(f"{label}: nothing drawn")
        return
    X, Y, Z = [np.asarray(a) if not isinstance(a, np.ndarray) else a for a in hits[-1][:3]]
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    nx, ny = pens.last(log_, "xlabel", "set_xlabel"), pens.last(log_, "ylabel", "set_ylabel")
    names = quads[0].names
    if sorted([nx, ny]) != sorted(names) or X.shape != Y.shape or X.shape != Z.shape or Z.size < 4:
        env.fail(f"{label}: axes", f"{nx} {ny} {X.shape} {Y.shape} {Z.shape}")
        return
    for D, n, k in ((X, nx, "x"), (Y, ny, "y")):
        if lim and k in lim:
            env.eq(f"{label}: limits", [D[0, 0], D[-1, -1]], lim[k])
        else:
            covers(env, label, [D[0, 0], D[-1, -1]], moms, names.index(n))
    if len(quads) > 1 and not lim:
        return
    cells = list(np.ndindex(*Z.shape))
    same_values(env, label, quads, [nx, ny], [(X[c], Y[c]) for c in cells], [Z[c] for c in cells], log)


def limits(names, which):
    return {k + "lim": list(LIM[k]) for k in which if k in "xy"[:len(names)]}


def check_drawn(env, label, log_, names, quads, log, lim, moms, extra=0):
    if len(names) == 1:
        cs = pens.curves(log_)
        if len(cs) != 1 + extra:
            env.fail(f"{label}: curves", f"{len(cs)}")
            return
        check_line(env, label, cs[-1], quads, log, lim.get("x"), moms)
        if extra:
            left = list(quads)
            for c in cs[:-1]:
                # the curves of the components, in the order of the components
                check_line(env, f"{label}: component", c, [left.pop(0)], log, lim.get("x"), moms)
    else:
        check_contour(env, label, log_, quads, log, lim, moms)


def few_points(env, names):
    """Symbolic runs: 200 points at 8 places in one dimension, a grid of 4 by 4 instead of 100 by 100 in two."""
    return env.stub_plotting(POINTS) if len(names) > 1 else env.stub_plotting(places=PLACES)


def gauss_plot(env, names, form, log, given):
    names = list(names)
    f, q, m = make(env, form, "p", names, diag=given is not True)
    rec = few_points(env, names)
    given = "xy" if given is True else given or ""
    f.plot(log=log, **limits(names, given))
    check_drawn(env, "plot", rec, names, [q.over(list(f.var_names))], log, {k: LIM[k] for k in given}, [m or q.moments()])
    same_quad(env, "afterwards", f, q, evaluate=False)


def gauss_vis(env, names, form):
    names = list(names)
    f, q, m = make(env, form, "p", names)
    m = m or q.moments()
    rec = env.stub_plotting()
    f.show_vis()
    m = m.over(names)
    (hm, _), = pens.drawn(rec, "heatmap") or [((None,), None)]
    if hm[0] is None:
        env.fail("heatmap")
        return
    df = hm[0]
    env.true("heatmap: labels", sorted(df.index) == sorted(names) and list(df.index) == list(df.columns))
    env.eq("heatmap: covariance", [[df.loc[a, b] for b in names] for a in names], m.cov)
    bars = pens.drawn(rec, "frame.bar")
    if len(bars) != 1:
        env.fail("bars")
        return
    labels, vals = bars[0][0]
    env.true("bars: labels", sorted(labels) == sorted(names))
    env.eq("bars: mean", [vals[labels.index(n)] for n in names], m.mean)
    same_quad(env, "afterwards", f, q, evaluate=False)


def mix_plot(env, names, forms, log, given, single=False):
    names = list(names)
    M, qs, ms = mix(env, "p", names, forms, diag=given is not True)
    rec = few_points(env, names)
    given = "xy" if given is True else given or ""
    kw = limits(names, given)
    if len(names) == 2 and len(given) == 1:
        given = ""  # partial limits: the default ones are used (and it is said so)
    if single:
        kw["show_individual_components"] = True
    M.plot(log=log, **kw)
    check_drawn(env, "plot", rec, names, qs, log, {k: LIM[k] for k in given}, ms, len(forms) if single and len(names) == 1 else 0)
    for c, q in zip(M.components, qs):
        same_quad(env, "afterwards", c, q, evaluate=False)


def nl_plot(env, mixture=False, obs=(), read=False):
    """The joint of a conditional that has taken in a prior (and observations)."""
    n = 2 if mixture and obs else 1
    cs = [Cpd(env, "x", "y", offset=False, pre=f"c{i}") for i in range(n)]
    if mixture:
        # the default limits are those of the mixture (see there); fixed ones keep the sums of exponentials simple
        k = env.mod(GM).GaussianMixture
        env.patch(k, "_get_limits_for_2d_plot", lambda self: (list(LIM["x"]), list(LIM["y"])))
        env.patch(k, "_get_sensible_xlim", lambda self: list(LIM["x"]))
    p, q, _ = make(env, "cov", "p", "x")
    f = env.mod(NL).NonLinearGaussianMixture([c.f for c in cs], split_singles_before_absorb=False) if mixture else cs[0].f
    f = f.multiply(p)
    refs = [c.q.times(q) for c in cs]
    if obs:
        vals = {v: env.real(f"o_{v}") for v in obs}
        f = f.reduce(list(obs), [vals[v] for v in obs])
        refs = [r.slice(vals) for r in refs]
    if read:
        f.get_prec()
    names = [v for v in "xy" if v not in obs]
    rec = few_points(env, names)
    f.plot()
    # the limits are the default ones; only the values are claimed here
    if len(names) == 1:
        cs = pens.curves(rec)
        if len(cs) != 1:
            env.fail("curves", f"{len(cs)}")
            return
        xs, ys = list(cs[0][0]), list(cs[0][1])
        env.true("points", len(xs) == len(ys) and len(xs) > 1)
        same_values(env, "plot", refs, names, [(x,) for x in xs], ys, False)
    else:
        contour_values(env, rec, refs)


def contour_values(env, rec, refs):
    hits = pens.drawn(rec, "contourf")
    if not hits:
        env.fail("nothing drawn")
        return
    X, Y, Z = hits[-1][0][:3]
    nx, ny = pens.last(rec, "xlabel", "set_xlabel"), pens.last(rec, "ylabel", "set_ylabel")
    if sorted([nx, ny]) != ["x", "y"]:
        env.fail("axes", f"{nx} {ny}")
        return
    cells = list(np.ndindex(*Z.shape))
    same_values(env, "plot", refs, [nx, ny], [(X[c], Y[c]) for c in cells], [Z[c] for c in cells], False)


def table_plot(env, names, origin, named=False, zeros=(), cards=None, decimals=()):
    """One bar per assignment, with the value of that assignment.  decimals: variables with fractional assignment names."""
    T, f = made(env, "dense", "p", names, origin, zeros=zeros, named=named, cards=cards)
    words = {n: [0.25 + 1.5 * i for i in range(T.cards[n])] if n in decimals else assignment_names(n, T.cards[n], named) for n in T.names}
    if decimals:
        logs = env.arr([env.log(T.p[c]) for c in T.p]).reshape([T.cards[n] for n in T.names])
        f = type(f)(var_names=list(T.names), log_probs_tensor=logs, variables_assignment_names=[words[n] for n in T.names])
    rec = env.stub_plotting()
    f.plot()
    bars = pens.drawn(rec, "frame.barh")
    if len(bars) != 1:
        env.fail("bars", f"{len(bars)}")
        return
    labels, vals = bars[0][0]
    texts = {", ".join(f"{w:.2f}" if isinstance(w, float) else str(w) for w in (words[n][i] for n, i in zip(T.names, c))): c for c in T.p}
    if len(texts) != len(T.p):
        raise ValueError("the labels are not distinct")
    env.true("labels", sorted(labels) == sorted(texts))
    if sorted(labels) == sorted(texts):
        env.eq("values", vals, [T.p[texts[t]] for t in labels])
    same_function(env, "afterwards", f, T)


def convergence_plot(env, infs, log, shape="any"):
    """
    The recorded distances (some of them infinite): every finite one is drawn as it is, at its place; those that are
    infinite - and no others - are marked, and they are drawn at least as high as the rest.
    """
    g = graph(env, tables(env, ["ab", "bc"])[1])
    dist = []
    for i, c in enumerate(infs):
        if c == "i":
            dist.append(INF)
        elif c == "0":
            dist.append(0.0)
        else:
            dist.append(env.real(f"d{i}", "+"))
    g.sync_message_passing_max_distances = list(dist)
    rec = env.stub_plotting()
    g.plot_message_convergence(log=log)
    lines = pens.curves(rec)
    if len(lines) != 2:
        env.fail("curves", f"{len(lines)}")
        return
    want = [d if d is INF or d == INF else (-INF if c == "0" else env.log(d)) if log else d for c, d in zip(infs, dist)]
    (xs, ys), (mx, my) = lines
    ys, my = list(ys), list(my)
    env.true("places", len(xs) == len(ys) == len(mx) == len(my) == 2 * len(dist) and list(xs) == list(mx))
    if not len(xs) == len(ys) == len(mx) == len(my) == 2 * len(dist):
        return
    env.eq("steps", [x - xs[0] for x in xs], [i / 2 for i in range(len(xs))])
    tops = []
    for i, w in enumerate(want):
        for j in (2 * i, 2 * i + 1):
            marked = my[j] is not np.ma.masked
            env.true("marked", marked == (w is INF))
            if w is INF:
                tops.append(ys[j])
                if marked:
                    env.eq("mark", my[j], ys[j])
            else:
                env.eq("distance", ys[j], w)
    for t in tops:
        env.true("finite", not (isinstance(t, float) and t in (INF, -INF)))
        for w in want:
            if w is not INF and w != -INF:
                env.true("on top", t >= w)
    env.true("legend", bool(pens.drawn(rec, "legend")) == (len(tops) > 0))


def gain_plot(env, scopes, passes, legend, turn=0):
    """One curve per message path: the gains of its successive messages, named after its clusters."""
    fs = tables(env, scopes)[1]
    issued = []

    def gain(*_, **__):
        issued.append(env.real(f"gain{len(issued)}", "+"))
        return issued[-1]
    cat = env.mod("veroku.factors.categorical").Categorical
    env.patch(cat, "distance_from_vacuous", gain)
    env.patch(cat, "kl_divergence", gain)
    g = graph(env, fs)
    paths = list(g.graph_message_paths)
    for i in passes:
        paths[i % len(paths)].pass_next_message()
    # message passing lists the paths by their gain: any order may be the current one
    turn %= len(paths)
    g.graph_message_paths = type(g.graph_message_paths)(paths[turn:] + paths[:turn])
    rec = env.stub_plotting()
    g.plot_next_messages_info_gain(legend_on=legend)
    lines = pens.curves(rec)
    paths = list(g.graph_message_paths)
    if len(lines) != len(paths):
        env.fail("curves", f"{len(lines)} for {len(paths)}")
        return
    texts = pens.legend(rec)
    env.true("legend", (texts is not None) == legend)
    if legend and texts is not None:
        names = [f"{p.sender_cluster.cluster_id}->{p.receiver_cluster.cluster_id}" for p in paths]
        env.true("legend: names", list(texts) == names)
    total = []
    for (xs, ys), p in zip(lines, paths):
        ys = list(ys)
        env.true("iterations", list(xs) == list(range(len(ys))))
        env.eq("gains", ys, list(p.information_gains_with_iters))
        env.eq("pending gain", ys[-1], p.next_information_gain)
        total += ys
    # every gain that was computed is drawn once, and a zero for every message that was passed
    env.true("number of gains", len(total) == len(issued) + len(passes))
    if len(total) == len(issued) + len(passes):
        env.eq("all gains", add_all(total), add_all(issued))


def gauss_cfgs(tier):
    out = []
    for log in (False, True):
        for given in (True, False):
            out += [dict(names="x", form=f, log=log, given=given) for f in ("cov", "can", "both")]
            out += [dict(names=n, form=f, log=log, given=given) for n, f in (("xy", "can"), ("yx", "cov"))]
    out += [dict(names=n, form="can", log=False, given=g) for n in ("xy", "yx") for g in "xy"]
    out += [dict(names=[n], form="cov", log=False, given=True) for n in ("@product", "x10")]
    if tier != "quick":
        out += [dict(names=n, form="@" + o, log=log, given=True) for n in ("x", "yx") for o in ("product", "reduced", "normalised", "marginal") for log in (False, True)]
    return out


def mix_cfgs(tier):
    out = []
    for log in (False, True):
        for given in (True, False):
            out += [dict(names="x", forms=f, log=log, given=given, single=s) for f in (("cov",), ("can", "cov")) for s in ((False, True) if given else (False,))]
            out += [dict(names="yx", forms=f, log=log, given=given) for f in (("cov", "can"), ("can",))]
    out += [dict(names="yx", forms=("cov", "can"), log=False, given=g) for g in "xy"]
    if tier != "quick":
        out += [dict(names=n, forms=("cov", "can", "both"), log=log, given=True) for n in ("x", "xy") for log in (False, True)]
    return out


def table_cfgs(tier):
    out = [dict(names=n, origin="fresh", named=m) for n in ("ab", "ba", "eab", "a") for m in (False, True)]
    out += [dict(names="ab", origin=o, named=m) for o in ("product", "marginal", "reduced", "reordered") for m in (False, True)]
    out.append(dict(names="ab", origin="fresh", zeros=[0, 4], named=True))
    out += [dict(names="ab", origin="fresh", named=True, decimals=d) for d in ("a", "b", "ab")]
    if tier != "quick":
        out += [dict(names=n, origin="fresh", named=True) for n in ("abcd", [X10, "x", X1], [X1, X2])]
    return out


def convergence_cfgs(tier):
    k = 3 if tier == "quick" else 4
    words = [""]
    out = []
    for n in range(1, k + 1):
        words = [w + c for w in (words if n > 1 else [""]) for c in "fi"]
        out += [dict(infs=w, log=log) for w in words for log in (False, True)]
    out += [dict(infs=w, log=log) for w in ("", "i0", "0", "0i", "if0", "f0i") for log in (False, True)]
    return out


PROPS = {
    "X08": [
        Scenario("Gaussian potentials", gauss_plot, gauss_cfgs,
                 "1 and 2 variables, every form; 200 points at 8 places in one dimension, 4 by 4 (instead of 100 by 100) in two"),
        Scenario("Gaussian parameters", gauss_vis, lambda t: [dict(names=n, form=f) for n in (("xy", "yx") if t == "quick" else ("xy", "yx", "zxy")) for f in ("cov", "can")],
                 "2 variables (3 in thorough)"),
        Scenario("mixture potentials", mix_plot, mix_cfgs, "1-2 (thorough: 3) components over 1 and 2 variables"),
        Scenario("nonlinear joints", nl_plot, [dict(), dict(read=True), dict(obs="y"), dict(obs="y", read=True), dict(mixture=True), dict(mixture=True, obs="y")],
                 "x and y, affine transform, prior over x, y observed or not"),
        Scenario("tables", table_plot, table_cfgs, "1-3 (thorough: 4) variables"),
        Scenario("convergence", convergence_plot, convergence_cfgs, "up to 3 (thorough: 4) recorded distances, any of them infinite"),
        Scenario("gains", gain_plot, [dict(scopes=s, passes=p, legend=l, turn=len(p) + i) for i, s in enumerate((["ab", "bc"], ["ab", "bc", "cd"])) for p in ((), (0,), (0, 1, 0), (2, 1, 0, 3)) for l in (True, False)],
                 "2-3 clusters, up to 4 messages passed"),
    ],
}
