"""The drawn cluster graph and the frames of its animation (X06): the renderer is a recorder of the source it is given."""
import re

from . import Scenario
from .cluster import CG, CH2, CH3, LOOP, STAR, Formal, clusters, edges, formal_factors, graph, tier

ANI = "veroku._cg_helpers._animation"
WORD = r'"(?:[^"\\]|\\.)*"|[^\s\[\]="]+'
LINE = re.compile(rf"^\s*({WORD})(?:\s+--\s+({WORD}))?\s*(?:\[(.*)\])?\s*;?\s*$", re.S)
PLAIN = (None, "white", "black")


class Image:
    """What the renderer made of a graph: its source."""

    def __init__(self, body):
        self.body = list(body)

    def copy(self):
        return Image(self.body)

    def save(self, *a, append_images=(), **k):
        self.saved = [self] + list(append_images)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def renderer(env):
    """The real graphviz source builder, whose rendering is recorded instead of carried out."""
    import types

    import graphviz as real
    files = {}

    def opened(path, *a, **k):
        hits = [v for p, v in files.items() if str(path).startswith(p)]
        if not hits:
            raise FileNotFoundError(path)
        return Image(hits[-1])

    class Graph(real.Graph):
        def render(self, filename=None, *a, **k):
            name = str(filename or self.filename)
            files.pop(name, None)
            files[name] = list(self.body)
            return f"{name}.png"
    lib = types.SimpleNamespace(**{n: getattr(real, n) for n in dir(real) if not n.startswith("__")})
    lib.Graph = Graph

    class Written(real.Source):
        def render(self, filename=None, *a, **k):
            files[str(filename or self.filename)] = self.source.splitlines(True)[1:-1]
    lib.Source = Written
    env.patch(env.mod(CG), "graphviz", lib)
    env.patch(env.mod(ANI), "PIL_Image", types.SimpleNamespace(open=opened))
    shown = []
    screen = types.SimpleNamespace(Image=lambda path=None, filename=None, *a, **k: opened(path or filename), display=lambda *a, **k: shown.extend(a))
    env.patch(env.mod(CG), "IPython", types.SimpleNamespace(core=types.SimpleNamespace(display=screen), display=screen))
    return shown, files


def bare(word):
    return word[1:-1].replace('\\"', '"') if word.startswith('"') else word


def drawing(body):
    """(nodes, edges) of a graph's source: attributes by name, and by pair of names."""
    nodes, lines = {}, []
    for text in body:
        m = LINE.match(text)
        if not m:
            raise ValueError(text)
        attrs = {k: bare(v) for k, v in re.findall(rf"(\w+)=({WORD})", m.group(3) or "")}
        if m.group(2):
            lines.append((frozenset((bare(m.group(1)), bare(m.group(2)))), attrs))
        else:
            nodes[bare(m.group(1))] = attrs
    return nodes, lines


def coloured(body):
    """The clusters and the lines that do not have their plain colour."""
    nodes, lines = drawing(body)
    return ({n for n, a in nodes.items() if a.get("fillcolor") not in PLAIN or a.get("color") not in PLAIN} |
            {e for e, a in lines if a.get("color") not in PLAIN})


def drawn_graph(env, g):
    """One node per cluster, one box per edge that names the separator; returns the two lines of every edge."""
    nodes, lines = drawing(g._graph.body)
    ids = [c.cluster_id for c in clusters(g)]
    env.true("every cluster is drawn", all(i in nodes and nodes[i].get("label", i) == i for i in ids))
    boxes = {n: {e: a for e, a in lines if n in e} for n in nodes if n not in ids}
    env.true("every line leads from a cluster to a separator", all(len(e) == 2 and len(e & set(ids)) == 1 and len(e & set(boxes)) == 1 for e, _ in lines))
    found = {}
    for n, ls in boxes.items():
        ends = frozenset(x for e in ls for x in e if x != n)
        if len(ends) != 2 or len(ls) != 2 or ends in found:
            env.fail("separators", f"{n}: {sorted(ends)}")
            return None
        found[ends] = (set(ls), nodes[n].get("label", n))
    want = {frozenset((ids[i], ids[j])): s for (i, j), s in edges(g).items()}
    env.true("every edge is drawn once", set(found) == set(want))
    if set(found) != set(want):
        return None
    for ends, s in want.items():
        env.true("the separator is named", sorted(found[ends][1].split(",")) == sorted(",".join(s).split(",")))
    env.true("nothing is highlighted", not coloured(g._graph.body))
    return {ends: ls for ends, (ls, _) in found.items()}


def frames(env, scopes, max_iter=1, runs=1, gains=3, tol=0.5, inf=False):
    """The animation of any schedule of messages."""
    renderer(env)
    Symbol, _ = formal_factors(env, inf, gains)
    g = graph(env, [Symbol(Formal.atom(f"f{i}", s), list(s)) for i, s in enumerate(scopes)])
    g.debug = True
    ends = drawn_graph(env, g)
    if ends is None:
        return
    before = list(g._graph.body)
    for run in range(runs):
        first, done = len(g.message_passing_animation_frames), len(g.passed_messages)
        g.process_graph(tol=tol, max_iter=max_iter, make_animation_gif=True)
        sent = list(g.passed_messages)[done:]
        seen, turn = [], []
        for f in list(g.message_passing_animation_frames)[first:]:
            env.true("every frame shows the whole graph", shape(f.body) == shape(before))
            c = coloured(f.body)
            if c:
                turn.append(c)
            elif turn:
                seen.append(turn)
                turn = []
        env.true("the last frame is plain", not turn)
        env.true("every message is shown", len(seen) == len(sent))
        for m, turn in zip(sent, seen):
            pair = frozenset((m.sender_id, m.receiver_id))
            if pair not in ends:
                env.fail("message", f"{sorted(pair)}")
                return
            at = {k: [i for i, c in enumerate(turn) if set(v) <= c] for k, v in
                  (("sender", [m.sender_id]), ("separator", ends[pair]), ("receiver", [m.receiver_id]))}
            env.true("sender, separator and receiver are highlighted", all(at.values()))
            env.true("nothing else is highlighted", set().union(*turn) == {m.sender_id, m.receiver_id} | ends[pair])
            if all(at.values()):
                env.true("in turn", at["sender"][0] < at["separator"][0] < at["receiver"][0] and at["sender"][-1] < at["separator"][-1] < at["receiver"][-1])
        env.true("the drawn graph is as before", list(g._graph.body) == before)
    shown = list(g.message_passing_animation_frames)
    if shown:
        g.make_message_passing_animation_gif()
        env.true("every frame is saved, in order", [f.body for f in getattr(shown[0], "saved", [])] == [f.body for f in shown])


def structure(env, nf, nv, evidence=None):
    """The drawing of a graph of factors with any scopes."""
    shown, _ = renderer(env)
    Symbol, _ = formal_factors(env, True)
    names = "abcd"[:nv]
    scopes = []
    for i in range(nf):
        row = [v for v in names if env.bit(f"m{i}{v}")]
        env.assume(bool(row))
        scopes.append(row[::-1] if i % 2 else row)
    obs = {v: 0 for v in (evidence or ()) if any(v in s for s in scopes)}
    g = graph(env, [Symbol(Formal.atom(f"f{i}", s), s) for i, s in enumerate(scopes)], **({"special_evidence": obs} if obs else {}))
    drawn_graph(env, g)
    before = list(g._graph.body)
    g.show()
    env.true("the drawing is shown", [x.body for x in shown] == [before] and list(g._graph.body) == before)


def saved(env, scopes):
    """The image of a graph on disk, before and after messages."""
    _, files = renderer(env)
    Symbol, _ = formal_factors(env, True, 1)
    g = graph(env, [Symbol(Formal.atom(f"f{i}", s), list(s)) for i, s in enumerate(scopes)])
    for name in ("first", "second"):
        g.save_graph_image(name)
        written = [b for p, b in files.items() if p.startswith(name)]
        env.true("an image is written", bool(written))
        env.true("the drawing is saved", all(b == list(g._graph.body) for b in written))
        g.process_graph(max_iter=1, make_animation_gif=True)


def shape(body):
    """A drawing without its colours."""
    nodes, lines = drawing(body)
    def plain(a):
        return tuple(sorted((k, v) for k, v in a.items() if k not in ("color", "fillcolor")))
    return sorted((n, plain(a)) for n, a in nodes.items()), sorted((sorted(e), plain(a)) for e, a in lines)


def named(scopes, words):
    return [[words.get(v, v) for v in s] for s in scopes]


NAMES = [["x1", "x10", "x"], ["x.1", "x[1]", "x(1)"], ["a b", "a", "b"], ["p+q", "p*q", "p"], ["sepset", "c0", "c1"], ["@product", "node", "color=red "], ["a|b", "^a", "b$"], ["x_{t-1}", "x_{t}", "$a$"], ["a\\b", "\\alpha", "c"]]

PROPS = {
    "X06": [
        Scenario("schedules", frames, lambda t: [dict(scopes=CH2, runs=2), dict(scopes=CH2, max_iter=2, inf=True), dict(scopes=CH3, gains=3, inf=True), dict(scopes=LOOP, gains=3, inf=True), dict(scopes=STAR, gains=2, inf=True),
                                                 dict(scopes=["ab", "cd"]), dict(scopes=["abc"]), dict(scopes=["abc", "bcd"], gains=2)] +
                 tier(t, [], [dict(scopes=CH3, gains=4), dict(scopes=LOOP, max_iter=2, inf=True, gains=4), dict(scopes=["ab", "bc", "cd", "da"], inf=True, gains=3)]),
                 bounds="listed graphs, every sequence of gains", max_paths=5000),
        Scenario("structures", structure, lambda t: [dict(nf=n, nv=v) for n, v in ((1, 2), (2, 3), (3, 3))] + [dict(nf=3, nv=3, evidence="a")] + tier(t, [], [dict(nf=4, nv=3), dict(nf=3, nv=4)]),
                 bounds="up to three factors over three variables (thorough: one more of either), every scope", max_paths=20000, validate=20),
        Scenario("saved", saved, [dict(scopes=CH2), dict(scopes=["abc"])], bounds="listed graphs"),
        Scenario("names", frames, lambda t: [dict(scopes=named(CH3, dict(zip("bca", n))), gains=1, inf=True) for n in NAMES],
                 bounds="listed names, every sequence of one gain"),
    ],
}
