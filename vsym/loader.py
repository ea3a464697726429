"""
Loads veroku from /repo's current source into a private module registry, with the numeric libraries replaced by their
symbolic stand-ins.  The source text is executed as it is, after one syntactic change: set displays become set([...]),
so that every set the code builds goes through ASet, whose iteration order is a parameter of the analysis.
"""
import ast
import builtins
import importlib
import io
import os
import sys
import types

from . import core, npx
from .pens import Pen

REPO = os.environ.get("VSYM_REPO", "/repo")
_CODE = {}
_REAL_SET = set


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _REAL_SET)


def _order(items):
    c = core.CTX
    xs = sorted(items, key=repr)
    if c is not None:
        if len(xs) > 1:
            c.set_iterated = True
        if c.set_order == "desc":
            xs.reverse()
    return xs


class ASet(_REAL_SET, metaclass=_SetMeta):
    """A set with an adversarial (analysis-chosen) iteration order."""

    def __iter__(self):
        return iter(_order(_REAL_SET.__iter__(self)))

    def pop(self):
        if not len(self):
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.discard(x)
        return x

    def copy(self):
        return ASet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return ASet(self)

    def __reduce__(self):
        return (ASet, (list(self),))

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}" if self else "set()"


def _wrap(name):
    f = getattr(_REAL_SET, name)

    def g(self, *a):
        r = f(self, *a)
        if isinstance(r, _REAL_SET) and not type(r) is ASet:
            return ASet(r)
        return r
    g.__name__ = name
    return g


for _n in ("intersection", "union", "difference", "symmetric_difference", "__and__", "__or__", "__sub__", "__xor__",
           "__rand__", "__ror__", "__rsub__", "__rxor__"):
    setattr(ASet, _n, _wrap(_n))


class _SetRewriter(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name(id="set", ctx=ast.Load()),
                                          args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name(id="set", ctx=ast.Load()),
                                          args=[ast.ListComp(elt=node.elt, generators=node.generators)],
                                          keywords=[]), node)


def _code_for(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = _SetRewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        c = compile(tree, path, "exec", dont_inherit=True)
        _CODE[key] = c
    return c


def module_path(name):
    rel = name.replace(".", "/")
    for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
        if os.path.exists(cand):
            return cand, pkg
    return None, False


QUIET = ("matplotlib", "seaborn", "IPython", "PIL", "graphviz", "tqdm")


class _Tqdm:
    def __init__(self, it=None, **k):
        self.it = it
        self.n = 0

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, n):
        return lambda *a, **k: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Tree:
    """One private instantiation of the veroku package."""

    def __init__(self, overrides=None):
        self.mods = {}
        self.proxies = npx.make_proxies()
        self.overrides = overrides or {}
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = npx.FLOAT
        b["set"] = ASet
        b["print"] = lambda *a, **k: print(*a, **k) if isinstance(sys.stdout, io.StringIO) else None
        b["sum"] = _sum
        b["max"] = _maxmin(builtins.max)
        b["min"] = _maxmin(builtins.min)
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = None
        if "." in name:
            pn, _, leaf = name.rpartition(".")
            parent = self.load(pn)
            if name in self.mods:
                return self.mods[name]
        path, pkg = module_path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if parent is not None:
            setattr(parent, leaf, m)
        exec(_code_for(path), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.partition(".")[0]
        if top == "veroku":
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if not hasattr(m, x) and module_path(f"{name}.{x}")[0]:
                        self.load(f"{name}.{x}")
                return m
            return self.load(top)
        if name in self.proxies:
            if fromlist:
                return self.proxies[name]
            return self.proxies[top]
        if top == "tqdm":
            q = types.ModuleType(name)
            q.tqdm = _Tqdm
            q.auto = q
            return q
        if top in QUIET:
            if fromlist:
                return Pen(name)
            return Pen(top)
        real = importlib.import_module(name)
        if top in self.proxies and name not in self.proxies:
            return real if fromlist else self.proxies[top]
        if fromlist:
            for x in fromlist:
                if not hasattr(real, x):
                    try:
                        importlib.import_module(f"{name}.{x}")
                    except ImportError:
                        pass
            return real
        return importlib.import_module(top)


def _sum(it, start=0):
    tot = start
    for x in it:
        tot = tot + x
    return tot


def _maxmin(f):
    def g(*a, **k):
        return f(*a, **k)
    return g
