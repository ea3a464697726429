"""
The scenario interface.  A scenario `fn(env, **cfg)` is run twice over: symbolically, where env hands out symbolic
inputs and every claim becomes a solver query, and concretely, where env hands out the numbers of a counterexample and
the same claims are evaluated on the unmodified package.
"""
import importlib
import itertools
import math
import random
import sys

import numpy as np

from . import core, loader, npx, pens
from .core import INF, LG, S, SB, as_real, c_and, c_not, c_or, is_sym, rat_cmp, to_cond


class AssumptionFailed(BaseException):
    """A concrete run does not satisfy the scenario's assumptions."""


class ScenarioFailure(Exception):
    """A claim failed (concrete mode)."""


class Snap(tuple):
    pass


_ABSENT = object()


class EnvBase:
    symbolic = False

    def choice(self, name, n):
        raise NotImplementedError

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def bit(self, name):
        """An arbitrary truth value: a symbolic real that the run branches on."""
        return self.is_true(self.real(name) > 0)

    def reals(self, prefix, n, sign=None):
        return [self.real(f"{prefix}{i}", sign) for i in range(n)]

    def vec(self, prefix, n, sign=None):
        return self.arr([[self.real(f"{prefix}{i}", sign)] for i in range(n)])

    def mat(self, prefix, n, m, sign=None):
        return self.arr([[self.real(f"{prefix}{i}{j}", sign) for j in range(m)] for i in range(n)])

    def spd(self, prefix, n, diag=False):
        """
        An arbitrary symmetric positive-definite matrix, written as L L^T with a positive diagonal.  With diag="wide"
        all but two entries of L are fixed small integers, which keeps large matrices within reach.
        """
        if n == 0:
            return self.arr([]).reshape(0, 0)
        L = [[0.0] * n for _ in range(n)]
        for i in range(n):
            if diag == "wide":
                L[i][: i + 1] = [float((3 * i + 5 * j + i * j + n) % 5 - 2) for j in range(i)] + [float(1 + i % 2)]
                if i == 0:
                    L[0][0] = self.real(f"{prefix}l00", "+")
                if i == n - 1 and n > 1:
                    L[i][n // 2 - 1] = self.real(f"{prefix}l{i}{n // 2 - 1}")
                continue
            L[i][i] = self.real(f"{prefix}l{i}{i}", "+")
            if not diag:
                for j in range(i):
                    L[i][j] = self.real(f"{prefix}l{i}{j}")
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                t = L[i][0] * L[j][0]
                for k in range(1, n):
                    t = t + L[i][k] * L[j][k]
                out[i][j] = t
        return self.arr(out)

    def spd_free(self, prefix, n):
        """An arbitrary symmetric positive-definite matrix, written by its entries (leading minors > 0)."""
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                v = self.real(f"{prefix}{j}{i}", "+" if i == j else None)
                m[i][j] = m[j][i] = v
        for k in range(2, n + 1):
            self.assume(self.det([r[:k] for r in m[:k]]) > 0)
        return self.arr(m)

    def det(self, m):
        n = len(m)
        if n == 0:
            return 1
        if n == 1:
            return m[0][0]
        t = 0
        for j in range(n):
            sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
            d = m[0][j] * self.det(sub)
            t = t + d if j % 2 == 0 else t - d
        return t

    def inv(self, m):
        """Exact inverse by cofactors: (matrix as nested lists)."""
        n = len(m)
        d = self.det(m)
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                sub = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
                c = self.det(sub)
                if (i + j) % 2:
                    c = -c
                out[j][i] = c / d
        return out

    def solve_list(self, m):
        return [list(r) for r in m]


# ---------------------------------------------------------------------------------------------------------- symbolic
class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, ctx, sink):
        self.ctx = ctx
        self.tree = loader.Tree()
        self.np = self.tree.proxies["numpy"]
        self.special = self.tree.proxies["scipy.special"]
        self.sink = sink  # collects obligations
        self.choices = {}
        self.inputs = []
        npx.RNG.handlers = {}
        core.PRINTED.clear()
        pens.stop()

    def mod(self, name):
        return self.tree.load(name)

    def stub_random(self, name, handler):
        npx.RNG.handlers[name] = handler

    def stub_optimiser(self, handler):
        """scipy.optimize.minimize is replaced by handler(function, x0)."""
        npx.RNG.handlers["minimize"] = lambda fun, x0, *a, **k: handler(fun, x0)

    def stub_hessian(self, cls):
        """numdifftools.Hessian is replaced by cls wherever the package uses it."""
        for m in list(self.tree.mods.values()):
            stub_hessian(self, m, cls)

    def stub_plotting(self, points=None, places=None):
        """Nothing is drawn; returns the list of recorded drawing calls."""
        return pens.record(points, places)

    def patch(self, obj, name, value):
        setattr(obj, name, value)  # every path has its own copy of the package

    def huge(self, l):
        """exp(l) in the reference computation, for l far outside the range of a double's exponent."""
        return core.g_exp(l)

    def ranged(self, label, fn):
        """
        Runs fn(); no exponential that the code takes on the way exceeds the range of a double, and no logarithm is taken
        of a number that came out of an exponential (it may have vanished).
        """
        old, core.RANGE = core.RANGE, []
        try:
            r = fn()
            rec = core.RANGE
        finally:
            core.RANGE = old
        for kind, x in rec:
            if not is_sym(x):
                continue
            if kind == "exp":
                real = as_real(x) if isinstance(x, S) else None
                if real is not None and not any(self.ctx.pool.vars[v].kind == "log" for v in real.r.vars()):
                    self.true(f"{label}/exponent in range", real <= 700)
                else:
                    # the same bound on the exponent and on its exponential (either may follow from the path taken)
                    bounds = [core.g_exp(x) <= 2 ** 1000] + ([] if real is None else [real <= 693])
                    self.true(f"{label}/exponential in range", self.any(*bounds))
            elif isinstance(x, S) and any(self.ctx.pool.vars[v].kind == "exp" for v in x.r.vars()):
                self.fail(f"{label}/logarithm of an exponential")
        return r

    def identical(self, pairs):
        """Equal in normal form, without branching."""
        return all(self._scalar_eq(a, b) is True for a, b in pairs)

    def tol(self):
        self.ctx.close_mode = "tol"

    def exact(self):
        self.ctx.close_mode = "exact"

    def sharp(self):
        """Facts about logarithms for comparisons with == as well."""
        self.ctx.eq_bounds = True

    def real(self, name, sign=None):
        v = self.ctx.pool.input(name, sign)
        if name not in self.inputs:
            self.inputs.append(name)
        return S(core.Rat(core.P.p_var(v.idx)))

    def const(self, x):
        return S.of(x)

    def choice(self, name, n):
        c = self.ctx.choose(n)
        self.choices[name] = c
        return c

    def log(self, p):
        return core.g_log(p)

    def logw(self, name):
        """An arbitrary finite log weight, represented as log(w), w > 0."""
        return S(core.log_rat(self.real(name, "+").r))

    def exp(self, x):
        return core.g_exp(x)

    def sqrt(self, x):
        return core.g_sqrt(x)

    def abs(self, x):
        return abs(as_real(x))

    def pi(self):
        return S(core.pi_rat())

    def arr(self, x):
        r = npx.np_array(x, dtype=object) if npx.has_sym(x) else npx.np_array(x, dtype=float)
        return npx.wrap(r) if isinstance(r, np.ndarray) and r.dtype == object else r

    def barrier(self):
        pass

    def assume(self, cond):
        c = to_cond(cond)
        if isinstance(c, bool):
            if not c:
                raise core.PathAbort("assumption")
            return
        if not self.ctx.branch_only(c):
            raise core.PathAbort("assumption")

    def is_true(self, cond):
        return bool(cond)

    # claims
    def _scalar_eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        if isinstance(a, LG) and isinstance(b, LG):
            return rat_cmp(a.p.r.add(b.p.r.neg()), "==")
        if isinstance(a, LG) and not is_sym(b) and float(b) == -INF:
            return rat_cmp(a.p.r, "==")
        if isinstance(b, LG) and not is_sym(a) and float(a) == -INF:
            return rat_cmp(b.p.r, "==")
        a, b = as_real(a), as_real(b)
        if not is_sym(a) or not is_sym(b):
            if not is_sym(a) and not is_sym(b):
                return a == b
            return False
        return rat_cmp(a.r.add(b.r.neg()), "==")

    def eq(self, label, actual, expected, rtol=None):
        pairs = _pairs(actual, expected)
        if pairs is None:
            self.sink(label, False, f"shape {np.shape(actual)} vs {np.shape(expected)}", None)
            return
        conds = []
        raw = []
        for a, b in pairs:
            if isinstance(a, npx.Eig):
                a = a._exact()
            c = self._scalar_eq(a, b)
            conds.append(c)
            if c is True and is_sym(a) and is_sym(b):
                raw.append((a, b))
        self.sink(label, c_and(conds), None, raw)

    def printed(self, label, texts, expected, decimals=None):
        """Each text shows the expected value (with the given number of decimals)."""
        if len(texts) != len(expected):
            return self.sink(label, False, f"{len(texts)} values instead of {len(expected)}", None)
        vals = []
        for t in texts:
            v, spec = _token_value(t, core.PRINTED)
            if v is None or (decimals is not None and spec != f".{decimals}f"):
                return self.sink(label, False, f"not a number with {decimals} decimals: {t!r} ({spec})", None)
            vals.append(v)
        if expected:
            self.eq(label, vals, list(expected))

    def true(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = npx.np_all(cond)
        self.sink(label, to_cond(cond), None, None)

    def fail(self, label, note=""):
        self.sink(label, False, note, None)

    def raises(self, label, fn, types=Exception):
        try:
            fn()
        except types:
            self.sink(label, True, None, None)
            return
        except Exception as e:
            self.sink(label, False, f"raised {type(e).__name__}: {e}"[:200], None)
            return
        self.sink(label, False, "no exception was raised", None)

    def attempt(self, fn):
        """(value, None) or (None, exception)."""
        try:
            return fn(), None
        except Exception as e:
            return None, e

    def both(self, *conds):
        return core.mk_sb(c_and([to_cond(c) for c in conds]))

    def any(self, *conds):
        return core.mk_sb(c_or([to_cond(c) for c in conds]))

    def same(self, a, b):
        return a == b

    def iff(self, label, actual_bool, cond):
        """A returned truth value agrees with a condition."""
        if bool(actual_bool):
            self.true(label, cond)
        else:
            self.sink(label, c_not(to_cond(cond)), None, None)


def stub_hessian(env, module, cls):
    import types
    import numdifftools
    for n, v in list(vars(module).items()):
        if v is numdifftools:
            env.patch(module, n, types.SimpleNamespace(Hessian=cls))
        elif v is numdifftools.Hessian:
            env.patch(module, n, cls)


def _pairs(a, b):
    aa = isinstance(a, (np.ndarray, list, tuple))
    bb = isinstance(b, (np.ndarray, list, tuple))
    if not aa and not bb:
        return [(a, b)]
    if isinstance(a, npx.EigArr):
        a = list(a)
    a = _obj(a)
    b = _obj(b)
    if a.shape != b.shape:
        return None
    return list(zip(a.reshape(-1), b.reshape(-1)))


def _obj(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if isinstance(x, npx.SA) else x
    try:
        return np.array(_strip(x), dtype=object)
    except ValueError:
        return np.array(["ragged"], dtype=object)


def _strip(x):
    if isinstance(x, npx.SA):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_strip(y) for y in x]
    return x


# ---------------------------------------------------------------------------------------------------------- concrete
RTOL = 1e-5
ATOL = 1e-7


class LogNum:
    """A non-negative real held as its logarithm (reference computations with numbers no double can hold)."""
    __slots__ = ("l",)
    __array_priority__ = 1e7

    def __init__(self, l):
        self.l = l

    @staticmethod
    def of(x):
        return x if isinstance(x, LogNum) else LogNum(-math.inf if x == 0 else math.log(x))

    def __mul__(self, o):
        return LogNum(self.l + LogNum.of(o).l)

    def __truediv__(self, o):
        return LogNum(self.l - LogNum.of(o).l)

    def __add__(self, o):
        a, b = sorted((self.l, LogNum.of(o).l))
        return LogNum(b if a == -math.inf else b + math.log1p(math.exp(a - b)))

    __rmul__ = __mul__
    __radd__ = __add__

    def __rtruediv__(self, o):
        return LogNum.of(o) / self

    def __float__(self):
        return math.exp(self.l) if self.l < 709.7 else math.inf

    def __eq__(self, o):
        return self.l == LogNum.of(o).l

    def __lt__(self, o):
        return self.l < LogNum.of(o).l

    def __le__(self, o):
        return self.l <= LogNum.of(o).l

    def __gt__(self, o):
        return self.l > LogNum.of(o).l

    def __ge__(self, o):
        return self.l >= LogNum.of(o).l


def _token_value(text, table):
    """(value, format) of a printed number, which may be a token for a symbolic value; (None, ..) if it is not a number."""
    if text.startswith("\u27e6") and text.endswith("\u27e7") and text[1:-1].isdigit() and int(text[1:-1]) < len(table):
        return table[int(text[1:-1])]
    try:
        v = float(text)
    except ValueError:
        return None, None
    frac = text.partition(".")[2]
    return v, f".{len(frac)}f" if frac.isdigit() else ""


class ConcEnv(EnvBase):
    """Runs a scenario on the real package with given numbers; collects failing claims."""

    def __init__(self, inputs, choices, rng=None, modules=None):
        self.given = inputs
        self.choices = choices
        self.rng = rng or random.Random(0)
        self.failures = []
        self.passed = 0
        self.np = np
        import scipy.special
        self.special = scipy.special
        self.used = {}
        self._patched = []

    def mod(self, name):
        return importlib.import_module(name)

    def stub_random(self, name, handler):
        self.patch(np.random, name, handler)

    def stub_optimiser(self, handler):
        import scipy.optimize
        real = scipy.optimize.minimize
        def stub(fun, x0, *a, **k):
            return handler(fun, x0)
        for name, m in list(sys.modules.items()):
            if name.partition(".")[0] == "veroku":
                for n, v in list(vars(m).items()):
                    if v is real:
                        self.patch(m, n, stub)
        self.patch(scipy.optimize, "minimize", stub)

    def stub_hessian(self, cls):
        for name, m in list(sys.modules.items()):
            if name.partition(".")[0] == "veroku":
                stub_hessian(self, m, cls)

    def stub_plotting(self, points=None, places=None):
        for name, m in list(sys.modules.items()):
            if name.partition(".")[0] == "veroku":
                for n, v in list(vars(m).items()):
                    top = getattr(v, "__module__", None) if callable(v) else getattr(v, "__name__", None)
                    if isinstance(top, str) and top.partition(".")[0] in ("matplotlib", "seaborn") and n != "__name__":
                        self.patch(m, n, pens.Pen(n))
        self.plotting = True
        return pens.record()

    def patch(self, obj, name, value):
        self._patched.append((obj, name, obj.__dict__.get(name, _ABSENT)))
        setattr(obj, name, value)

    def huge(self, l):
        return LogNum(float(l))

    def ranged(self, label, fn):
        return fn()

    def identical(self, pairs):
        return all(a == b or abs(a - b) <= 1e-9 * (1 + abs(a)) for a, b in pairs)

    def close(self):
        for o, n, f in reversed(self._patched):
            if f is _ABSENT:
                delattr(o, n)
            else:
                setattr(o, n, f)
        self._patched = []
        pens.stop()

    def tol(self):
        pass

    def exact(self):
        pass

    def sharp(self):
        pass

    def barrier(self):
        pass

    def real(self, name, sign=None):
        if name not in self.given:
            v = self.rng.choice([0.25, 0.5, 0.75, 1.25, 1.5, 2.0, 3.0])
            if sign is None:
                v *= self.rng.choice([1, -1])
            self.given[name] = v
        v = float(self.given[name])
        if (sign == "+" and not v > 0) or (sign == "0+" and not v >= 0):
            raise AssumptionFailed(name)
        self.used[name] = v
        return v

    def const(self, x):
        return float(x)

    def choice(self, name, n):
        return self.choices.get(name, 0)

    def log(self, p):
        if isinstance(p, LogNum):
            return p.l
        return -math.inf if p == 0 else math.log(p)

    def logw(self, name):
        return math.log(self.real(name, "+"))

    def exp(self, x):
        return math.exp(x) if np.ndim(x) == 0 else np.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def pi(self):
        return math.pi

    def arr(self, x):
        return np.array(x, dtype=float)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def is_true(self, cond):
        return bool(cond)

    def _note(self, label, ok, note, gap=None):
        if ok:
            self.passed += 1
        else:
            self.failures.append({"label": label, "note": str(note)[:300], "gap": gap})

    def eq(self, label, actual, expected, rtol=None):
        try:
            a = np.array(actual, dtype=object)
            b = np.array(expected, dtype=object)
        except ValueError:
            return self._note(label, False, "ragged")
        if a.shape != b.shape:
            return self._note(label, False, f"shape {a.shape} vs {b.shape}")
        worst = 0.0
        bad = None
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if isinstance(x, complex):
                x = x.real if abs(x.imag) < 1e-12 else math.nan
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                if x != y:
                    worst, bad = 9.0, (x, y)
                continue
            if x == y:
                continue
            if not (math.isfinite(x) and math.isfinite(y)):
                worst, bad = 9.0, (x, y)
                continue
            g = abs(x - y) / (ATOL / RTOL + max(abs(x), abs(y)))
            if g > worst:
                worst, bad = g, (x, y)
        self._note(label, worst <= (rtol or RTOL), f"got {bad[0]!r}, expected {bad[1]!r}" if bad else "", worst)

    def printed(self, label, texts, expected, decimals=None):
        if len(texts) != len(expected):
            return self._note(label, False, f"{len(texts)} values instead of {len(expected)}", 9.0)
        big = max([abs(float(e)) for e in expected if math.isfinite(float(e))] + [1.0]) if decimals is None else 1.0
        for t, e in zip(texts, expected):
            v, spec = _token_value(t, [])
            e = float(e)
            if v is None or (decimals is not None and math.isfinite(v) and spec != f".{decimals}f"):
                return self._note(label, False, f"not a number with {decimals} decimals: {t!r}", 9.0)
            if not (v == e or abs(v - e) <= 2e-4 * big):
                return self._note(label, False, f"shows {t}, should be {e!r}", abs(v - e) / big)
        self._note(label, True, "")

    def true(self, label, cond):
        self._note(label, bool(np.all(cond)), "claim is false", 9.0)

    def fail(self, label, note=""):
        self._note(label, False, note, 9.0)

    def raises(self, label, fn, types=Exception):
        try:
            fn()
        except types:
            return self._note(label, True, "")
        except Exception as e:
            return self._note(label, False, f"raised {type(e).__name__}: {e}", 9.0)
        self._note(label, False, "no exception was raised", 9.0)

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:
            return None, e

    def both(self, *conds):
        return all(conds)

    def any(self, *conds):
        return any(conds)

    def same(self, a, b):
        """a == b in the exact reading; concretely the two must be clearly equal or clearly different."""
        gap = abs(a - b)
        if gap > 1e-9 * (1 + abs(a)) and gap < 1e-2 * (1 + max(abs(a), abs(b))):
            raise AssumptionFailed("too close to the tolerance")
        return abs(a - b) <= 1e-9 * (1 + abs(a))

    def iff(self, label, actual_bool, cond):
        self._note(label, bool(actual_bool) == bool(cond), f"returned {bool(actual_bool)}, should be {bool(cond)}", 9.0)


def run_concrete(fn, cfg, inputs, choices, seed=0):
    """-> ('ok'|'assume'|'fail', failures, used inputs)"""
    import contextlib
    import io
    import warnings
    env = ConcEnv(dict(inputs), choices, random.Random(seed))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(env, **cfg)
    except AssumptionFailed:
        return "assume", [], env.used
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "veroku" in f.filename), "")
        env.failures.append({"label": f"exception:{type(e).__name__}", "note": f"{e} at {where}"[:300], "gap": 9.0})
    finally:
        env.close()
    return ("fail" if env.failures else "ok"), env.failures, env.used
