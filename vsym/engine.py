"""Runs one configuration of one scenario: explores its paths, discharges its claims, replays its counterexamples."""
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import core, explore, scen
from .core import c_and, c_not

HERE = os.path.dirname(os.path.abspath(__file__))


class Found(BaseException):
    """Stop exploring this configuration: a counterexample was confirmed."""


FUNCS = set()
_MON = None


def monitor_functions():
    """Record which functions of /repo were executed symbolically."""
    global _MON
    if _MON is not None:
        return
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "vsym")
    except ValueError:
        _MON = -1
        return
    from . import loader
    prefix, skip, c_ = loader.REPO + "/veroku", len(loader.REPO) + 1, core

    def start(code, off):
        if code.co_filename.startswith(prefix) and c_ is not None and c_.CTX is not None:
            rel = code.co_filename[skip:]
            if not code.co_name.startswith("<"):
                FUNCS.add(f"{rel}:{code.co_qualname}")
            return None
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    _MON = tid


class Timeout:
    def __init__(self, secs, exc):
        self.secs, self.exc = secs, exc

    def __enter__(self):
        def h(*a):
            raise self.exc
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, max(self.secs, 0.01), 2.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def concrete(fn, cfg, inputs, choices, seed=0, limit=20):
    saved = core.CTX
    core.set_ctx(None)
    try:
        with Timeout(limit, scen.ScenarioFailure("concrete run did not terminate")):
            return scen.run_concrete(fn, cfg, inputs, choices, seed)
    finally:
        core.set_ctx(saved)


def moderate(inputs):
    return all(abs(v) <= 1e3 and (v == 0 or abs(v) >= 1e-3) for v in inputs.values())


def extreme(inputs):
    """Too far from one for double arithmetic to say anything about real arithmetic."""
    return any(abs(v) > 1e8 or 0 < abs(v) < 1e-8 for v in inputs.values())


def randomised(inputs, rng):
    """Sign-, zero- and equality-preserving randomisation of a model."""
    m = {}
    out = {}
    for k, v in inputs.items():
        if v == 0:
            out[k] = 0.0
            continue
        if v not in m:
            m[v] = (1 if v > 0 else -1) * round(rng.choice([0.2, 0.4, 0.6, 0.8, 1.1, 1.4, 1.7, 2.3, 3.1]) +
                                                rng.random() * 0.1, 4)
        out[k] = m[v]
    return out


def confirm(fn, cfg, inputs, choices, label, rng, tries=60, budget=25.0):
    """Find concrete numbers on which the real package breaks the claim, starting from the solver's model."""
    t0 = time.time()
    cands = [dict(inputs)]
    for i in range(tries):
        cands.append(None)
    ran = 0
    for i, c in enumerate(cands):
        if c is None:
            if time.time() - t0 > budget:
                break
            if i % 3 == 2:
                c = {}
            else:
                c = randomised(inputs, rng)
        try:
            st, fails, used = concrete(fn, cfg, c, choices, seed=rng.randrange(1 << 30))
        except scen.ScenarioFailure as e:
            return {"inputs": c, "failures": [{"label": "nonterminating", "note": str(e), "gap": 9.0}]}, ran
        if st == "assume":
            continue
        ran += 1
        if extreme(used):
            continue
        usual = moderate(used)
        fails = [f for f in fails if f["gap"] is not None and f["gap"] >= (1e-4 if usual else 1e-2)
                 and (usual or f["label"] == label or not f["label"].startswith("exception:"))]
        if fails:
            return {"inputs": used, "failures": fails}, ran
    return None, ran


def run_config(prop, scenario, fn, cfg, opts):
    """opts: time budget, seed, known (list of known-finding matchers)."""
    monitor_functions()
    t0 = time.time()
    rng = random.Random(f"{opts['seed']}/{prop}/{scenario}/{cfg}")
    deadline = t0 + opts["budget"]
    stats = core.Stats()
    res = {"prop": prop, "scenario": scenario, "cfg": repr(cfg), "paths": 0, "aborted": 0, "claims": 0, "proved": 0,
           "normal_form": 0, "unresolved": [], "violations": [], "known": [], "validated": 0, "validation_runs": 0,
           "complete": True, "orders": 0, "notes": [], "sample": None, "reached": 0}
    FUNCS.clear()

    def confirm_and_record(env, ctx, label, note, mw, tries=60):
        base = ctx.input_values(ctx.path_model())
        inputs = dict(base)
        inputs.update(ctx.input_values(mw))
        got, ran = confirm(fn, cfg, inputs, env.choices, label, rng, tries=tries)
        if got is None:
            # adversarial set orders are only visible under some hash seeds
            if ctx.set_iterated:
                for hs in ("1", "2", "3", "5", "8"):
                    r = subprocess_replay(prop, scenario, cfg, inputs, env.choices, hs)
                    if r and r["status"] == "fail":
                        got = {"inputs": r["used"], "failures": r["failures"], "hashseed": hs}
                        break
            if got is None:
                res["unresolved"].append(f"{label}: counterexample did not replay ({note or 'claim'})")
                return False
        rec = {"property": prop, "scenario": scenario, "cfg": cfg_key(cfg), "inputs": got["inputs"],
               "choices": env.choices, "label": label, "failures": got["failures"][:5],
               "hashseed": got.get("hashseed", "0"), "note": note}
        labels = {f["label"] for f in got["failures"]} | {label}
        k = match_known(opts["known"], prop, scenario, cfg, labels)
        if k:
            res["known"].append({"entry": k, **rec})
            return False
        res["violations"].append(rec)
        return True

    orders = ["asc"]
    oi = 0
    while oi < len(orders):
        order = orders[oi]
        oi += 1
        res["orders"] += 1
        holder = {}

        def run(ctx):
            env_box = []
            batch = []

            def sink(label, cond, note, raw):
                env = env_box[0]
                res["claims"] += 1
                if isinstance(cond, bool):
                    if cond:
                        res["proved"] += 1
                        res["normal_form"] += 1
                        if raw:
                            batch.extend(raw)
                        return
                    pm = ctx.path_model()
                    if pm is None and ctx.pc:
                        # is the path feasible at all?
                        r, m, w = ctx.check([], set().union(*[c.vs for c in ctx.pc]), 5000, lemmas=True,
                                            kinds=("nra", "gen"))
                        if r == core.z3.unsat:
                            raise core.PathAbort()
                    if confirm_and_record(env, ctx, label, note, pm):
                        raise Found()
                    return
                v, mw = ctx.prove(cond, opts.get("timeout_ms", 8000))
                if v == "unsat":
                    res["proved"] += 1
                    return
                if v == "unknown":
                    mw2 = ctx.path_model()
                    got, ran = confirm(fn, cfg, ctx.input_values(mw2), env.choices, label, rng, tries=12, budget=8)
                    if got:
                        if confirm_and_record(env, ctx, label, note, mw2):
                            raise Found()
                        return
                    res["unresolved"].append(f"{label}: solver gave no answer")
                    return
                if confirm_and_record(env, ctx, label, note, mw):
                    raise Found()

            env = scen.SymEnv(ctx, sink)
            env_box.append(env)
            holder["env"] = env
            if opts.get("limit"):
                lim = opts["limit"]
            else:
                lim = max(5.0, deadline - time.time() + 2)
            with Timeout(lim, core.BudgetExceeded()):
                fn(env, **cfg)
            res["reached"] += 1
            if batch:
                batch_query(ctx, batch, res)

        try:
            for ctx, out, info in explore.explore(run, stats=stats, deadline=deadline,
                                                  max_paths=opts.get("max_paths", 3000), set_order=order):
                env = holder.get("env")
                core.set_ctx(ctx)
                if out == "abort":
                    res["aborted"] += 1
                    continue
                res["paths"] += 1
                if out == "done":
                    if res["validation_runs"] < opts.get("validate", 4):
                        validate(fn, cfg, ctx, env, res, rng, opts, prop, scenario)
                    if res["sample"] is None:
                        res["sample"] = {"inputs": env.inputs[:8], "decisions": len(ctx.trace),
                                         "path_condition": [str(c.f)[:120] for c in ctx.pc[:4]]}
                elif out[0] == "limit":
                    res["unresolved"].append(out[1])
                    if env is not None:
                        mw = ctx.path_model() if out[1] != "time budget" else None
                        got, ran = confirm(fn, cfg, ctx.input_values(mw), env.choices, "limit", rng, tries=12, budget=8)
                        res["validation_runs"] += ran
                        if got:
                            if confirm_and_record(env, ctx, "limit", out[1], mw):
                                raise Found()
                else:
                    e = out[1]
                    if isinstance(e, scen.ScenarioFailure):
                        res["unresolved"].append(str(e))
                        continue
                    vs = set()
                    for c in ctx.pc:
                        vs |= c.vs
                    r, m, w = ctx.check([], vs, 4000, lemmas=True, kinds=("nra", "gen"))
                    if r == core.z3.unsat:
                        res["aborted"] += 1
                        continue
                    tb = traceback.extract_tb(e.__traceback__)
                    where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb)
                                  if "/veroku/" in f.filename), "")
                    own = tb and "/vsym/" in tb[-1].filename and isinstance(e, (TypeError, AttributeError, NameError))
                    note = " ".join(f"{type(e).__name__}: {e} ({where})".split())[:200]
                    if opts.get("debug"):
                        traceback.print_exception(e)
                    if confirm_and_record(env, ctx, f"exception:{type(e).__name__}", note,
                                          (m, w) if m is not None else None, tries=6 if own else 60):
                        raise Found()
            if not info["complete"]:
                res["complete"] = False
                res["notes"].append(f"exploration stopped: {info.get('why')}")
            if info["iterated"] and "desc" not in orders:
                orders.append("desc")
        except Found:
            res["complete"] = False
            break
        except core.BudgetExceeded:
            res["complete"] = False
            res["unresolved"].append("time budget")
            break
        finally:
            core.set_ctx(None)
    res["functions"] = sorted(FUNCS)
    res["stats"] = stats.as_dict()
    res["wall"] = time.time() - t0
    return res


def batch_query(ctx, pairs, res):
    """One solver query confirming every claim of this path that the rational normal form already closed."""
    z3 = core.z3
    negs = []
    vs = set()
    size = 0
    for a, b in pairs:
        a, b = core.as_real(a), core.as_real(b)
        if not core.is_sym(a) or not core.is_sym(b):
            continue
        size += len(a.r.num) + len(b.r.num)
        if size > 1500:
            break
        an, ad = a.r.z3nd()
        bn, bd = b.r.z3nd()
        l = an if bd is None else an * bd
        r = bn if ad is None else bn * ad
        negs.append(l != r)
        vs |= a.r.vars() | b.r.vars()
    if not negs:
        return
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", 2000)
    for v in vs:
        s.add(*ctx.pool.vars[v].side)
    s.add(z3.Or(negs))
    if getattr(ctx, "learned", True):
        s.add(*[c.f for c in ctx.pc])
    t = time.time()
    r = s.check()
    ctx.stats.solver_s += time.time() - t
    ctx.stats.queries += 1
    if r == z3.unsat:
        ctx.stats.unsat += 1
    elif r == z3.sat:
        ctx.stats.sat += 1
        res["unresolved"].append("normal form and solver disagree")
    else:
        ctx.stats.unknown += 1


def validate(fn, cfg, ctx, env, res, rng, opts, prop, scenario):
    """Replay a model of this path on the real package: every claim must hold there too."""
    mw = ctx.path_model()
    inputs = ctx.input_values(mw)
    res["validation_runs"] += 1
    for k in range(3):
        c = dict(inputs) if k == 0 else randomised(inputs, rng)
        try:
            st, fails, used = concrete(fn, cfg, c, env.choices, seed=rng.randrange(1 << 30))
        except scen.ScenarioFailure as e:
            res["notes"].append(f"validation run did not terminate: {e}")
            return
        if st == "assume":
            continue
        if st == "ok":
            res["validated"] += 1
            return
        big = [f for f in fails if f["gap"] is not None and f["gap"] >= 1e-3]
        if big and moderate(used):
            labels = {f["label"] for f in big}
            k_ = match_known(opts["known"], prop, scenario, cfg, labels)
            rec = {"property": prop, "scenario": scenario, "cfg": cfg_key(cfg), "inputs": used, "choices": env.choices,
                   "label": big[0]["label"], "failures": big[:5], "hashseed": "0",
                   "note": "found when a solver model of a path was replayed on the real package"}
            if k_:
                res["known"].append({"entry": k_, **rec})
                return
            res["violations"].append(rec)
            raise Found()
    res["notes"].append("path model could not be replayed")


def cfg_key(cfg):
    return {k: v for k, v in cfg.items()}


def match_known(known, prop, scenario, cfg, labels):
    import fnmatch
    for k in known:
        if k["property"] != prop or not fnmatch.fnmatch(scenario, k["scenario"]):
            continue
        if not fnmatch.fnmatch(repr(cfg), k.get("cfg", "*")):
            continue
        if all(fnmatch.fnmatch(l, k["label"]) for l in labels if l != "limit"):
            return k["id"]
    return None


def subprocess_replay(prop, scenario, cfg, inputs, choices, hashseed, path=None):
    rec = {"property": prop, "scenario": scenario, "cfg": cfg, "inputs": inputs, "choices": choices}
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "..", "replay.py"), path or "-", "--json"],
                           input=json.dumps(rec, default=repr), capture_output=True, text=True, timeout=120, env=env)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return None
