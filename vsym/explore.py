"""Depth-first exploration of the decision tree of a scenario."""
import time

from . import core


def explore(run, pool_factory=core.Pool, stats=None, deadline=None, max_paths=100000, set_order="asc"):
    """
    run(ctx) executes one path.  Yields (ctx, outcome) with outcome in
    'done' | 'abort' | ('limit', msg) | ('error', exception).
    """
    stats = stats or core.Stats()
    pool = pool_factory()
    prefix = []
    n = 0
    info = {"paths": 0, "complete": True, "iterated": False}
    yield_info = info
    while True:
        c = core.Ctx(pool, prefix, stats, deadline, set_order)
        c.set_iterated = False
        core.set_ctx(c)
        try:
            run(c)
            out = "done"
        except core.PathAbort:
            out = "abort"
        except core.EngineLimit as e:
            out = ("limit", f"engine: {e}")
        except core.P.TermLimit as e:
            out = ("limit", f"terms: {e}")
        except core.BudgetExceeded:
            info["complete"] = False
            info["why"] = "time"
            yield c, ("limit", "time budget"), yield_info
            return
        except RecursionError as e:
            out = ("limit", f"recursion {e}")
        except Exception as e:  # the code under analysis raised
            out = ("error", e)
        info["iterated"] = info["iterated"] or c.set_iterated
        n += 1
        info["paths"] = n
        yield c, out, yield_info
        # next prefix
        tr = c.trace
        nxt = None
        for i in range(len(tr) - 1, -1, -1):
            d, o = tr[i]
            if isinstance(o, tuple):
                if d + 1 < o[1]:
                    nxt = [list(t) for t in tr[:i]] + [[d + 1, o]]
                    break
            elif o:
                nxt = [list(t) for t in tr[:i]] + [[not d, False]]
                break
        if nxt is None:
            return
        prefix = nxt
        if n >= max_paths:
            info["complete"] = False
            info["why"] = "paths"
            return
