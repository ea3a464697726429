"""
python replay.py FILE [--json]     run a recorded counterexample on the real, unmodified package

Exit 1 when the claim fails there, 0 when it holds.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import matplotlib
matplotlib.use("Agg")
from vsym import runner, engine, scen  # noqa: E402


def main():
    src = sys.argv[1]
    rec = json.load(sys.stdin if src == "-" else open(src))
    hs = str(rec.get("hashseed", os.environ.get("PYTHONHASHSEED", "0")))
    if src != "-" and os.environ.get("PYTHONHASHSEED") != hs:
        os.environ["PYTHONHASHSEED"] = hs
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sc = next(s for s in runner.load_props()[rec["property"]] if s.name == rec["scenario"])
    cfg = detuple(rec["cfg"])
    inputs, choices = rec["inputs"], rec["choices"]
    try:
        st, fails, used = engine.concrete(sc.fn, cfg, inputs, choices, limit=60)
    except scen.ScenarioFailure as e:
        st, fails, used = "fail", [{"label": "nonterminating", "note": str(e), "gap": 9.0}], inputs
    fails = [f for f in fails if f["gap"] is None or f["gap"] >= 1e-4]
    if st == "fail" and not fails:
        st = "ok"
    if "--json" in sys.argv:
        print(json.dumps({"status": st, "failures": fails, "used": used}, default=repr))
        return 0
    print("property", rec["property"], "scenario", rec["scenario"], "config", cfg)
    print("inputs", json.dumps(used), "choices", choices)
    for f in fails:
        print("FAILS", f["label"], "-", f["note"])
    print(st)
    return 1 if st == "fail" else 0


def detuple(x):
    """JSON turns tuples into lists; scenarios accept lists."""
    return x


if __name__ == "__main__":
    sys.exit(main())
