"""
python -m vsym.runner PROPERTY [--tier quick|thorough]

Explores every configuration of the property's scenarios in parallel, replays counterexamples, writes the evidence file.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load_props():
    out = {}
    pdir = os.path.join(HERE, "props")
    for f in sorted(os.listdir(pdir)):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module(f"vsym.props.{f[:-3]}")
            for pid, scs in m.PROPS.items():
                out.setdefault(pid, []).extend(scs)
    return out


def load_known():
    """known_findings.txt: `KNOWN-FINDING: id=K1 property=C01 scenario=glob label=glob cfg=glob :: text` lines."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("KNOWN-FINDING:"):
            continue
        head, _, text = line[len("KNOWN-FINDING:"):].partition("::")
        d = {"cfg": "*", "label": "*", "scenario": "*"}
        for tok in head.split():
            k, _, v = tok.partition("=")
            d[k] = v
        d["text"] = text.strip()
        out.append(d)
    return out


def _task(a):
    prop, si, ci, opts = a
    from . import engine
    sc = _PROPS[prop][si]
    cfgs = sc.configs(opts["tier"])
    try:
        return engine.run_config(prop, sc.name, sc.fn, cfgs[ci], opts)
    except BaseException as e:  # an engine fault: reported, never silently passed
        import traceback
        return {"prop": prop, "scenario": sc.name, "cfg": repr(cfgs[ci]), "fault": traceback.format_exc()[-1500:]}


_PROPS = None


def main(argv=None):
    global _PROPS
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--cfg", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VSYM_JOBS", "8")))
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    _PROPS = load_props()
    prop = a.property
    if prop not in _PROPS:
        print(f"unknown property {prop}")
        return 2
    import veroku.cluster_graph  # noqa: real package, imported before forking
    import veroku.factors.sparse_categorical  # noqa
    import veroku.factors.experimental.factorised_factor  # noqa
    import veroku.factors.experimental.nonlinear_gaussian  # noqa
    import matplotlib
    matplotlib.use("Agg")
    known = load_known()
    total = a.budget or (240 if a.tier == "quick" else 2400)  # wall clock for the whole property
    opts = {"tier": a.tier, "seed": seed, "known": known, "budget": 120.0 if a.tier == "quick" else 900.0,
            "validate": 3 if a.tier == "quick" else 6, "debug": a.debug, "max_paths": 4000}
    tasks = []
    for si, sc in enumerate(_PROPS[prop]):
        if a.scenario and sc.name != a.scenario:
            continue
        n = len(sc.configs(a.tier))
        for ci in range(n):
            if a.cfg is not None and ci != a.cfg:
                continue
            o = dict(opts)
            o.update(sc.opts)
            tasks.append((prop, si, ci, o))
    # spread the scenarios over the run, so that an early stop still has touched each of them
    tasks.sort(key=lambda t: (t[2], t[1]))
    results = []
    stop = False
    not_run = 0
    if a.jobs == 1 or len(tasks) == 1:
        for t in tasks:
            if time.time() - t0 > total:
                not_run += 1
                continue
            r = _task(t)
            results.append(r)
            if a.verbose:
                _say(r)
            if r.get("violations"):
                break
    else:
        ctxm = mp.get_context("fork")
        with ctxm.Pool(min(a.jobs, len(tasks)), maxtasksperchild=40) as pool:
            it = pool.imap_unordered(_task, tasks)
            pending = len(tasks)
            while pending:
                left = total - (time.time() - t0)
                try:
                    r = it.next(timeout=max(left, 0.1))
                except mp.TimeoutError:
                    not_run = pending
                    break
                except StopIteration:
                    break
                pending -= 1
                results.append(r)
                if a.verbose:
                    _say(r)
                if r.get("violations"):
                    break
            pool.terminate()
    return report(prop, a.tier, seed, results, tasks, not_run, t0, known)


def _say(r):
    if "fault" in r:
        print("FAULT", r["scenario"], r["cfg"], r["fault"])
        return
    print(f"{r['wall']:6.2f}s {r['scenario']} {r['cfg'][:110]} paths={r['paths']} claims={r['claims']} "
          f"proved={r['proved']} nf={r['normal_form']} val={r['validated']}/{r['validation_runs']} "
          f"q={r['stats']['queries']} "
          f"{'UNRES ' + str(len(r['unresolved'])) + ' ' + r['unresolved'][0][:150] if r['unresolved'] else ''}"
          f"{' VIOL ' + r['violations'][0]['label'] + ' ' + str(r['violations'][0]['failures'][0])[:200] if r['violations'] else ''}"
          f"{' KNOWN ' + r['known'][0]['entry'] if r['known'] else ''}"
          f"{' ' + '; '.join(r['notes'][:2]) if r['notes'] else ''}", flush=True)


def report(prop, tier, seed, results, tasks, not_run, t0, known):
    from . import engine
    faults = [r for r in results if "fault" in r]
    good = [r for r in results if "fault" not in r]
    viols = []
    for r in good:
        for v in r["violations"]:
            # confirm in a fresh process on the real package
            d = os.path.join(os.environ.get("VSYM_OUT", os.path.join(ROOT, "evidence", "replays")))
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}_{v['scenario']}_{len(viols)}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            rr = engine.subprocess_replay(prop, v["scenario"], v["cfg"], v["inputs"], v["choices"], v["hashseed"])
            if rr is None or rr["status"] != "fail":
                r["unresolved"].append(f"{v['label']}: not reproduced in a fresh process")
                continue
            viols.append((path, v))
    tot = {k: sum(r[k] for r in good) for k in ("paths", "claims", "proved", "normal_form", "validated",
                                               "validation_runs", "aborted", "reached")}
    st = {}
    for r in good:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    unresolved = [(r["scenario"], r["cfg"], u) for r in good for u in r["unresolved"]]
    funcs = sorted({f for r in good for f in r["functions"]})
    scs = {}
    for r in good:
        e = scs.setdefault(r["scenario"], {"configs": 0, "paths": 0, "claims": 0, "proved": 0})
        e["configs"] += 1
        for k in ("paths", "claims", "proved"):
            e[k] += r[k]
    kn = {}
    for r in good:
        for k in r["known"]:
            kn.setdefault(k["entry"], k)
    vac = [r for r in good if r["reached"] == 0 and not r["violations"] and not r["known"]]
    samples = []
    for r in good[:200]:
        if r["sample"] and len(samples) < 4 and r["scenario"] not in [s["scenario"] for s in samples]:
            samples.append({"scenario": r["scenario"], "config": r["cfg"][:300], **r["sample"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": st.get("branches", 0) + tot["paths"],
            "traces_validated_against_impl": tot["validated"], "samples": samples or [{"note": "no completed path"}],
            "explanation": "states = symbolic paths completed, transitions = symbolic branch decisions plus path "
                           "starts, traces_validated = paths whose solver model was replayed on the real package",
            "configurations": len(good), "configurations_not_run": not_run, "claims": tot["claims"],
            "claims_discharged": tot["proved"], "claims_closed_by_rational_normal_form_then_confirmed_by_solver":
                tot["normal_form"], "paths_cut_by_assumptions": tot["aborted"],
            "paths_reaching_their_end": tot["reached"],
            "solver_queries": st.get("queries", 0), "solver_unsat": st.get("unsat", 0), "solver_sat": st.get("sat", 0),
            "solver_unknown": st.get("unknown", 0), "solver_seconds": round(st.get("solver_s", 0.0), 3),
            "unresolved": [f"{s} {c[:120]}: {u[:160]}" for s, c, u in unresolved[:20]],
            "unresolved_count": len(unresolved), "engine_faults": len(faults),
            "configurations_without_a_completed_path": len(vac),
            "scenarios": scs, "functions_encoded": funcs,
            "bounds": {sc.name: sc.bounds for sc in _PROPS[prop]},
        },
        "assumptions": [
            "numbers are exact reals: floating-point rounding is outside the claim",
            "numerical tolerances of 1e-4 and below are read as equality unless the scenario says otherwise",
            "numpy/scipy kernels (elementwise functions, reductions, inverse, determinant, Cholesky, logsumexp) are "
            "replaced by their mathematical definitions",
        ] + sorted({x for sc in _PROPS[prop] for x in sc.assumptions}),
        "wall_s": round(time.time() - t0, 3), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in faults[:5]:
        print("ENGINE-FAULT", f["scenario"], f["cfg"][:200], f["fault"].strip().splitlines()[-1])
        if os.environ.get("VSYM_DEBUG"):
            print(f["fault"])
    for s, c, u in unresolved[:10]:
        print(f"UNRESOLVED {s} {c[:150]}: {u[:200]}")
    for k, v in kn.items():
        txt = next((x["text"] for x in known if x["id"] == k), "")
        print(f"KNOWN-FINDING: property={prop} {k} {txt}")
    print(f"{prop} {tier}: {len(good)} configurations, {tot['paths']} paths, {tot['proved']}/{tot['claims']} claims "
          f"discharged, {st.get('queries', 0)} queries ({st.get('solver_s', 0):.1f}s solver), "
          f"{tot['validated']} paths validated, {len(unresolved)} unresolved, {len(faults)} faults, "
          f"{time.time() - t0:.1f}s")
    if viols:
        for path, v in viols[:3]:
            print(f"  scenario {v['scenario']} config {v['cfg']} claim {v['label']}: {v['failures'][0]['note']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if tot["reached"] == 0 and not kn and good:
        print("no path reached a claim: nothing was decided")
    return 0


if __name__ == "__main__":
    sys.exit(main())
