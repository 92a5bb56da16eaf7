"""check <property> [--tier quick|thorough] [--replay FILE] [--instance NAME]"""
import argparse
import fnmatch
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")


def load(prop):
    warnings.simplefilter("ignore", SyntaxWarning)
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)
    os.chdir(REPO)
    names = [f[:-3] for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.startswith(prop.lower() + "_") and f.endswith(".py")]
    if not names:
        sys.exit(f"no harness for {prop}")
    return importlib.import_module("harness." + names[0])


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def child(inst, budget, deep, w):
    from symx import harness

    try:
        res = harness.run_instance(inst, budget, deep)
    except BaseException as e:  # noqa: B902 - report, never hang
        import traceback

        res = {"instance": inst["name"], "crash": f"{type(e).__name__}: {e}", "trace": traceback.format_exc().splitlines()[-12:]}
    with os.fdopen(w, "wb") as f:
        pickle.dump(res, f)


def run_all(instances, jobs, budget, deep, hard_limit, total, verbose=False):
    todo = list(enumerate(instances))
    running = {}
    results = [None] * len(instances)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i, inst = todo.pop(0)
            left = total - (time.time() - t0)
            if left < 3:
                results[i] = {"instance": inst["name"], "crash": "not started: total time budget exhausted"}
                continue
            b = min(inst.get("budget", budget), max(3, left))
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                for fd, *_ in running.values():
                    os.close(fd)
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not verbose:
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                try:
                    child(inst, b, deep, w)
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (r, i, inst, time.time() + b + hard_limit, [])
        fds = {v[0]: p for p, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            pid = fds[fd]
            r, i, inst, end, buf = running[pid]
            data = os.read(fd, 1 << 20)
            if data:
                buf.append(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            _killpg(pid)
            del running[pid]
            raw = b"".join(buf)
            results[i] = pickle.loads(raw) if raw else {"instance": inst["name"], "crash": "worker died"}
            if results[i].get("violation") and os.environ.get("SYMX_FIRST"):  # campaigns: one violation is enough
                for p in running:
                    _killpg(p)
                return [x for x in results if x]
            if verbose:
                print(inst["name"], "done", results[i].get("wall_s"), flush=True)
        now = time.time()
        for pid, (r, i, inst, end, buf) in list(running.items()):
            if now > end:
                _killpg(pid)
                os.waitpid(pid, 0)
                os.close(r)
                del running[pid]
                results[i] = {"instance": inst["name"], "crash": "hard time limit"}
    return results


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    from symx import harness, shim

    for tier in ("quick", "thorough"):
        for inst in mod.instances(tier):
            if inst["name"] == rec["instance"]:
                shim.patch_tqdm_only()
                out = harness.run_concrete(inst["fn"], inst.get("params", {}), dict(rec["inputs"]))
                print(f"replay of {rec['instance']} with {rec['inputs']}: {out['status']}")
                for t in out.get("trace", []) or []:
                    print("   ", t)
                for v in out["violations"]:
                    print("  violated:", *v)
                return 1 if out["violations"] else 0
    print("instance not found")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--instance")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop = args.property
    if args.replay:
        sys.exit(replay(prop, args.replay))
    t0 = time.time()
    mod = load(prop)
    deep = args.tier == "thorough"
    instances = mod.instances(args.tier)
    if args.instance:
        instances = [i for i in instances if fnmatch.fnmatch(i["name"], args.instance)]
    total = 700 if deep else 240
    budget = getattr(mod, "BUDGET", {}).get(args.tier, 300 if deep else 90)
    results = run_all(instances, args.jobs, budget, deep, 45, total, args.v)
    code = report(prop, mod, args.tier, results, time.time() - t0, partial=bool(args.instance), verbose=args.v)
    sys.stdout.flush()
    os._exit(code)


def report(prop, mod, tier, results, wall, partial, verbose):
    known = known_findings(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    agg = {"obligations": 0, "proved": 0, "paths": 0, "validated": 0, "validated_values": 0, "reached": 0}
    stats = {"queries": 0, "solver_s": 0.0, "results": {}}
    funcs, undecided, tolerance, incomplete, samples, viol, seen, mismatch = set(), [], [], [], [], [], [], []
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for r in results:
        if "crash" in r:
            undecided.append(f"{r['instance']}: {r['crash']}")
            if verbose:
                print("\n".join(r.get("trace", [])))
            continue
        for k in agg:
            agg[k] += r[k]
        stats["queries"] += r["stats"]["queries"]
        stats["solver_s"] += r["stats"]["solver_s"]
        for k, v in r["stats"]["results"].items():
            stats["results"][k] = stats["results"].get(k, 0) + v
        funcs.update(r["functions"])
        undecided += [f"{r['instance']}: {u}" for u in r["undecided"]]
        tolerance += [f"{r['instance']}: {u}" for u in r["tolerance_only"]]
        mismatch += [f"{r['instance']}: {u}" for u in r["mismatch"]]
        if r["incomplete"]:
            incomplete.append(f"{r['instance']}: {r['incomplete']}")
        samples.append({"instance": r["instance"], "paths": r["paths"], "obligations": r["obligations"],
                        "proved": r["proved"], "queries": r["stats"]["queries"],
                        "solver_s": round(r["stats"]["solver_s"], 2), "wall_s": round(r["wall_s"], 2),
                        "undecided": len(r["undecided"]), "validated": r["validated"]})
        if verbose:
            print(samples[-1])
        if r["violation"]:
            v = r["violation"]
            hit = next((k for k in known if fnmatch.fnmatch(v["instance"], k["instance"])
                        and all(any(fnmatch.fnmatch(x[0], c) for c in k["checks"]) for x in v["violations"])), None)
            if hit:
                seen.append((hit, v))
            else:
                viol.append(v)
    for what in dict.fromkeys(hit["what"] for hit, v in seen):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for n, v in enumerate(viol):
        safe = "".join(c if c.isalnum() else "_" for c in v["instance"])[:60]
        path = os.path.join(EVID, "replays", f"{prop}_{safe}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **v, "command": f"{VERIF}/check {prop} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  instance {v['instance']}: {v['violations'][:3]} inputs {v['inputs']}")
        if v.get("error"):
            print("  ", v["error"])
    for u in undecided[:20]:
        print(f"UNDECIDED property={prop} {u}")
    for u in incomplete[:20]:
        print(f"INCOMPLETE property={prop} {u}")
    if mismatch:
        print("encoding notes:", mismatch[:5])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", "") + " Bounds: " + mod.BOUNDS + " Outside: " + getattr(mod, "OUTSIDE", "nothing further stated."),
            "functions_encoded": sorted(funcs),
            "bounds": mod.BOUNDS,
            "instances": len(results), "paths": agg["paths"], "obligations": agg["obligations"],
            "obligations_discharged": agg["proved"], "queries": stats["queries"],
            "solver_seconds": round(stats["solver_s"], 2), "query_results": stats["results"],
            "reachable_path_witnesses": agg["reached"],
            "encoding_validation_runs": agg["validated"], "encoding_validation_values": agg["validated_values"],
            "held_within_tolerance_only": tolerance[:50], "undecided": undecided[:100], "incomplete": incomplete[:50],
            "encoding_mismatch": mismatch[:20],
            "samples": samples,
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "double arithmetic is modelled as exact real arithmetic (constants snapped to nearby rationals); "
            "the replay runs the real double code with tolerance 1e-7",
        ],
        "violations": [{"instance": v["instance"], "inputs": v["inputs"], "checks": v["violations"]} for v in viol],
        "known_findings_seen": [f"{v['instance']}: {h['what']}" for h, v in seen],
    }
    if not partial:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}]: {len(results)} instances, {agg['paths']} paths, {agg['proved']}/{agg['obligations']} obligations discharged, "
          f"{stats['queries']} queries, solver {stats['solver_s']:.1f}s, {agg['validated']} validation runs, wall {wall:.1f}s, "
          f"undecided {len(undecided)}, tolerance-only {len(tolerance)}")
    if viol:
        return 1
    if agg["proved"] == 0 and not seen:
        return 2
    return 0


if __name__ == "__main__":
    main()
