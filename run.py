#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   run one property's check
   run.py --replay FILE                        re-run one saved failing case, without the generator
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed."""
import sys
sys.dont_write_bytecode = True
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import signal
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
SWARM_S = {"quick": 30, "thorough": 1800}      # per facet and process
OVERALL_S = {"quick": 840, "thorough": 6 * 3600}


def load(pid):
    return importlib.import_module(f"vp.checks.{pid.lower()}").CHECK


def shard_main(args):
    pid, tier, seed, shard, shards = args
    from vp import core
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    check = load(pid)
    budget = json.loads((HERE / "vp" / "budget.json").read_text()).get(pid, {})
    out = []
    for k, facet in enumerate(check.facets):
        try:
            if isinstance(facet, core.Exhaustive):
                res = core.run_exhaustive(facet, shard, shards)
            else:
                n = facet.quick if tier == "quick" else facet.thorough
                share = n // shards + (1 if shard < n % shards else 0)
                if share == 0:
                    continue
                res = core.run_generated(facet, share, ((seed * 1009 + k) * 1013 + shard) % (1 << 62))
                res.driver = "hypothesis"
                swarm = budget.get(facet.name, n) * (1 if tier == "quick" else 40)
                if not res.failure and swarm:
                    out.append(res)
                    res = core.run_swarm(facet, -(-swarm // shards), ((seed * 7919 + k) * 1013 + shard) % (1 << 62),
                                         SWARM_S[tier])
                    res.driver = "swarm"
        except Exception:
            res = core.FacetResult(facet.name)
            res.error = traceback.format_exc()
        out.append(res)
        if res.failure or res.error:
            break
    return out


def findings(pid):
    path = HERE / "known_findings.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text())["findings"] if f["property"] == pid and f["status"] == "known"]


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vp import core
    check = load(pid)
    shards = int(os.environ.get("VERIF_SHARDS", "8"))

    def overdue(*_):
        print(f"INCONCLUSIVE property={pid}: the run exceeded {OVERALL_S[tier]} s", flush=True)
        for child in mp.active_children():
            child.kill()
        os._exit(2)
    signal.signal(signal.SIGALRM, overdue)
    signal.alarm(OVERALL_S[tier])

    if shards == 1:
        results = [shard_main((pid, tier, seed, 0, 1))]
    else:
        with mp.get_context("fork").Pool(shards) as pool:
            results = pool.map(shard_main, [(pid, tier, seed, s, shards) for s in range(shards)], chunksize=1)
    signal.alarm(0)

    facets, samples, evals, seen = {}, [], 0, set()
    failures, errors = [], []
    for shard_results in results:
        for res in shard_results:
            f = facets.setdefault(res.name, {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}, "drivers": {}})
            if res.driver:
                f["drivers"][res.driver] = f["drivers"].get(res.driver, 0) + res.evaluations
            if res.cut:
                f["time_ran_out"] = True
            f["evaluations"] += res.evaluations
            f["distinct_nontrivial"] |= res.seen
            for l, n in res.labels.items():
                f["labels"][l] = f["labels"].get(l, 0) + n
            evals += res.evaluations
            seen |= res.seen
            if len([s for s in samples if s["facet"] == res.name]) < 2:
                samples += res.samples[:2]
            if res.failure:
                failures.append((res.name, res.failure))
            if res.error:
                errors.append((res.name, res.error))

    violations = []
    if failures:
        # one report per facet; the smallest failing case found
        best = {}
        for fname, fail in failures:
            key = len(json.dumps(fail["case"]))
            if fname not in best or key < best[fname][0]:
                best[fname] = (key, fail)
        out = HERE / "replays"
        out.mkdir(exist_ok=True)
        for fname, (_, fail) in sorted(best.items()):
            path = out / f"{pid}-{fname}.json"
            path.write_text(json.dumps({"property": pid, "facet": fname, "case": fail["case"],
                                        "message": fail["message"]}, indent=1, ensure_ascii=True) + "\n")
            violations.append((path, fail["message"]))

    exhaustive_names = [f.name for f in check.facets if isinstance(f, core.Exhaustive)]
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(seen),
        "rule": check.rule,
        "samples": samples[:24],
        "facets": {n: {"evaluations": f["evaluations"], "distinct_nontrivial": len(f["distinct_nontrivial"]),
                       "drivers": f["drivers"], **({"time_ran_out": True} if f.get("time_ran_out") else {}),
                       "labels": dict(sorted(f["labels"].items()))} for n, f in facets.items()},
        "shards": shards,
    }
    if exhaustive_names:
        coverage["enumerated_facets"] = exhaustive_names
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    for f in findings(pid):
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    print(f"{pid}: {evals} cases, {len(seen)} distinct non-trivial, {time.time() - t0:.1f} s")
    if violations:
        for path, msg in violations:
            print(f"  {msg[:700]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        for fname, err in errors[:2]:
            print(f"HARNESS ERROR in {pid}/{fname}:\n{err}", file=sys.stderr)
        return 2
    empty = [n for n, f in facets.items() if not f["distinct_nontrivial"]]
    if empty:
        print(f"HARNESS ERROR: no non-trivial case in {empty}", file=sys.stderr)
        return 2
    return 0


def replay(path):
    from vp import core
    data = json.loads(pathlib.Path(path).read_text())
    facet = next(f for f in load(data["property"]).facets if f.name == data["facet"])
    try:
        core.run_case(facet, data["case"])
    except core.Violation as v:
        print(f"  {str(v)[:4000]}")
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print("the saved case passes")
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run(a.property, a.tier))
