#!/usr/bin/env python3
"""tools/calibrate.py [PID...]: time every facet under the swarm driver and write vp/budget.json: the number of swarm cases
of a quick run, so that each facet takes its share of about SECONDS per process on an idle machine."""
import importlib, json, pathlib, sys, time
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from vp import core
SECONDS, PROCS = 20.0, 8
path = HERE / "vp" / "budget.json"
out = json.loads(path.read_text())
for pid in sys.argv[1:] or ["C%02d" % i for i in range(1, 29)]:
    check = importlib.import_module(f"vp.checks.{pid.lower()}").CHECK
    facets = [f for f in check.facets if isinstance(f, core.Facet) and f.quick]
    def weight(f):
        return f.quick ** .5 * (2 if f.name.endswith("-invented") else 1)
    total = sum(map(weight, facets))
    out[pid] = {}
    for f in facets:
        core.run_swarm(f, 5, 1, 10)
        t = time.time()
        res = core.run_swarm(f, 400, 2, 4)
        if res.failure:
            print(pid, f.name, "FAILS", json.dumps(res.failure)[:600])
        ms = (time.time() - t) / max(1, res.evaluations)
        share = SECONDS * weight(f) / total
        n = int(min(share / ms * PROCS, 120 * f.quick))
        n = max(n, 8)
        out[pid][f.name] = int(float(f"{n:.2g}"))
        print(pid, f.name, f.quick, f"{ms * 1000:.2f} ms", out[pid][f.name], len(res.seen), flush=True)
    path.write_text(json.dumps(out, indent=1) + "\n")
