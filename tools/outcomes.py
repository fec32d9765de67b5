#!/usr/bin/env python3
"""How the inputs of a pure part are distributed over outcomes: outcomes.py PROPERTY PART"""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import plan, run
ctx = plan.Ctx(sys.argv[1], "quick", 1)
part = [p for p in plan.PROPS[sys.argv[1]]["parts"] if getattr(p, "tag", None) == sys.argv[2]][0]
b = run.build_harness()
recs, err = run.run_harness(b, part.mode, part.cases(ctx), ctx.work, 1)
c = collections.Counter()
for r in recs:
    o = r["out"][0] if isinstance(r.get("out"), list) else r["out"]
    c[(o.get("r"), o.get("kind"), len(o.get("args", [])) if isinstance(o.get("args"), list) else 0, o.get("fin", {}).get("r") if isinstance(o.get("fin"), dict) else None)] += 1
for k, v in sorted(c.items(), key=str): print(k, v)
