"""C07: matrix parameters."""
import json, random
from vlib import *
from ham import judge


def c07(c):
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Export = TRUE\n"
           "INVARIANTS Recombine OnePart OneObject Algebra\n" % c.q(2, 3))
    r = tlc("MCParam", cfg, timeout=c.q(400, 3000))
    c.mc(r, "MCParam depth %d" % c.q(2, 3))
    start = json.loads(r.tagged("HD")[0])
    tr = sorted(r.tagged("TR"))
    if not tr:
        raise CheckError("no sequence exported")
    keep = c.q(900, 60000)
    if len(tr) > keep:
        tr = random.Random(c.seed).sample(tr, keep)
    jobs = [{"script": start + json.loads(t)} for t in tr]
    c.cover["sequences_of_events_executed"] = len(jobs)
    judge(c, drive("parx.py", jobs), module="ParamTrace")
    n, l = c.q(450, 12000), c.q(16, 30)
    jobs = [{"gen": 1, "seed": c.seed * 1000003 + k, "len": l, "id": k + 1} for k in range(n)]
    traces = drive("parx.py", jobs, timeout=c.q(300, 3000))
    ops = {}
    for t in traces:
        for e in t.get("events", []):
            k = e["op"] + ("" if e["res"] == "ok" else " (error)")
            ops[k] = ops.get(k, 0) + 1
    c.cover["operations"] = ops
    c.sample([{k: v for k, v in e.items() if k != "obs"} for e in traces[0].get("events", [])[:4]])
    judge(c, traces, module="ParamTrace")
