"""Files with Hamiltonians: text and hdf5 (C15, C16, C20)."""
import json, random
from vlib import *
from ham import judge


def histories(c, profile, n, length):
    jobs = [{"gen": profile, "seed": c.seed * 1000003 + k, "len": length} for k in range(n)]
    traces = drive("storex.py", jobs, timeout=c.q(300, 3000), unit_timeout=250 if profile == "min" else 60)
    ops = {}
    for t in traces:
        for e in t.get("events", []):
            k = e["op"] + ("" if e["res"] == "ok" else " (%s)" % e["res"])
            ops[k] = ops.get(k, 0) + 1
    c.cover.setdefault("operations", {})[profile] = ops
    for t in traces:
        if "events" in t:
            c.sample({"profile": profile, "events": [{k: v for k, v in e.items() if k not in ("obs", "params", "lines", "fs", "xobs")} for e in t["events"][:6]]})
            break
    judge(c, traces, module="StoreTrace")


def explore(c, kinds, depth, keep):
    """All sequences of events of MCStore, executed in the code and judged by StoreTrace."""
    r = tlc("MCStore", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Export = TRUE\n Kinds = {%s}\n"
            "INVARIANTS Faithful Idempotent Groups_\n" % (depth, ", ".join('"%s"' % k for k in kinds)), timeout=c.q(300, 3000))
    c.mc(r, "MCStore %s, %d events" % ("+".join(kinds), depth))
    hd = json.loads(r.tagged("HD")[0])
    tr = sorted(set(r.tagged("TR")))
    if not tr:
        raise CheckError("no sequence exported")
    if len(tr) > keep:
        tr = random.Random(c.seed).sample(tr, keep)
    jobs = [{"script": {"A": hd["A"], "cell": hd["cell"], "atoms": hd["atoms"], "events": hd["build"] + json.loads(t)}} for t in tr]
    traces = drive("storex.py", jobs, timeout=c.q(300, 3000))
    c.cover["sequences_of_events_executed"] = len(jobs)
    judge(c, traces, module="StoreTrace")


def c15(c):
    explore(c, ["txt"], c.q(4, 5), c.q(500, 20000))
    histories(c, "txt", c.q(400, 6000), c.q(10, 14))


def c16(c):
    explore(c, ["h5"], c.q(3, 4), c.q(1000, 40000))
    histories(c, "h5", c.q(350, 6000), c.q(14, 20))


def c17(c):
    r = tlc("MCTb", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Wide = %s\n Export = TRUE\n"
            "INVARIANTS Meaning Converted Out\n" % c.q("FALSE", "TRUE"), timeout=c.q(300, 3000))
    c.mc(r, "MCTb")
    f = sorted(set(r.tagged("FL")))
    keep = c.q(300, 20000)
    if len(f) > keep:
        f = random.Random(c.seed).sample(f, keep)
    T = {"op": "puttb", "o": 1, "f": "exchange.out"}
    jobs = []
    for k, l in enumerate(f):
        ev = [dict(T, lines=json.loads(l)), {"op": "conv", "o": 1, "f": "exchange.out", "t": "s.hdf5", "fmt": "", "via": "manager"},
              {"op": "conv", "o": 1, "f": "exchange.out", "t": "m.txt", "fmt": "", "via": "main"}]
        jobs.append({"script": {"A": [], "cell": [["1", "0", "0"], ["0", "1", "0"], ["0", "0", "1"]], "atoms": [], "events": ev}})
    traces = drive("storex.py", jobs, timeout=c.q(300, 3000))
    c.cover["files of the model"] = len(f)
    judge(c, traces, module="StoreTrace")
    histories(c, "tb", c.q(320, 6000), c.q(8, 12))


def c18(c):
    r = tlc("MCVamp", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Size = %d\n Export = TRUE\n"
            "INVARIANTS SameEnergy Accepts Rejects Out\n" % c.q(1, 2), timeout=c.q(300, 3000))
    c.mc(r, "MCVamp")
    tr = sorted(set(r.tagged("TR")))
    keep = c.q(400, 10000)
    if len(tr) > keep:
        tr = random.Random(c.seed).sample(tr, keep)
    hd = json.loads(r.tagged("HD")[0])
    jobs = []
    for k, t in enumerate(tr):
        o = {"aniso": k % 4 != 1, "dmi": k % 4 != 2, "mask": "none", "dec": [5, 9, 12][k % 3], "mats": []}
        v = {"op": "vampire", "o": 1, "via": "all", "seed": "vampire", "nologo": True, "text": False, "opts": o}
        jobs.append({"script": dict(hd, events=json.loads(t) + [v])})
    traces = drive("storex.py", jobs, timeout=c.q(300, 3000))
    c.cover["exported Hamiltonians of the model"] = len(jobs)
    judge(c, traces, module="StoreTrace")
    histories(c, "vampire", c.q(400, 6000), c.q(12, 20))


def c20(c):
    explore(c, ["h5", "txt"], c.q(3, 4), c.q(800, 40000))
    histories(c, "chain", c.q(350, 6000), c.q(14, 20))


def c19(c):
    r = tlc("MCAny", "INIT InitA\nNEXT NextA\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Wide = FALSE\n Export = TRUE\n"
            "INVARIANTS Loads Name Converts OutA\n", timeout=c.q(300, 3000))
    c.mc(r, "MCAny")
    tr = sorted(set(r.tagged("TR")))
    lines = json.loads(r.tagged("LN")[0])
    keep = c.q(400, 100000)
    if len(tr) > keep:
        tr = random.Random(c.seed).sample(tr, keep)
    jobs = [{"script": {"A": [], "cell": [["1", "0", "0"], ["0", "1", "0"], ["0", "0", "1"]], "atoms": [], "events": [dict(e, lines=lines) if e["op"] == "puttb" else e for e in json.loads(t)]}} for t in tr]
    traces = drive("storex.py", jobs, timeout=c.q(300, 3000))
    c.cover["cases of the model executed"] = len(jobs)
    judge(c, traces, module="StoreTrace")
    histories(c, "any", c.q(80, 3000), c.q(10, 14))
    histories(c, "disp", c.q(20, 800), 3)
    histories(c, "min", c.q(14, 500), 3)
