"""Text model files (C13, C14)."""
import json, random
from vlib import *
from ham import judge


def files(c, kind, n, mode):
    jobs = [{"gen": kind, "seeds": [c.seed * 1000003 + 5 * k + j for j in range(5)]} for k in range(n // 5)]
    traces = drive("txtx.py", jobs, timeout=c.q(300, 3000))
    r = judge(c, traces, module="TxtTrace", env={"JUDGE": mode})
    v = {}
    for l in r.tagged("VD"):
        v[l] = v.get(l, 0) + 1
    c.cover["files: " + kind] = v
    for t in traces:
        if "events" in t:
            c.sample({"file": t["events"][0]["lines"], "outcome": t["events"][0]["res"]}, 3)
            break


def model(c, mode, keep):
    """Ways to write one model and edits of the file: explored by TLC, given to the code."""
    r = tlc("MCTxt", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Export = TRUE\n Wide = %s\n"
            "INVARIANTS Accepted Meaning Rejected Out\n" % (c.q(1, 2), c.q("FALSE", "TRUE")), timeout=c.q(300, 2000))
    c.mc(r, "MCTxt")
    f = sorted(set(r.tagged("FL")))
    if len(f) < 500:
        raise CheckError("files were not exported")
    if len(f) > keep:
        f = random.Random(c.seed).sample(f, keep)
    f = [json.loads(l) for l in f]
    traces = drive("txtx.py", [{"files": f[k:k + 5]} for k in range(0, len(f), 5)], timeout=c.q(300, 3000))
    judge(c, traces, module="TxtTrace", env={"JUDGE": mode})
    c.cover["files of the model"] = len(f)


def c13(c):
    model(c, "read", c.q(1200, 20000))
    files(c, "valid", c.q(3000, 30000), "read")


def c14(c):
    model(c, "outcome", c.q(1200, 30000))
    files(c, "mix", c.q(6000, 60000), "outcome")


def c22(c):
    """hdf5 files in the documented layout."""
    r = tlc("MCH5", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Export = TRUE\n Wide = %s\n"
            "INVARIANTS Accepted Rejected Converted Ordered Absent Out\n" % c.q("FALSE", "TRUE"), timeout=c.q(300, 2000))
    c.mc(r, "MCH5")
    f = sorted(set(r.tagged("FL")))
    if len(f) < 300:
        raise CheckError("files were not exported")
    c.cover["files of the model"] = len(f)
    f = [(k, json.loads(l)) for k, l in enumerate(f)]
    jobs = [{"trees": f[k:k + 5]} for k in range(0, len(f), 5)]
    n = c.q(2000, 30000)
    jobs += [{"seeds": [c.seed * 1000003 + 5 * k + j for j in range(5)]} for k in range(n // 5)]
    traces = drive("h5x.py", jobs, timeout=c.q(300, 3000))
    r = judge(c, traces, module="Hdf5Trace")
    v = {}
    for l in r.tagged("VD"):
        v[l] = v.get(l, 0) + 1
    c.cover["outcomes"] = v
    for t in traces[-40::20]:
        if "events" in t:
            c.sample({"tree": t["events"][0]["tree"], "outcome": t["events"][0]["res"]}, 3)
