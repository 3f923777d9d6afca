"""Checks of the SpinHamiltonian as a state machine (C01-C06)."""
import json, os, random
from vlib import *

INV = {
    "notation": "PhysicsPreserved Requested GoingBack ErrorsChangeNothing KnownAtoms Mirrors MirrorsKept OneSided NothingLost",
    "undef": "PhysicsPreserved Requested FirstSetting ErrorsChangeNothing ReadsChangeNothing KnownAtoms Mirrors OneSided NothingLost",
    "container": "ErrorsChangeNothing ReadsChangeNothing OnlyThatTerm RemovedAtomIsGone KnownAtoms Mirrors MirrorsKept",
    "mirror": "ErrorsChangeNothing OnlyThatTerm RemovedAtomIsGone KnownAtoms Mirrors MirrorsKept OneSided NothingLost",
    "fail": "ErrorsChangeNothing FailuresFail Mirrors KnownAtoms",
    "filter": "FilterExact FilterOneByOne FilterTwice Mirrors MirrorsKept KnownAtoms",
}


def explore(c, kind, bonds, keep):
    """Exhaustive model checking of Ham over the small universe; replay of the
    exported transitions (at most `keep` of them, chosen by the seed) in the code."""
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Kind = \"%s\"\n MaxBonds = %d\n Export = %s\nINVARIANTS %s\n"
           % (kind, bonds, "TRUE" if keep else "FALSE", INV[kind]))
    r = tlc("MCHam", cfg, timeout=c.q(400, 3000))
    c.mc(r, "MCHam %s, %d bonds" % (kind, bonds))
    if not keep:
        return
    hd = json.loads(r.tagged("HD")[0])
    tr = r.tagged("TR")
    if len(tr) == 0:
        raise CheckError("no transition exported")
    tr.sort()
    rng = random.Random(c.seed)
    if len(tr) > keep:
        tr = rng.sample(tr, keep)
    else:
        rng.shuffle(tr)
    trs = []
    for t in tr:
        t = json.loads(t)
        t.update(hd)
        trs.append(t)
    jobs = [{"tr": trs[k:k + 100]} for k in range(0, len(trs), 100)]
    for job, a in zip(jobs, drive("hamx.py", jobs, timeout=c.q(500, 3000))):
        if "died" in a:
            c.violation("replay died", "replay of specified transitions: " + a["died"], job)
            continue
        c.traces += a["n"]
        for b in a["bad"]:
            c.violation("replay", "%s after %s" % (b["bad"], json.dumps(b["t"]["ev"])), b["t"])
    c.cover["transitions_replayed"] = c.cover.get("transitions_replayed", 0) + len(trs)
    c.sample({"replayed transition": trs[0]})


def judge(c, traces, module="HamTrace", tol="1e-9", env=None):
    """Check recorded traces against the specification; returns number of bad ones."""
    good = []
    for t in traces:
        if "died" in t:
            c.violation("died", "the code under test did not answer: " + t["died"], t)
        elif "bad" in t:
            c.violation("record", t["bad"], t)
        else:
            good.append(t)
    if not good:
        return
    d = workdir("traces")
    f = os.path.join(d, "traces.ndjson")
    for n, t in enumerate(good):
        t["id"] = n + 1
    with open(f, "w") as o:
        for t in good:
            o.write(json.dumps(t) + "\n")
    r = tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"TRACES": f, "TOL": tol, **(env or {})},
            timeout=c.q(500, 4000), heap="8g")
    bad = {}
    for l in r.tagged("BAD"):
        tid, i, op, v = l.split("|", 3)
        bad[int(tid)] = (int(i), op, v)
    want = sum((bad[t["id"]][0] if t["id"] in bad else len(t["events"])) + 1 for t in good)
    # every event of every trace has to be consumed, otherwise nothing was decided
    if r.distinct != want:
        raise CheckError("%s: %d states, expected %d" % (module, r.distinct, want))
    c.notes["%s (trace validation)" % module] = {"states": r.distinct, "wall_s": round(r.wall, 1)}
    c.traces += len(good)
    c.cover["events_validated"] = c.cover.get("events_validated", 0) + sum(len(t["events"]) for t in good)
    for tid, (i, op, v) in sorted(bad.items()):
        t = dict(good[tid - 1])
        t["events"] = t["events"][:i]
        c.violation("%s: %s" % (op, v), "event %d (%s): %s" % (i, op, v), t)
    return r


def random_traces(c, profile, n, length):
    jobs = [{"gen": profile, "seed": c.seed * 1000003 + k, "len": length, "id": k + 1} for k in range(n)]
    traces = drive("hamx.py", jobs, timeout=c.q(400, 3000))
    ops = {}
    for t in traces:
        for e in t.get("events", []):
            k = e["op"] + ("" if e["res"] == "ok" else " (error)")
            ops[k] = ops.get(k, 0) + 1
    c.cover.setdefault("operations", {})[profile] = ops
    for t in traces:
        if "events" in t and len(t["events"]) > 3:
            c.sample({"profile": profile, "events": [{k: v for k, v in e.items() if k not in ("obs", "params")} for e in t["events"][:4]]})
            break
    judge(c, traces)


def c01(c):
    explore(c, "notation", c.q(1, 2), c.q(14000, 200000))
    random_traces(c, "notation", c.q(500, 8000), c.q(14, 25))


def c02(c):
    explore(c, "undef", 1, c.q(14000, 60000))
    random_traces(c, "undef", c.q(500, 8000), c.q(14, 25))


def c03(c):
    explore(c, "container", c.q(1, 2), c.q(14000, 200000))
    random_traces(c, "container", c.q(500, 8000), c.q(18, 30))


def c04(c):
    explore(c, "mirror", c.q(2, 3), c.q(14000, 200000))
    random_traces(c, "mirror", c.q(500, 8000), c.q(16, 25))


def c05(c):
    explore(c, "filter", c.q(1, 2), c.q(14000, 200000))
    random_traces(c, "filter", c.q(500, 8000), c.q(12, 20))


def explore_heap(c, depth, keep):
    """All sequences of events of MCHeap, executed in the code and judged by HamTrace."""
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Export = TRUE\nINVARIANTS Independent Snapshot\n" % depth)
    r = tlc("MCHeap", cfg, timeout=c.q(400, 3000))
    c.mc(r, "MCHeap depth %d" % depth)
    hd = json.loads(r.tagged("HD")[0])
    tr = sorted(r.tagged("TR"))
    rng = random.Random(c.seed)
    if len(tr) > keep:
        tr = rng.sample(tr, keep)
    jobs = []
    for k, t in enumerate(tr):
        ev = hd["build"] + json.loads(t)
        # in the end every derived object is used once more
        x = 0
        for e in json.loads(t):
            if e["op"] in ("energy", "disp", "crystal"):
                x += 1
            if e["op"] == "energy":
                ev.append({"op": "eferro", "o": 1, "x": x, "e": [["0", "0", "1"], ["3/5", "0", "4/5"]]})
            if e["op"] == "disp":
                ev.append({"op": "dh", "o": 1, "x": x, "kp": ["1/2", "1/4", "-1"]})
        jobs.append({"script": {"A": hd["A"], "cell": hd["cell"], "atoms": hd["atoms"], "events": ev, "all": True}})
    traces = drive("hamx.py", jobs, timeout=c.q(400, 3000))
    c.cover["sequences_of_events_executed"] = len(jobs)
    judge(c, traces)


EINV = {"ferro": "FerroNotation FerroLength FerroPhysics", "cone": "ClosedA ClosedS ConeNotation SpiralTurned",
        "lswt": "LswtNotation LswtHermitian LswtFrames LswtGauge"}


def explore_energy(c, kind, size, keep):
    """Exhaustive check of the energy and spin-wave operators; replay of cases in the code."""
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Kind = \"%s\"\n Size = %d\n Export = TRUE\nINVARIANTS %s\n"
           % (kind, size, EINV[kind]))
    r = tlc("MCEnergy", cfg, timeout=c.q(400, 3000))
    c.mc(r, "MCEnergy %s, %d bonds" % (kind, size))
    hd = json.loads(r.tagged("HD")[0])
    tr = sorted(r.tagged("TR"))
    if not tr:
        raise CheckError("no case exported")
    random.Random(c.seed).shuffle(tr)
    trs = [{**json.loads(t), **hd} for t in tr[:keep]]
    jobs = [{"en": trs[k:k + 100]} for k in range(0, len(trs), 100)]
    for job, a in zip(jobs, drive("hamx.py", jobs, timeout=c.q(400, 3000))):
        if "died" in a:
            c.violation("replay died", "replay of specified cases: " + a["died"], job)
            continue
        c.traces += a["n"]
        for b in a["bad"]:
            c.violation("replay", b["bad"], b["t"])
    c.cover["cases_replayed"] = c.cover.get("cases_replayed", 0) + len(trs)
    c.sample({"replayed case": trs[0]})


def c06(c):
    explore_heap(c, c.q(3, 4), c.q(1500, 60000))
    random_traces(c, "alias", c.q(700, 8000), c.q(22, 40))


def c08(c):
    explore_energy(c, "ferro", c.q(1, 2), c.q(5000, 100000))
    random_traces(c, "ferro", c.q(500, 5000), c.q(14, 25))


def c09(c):
    explore_energy(c, "cone", c.q(1, 2), c.q(4000, 100000))
    random_traces(c, "cone", c.q(400, 4000), c.q(12, 20))


def c11(c):
    explore_energy(c, "lswt", c.q(1, 2), c.q(1000, 100000))
    random_traces(c, "lswt", c.q(400, 4000), c.q(12, 20))


CINV = "SameBonds SameLattice SameVectors SameSpiral SameWaves"


def c21(c):
    r = tlc("MCCell", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Export = TRUE\nINVARIANTS %s Out\n"
            % (c.q(3, 4), CINV), timeout=c.q(400, 3000))
    c.mc(r, "MCCell depth %d" % c.q(3, 4))
    hd = json.loads(r.tagged("HD")[0])
    rng = random.Random(c.seed)
    tr = sorted(r.tagged("TR"))
    rng.shuffle(tr)
    ful = lambda a: {"k": "full", "id": a}
    jobs = []
    for t in tr[:c.q(60, 100000)]:
        t = json.loads(t)
        A = [{k: v for k, v in dict(a, pos=t["adata"][a["id"]]).items() if k != "q"} for a in hd["A"]]
        x = {"op": "dh", "o": 1, "x": 1, "kp": ["0.4", "-0.25", "1"]}
        ev = [{"op": "setname", "o": 1, "v": "tb2j", "spelling": "TB2J"}]
        for b in t["ex"]:
            ev.append({"op": "addx", "o": 1, "a": ful(b["b"][0]), "b": ful(b["b"][1]), "R": b["b"][2], "J": {"matrix": b["J"]}, "via": "item"})
        ev += [{"op": "addo", "o": 1, "a": ful(A[0]["id"]), "J": {"iso": "0.5"}, "via": "item"}, {"op": "setq", "o": 1, "v": t["q"]},
               {"op": "disp", "o": 1}, x, {"op": "std", "o": 1}, {"op": "disp", "o": 1}, dict(x, x=2), {"op": "cure", "o": 1},
               {"op": "shift", "o": 1, "v": ["0.5", "0.5", "0.25"], "via": rng.choice(["relative", "absolute"])}, {"op": "std", "o": 1},
               {"op": "setdc", "o": 1, "v": "false"}, {"op": "filtered", "o": 1, "lo": "undef", "hi": "4.1"}]
        jobs.append({"script": {"A": A, "cell": t["cell"], "atoms": hd["atoms"], "events": ev}})
    traces = drive("hamx.py", jobs, timeout=c.q(400, 3000))
    c.cover["cells_standardised"] = len(jobs)
    judge(c, traces)
    random_traces(c, "cell", c.q(250, 2500), 14)


def c23(c):
    explore(c, "fail", c.q(1, 2), c.q(9000, 100000))
    random_traces(c, "fail", c.q(450, 6000), c.q(16, 25))


def c10(c):
    r = tlc("MCOptimize", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Limit = %d\nINVARIANTS Below Falls Last0 Steps Bounded\n"
            "PROPERTY Ends\n" % c.q(3, 5), timeout=c.q(300, 1000))
    c.mc(r, "MCOptimize")
    random_traces(c, "optimize", c.q(42, 800), 10)
