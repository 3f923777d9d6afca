"""Helpers shared by the drivers that run the real code."""
import json, sys, math, os, io, contextlib


def num(x):
    """A number as the specification reads it (decimal string)."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def vec(v):
    return [num(x) for x in v]


def mat(m):
    return [[num(m[i][j]) for j in range(3)] for i in range(3)]


def kind(e):
    return type(e).__name__


def frac(s):
    """Exact rational string ("n/d") or decimal string -> float."""
    s = str(s)
    if "/" in s:
        a, b = s.split("/")
        return int(a) / int(b)
    return float(s)


def serve(fn):
    """Read jobs from stdin, answer one JSON line per job."""
    out = os.fdopen(os.dup(1), "w")
    # whatever the code under test prints must not disturb the protocol
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for line in sys.stdin:
        job = json.loads(line)
        out.write(json.dumps(fn(job)) + "\n")
        out.flush()
