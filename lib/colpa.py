"""C12: diagonalisation of the quadratic boson Hamiltonian."""
import json, random
from vlib import *
from ham import judge


def c12(c):
    cases = []
    for n, keep in ((1, c.q(2000, 10 ** 6)), (2, c.q(2500, 10 ** 6))):
        cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n Export = TRUE\n"
               "INVARIANTS Solution Traces2 Accepts\n" % n)
        r = tlc("MCColpa", cfg, timeout=c.q(400, 3000))
        c.mc(r, "MCColpa N = %d" % n)
        tr = sorted(r.tagged("TR"))
        if not tr:
            raise CheckError("no case exported")
        random.Random(c.seed).shuffle(tr)
        cases += [json.loads(t) for t in tr[:keep]]
    jobs = [{"cases": cases[k:k + 50], "id": k, "real": k % 2} for k in range(0, len(cases), 50)]
    c.cover["cases_replayed"] = len(cases)
    c.sample({"replayed case": cases[0]})
    judge(c, drive("colx.py", jobs), module="ColpaTrace")
    m = c.q(1200, 30000)
    jobs = [{"gen": [c.seed * 1000003 + k for k in range(j, j + 20)], "id": j} for j in range(0, m, 20)]
    tr = drive("colx.py", jobs, timeout=c.q(300, 3000))
    res = {}
    for t in tr:
        for e in t.get("events", []):
            res[e["res"]] = res.get(e["res"], 0) + 1
    c.cover["outcomes_of_random_matrices"] = res
    judge(c, tr, module="ColpaTrace")
