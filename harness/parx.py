"""Execute operations on real MatrixParameter objects and observe all of them."""
import random, copy
import numpy as np
from util import num, vec, mat, kind, frac, serve
from magnopy import MatrixParameter

COMPS = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]


def show(J, full=True):
    if not full:
        return {"matrix": mat(J.matrix)}
    r = {"matrix": mat(J.matrix), "array": mat(np.array(J)), "symm": mat(J.symm_matrix), "asymm": mat(J.asymm_matrix),
         "A": mat(J.A), "dmim": mat(J.dmi_matrix), "iso": num(J.iso), "I": num(J.I), "isom": mat(J.iso_matrix),
         "aniso": mat(J.aniso), "S": mat(J.S), "anisod": vec(J.aniso_diagonal), "anisodm": mat(J.aniso_diagonal_matrix),
         "dmi": vec(J.dmi), "dmod": num(J.dmi_module), "T": mat(J.T.matrix)}
    with np.errstate(all="ignore"):
        r["rel"] = num(J.rel_dmi) if J.iso != 0 else "0"
    c = [num(getattr(J, x)) for x in COMPS]
    r["comps"] = [c[:3], c[3:6], c[6:]]
    return r


def lit(m):
    return [[frac(x) for x in r] for r in m]


class Bench:
    def __init__(self):
        self.ps, self.us, self.events = [], [], []

    def arg(self, a, whole=False):
        if a["k"] == "lit":
            return np.array(lit(a["m"])) if a.get("np") else lit(a["m"])
        if a["k"] == "par":
            J = self.ps[a["i"] - 1]
            return J if whole else J.matrix
        return self.us[a["i"] - 1]

    def apply(self, e):
        op = e["op"]
        J = self.ps[e["o"] - 1] if "o" in e else None
        K = self.ps[e["p"] - 1] if "p" in e else None
        v = frac(e["v"]) if isinstance(e.get("v"), str) else None
        if v is not None and e.get("int"):
            v = int(v)
        new = None
        if op == "new":
            k = {}
            if "matrix" in e:
                k["matrix"] = self.arg(e["matrix"])
            if "iso" in e:
                k["iso"] = frac(e["iso"])
            if "dmi" in e:
                k["dmi"] = [frac(x) for x in e["dmi"]]
            if "aniso" in e:
                k["aniso"] = self.arg(e["aniso"])
            new = MatrixParameter(**k)
        elif op == "add":
            new = J + K
        elif op == "sub":
            new = J - K
        elif op == "mul":
            new = J * v
        elif op == "rmul":
            new = v * J
        elif op == "mulm":
            new = J * np.array(self.arg(e["m"]))
        elif op == "div":
            new = J / v
        elif op == "floordiv":
            new = J // v
        elif op == "mod":
            new = J % v
        elif op == "neg":
            new = -J
        elif op == "pos":
            new = +J
        elif op == "abs":
            new = abs(J)
        elif op == "tr":
            new = J.T
        elif op == "copy":
            new = copy.deepcopy(J)
        elif op == "setm":
            J.matrix = self.arg(e["m"])
        elif op == "setiso":
            J.iso = v
        elif op == "setdmi":
            J.dmi = [frac(x) for x in e["v"]]
        elif op == "setaniso":
            J.aniso = self.arg(e["m"])
        elif op == "setc":
            setattr(J, e["c"], v)
        elif op == "arr":
            self.us.append(np.array(lit(e["m"])))
        elif op == "arrmut":
            k = COMPS.index(e["c"])
            self.us[e["a"] - 1][k // 3, k % 3] = v
        elif op == "matmul":
            return mat(J @ np.array(self.arg(e["m"])))
        elif op == "rmatmul":
            return mat(lit(e["m"]["m"]) @ J)
        elif op == "eq":
            return "true" if J == K else "false"
        elif op == "ne":
            return "true" if J != K else "false"
        elif op == "eqm":
            return "true" if J == self.arg(e["m"]) else "false"
        elif op == "bad":
            k = e["k"]
            if k == 0:
                J.matrix = [[1, 2], [3, 4]]
            elif k == 1:
                J.dmi = [1, 2]
            elif k == 2:
                J.aniso = [[1, 2, 3], [4, 5, 6]]
            elif k == 3:
                J + 1
            elif k == 4:
                J - [[1, 2, 3]] * 3
            elif k == 5:
                J == [[1, 2], [3, 4]]
            elif k == 6:
                J.matrix = "matrix"
            elif k == 7:
                J * "a"
            elif k == 8:
                J.dmi = [[1, 2, 3]] * 3
            elif k == 9:
                MatrixParameter(matrix=[1, 2, 3])
            else:
                [J.__truediv__, J.__floordiv__, J.__mod__, J.__matmul__][k - 10]("a")
        else:
            raise RuntimeError("harness: unknown operation " + op)
        if new is not None:
            if not isinstance(new, MatrixParameter):
                raise TypeError("result is not a parameter")
            self.ps.append(new)

    def do(self, e, last=False):
        e = dict(e)
        try:
            v = self.apply(e)
            e["res"] = "ok"
            if v is not None:
                e["val"] = v
        except Exception as x:
            if "harness:" in str(x):
                raise
            e["res"] = kind(x)
        try:
            e["obs"] = {"ps": [show(J, last or k + 1 in (e.get("o"), len(self.ps))) for k, J in enumerate(self.ps)], "us": [mat(u) for u in self.us]}
        except Exception as x:
            e["res"], e["obs"] = "state can not be read: " + kind(x), {"ps": [], "us": []}
        self.events.append(e)
        return e


def generate(seed, length):
    rng = random.Random("par-%s" % seed)
    b = Bench()
    mag = rng.choice([1, 1, 1, 1e-3, 1e-6, 1e4, 0.37])

    def x():
        k = rng.random()
        if k < 0.15:
            return "0.0"
        return repr(mag * (rng.randint(-32, 32) / 8 if k < 0.6 else round(rng.uniform(-5, 5), 4)))

    def m():
        k = rng.random()
        M = [[x() for _ in range(3)] for _ in range(3)]
        if k < 0.1:
            return [["0.0"] * 3 for _ in range(3)]
        if k < 0.25:
            return [[M[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
        if k < 0.35:
            return [[repr(float(M[i][j]) - float(M[j][i])) for j in range(3)] for i in range(3)]
        if k < 0.45:
            return [[M[0][0] if i == j else "0.0" for j in range(3)] for i in range(3)]
        return M

    def an():
        a, c = mag * rng.randint(-16, 16) / 8, mag * rng.randint(-16, 16) / 8
        o = [mag * rng.randint(-16, 16) / 8 for _ in range(3)]
        return [[repr(float(v)) for v in r] for r in ([a, o[0], o[1]], [o[0], c, o[2]], [o[1], o[2], -a - c])]

    def src(f=m):
        k = rng.random()
        if b.ps and k < 0.2 and f is m:
            return {"k": "par", "i": rng.randint(1, len(b.ps))}
        if b.us and k < 0.45 and f is m:
            return {"k": "arr", "i": rng.randint(1, len(b.us))}
        return {"k": "lit", "m": f(), "np": rng.random() < 0.4}

    def ev():
        if not b.ps:
            op = rng.choice(["new", "arr"]) if not b.us else "new"
        else:
            W = dict(new=2, arr=0.7, arrmut=1, setm=1.5, setiso=3, setdmi=3, setaniso=3, setc=3, add=1.2, sub=1.2, mul=1,
                     rmul=1, mulm=0.5, div=1, floordiv=0.4, mod=0.4, neg=0.6, pos=0.4, abs=0.4, tr=0.8, copy=0.3, matmul=0.4, rmatmul=0.4, eq=0.8,
                     ne=0.4, eqm=0.6, bad=0.8)
            op = rng.choices(list(W), weights=list(W.values()))[0]
        if len(b.ps) > 6 and op in ("new", "add", "sub", "mul", "rmul", "mulm", "div", "floordiv", "mod", "neg", "pos", "abs", "tr", "copy"):
            op = rng.choice(["setiso", "setdmi", "setaniso", "setc", "eq"])
        if op == "arrmut" and not b.us:
            op = "arr"
        e = {"op": op}
        o = lambda: rng.randint(1, len(b.ps))
        if op not in ("new", "arr", "arrmut"):
            e["o"] = o() if rng.random() < 0.6 else len(b.ps)
        if op == "new":
            k = rng.randint(0, 15)
            if k & 1 or rng.random() < 0.3:
                e["matrix"] = src()
            if k & 2:
                e["iso"] = x()
            if k & 4:
                e["dmi"] = [x() for _ in range(3)]
            if k & 8:
                e["aniso"] = src(an)
        elif op == "arr":
            e["m"] = m()
        elif op == "arrmut":
            e["a"], e["c"], e["v"] = rng.randint(1, len(b.us)), rng.choice(COMPS), x()
        elif op == "setm":
            e["m"] = src()
        elif op == "setiso":
            e["v"] = x()
        elif op == "setdmi":
            e["v"] = [x() for _ in range(3)]
        elif op == "setaniso":
            e["m"] = src(an)
        elif op == "setc":
            e["c"], e["v"] = rng.choice(COMPS), x()
        elif op in ("add", "sub", "eq", "ne"):
            e["p"] = o()
        elif op in ("mul", "rmul", "div", "floordiv", "mod"):
            e["v"] = rng.choice(["2", "-1", "0.5", "-0.25", "3", "1.7", "0", "-2.5"])
            if e["v"] == "0" and op in ("div", "floordiv", "mod"):
                e["v"] = "4"
            e["int"] = "." not in e["v"] and rng.random() < 0.5
        elif op in ("mulm", "matmul"):
            e["m"] = src()
        elif op == "rmatmul":
            e["m"] = {"k": "lit", "m": m()}
        elif op == "eqm":
            e["m"] = {"k": "lit", "m": mat(b.ps[e["o"] - 1].matrix) if rng.random() < 0.5 else m()}
            if rng.random() < 0.3:
                i, j = rng.randint(0, 2), rng.randint(0, 2)
                e["m"]["m"][i][j] = x()
        elif op == "bad":
            e["k"] = rng.randint(0, 13)
        return e

    while len(b.events) < length:
        b.do(ev(), len(b.events) == length - 1)
        if b.events[-1]["res"].startswith("state can not"):
            break
    return b


def answer(job):
    if "gen" in job:
        b = generate(job["seed"], job["len"])
    else:
        b = Bench()
        for n, e in enumerate(job["script"]):
            b.do({k: v for k, v in e.items() if k not in ("res", "val", "obs")}, n == len(job["script"]) - 1)
    return {"id": job.get("id", 1), "events": b.events}


if __name__ == "__main__":
    serve(answer)
