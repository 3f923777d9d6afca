"""Random operation sequences for SpinHamiltonian (profiles weight the operations)."""
import math, random
from hamx import Bench, observe

NAMES = ["magnopy", "tb2j", "spinw", "vampire"]
BAD = ["magnopi", "", "TB2J ", "spin-w", "vamp", "None"]


def fr(rng, lim=4):
    """A number with an exact binary representation, sometimes a decimal."""
    x = rng.choice([rng.randint(-8 * lim, 8 * lim) / 8, rng.randint(-lim, lim), round(rng.uniform(-lim, lim), 3)])
    k = rng.random()
    if k < 0.15:
        # many digits, small and great values
        x = rng.uniform(-lim, lim) * (1 if k < 0.08 else 1e-5 if k < 0.12 else 1e3)
    return repr(float(x))


def matrix(rng):
    k = rng.random()
    m = [[fr(rng) for _ in range(3)] for _ in range(3)]
    if k < 0.15:
        for i in range(3):
            for j in range(i):
                m[i][j] = m[j][i]
    elif k < 0.3:
        d = fr(rng)
        m = [[d if i == j else "0.0" for j in range(3)] for i in range(3)]
    return m


def value(rng):
    J = {}
    k = rng.random()
    if k < 0.6:
        J["matrix"] = matrix(rng)
    if k >= 0.5:
        if rng.random() < 0.7:
            J["iso"] = fr(rng)
        if rng.random() < 0.6:
            J["dmi"] = [fr(rng) for _ in range(3)]
        if rng.random() < 0.5:
            x, y = rng.randint(-16, 16) / 8, rng.randint(-16, 16) / 8
            o = [rng.randint(-16, 16) / 8 for _ in range(3)]
            J["aniso"] = [[repr(v) for v in r] for r in
                          ([x, o[0], o[1]], [o[0], y, o[2]], [o[1], o[2], -x - y])]
    if not J:
        J["iso"] = fr(rng)
    return J


FACT = ["1", "-1", "0.5", "-0.5", "2", "-2", "0.25", "4", "3", "-3", "0.1", "-1.7", "0.3333333333333333", "-0.1234567891", "2.718281828459"]

WEIGHTS = {
    "notation": dict(addx=3, addo=1, setdc=4, setsn=4, setef=4, setof=4, setname=5, settuple=5, delx=0.5, readall=1),
    "undef": dict(addx=4, addo=2, delx=1, delo=0.5, setdc=2, setsn=2, setef=2, setof=2, setname=0.7, settuple=0.7,
                  badname=1.5, badtuple=1.5, setbad=1, init=0.7, read=4, readall=2),
    "container": dict(init=0.4, addx=7, addx_bad=0.6, addo=4, delx=5, delo=3, hasx=3, haso=2, getx=3, geto=2, badkey=1.5, adda=1.5,
                      dela=2, setdc=0.7, setname=0.4, setef=0.3, settuple=0.3, unknown=2, setq=0.5, setn=0.5),
    "mirror": dict(addx=7, delx=3, setdc=4, filter=1.2, dela=0.7, setname=1, addo=0.7, hasx=1, getx=1, adda=0.5),
    "filter": dict(addx=5, addo=2, filter=3, filtered=3, setdc=0.6, setname=0.5, setsn=0.5, setcell=0.6, setpos=0.8),
    "alias": dict(init=0.5, addx=5, addo=3, copy=1.5, filtered=1.5, filter=1, delx=2, delo=1, dela=1, setdc=1.5, setsn=1.5,
                  setef=1.5, setof=1.5, setname=1.5, setq=1, setn=1, adda=0.7, energy=1.5, disp=1, crystal=1.2,
                  crymut=1.5, eferro=2.5, dh=1.2, setspin=1, efield=0.5, espins=0.3, egs=0.3, setcell=0.5, setpos=0.4, setg=0.4),
    "ferro": dict(eferro=8, efield=1.2, egs=0.4, espins=0.4, energy=1.5, setname=0.7, settuple=0.7, addx=0.6, addo=0.4,
                  ebad=0.8, delx=0.2),
    "cone": dict(eafm=5, espiral=5, efield=1.2, egs=0.3, espins=0.3, energy=1, setname=0.6, settuple=0.6, addx=0.6,
                 addo=0.4, ebad=0.8, setcell=0.4),
    "optimize": dict(eopt=6, efield=1, egs=0.2, espins=0.3, energy=0.7, setname=0.3, addx=0.4, addo=0.4, ebado=1),
    "lswt": dict(dh=4, domega=1.5, domegas=1, disp=1, setname=0.8, settuple=0.8, addx=0.7, addo=0.4, setspin=0.4, setcell=0.3),
    "fail": dict(fail=12, addx=3, addo=1.5, addx_bad=0.7, setdc=0.7, setsn=0.7, setef=0.7, setof=0.7, setname=0.5, settuple=0.5,
                 badname=1, badtuple=1, setbad=0.7, init=0.5, unknown=2, badkey=1, delx=0.8, delo=0.6, adda=0.8, dela=0.8, copy=0.7,
                 energy=1, eferro=0.7, ebad=1, ebado=0.7, efail=5, efield=0.7, egs=0.7, espins=0.7, setq=0.7, setn=0.7, disp=0.5),
    "cell": dict(std=2.5, shift=1, cure=1, dh=1.5, espiral=1, eferro=0.7, addx=2, addo=0.7, delx=1, dela=0.4, filter=0.7,
                 filtered=0.5, setdc=1, setname=0.7, setsn=0.4, setq=0.8, setn=0.4, disp=1.2, energy=0.8, copy=0.5,
                 crystal=0.3, hasx=0.7, getx=0.7, setcell=0.5, setpos=0.5, setspin=0.4),
}


FAILURES = ["filter raises", "filter raises", "filtered raises", "filter length", "store", "store", "store again", "no folder", "load",
            "cell", "spiral", "cone", "factor", "factor", "notation", "notation", "bond", "bond", "site", "atom", "export"]
CELLS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[3, 0, 0], [0, 4, 0], [0, 0, 12]], [[2, 0, 0], [1, 2, 0], [0, 0, 5]],
         [[4, 0, 0], [0, 3, 0], [1, 1, 6]], [[2, 2, 0], [0, 2, 2], [2, 0, 2]], [[0, 3, 0], [2.5, 0, 0], [0, 0, 7]],
         [[4, 0, 0], [-2, 3.5, 0], [0, 0.25, 8]]]
PHYS = ("ferro", "cone", "lswt", "optimize", "cell")


def setup(rng, profile):
    """Atoms and cell.  Coordinates are binary fractions, so that distances that
    are equal in exact arithmetic are equal in floating point as well."""
    n = rng.choice([1, 2, 2, 3, 3, 4])
    if rng.random() < 0.1 and profile not in ("optimize", "cell"):
        n = 5 if profile in PHYS else rng.choice([6, 11, 12])
    names, A = [], []
    for i in range(n):
        nm = rng.choice(["Fe", "Cr", "Mn", "A", "B", "Cr1", "X"])
        if nm in names and rng.random() < 0.7:
            nm = nm + str(i)
        names.append(nm)
    idx = list(range(1, n + 1))
    if rng.random() < 0.4:
        rng.shuffle(idx)
    if rng.random() < 0.15 and n > 1 and names[0] != names[1] and profile not in PHYS:
        idx[1] = idx[0]
    for i in range(n):
        S = rng.choice(["0.5", "1", "1.5", "2", "2.5", "3"])
        d = rng.choice([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [0.6, 0, 0.8], [0, 0.8, -0.6]])
        v = [repr(float(S) * x) for x in d]
        if profile in PHYS and rng.random() < 0.6:
            v = [repr(round(rng.uniform(-2, 2), 3)) for _ in range(3)]
            if all(float(x) == 0 for x in v):
                v[2] = "1.0"
            if rng.random() < 0.25:
                # close to a direction along an axis, and yet not along it
                t = 10.0 ** -rng.randint(1, 6)
                v = [repr(t * round(rng.uniform(-1, 1), 2)) for _ in range(3)]
                v[rng.choice([2, 2, 0, 1])] = rng.choice(["1.0", "-1.0", "2.5"])
            S = repr(math.sqrt(sum(float(x) ** 2 for x in v)))
        A.append({"id": "%s__%d" % (names[i], idx[i]), "name": names[i], "idx": idx[i], "spin": S, "spinv": v,
                  "pos": [repr(rng.randint(0, 7) / 8) for _ in range(3)]})
        if profile in PHYS and rng.random() < 0.5:
            A[-1]["g"] = repr(round(rng.uniform(0.5, 3), 2))
        if rng.random() < 0.3:
            A[-1]["q"] = repr(rng.choice([0.0, 1.5, -2.0]))
    order = sorted(range(n), key=lambda i: (idx[i], names[i]))
    for r, i in enumerate(order):
        A[i]["rank"] = r + 1
    cell = rng.choice(CELLS)
    if profile == "cell":
        a, b, c = rng.sample([2, 3, 4, 5, 6, 8], 3)
        d, f, g = (rng.choice([-1, 1, 0.5, -1.5]) for _ in range(3))
        cell = rng.choice([[[a, 0, 0], [0, b, 0], [0, 0, c]], [[a, 0, 0], [0, a, 0], [0, 0, c]], [[a, 0, 0], [0, b, 0], [0, 0, b]],
                           [[a, 0, 0], [0, b, 0], [d, 0, c]], [[a, 0, 0], [d, b, 0], [0, 0, c]], [[a, 0, 0], [0, b, 0], [0, d, c]],
                           [[a, 0, 0], [d, b, 0], [f, g, c]], [[0, a, a], [a, 0, a], [a, a, 0]], [[-a, a, c], [a, -a, c], [a, a, -c]],
                           [[a, b, 0], [-a, b, 0], [0, 0, c]], [[0, 0, c], [a, b, 0], [-a, b, 0]]])
        k = rng.random()
        if k < 0.6:
            for _ in range(rng.randint(1, 3)):
                i, j = rng.sample(range(3), 2)
                if rng.random() < 0.5:
                    cell[i], cell[j] = cell[j], [-x for x in cell[i]]
                else:
                    s = rng.choice([1, -1])
                    cell[i] = [x + s * y for x, y in zip(cell[i], cell[j])]
    cell = [[repr(float(x)) for x in r] for r in cell]
    inside = [a["id"] for a in A]
    if rng.random() < 0.3 and n > 1:
        inside = inside[:-1]
    return A, cell, inside


def physical(e):
    """Only the symmetric part of a term of a spin with itself has a meaning."""
    if e["op"] == "addo" or (e["a"] == e["b"] and e["R"] == [0, 0, 0]):
        e.pop("pid", None)
        e["J"] = dict(e["J"])
        e["J"].pop("dmi", None)
        if "matrix" in e["J"]:
            m = e["J"]["matrix"]
            e["J"]["matrix"] = [[m[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
        if not e["J"]:
            e["J"]["iso"] = "1.0"


def small(g, e):
    """Couplings for which the minimisation does not take long."""
    if g.profile != "optimize":
        return
    rng = g.rng
    x = lambda: repr(rng.randint(-16, 16) / 16)
    e.pop("pid", None)
    e["via"] = "method"
    a, b, d, f, h = (rng.randint(-8, 8) / 16 for _ in range(5))
    e["J"] = {"iso": x()}
    if rng.random() < 0.5:
        e["J"]["dmi"] = [x(), x(), x()]
    if rng.random() < 0.5:
        e["J"]["aniso"] = [[repr(v) for v in r] for r in ([a, d, f], [d, b, h], [f, h, -a - b])]


class Gen:
    def __init__(self, profile, seed):
        self.rng = rng = random.Random("%s-%s" % (profile, seed))
        self.profile = profile
        self.w = WEIGHTS[profile]
        A, cell, inside = setup(rng, profile)
        self.b = Bench(A, cell, inside, observe_all=profile in ("alias", "fail"))
        self.npid = 0
        # atoms that the user passes are shared with the user: values of spins are only
        # changed if the Hamiltonians are not given the same atom objects afterwards
        self.byname = profile == "cell" or profile in ("alias", "filter") and rng.random() < 0.5

    def o(self):
        return self.rng.randint(1, len(self.b.heap))

    def ref(self, id, h):
        """Refer to an atom as an object, by name or by full name."""
        k = self.rng.random()
        if self.byname:
            return {"k": "full", "id": id}
        if k < 0.5:
            return {"k": "obj", "id": id}
        inside = ["%s__%d" % (a.name, a.index) for a in h.atoms]
        if id not in inside and k < 0.9:
            return {"k": "obj", "id": id}
        if k < 0.85:
            return {"k": "name", "id": self.b.A[id]["name"]}
        return {"k": "full", "id": id}

    def atom(self, h):
        return self.ref(self.rng.choice(sorted(self.b.A)), h)

    def R(self):
        if self.rng.random() < 0.06:
            return [self.rng.choice([0, 1, -3, 5, -12, 30]) for _ in range(3)]
        return [self.rng.choice([0, 0, 0, 1, -1, 2, -2]) for _ in range(3)] if self.rng.random() < 0.8 else [0, 0, 0]

    def bond(self, h, known=0.7):
        """A bond: one that exists, the mirror of one that exists, or any."""
        ks = [(a, c, list(R)) for a, c, R, _ in h.exchange]
        if ks and self.rng.random() < known:
            a, c, R = self.rng.choice(ks)
            a, c = "%s__%d" % (a.name, a.index), "%s__%d" % (c.name, c.index)
            R = [int(x) for x in R]
            if self.rng.random() < 0.4:
                a, c, R = c, a, [-x for x in R]
            return {"a": self.ref(a, h), "b": self.ref(c, h), "R": R}
        return {"a": self.atom(h), "b": self.atom(h), "R": self.R()}

    def J(self, e):
        rng = self.rng
        if self.npid and rng.random() < 0.25:
            pid = rng.randint(1, self.npid)
            e["pid"], e["J"] = pid, self.b.sharedJ.get(pid) or value(rng)
            return e
        e["J"] = value(rng)
        k = rng.random()
        if k < 0.3:
            self.npid += 1
            e["pid"] = self.npid
        elif k < 0.6:
            e["via"] = "kwargs"
        if "via" not in e:
            e["via"] = rng.choice(["item", "method"])
        return e

    def pick(self, kind):
        """An object of this kind, or 0."""
        ks = [k + 1 for k, x in enumerate(self.b.aux) if type(x).__name__ == kind]
        return self.rng.choice(ks) if ks else 0

    def vec3(self):
        rng = self.rng
        k = rng.random()
        if k < 0.2:
            v = rng.choice([[0, 0, 1], [1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 0], [0.6, 0, 0.8]])
        elif k < 0.35:
            # close to a direction along an axis, and yet not along it
            t = 10.0 ** -rng.randint(1, 6)
            v = [t * round(rng.uniform(-1, 1), 2) for _ in range(3)]
            v[rng.choice([2, 2, 2, 0, 1])] = rng.choice([1, -1])
        else:
            v = [round(rng.uniform(-1, 1), 3) for _ in range(3)]
            if v == [0, 0, 0]:
                v = [0, 0, 1]
        s = rng.choice([1, 1, 1, 2.5, 0.1, 30])
        return [repr(float(x) * s) for x in v]

    def sides(self, x):
        return self.b.aux[x - 1]

    def event(self, op=None):
        rng = self.rng
        op = op or rng.choices(list(self.w), weights=list(self.w.values()))[0]
        o = self.o()
        h = self.b.heap[o - 1]
        e = {"op": op, "o": o}
        if op in ("eferro", "eafm", "espiral", "efield", "egs", "espins", "ebad", "eopt", "ebado", "efail"):
            x = self.pick("Energy")
            if not x:
                return {"op": "energy", "o": o}
            e["x"] = x
            n = len(self.b.aux[x - 1].spins)
            if n == 0:
                return {"op": "look", "o": o}
        if op in ("dh", "domega", "domegas"):
            x = self.pick("MagnonDispersion")
            if not x:
                op = e["op"] = "disp"
            else:
                e["x"] = x
        if op == "disp" and len(h.magnetic_atoms) == 0:
            return {"op": "look", "o": o}
        if op in ("std", "cure"):
            return e
        if op == "shift":
            e["v"] = rng.choice([["0.5"] * 3, [repr(rng.randint(-8, 8) / 8) for _ in range(3)]])
            e["via"] = rng.choice(["relative", "absolute"])
            return e
        if op == "crymut":
            x = self.pick("Crystal")
            if not x or not self.b.aux[x - 1].atoms:
                return {"op": "crystal", "o": o}
            a = rng.choice(self.b.aux[x - 1].atoms)
            return {"op": "crymut", "o": o, "x": x, "a": "%s__%d" % (a.name, a.index),
                    "v": rng.choice(["remove", "spin", "move"]), "w": self.vec3()}
        if op in ("energy", "disp", "crystal"):
            return e
        if self.byname and op == "adda":
            return {"op": "look", "o": o}
        if op == "init":
            x = rng.random()
            e["via"] = rng.choice(["crystal", "kwargs", "none"])
            if x < 0.25:
                e["v"] = []
            elif x < 0.6:
                n = rng.choice(NAMES if x < 0.5 else BAD)
                e["v"], e["spelling"] = [n.lower()], "".join(rng.choice([c.upper(), c]) for c in n)
            else:
                e["v"] = (["true", "false"] + [rng.choice(FACT) for _ in range(4)])[:rng.choice([3, 3, 4, 4, 2, 5])]
                e["v"][:2] = rng.choice([["true", "true"], ["true", "false"], ["false", "true"], ["false", "false"]])
            return e
        if op == "setcell":
            e["v"] = [[repr(float(x)) for x in r] for r in rng.choice(CELLS)]
            return e
        if op in ("setpos", "setg"):
            if not h.atoms or not self.byname:
                return {"op": "look", "o": o}
            a = rng.choice(h.atoms)
            e["a"] = {"k": "full", "id": "%s__%d" % (a.name, a.index)}
            e["v"] = [repr(rng.randint(-8, 15) / 8) for _ in range(3)] if op == "setpos" else repr(round(rng.uniform(0.5, 3), 2))
            return e
        if op == "setspin":
            if not h.atoms or (self.profile == "alias" and not self.byname):
                return {"op": "look", "o": o}
            a = rng.choice(h.atoms)
            e["a"], e["v"] = {"k": "full", "id": "%s__%d" % (a.name, a.index)}, self.vec3()
            return e
        if op == "fail":
            e["what"] = rng.choice(FAILURES)
            e["t"] = rng.randint(0, 47)
            if e["what"] in ("bond", "site"):
                e.update(self.bond(h, 0.5))
            return e
        if op == "efail":
            e["t"] = rng.randint(0, 33)
            return e
        if op == "efield":
            e["v"] = rng.choice([[], self.vec3(), self.vec3(), self.vec3(), ["1", "2"]])
            return e
        if op in ("egs", "espins"):
            k = rng.choice([n, n, n, n + 1])
            e["v"] = [repr(round(rng.uniform(0.5, 3), 2)) for _ in range(k)]
            return e
        if op in ("eopt", "ebado"):
            e["op"] = "eopt"
            e["kind"] = rng.choices(["ferro", "antiferro", "spiral"], weights=[4, 2, 1.2])[0]
            e["case"] = rng.choice([e["kind"], str(["ferro", "antiferro", "spiral"].index(e["kind"]))])
            e["e"] = [self.vec3() for _ in range(n)] if rng.random() < 0.75 else []
            e["flat"], e["via"] = rng.random() < 0.5, rng.choice(["list", "array"])
            e["n"] = self.vec3()
            if e["e"] and rng.random() < 0.3:
                # along the spins
                e["e"] = [[repr(float(x)) for x in a.spin_vector] for a in self.b.heap[e["o"] - 1].magnetic_atoms][:n]
                if len(e["e"]) < n:
                    e["e"] = [self.vec3() for _ in range(n)]
                elif rng.random() < 0.5:
                    e["n"] = e["e"][0]
            e["N"] = [rng.choice([-1, 0, 1]) for _ in range(2)] + [1]
            rng.shuffle(e["N"])
            rc = self.b.rec.get(e.get("x"), self.b.heap[0].reciprocal_cell)
            if e["kind"] == "spiral":
                e["q"] = [repr(round(rng.uniform(-1, 1), 3)) for _ in range(3)]
            else:
                e["q"] = [repr(float(sum(e["N"][i] * rc[i][k] for i in range(3)) / 2)) for k in range(3)]
            m = 2 if e["kind"] == "ferro" else 3
            e["tol"] = [] if rng.random() < 0.6 else [rng.choice(["1e-5", "1e-6", "1e-4"]) for _ in range(m)]
            if rng.random() < 0.35:
                # only some conditions matter
                e["tol"] = [rng.choice(["10", "1", "1e-2"])] + [rng.choice(["1e-4", "1e-5", "1e-5", "3"]) for _ in range(m - 1)]
            e["maxit"] = rng.choice([-1, -1, -1, 0, 1, 3, 7])
            e["hist"] = rng.choice(["none", "file", "file", "file", "stdout"])
            e["step"] = rng.choice([0, 1, 2, 5])
            e["rnd"] = rng.randint(0, 10 ** 6)
            if rng.random() < (0.4 if e["kind"] == "ferro" else 0.1):
                # settings of the minimisation
                e["set"] = {"m": rng.choice(["1", "2", "5", "40"]), "wolfe_c1": rng.choice(["0.0001", "0.01", "0.1"]),
                            "wolfe_c2": rng.choice(["0.9", "0.5", "0.3"])}
            if op == "ebado":
                k = rng.randint(0, 4)
                if k == 0:
                    e["case"] = rng.choice(["ferromagnet", "3", "-1", "", "Spiral "])
                elif k == 1:
                    e["tol"] = ["1e-5"] * rng.choice([1, 5 - m, 4])
                elif k == 2:
                    e["e"] = [self.vec3() for _ in range(n + 1)]
                elif k == 3 or e["kind"] == "ferro":
                    e["e"] = [self.vec3()[:2] for _ in range(n)]
                else:
                    e["q" if rng.random() < 0.5 else "n"] = ["1", "0"]
                    e["e"] = [self.vec3() for _ in range(n)]
            return e
        if op == "ebad":
            e["op"] = rng.choice(["eferro"] if self.profile == "ferro" else ["eafm", "espiral"])
            e["e"] = [self.vec3() for _ in range(n)]
            e["n"], e["q"], e["N"] = self.vec3(), self.vec3(), [1, 0, 0]
            k = rng.randint(0, 4)
            if k == 0 or self.profile == "ferro" and k in (3, 4):
                e["e"].append(self.vec3())
            elif k == 1 and n > 1:
                e["e"].pop()
            elif k == 3:
                e["n"] = e["n"][:2]
            elif k == 4:
                e["q"] = e["q"] + ["0.5"]
            else:
                e["e"] = [v[:2] for v in e["e"]]
            return e
        if op in ("eferro", "eafm", "espiral"):
            e["e"] = [self.vec3() for _ in range(n)]
            e["flat"], e["via"] = rng.random() < 0.5, rng.choice(["list", "array"])
            if op != "eferro":
                e["n"] = self.vec3()
                if op == "espiral":
                    e["q"] = [repr(round(rng.uniform(-2, 2), 3)) for _ in range(3)] if rng.random() < 0.9 else ["0.0"] * 3
                else:
                    e["N"] = [rng.choice([-1, 0, 1]) for _ in range(3)]
                    if e["N"] == [0, 0, 0]:
                        e["N"][rng.randint(0, 2)] = 1
                    rc = self.b.rec.get(e.get("x"), self.b.heap[0].reciprocal_cell)
                    e["q"] = [repr(float(sum(e["N"][i] * rc[i][k] for i in range(3)) / 2)) for k in range(3)]
            return e
        if op in ("dh", "domega"):
            e["kp"] = [repr(round(rng.uniform(-2, 2), 3)) for _ in range(3)] if rng.random() < 0.8 else ["0.0"] * 3
            if op == "dh" and rng.random() < 0.3:
                e["parts"] = True
            if op == "domega":
                e["none"], e["im"] = rng.random() < 0.3, rng.random() < 0.3
            return e
        if op == "domegas":
            e["kps"] = [[repr(round(rng.uniform(-2, 2), 3)) for _ in range(3)] for _ in range(rng.randint(1, 4))]
            e["via"], e["none"] = rng.choice(["call", "method"]), rng.random() < 0.4
            return e
        if op == "addx":
            e.update(self.bond(h, 0.35))
            self.J(e)
            if self.profile == "lswt":
                physical(e)
            small(self, e)
        elif op == "addx_bad":
            e.update(self.bond(h, 0))
            if rng.random() < 0.5:
                e["op"], e["R"], e["J"], e["via"] = "addx", e["R"][:2], value(rng), "method"
        elif op == "addo":
            e["a"] = self.atom(h)
            self.J(e)
            if self.profile == "lswt":
                physical(e)
            small(self, e)
        elif op == "delx":
            e.update(self.bond(h, 0.8))
            e["strict"] = rng.random() < 0.7
            e["via"] = "item" if e["strict"] and rng.random() < 0.5 else "method"
        elif op == "delo":
            e["a"] = self.atom(h)
            e["strict"] = rng.random() < 0.7
            e["via"] = "item" if e["strict"] and rng.random() < 0.5 else "method"
        elif op in ("hasx", "getx"):
            e.update(self.bond(h, 0.7))
        elif op in ("haso", "geto"):
            e["a"] = self.atom(h)
        elif op == "unknown":
            # names that are not in the crystal
            u = {"k": "name", "id": "Unobtainium"}
            new = [a for a in sorted(self.b.A)]
            k = rng.choice(["addx", "addx2", "addo", "delx", "delo", "hasx", "haso", "getx", "geto", "dela"])
            e["op"] = k.rstrip("2")
            e["a"] = u
            if k in ("addx2",):
                e["a"], e["b"] = {"k": "obj", "id": rng.choice(new)}, u
            elif e["op"] in ("addx", "delx", "hasx", "getx"):
                e["b"] = self.atom(h)
            if "b" in e:
                e["R"] = self.R()
            if e["op"] in ("addx", "addo"):
                e["J"], e["via"] = value(rng), rng.choice(["item", "method"])
            if e["op"] in ("delx", "delo"):
                e["strict"], e["via"] = True, rng.choice(["item", "method"])
        elif op == "badkey":
            e["a"] = {"k": "obj", "id": rng.choice(sorted(self.b.A))}
            e["v"], e["via"] = rng.randint(0, 3), rng.choice(["get", "set", "del", "in"])
        elif op == "adda":
            e["a"] = {"k": "obj", "id": rng.choice(sorted(self.b.A))}
        elif op == "dela":
            e["a"] = self.atom(h)
        elif op in ("setdc", "setsn"):
            e["v"] = rng.choice(["true", "false"])
        elif op in ("setef", "setof"):
            e["v"] = rng.choice(FACT)
        elif op == "setname":
            n = rng.choice(NAMES if self.profile != "optimize" else ["magnopy", "spinw", "magnopy"])
            e["v"], e["spelling"] = n, "".join(rng.choice([c.upper(), c]) for c in n)
        elif op == "settuple":
            e["v"] = [rng.choice(["true", "false"]), rng.choice(["true", "false"]), rng.choice(FACT)]
            if rng.random() < 0.7:
                e["v"].append(rng.choice(FACT))
            e["via"] = rng.choice(["list", "tuple"])
        elif op == "badname":
            n = rng.choice(BAD)
            e["op"], e["v"], e["spelling"] = "setname", n.lower(), n
        elif op == "badtuple":
            k = rng.choice([0, 1, 2, 5, 6])
            e["op"], e["via"] = "settuple", rng.choice(["list", "tuple"])
            e["v"] = (["true", "false"] + [rng.choice(FACT) for _ in range(4)])[:k]
        elif op == "setbad":
            e["v"] = rng.randint(0, 3)
        elif op == "read":
            e["v"] = rng.choice(["dc", "sn", "ef", "of"])
        elif op in ("filter", "filtered"):
            ds = []
            for a, c, R, _ in h.exchange:
                ds.append(float(h.get_distance(a, c, R)))
            def bound():
                k = rng.random()
                if ds and k < 0.5:
                    d = rng.choice(ds)
                    if k < 0.15:
                        # just below or above a length
                        return repr(d + rng.choice([1, -1]) * rng.choice([1e-2, 1e-3, 1e-5, 1e-7]))
                    # a bound that coincides with the length only if it is exact
                    return repr(d) if d * 8 == int(d * 8) and self.profile != "cell" else repr(round(d, 2) + 0.0037)
                return repr(rng.choice([0.0, 0.5, 1.0, 2.0, 3.3, 5.0, 9.1]) + (0.0123 if self.profile == "cell" else 0))
            k = rng.randint(1, 7)
            e["lo"] = bound() if k & 1 else "undef"
            e["hi"] = bound() if k & 2 else "undef"
            if k & 4:
                p = rng.choice(["iso_ge", "xx_gt", "xy_le", "dmi_lt", "none"])
                e["p"] = {"k": p, "v": repr(rng.randint(-20, 20) / 8 + 1 / 64)}
        elif op == "setq":
            e["v"] = [fr(rng, 1) for _ in range(rng.choice([3, 3, 3, 2, 4]))]
        elif op == "setn":
            e["v"] = rng.choice([[fr(rng, 2) for _ in range(3)], ["0", "0", "0"], ["1", "2"], ["0.0002", "0", "-3e-05"]])
        return e


def stable(g):
    """A ferromagnet with easy axis: all spins along one direction, attractive bonds."""
    b, rng = g.b, g.rng
    h = b.heap[0]
    d = rng.choice([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0.6, 0, 0.8], [0, -0.8, 0.6], [1e-4, 0, 1], [0, 3e-5, -1]])
    t = rng.choice([1, 1, 1, 100, 1e-2, 1e-3, 2e-4])
    sg = -1 if h.exchange_factor > 0 else 1
    for a in sorted(b.A):
        S = float(b.A[a]["spin"])
        if a in ["%s__%d" % (x.name, x.index) for x in h.atoms]:
            b.do({"op": "setspin", "o": 1, "a": {"k": "full", "id": a}, "v": [repr(S * x) for x in d]})
    ids = ["%s__%d" % (x.name, x.index) for x in h.atoms]
    for _ in range(rng.randint(1, 4)):
        R = g.R()
        a, c = rng.choice(ids), rng.choice(ids)
        if a == c and R == [0, 0, 0]:
            R = [1, 0, 0]
        b.do({"op": "addx", "o": 1, "a": {"k": "obj", "id": a}, "b": {"k": "obj", "id": c}, "R": R,
              "J": {"iso": repr(t * sg * rng.choice([1.0, 0.5, 2.25]))}, "via": "method"})
    sg = -1 if h.on_site_factor > 0 else 1
    for a in ids:
        K = t * rng.choice([0.0, 0.5, 1.0])
        b.do({"op": "addo", "o": 1, "a": {"k": "obj", "id": a}, "via": "method",
              "J": {"matrix": [[repr(sg * K * d[i] * d[j]) for j in range(3)] for i in range(3)]}})


def generate(profile, seed, length):
    g = Gen(profile, seed)
    b, rng = g.b, g.rng
    if profile in PHYS:
        # notation first, so that pairs are consistent
        b.do(g.event("setname" if rng.random() < 0.5 else "settuple"))
        if rng.random() < 0.3 and profile in ("lswt", "optimize"):
            stable(g)
        else:
            for _ in range(rng.randint(1, 5)):
                b.do(g.event("addx" if rng.random() < 0.7 else "addo"))
        b.do(g.event("disp" if profile == "lswt" else "energy"))
    if profile in ("notation", "filter", "mirror", "alias"):
        # some parameters first, in one or another notation state
        pre = rng.random()
        if pre < 0.35:
            b.do(g.event("setname" if rng.random() < 0.5 else "settuple"))
        elif pre < 0.6 and profile == "mirror":
            b.do(g.event("setdc"))
        for _ in range(rng.randint(1, 5)):
            b.do(g.event("addx" if rng.random() < 0.7 else "addo"))
        if profile in ("notation",) and pre >= 0.35:
            b.do(g.event("setname" if rng.random() < 0.5 else "settuple"))
    while len(b.events) < length:
        b.do(g.event())
        if b.events[-1]["res"].startswith("state can not"):
            break
    return b
