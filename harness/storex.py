"""Execute sequences of operations with files (text, hdf5) on the real code.

Job {"script": {...}} or {"gen": profile, "seed": n, "len": k}; the answer is a
trace for StoreTrace.  All files live in a scratch directory."""
import contextlib, hashlib, io, logging, os, random, shutil, sys, tempfile
import h5py
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from util import frac, num, serve
import hamx, hamgen, tbgen
from hamx import Bench, fullname
from magnopy.exceptions import NotationError
from magnopy import MagnonDispersion
from magnopy.score import convert_tb2j, magnon_dispersion, minimize_energy
from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire
from magnopy.io.txt.tb2j import load_tb2j
from magnopy.io import load_spinham, load_spinham_txt, load_spinham_hdf5, dump_spinham_txt, dump_spinham_hdf5

logging.disable(logging.CRITICAL)
OPT = {"matrix": "write_matrix", "iso": "write_iso", "dmi": "write_dmi", "symm": "write_symm",
       "dist": "write_distance", "angles": "write_spin_angles"}
MARK = 12345.678
MASK = {"transpose": lambda J: J.T, "double": lambda J: 2 * J, "zz": lambda J: np.diag([0.0, 0.0, J[2, 2]])}
TB = {"exchange.out", "CrI3_exchange.out", "tb.out"}


@contextlib.contextmanager
def scratch(d):
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


def command(main, args):
    """Run main() as the command line does."""
    old, sys.argv = sys.argv, ["magnopy"] + args
    try:
        main()
    except SystemExit as x:
        if x.code not in (None, 0):
            raise RuntimeError("exit code %s" % x.code)
    finally:
        sys.argv = old


class StoreBench(Bench):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dir = tempfile.mkdtemp()
        self.tb = set()

    def path(self, f):
        return os.path.join(self.dir, f)

    def apply(self, e):
        op, via = e["op"], e.get("via")
        if op == "dumpt":
            h, p = self.heap[e["o"] - 1], self.path(e["f"])
            k = {OPT[x]: v for x, v in e["opts"].items() if v != (x == "matrix") or via == "all"}
            if via == "list":
                text = "\n".join(dump_spinham_txt(h, print_if_none=False, **k))
            elif via == "print":
                with contextlib.redirect_stdout(io.StringIO()) as o:
                    dump_spinham_txt(h, **k)
                text = o.getvalue()
            else:
                text = None
                dump_spinham_txt(h, p, **k)
            if text is not None:
                with open(p, "w", encoding="utf-8") as o:
                    o.write(text)
            with open(p, encoding="utf-8") as o:
                e["lines"] = o.read().split("\n")
            e["sha"] = self.sha(p)
        elif op == "loadt":
            p = self.path(e["f"])
            self.heap.append(load_spinham(p) if via == "guess" else load_spinham(p, spinham_format=e["fmt"]) if via == "fmt"
                             else load_spinham_txt(p))
        elif op == "dumph":
            h, p = self.heap[e["o"] - 1], self.path(e["f"])
            k = {}
            if e["ow"] or via == "all":
                k["overwrite"] = e["ow"]
            if e["g"] != "spinham" or via == "all":
                k["groupname"] = e["g"]
            dump_spinham_hdf5(h, p, **k)
        elif op == "loadh":
            p = self.path(e["f"])
            k = {"groupname": e["g"]} if e["g"] else {}
            self.heap.append(load_spinham(p, **k) if via == "guess" else load_spinham(p, spinham_format=e["fmt"], **k) if via == "fmt"
                             else load_spinham_hdf5(p, **k))
        elif op == "puttb":
            p = self.path(e["f"])
            self.tb.add(e["f"])
            with open(p, "w", encoding="utf-8") as o:
                o.write("\n".join(e["lines"]) + "\n")
            e["sha"] = self.sha(p)
        elif op == "loadtb":
            with contextlib.redirect_stdout(io.StringIO()):
                self.heap.append(load_tb2j(self.path(e["f"]), **({"quiet": False} if via == "loud" else {})))
        elif op == "loadany":
            k = {"groupname": e["g"]} if e["g"] else {}
            if e["fmt"]:
                k["spinham_format"] = e["fmt"]
            self.heap.append(load_spinham(self.path(e["f"]), **k))
        elif op == "vampire":
            self.vampire(e)
        elif op == "conv":
            self.convert(e)
            p = self.path(e["t"])
            if os.path.exists(p) and not h5py.is_hdf5(p):
                with open(p, encoding="utf-8") as o:
                    e["lines"] = o.read().split("\n")
                e["sha"] = self.sha(p)
        elif op == "dispcmd":
            return self.dispcmd(e)
        elif op == "mincmd":
            return self.mincmd(e)
        elif op == "userg":
            with h5py.File(self.path(e["f"]), "a") as o:
                o.create_group(e["g"]).create_dataset("mine", data=MARK)
        else:
            return super().apply(e)

    def vampire(self, e):
        h, o, seed = self.heap[e["o"] - 1], e["opts"], e["seed"]
        e["ids"] = [fullname(a) for a in h.magnetic_atoms]
        k, m = {}, {}
        if not o["aniso"]:
            k["anisotropic"] = False
        if not o["dmi"]:
            k["dmi"] = False
        if o["mask"] != "none":
            k["custom_mask"] = MASK[o["mask"]]
        if o["dec"] != 5:
            k["decimals"] = o["dec"]
        if o["mats"]:
            # one material for every magnetic atom, numbers without gaps
            mats = [x % len(e["ids"]) for x in o["mats"][:len(e["ids"])]] if e["ids"] else []
            mats = [sorted(set(mats)).index(x) for x in mats] if len(mats) == len(e["ids"]) else []
            o["mats"] = mats
            if mats:
                m["materials"] = mats
        if e["nologo"]:
            m["nologo"] = True
        d = tempfile.mkdtemp()
        try:
            with scratch(d):
                if e["via"] == "all":
                    dump_vampire(h, **(dict(seedname=seed) if seed != "vampire" else {}), **k, **m)
                    want = {"ucf": seed + ".UCF", "mat": seed + ".mat", "input": "input"}
                elif e["via"] == "mat":
                    want = {"mat": "m.mat"}
                    if e["text"]:
                        with open("m.mat", "w") as f:
                            f.write(dump_mat(h, **m))
                    else:
                        dump_mat(h, filename="m.mat", **m)
                else:
                    want = {"ucf": "u.UCF"}
                    if e["text"]:
                        with open("u.UCF", "w") as f:
                            f.write(dump_ucf(h, **k, **m))
                    else:
                        dump_ucf(h, filename="u.UCF", **k, **m)
            if sorted(os.listdir(d)) != sorted(want.values()):
                raise RuntimeError("files %s" % os.listdir(d))
            for x, f in want.items():
                with open(os.path.join(d, f), encoding="utf-8") as f:
                    e[x] = f.read().split("\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def convert(self, e):
        """The command, called as a function or with arguments of the command line."""
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), scratch(self.dir):
            far = e.get("far")
            f, t = (self.path(e["f"]), self.path(e["t"])) if far else (e["f"], e["t"])
            if e["via"] == "main":
                a = [e.get("fo", "-if"), f]
                if t != "spinham.txt":
                    a += [e.get("to", "-of"), t]
                if e["fmt"]:
                    a += ["-f", e["fmt"]]
                if e.get("loud"):
                    a.append("-v")
                command(convert_tb2j.main, a)
            else:
                k = {}
                if t != "spinham.txt":
                    k["output_filename"] = t
                if e["fmt"]:
                    k["format"] = e["fmt"]
                if e.get("loud"):
                    k["verbose"] = True
                convert_tb2j.manager(f, **k)

    def fresh(self, run):
        """Run a command in the folder of the files; files it makes are moved away."""
        walk = lambda: {os.path.relpath(os.path.join(d, f), self.dir) for d, _, l in os.walk(self.dir) for f in l}
        before = walk()
        keep = tempfile.mkdtemp()
        new = []
        try:
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), scratch(self.dir):
                    run()
            finally:
                plt.close("all")
                new = sorted(walk() - before)
                for f in new:
                    os.makedirs(os.path.dirname(os.path.join(keep, f)), exist_ok=True)
                    shutil.move(self.path(f), os.path.join(keep, f))
                for d in [d for d, _, _ in os.walk(self.dir, topdown=False)][:-1]:
                    if not os.listdir(d):
                        os.rmdir(d)
            texts = {}
            for f in new:
                if not f.endswith(".png"):
                    with open(os.path.join(keep, f), encoding="utf-8") as o:
                        texts[f] = o.read()
                elif open(os.path.join(keep, f), "rb").read(8) != b"\x89PNG\r\n\x1a\n":
                    new = [x + " (not a picture)" if x == f else x for x in new]
            return new, texts
        finally:
            shutil.rmtree(keep, ignore_errors=True)

    def input(self, e):
        return load_spinham(self.path(e["f"]), **({"spinham_format": e["fmt"]} if e["fmt"] else {}))

    def dispcmd(self, e):
        f = self.path(e["f"]) if e["far"] else e["f"]
        seed = e["dir"] + e["os"]
        e["lib"], S, ids, D = "ok", [], [], None
        try:
            h = self.input(e)
            ids = [fullname(a) for a in h.magnetic_atoms]
            try:
                S = [[num(round(float(x), 6)) for x in r] for r in h.S_matrix]
                c = h.crystal
                c.standardize()
                c.kpoints, c.variation
                if not e["kps"]:
                    c.kpoints.points()
            except Exception:
                e["lib"] = "error"
            D = MagnonDispersion(h)
        except Exception:
            pass
        kps = [x for p in e["kps"] for x in [p["name"], p["label"]] + p["x"]]
        kp = "|".join("-".join(s) for s in e["kp"])
        if e["via"] == "main":
            a = ["-sh", f] + (["-shf", e["fmt"]] if e["fmt"] else []) + (["-os", seed] if seed else [])
            a += (["-kps"] + kps if kps else []) + (["-kp", kp] if kp else [])
            a += [o for o, x in (("-st", "st"), ("-jo", "jo"), ("-v", "loud")) if e[x]]
            run = lambda: command(magnon_dispersion.main, a)
        else:
            k = {"spinham_format": e["fmt"]} if e["fmt"] else {}
            k.update({"output_seedname": seed} if seed else {})
            k.update({"k_points": kps} if kps else {})
            k.update({"k_path": kp} if kp else {})
            k.update({n: True for n, x in (("save_txt", "st"), ("join_output", "jo"), ("verbose", "loud")) if e[x]})
            run = lambda: magnon_dispersion.manager(f, **k)
        new, texts = self.fresh(run)
        v = {"new": new, "ids": ids, "S": S, "rows": [], "nrows": 0, "ncols": 0, "grows": False}
        t = [x for n, x in texts.items() if not n.endswith("_info.txt")]
        if t:
            n = len(ids)
            data = [l.split() for l in t[0].split("\n")]
            if e["jo"]:
                k = max([i for i, l in enumerate(data) if l and l[0] == "Coordinate"] + [0])
                data = data[k + 1:]
            data = [l for l in data if l and not l[0].startswith("#")]
            v["nrows"], v["ncols"] = len(data), max([len(l) for l in data] + [0])
            c = [float(l[0]) for l in data]
            v["grows"] = all(x <= y + 1e-7 for x, y in zip(c, c[1:]))
            rng = random.Random(e["rnd"])
            pick = sorted({rng.choice([0, len(data) - 1])} | {rng.randrange(len(data)) for _ in range(2)}) if data else []
            for i in pick:
                r = [num(float(x)) for x in data[i]]
                w, rel, ab = r[1:-6], r[-6:-3], r[-3:]
                d = {"i": i + 1, "c": r[0], "w": w, "rel": rel, "abs": ab}
                d["val"] = self.dispersion(D, {"op": "domega", "kp": ab})
                v["rows"].append(d)
        return v

    def mincmd(self, e):
        f = self.path(e["f"]) if e["far"] else e["f"]
        np.random.seed(e["rnd"])
        if e["via"] == "main":
            a = ["-sh", f] + (["-shf", e["fmt"]] if e["fmt"] else []) + ["-os", e["os"]]
            a += (["-gst"] + e["gst"] if e["gst"] else []) + (["-mf"] + e["mf"] if e["mf"] else [])
            run = lambda: command(minimize_energy.main, a)
        else:
            k = {"spinham_format": e["fmt"]} if e["fmt"] else {}
            k.update({"ground_state_type": e["gst"]} if e["gst"] else {})
            k.update({"magnetic_field": [frac(x) for x in e["mf"]]} if e["mf"] else {})
            run = lambda: minimize_energy.manager(f, output_seedname=e["os"], **k)
        new, texts = self.fresh(run)
        h = self.input(e)
        ids = [fullname(a) for a in h.magnetic_atoms]
        blocks, energies, labels, kind, part = [], [], [], "", "blocks"
        hist = {"ferro": 0, "antiferro": 0, "spiral": 0}
        cell = np.array(h.cell)
        for l in texts.get(e["os"] + "-results", "").split("\n"):
            w = l.split()
            if "Summary" in l:
                part = "summary"
            elif part == "blocks":
                if l.startswith("Start to minimize"):
                    kind = {"ferromagnetic": "ferro", "antiferromagnetic": "antiferro", "spiral": "spiral"}.get(w[4], w[4])
                elif w[:4] == ["name", "r1", "r2", "r3"]:
                    hist[kind] += 1
                    f = e["os"] + "-" + kind + "-history" + ("-%d" % hist[kind] if kind == "antiferro" else "")
                    rows = texts.get(f, "").strip().split("\n")
                    blocks.append({"kind": kind, "names": [], "pos": [], "spins": [], "n": [], "q": [], "N": [],
                                   "last": num(float(rows[-1].split()[0])) if len(rows) > 1 else "nan"})
                elif l.startswith("Cone axis is:"):
                    blocks[-1]["n"] = [num(float(x)) for x in w[-3:]]
                elif l.startswith("Spiral vector is:"):
                    blocks[-1]["q"] = [num(float(x)) for x in w[-3:]]
                    blocks[-1]["N"] = [int(x) for x in np.rint(cell @ [float(x) for x in w[-3:]] / np.pi)]
                elif len(w) == 7 and l.startswith("  ") and blocks:
                    blocks[-1]["names"].append(w[0])
                    blocks[-1]["pos"].append([num(float(x)) for x in w[1:4]])
                    blocks[-1]["spins"].append([num(float(x)) for x in w[4:]])
            elif w:
                if w[0][0] in "FAS" and len(w) >= 3:
                    labels.append({"Ferromagnetic": "ferro", "Antiferromagnetic": "antiferro", "Spiral": "spiral"}.get(w[0], w[0]))
                if w[-1] != ":":
                    energies.append(num(float(w[-1])))
        return {"new": new, "ids": ids, "blocks": blocks, "energies": energies, "labels": labels}

    def sha(self, p):
        with open(p, "rb") as o:
            return hashlib.sha1(o.read()).hexdigest()

    def files(self):
        r = []
        for f in sorted(os.listdir(self.dir)):
            p = self.path(f)
            if h5py.is_hdf5(p):
                hams, user = [], []
                with h5py.File(p, "r") as o:
                    def see(name, x):
                        if isinstance(x, h5py.Group):
                            if str(x.attrs.get("type", "")).lower() == "spinhamiltonian":
                                hams.append(name)
                            if "mine" in x and x["mine"][()] == MARK:
                                user.append(name)
                    o.visititems(see)
                r.append({"f": f, "k": "h5", "hams": hams, "user": user})
            else:
                r.append({"f": f, "k": "txt", "sha": self.sha(p)})
        return r

    def do(self, e):
        e = super().do(e)
        if "lines" in e and e["res"] != "ok":
            del e["lines"]
        e["fs"] = self.files()
        return e

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- random histories
GROUPS = ["spinham", "a", "a/b", "c", "a/b/d", "deep/er", "Spin model"]
WEIGHTS = {
    "txt": dict(dumpt=5, loadt=4, addx=2, addo=1, setname=1, settuple=1, delx=0.5, setq=0.4, setn=0.4, setspin=0.6),
    "h5": dict(dumph=6, loadh=5, userg=0.6, addx=2, addo=1, setname=1, settuple=0.7, delx=0.4, delo=0.3, setq=0.3, setn=0.3, dela=0.3, setspin=0.3),
    "chain": dict(dumpt=3, loadt=3, dumph=3, loadh=3, setname=1.2, settuple=1, setdc=0.6, setsn=0.6, filter=0.5, filtered=0.5, copy=0.3,
                  puttb=0.3, loadtb=0.5, conv=0.7, addx=0.8, addo=0.5, delx=0.4, setspin=0.4, setq=0.2, setn=0.2),
    "tb": dict(puttb=1, loadtb=2, conv=2.5, loadany=1.5, loadt=1, loadh=1, dumph=0.3, dumpt=0.3, addx=0.2, setname=0.5, settuple=0.3, filter=0.2),
    "vampire": dict(vampire=5, addx=3, addo=1.5, setname=1, settuple=1, setdc=0.5, setsn=0.5, delx=0.4, delo=0.2, filter=0.3, setspin=0.4, loadtb=0.3, copy=0.2),
    "any": dict(puttb=0.7, loadany=8, conv=0.7, loadt=0.5, loadh=0.5, dumph=2, dumpt=1.5, addx=0.2, setname=0.3, userg=0.2),
}


def above(g):
    p = g.split("/")
    return ["/".join(p[:k]) for k in range(1, len(p))]


def hardsetup(rng):
    """Atoms with different names, arbitrary decimals; sometimes many of them."""
    n = rng.choice([1, 2, 2, 3, 4, 11, 13]) if rng.random() < 0.5 else rng.choice([1, 2, 3])
    pool = ["Fe", "Cr", "Mn1", "A", "B", "Cr1", "X", "Fe2", "Ni", "Co", "atom", "long_name_1", "O-3", "V'", "S.1", "1a", "Y", "A_name_of_more_than_thirty_two_characters"]
    names = rng.sample(pool, n)
    idx = list(range(1, n + 1))
    if rng.random() < 0.5:
        idx = rng.sample(range(1, 40) if rng.random() < 0.8 else range(90, 1200), n)
    A = []
    for i in range(n):
        k = rng.random()
        lim = rng.choice([1, 3, 3, 12])
        d = (0, 0, lim) if k < 0.15 else (0, lim, 0) if k < 0.2 else (0, 0, -lim) if k < 0.3 else [rng.uniform(-lim, lim) for _ in range(3)]
        v = [round(x, rng.choice([1, 4, 7])) for x in d]
        if not any(v):
            v[2] = 1.0
        if rng.random() < 0.15:
            # close to a direction along an axis, and yet not along it
            t = 10.0 ** -rng.randint(1, 6)
            v = [t * round(rng.uniform(-1, 1), 2) for _ in range(3)]
            v[rng.choice([2, 2, 0, 1])] = rng.choice([1.0, -1.0, 2.5])
        S = sum(x * x for x in v) ** 0.5
        pos = [round(rng.uniform(-2 if rng.random() < 0.2 else 0, 1), rng.choice([2, 8, 12])) for _ in range(3)]
        a = {"id": "%s__%d" % (names[i], idx[i]), "name": names[i], "idx": idx[i], "spin": repr(S), "spinv": [repr(float(x)) for x in v],
             "pos": [repr(float(x)) for x in pos]}
        if rng.random() < 0.5:
            a["g"] = repr(round(rng.uniform(-3, 3), rng.choice([1, 5])))
        if rng.random() < 0.5:
            a["q"] = repr(rng.choice([0.0, 1.5, -2.0, 0.12345]))
        A.append(a)
    for r, i in enumerate(sorted(range(n), key=lambda i: (idx[i], names[i]))):
        A[i]["rank"] = r + 1
    while True:
        s = rng.choice([1, 4, 15, 120])
        cell = [[round(rng.uniform(-s, s), rng.choice([1, 8, 10])) if i == j or rng.random() < 0.6 else 0.0 for j in range(3)] for i in range(3)]
        det = sum(cell[0][i] * (cell[1][(i + 1) % 3] * cell[2][(i + 2) % 3] - cell[1][(i + 2) % 3] * cell[2][(i + 1) % 3]) for i in range(3))
        if abs(det) > 0.05 * s ** 3:
            break
    return A, [[repr(float(x)) for x in r] for r in cell], [a["id"] for a in A]


def hardnumber(rng):
    k = rng.random()
    if k < 0.3:
        return hamgen.fr(rng)
    m = rng.choice([1e-5, 1e-3, 1, 1, 30, 5e3, 5e4])
    return repr(round(rng.uniform(-m, m), rng.choice([2, 5, 9])))


class Gen(hamgen.Gen):
    def __init__(self, profile, seed):
        self.rng = rng = random.Random("store-%s-%s" % (profile, seed))
        self.seed, self.profile, self.w = seed, profile, WEIGHTS[profile]
        A, cell, atoms = hardsetup(rng)
        if profile == "vampire" and seed % 5 == 1:
            # some atoms without a spin
            for a in A:
                if rng.random() < 0.5:
                    a.update(spin="0", spinv=["0", "0", "0"])
        self.b = StoreBench(A, cell, atoms, observe_all=rng.random() < 0.1)
        self.npid, self.byname = 0, False

    def ref(self, id, h):
        return {"k": "full", "id": id} if self.rng.random() < 0.6 else {"k": "name", "id": id.rsplit("__", 1)[0]}

    def atom(self, h):
        if not h.atoms:
            return {"k": "name", "id": "nobody"}
        return self.ref(fullname(self.rng.choice(h.atoms)), h)

    def R(self):
        return [self.rng.choice([0, 0, 1, -1, 2, -3, 14, -101, self.rng.choice([130, -300, 40000])]) for _ in range(3)] if self.rng.random() < 0.8 else [0, 0, 0]

    def J(self, e):
        rng = self.rng
        e["J"] = {"matrix": [[hardnumber(rng) for _ in range(3)] for _ in range(3)]} if rng.random() < 0.7 else hamgen.value(rng)
        e["via"] = rng.choice(["kwargs", "item", "method"])
        return e

    def id(self, h, r):
        return r["id"] if r["k"] == "full" else ([fullname(a) for a in h.atoms if a.name == r["id"]] + [""])[0]

    def event(self, op=None):
        rng, b = self.rng, self.b
        op = op or rng.choices(list(self.w), weights=list(self.w.values()))[0]
        # atoms without a spin have no other notation than that of TB2J
        if self.profile == "tb" and self.seed % 2 and op.startswith("set"):
            op = "loadtb"
        if self.profile == "vampire" and self.seed % 5 == 1 and op in ("setname", "settuple", "setsn", "setdc") and b.events:
            op = "vampire"
        o = rng.randint(1, len(b.heap)) if rng.random() < 0.5 else len(b.heap)
        if op in ("loadt", "loadh") and rng.random() < 0.85 and not os.listdir(b.dir):
            op = op.replace("load", "dump")
        if op in ("dumpt", "loadt"):
            e = {"op": op, "o": o, "f": rng.choice(["m.txt", "m.txt", "model"])}
            if op == "loadt":
                e["via"] = rng.choice(["txt", "guess", "fmt"])
                if e["via"] == "fmt":
                    e["fmt"] = rng.choice(["txt", "TXT", "Txt"])
                if rng.random() < 0.04:
                    e["f"], e["via"] = "s.hdf5", "txt"
                e["o"] = 1
                return e
            e["via"] = rng.choice(["file", "file", "list", "print", "all"])
            k = rng.random()
            on = lambda p: rng.random() < p
            e["opts"] = {"matrix": True, "iso": False, "dmi": False, "symm": False, "dist": False, "angles": False}
            if k < 0.4:
                e["opts"] = {"matrix": on(0.5), "iso": on(0.6), "dmi": on(0.6), "symm": on(0.6), "dist": on(0.5), "angles": on(0.5)}
                if k < 0.15:
                    e["opts"].update(matrix=False, iso=True, dmi=True, symm=True)
                if not any(e["opts"][x] for x in ("matrix", "iso", "dmi", "symm")):
                    e["opts"]["iso"] = True
            return e
        if op == "puttb":
            self.ntb = getattr(self, "ntb", 0) + 1
            return {"op": op, "o": 1, "f": rng.choice(["exchange.out", "exchange.out", "CrI3_exchange.out", "tb.out"]),
                    "lines": tbgen.make("%s-%s" % (self.seed, self.ntb), self.profile != "tb" or self.seed % 2 == 0)}
        if op == "vampire":
            return {"op": op, "o": o, "via": rng.choice(["all", "ucf", "ucf", "mat"]), "seed": rng.choice(["vampire", "CrI3", "a.b"]),
                    "nologo": rng.random() < 0.5, "text": rng.random() < 0.4,
                    "opts": {"aniso": rng.random() < 0.75, "dmi": rng.random() < 0.75, "mask": rng.choice(["none"] * 7 + list(MASK)),
                             "dec": rng.choice([5, 5, 5, 3, 8, 12, 1]),
                             "mats": [rng.randint(0, 3) for _ in range(20)] if rng.random() < 0.4 else []}}
        if op in ("loadtb", "conv", "loadany"):
            have = {k: [f["f"] for f in b.files() if (f["f"] in TB) == (k == "tb") and (f["k"] == "h5") == (k == "h5")] for k in ("txt", "tb", "h5")}
            if not have["tb"] and rng.random() < 0.9:
                return self.event("puttb")
            f = rng.choice(have["tb"]) if have["tb"] and rng.random() < 0.97 else "nothing.out"
            if op == "loadtb":
                return {"op": op, "o": 1, "f": f, "via": rng.choice(["quiet", "loud"])}
            if op == "conv":
                fmt = rng.choice(["", "", "txt", "hdf5"])
                t = rng.choice(["spinham.txt", "m.txt", "s.hdf5", "c.hdf5"] + (["new", "new.txt", "new.data", "txt", "hdf5"] if fmt == "hdf5" else ["model", "out.dat"]))
                if fmt == "txt" and t.endswith("hdf5"):
                    t = "spinham.txt"
                e = {"op": op, "o": 1, "f": f, "t": t, "fmt": fmt, "via": rng.choice(["main", "manager"]), "far": rng.random() < 0.5 and t != "spinham.txt",
                     "loud": rng.random() < 0.3, "fo": rng.choice(["-if", "--input-filename"]), "to": rng.choice(["-of", "--output-filename"])}
                if e["via"] == "manager" and fmt:
                    e["fmt"] = rng.choice([fmt, fmt.upper(), fmt.capitalize()])
                if rng.random() < 0.04:
                    e["fmt"] = rng.choice(["xyz", "h5", "tx"])
                return e
            kind = rng.choice(["txt", "tb", "h5", "h5"])
            f = rng.choice(have[kind]) if have[kind] else "no-" + rng.choice(["exchange.out", "file.hdf5", "file"])
            fmt = rng.choice(["", {"txt": "txt", "tb": "tb2j", "h5": "hdf5"}[kind]])
            if rng.random() < 0.1:
                fmt = rng.choice(["hdf5", "txt", "vampire", "h5", "tb2", "", "magnopy", "hdf", "tb2j.out"])
            if fmt == "txt" and kind == "h5" and f.startswith("no"):
                kind = "txt"
            fmt = rng.choice([fmt, fmt.upper(), fmt.capitalize(), fmt])
            # a text file of another kind read as a result of TB2J is not specified
            e = {"op": op, "o": 1, "f": f, "fmt": fmt, "g": ""}
            if (fmt.lower() or ("hdf5" if f.endswith(".hdf5") else "tb2j" if f.endswith("exchange.out") else "txt")) == "hdf5" and rng.random() < 0.7:
                e["g"] = rng.choice(GROUPS[:3])
            return e
        if op in ("dumph", "loadh", "userg"):
            e = {"op": op, "o": o, "f": rng.choice(["s.hdf5", "s.hdf5", "s.hdf5", "t.h5"]), "g": rng.choice(GROUPS[:3] if rng.random() < 0.6 else GROUPS)}
            if rng.random() < 0.03:
                e["f"] = "m.txt"
            if op == "dumph":
                e["ow"], e["via"] = rng.random() < 0.4, rng.choice(["all", "short"])
            if op == "loadh":
                e["o"] = 1
                e["via"] = rng.choice(["h5", "guess", "fmt"]) if e["f"].endswith(".hdf5") else rng.choice(["h5", "fmt"])
                if e["via"] == "fmt":
                    e["fmt"] = rng.choice(["hdf5", "HDF5", "Hdf5"])
                if rng.random() < 0.4:
                    e["g"] = ""
            e["above"] = above(e["g"])
            return e
        e = super().event(op)
        if op == "addx":
            h = b.heap[e["o"] - 1]
            a, c = self.id(h, e["a"]), self.id(h, e["b"])
            if a == c and e["R"] == [0, 0, 0]:
                e["R"] = [1, 0, 0]
            # two different values of a bond given while double counting is not
            # defined have no meaning
            if (c, a, [-x for x in e["R"]]) in [(fullname(x), fullname(y), [int(z) for z in R]) for x, y, R, _ in h.exchange]:
                try:
                    h.double_counting
                except NotationError:
                    return {"op": "look", "o": e["o"]}
        e["o"] = o if op not in ("setspin", "delx", "addx", "addo", "delo", "dela", "filter", "filtered") else e["o"]
        if op in ("filter", "filtered"):
            for x in ("lo", "hi"):
                if e[x] != "undef":
                    e[x] = repr(round(float(e[x]), 1) + 0.0437)
        return e


class Cmd(hamgen.Gen):
    """Small Hamiltonians for the commands."""

    def __init__(self, kind, seed):
        self.rng = rng = random.Random("cmd-%s-%s" % (kind, seed))
        self.profile, self.w, self.npid, self.byname = "optimize", hamgen.WEIGHTS["optimize"], 0, True
        A, cell, inside = hamgen.setup(rng, "cell")
        names = set()
        for k, a in enumerate(A):
            while a["name"] in names:
                a["name"] += "x"
            names.add(a["name"])
            a["idx"] = a["rank"] = k + 1
            a["id"] = "%s__%d" % (a["name"], k + 1)
        A = A[:rng.choice([1, 1, 2, 2, 3])]
        self.b = StoreBench(A, cell, [a["id"] for a in A])


def commands(kind, seed, length):
    g = Cmd(kind, seed)
    b, rng = g.b, g.rng
    try:
        b.do(g.event("setname" if rng.random() < 0.5 else "settuple"))
        if rng.random() < 0.6:
            hamgen.stable(g)
        for _ in range(rng.randint(1, 2)):
            b.do(g.event("addx" if rng.random() < 0.7 else "addo"))
        while not b.heap[0].magnetic_atoms:
            b.do(g.event("addo"))
        b.do({"op": "dumpt", "o": 1, "f": "m.txt", "via": "short", "opts": {x: x == "matrix" for x in OPT}})
        b.do({"op": "dumph", "o": 1, "f": "s.hdf5", "g": "spinham", "ow": False, "via": "short", "above": []})
        slow = False
        for _ in range(length):
            if slow:
                break
            f = rng.choice(["m.txt", "s.hdf5"])
            e = {"o": 1, "f": f, "fmt": rng.choice(["", {"m.txt": "txt", "s.hdf5": "hdf5"}[f]]), "g": "", "via": rng.choice(["main", "manager"]),
                 "far": rng.random() < 0.5, "rnd": rng.randint(0, 10 ** 6)}
            if rng.random() < 0.06:
                e["f"] = "missing.txt"
                e["fmt"] = ""
            if kind == "disp":
                pts = []
                for nm in rng.sample(["aa", "k1", "Pt", "mid", "w9", "zz"], 3):
                    pts.append({"name": nm, "label": rng.choice([nm, "$%s$" % nm]),
                                "x": [repr(rng.choice([0.0, 0.5, 0.25, round(rng.uniform(-1, 1), 3)])) for _ in range(3)]})
                nm = [p["name"] for p in pts]
                kp = rng.choice([[nm[:2]], [nm], [nm[:2], nm[1:]], [[nm[0], nm[2]], [nm[1], nm[0]]]])
                if rng.random() < 0.3:
                    kp = [[x if rng.random() < 0.7 else "G" for x in l] for l in kp]
                if rng.random() < 0.25:
                    pts, kp = [], []
                e.update(op="dispcmd", os=rng.choice(["", "", "out", "my.disp"]), dir=rng.choice(["", "", "sub/", "res/deep/"]), kps=pts, kp=kp,
                         st=rng.random() < 0.9, jo=rng.random() < 0.4, loud=rng.random() < 0.3)
                if not e["os"]:
                    e["dir"] = ""
            else:
                gst = rng.choices([["ferro"], ["spiral"], ["ferro", "spiral"], ["spiral", "ferro"]], weights=[4, 1, 0.7, 0.7])[0]
                if len(b.heap[0].magnetic_atoms) == 1 and rng.random() < 0.3:
                    gst, slow = rng.choice([["antiferro"], ["antiferro", "ferro"], ["all"], []]), True
                e.update(op="mincmd", os=rng.choice(["minim", "run1", "x.y"]), gst=gst,
                         mf=[] if rng.random() < 0.5 else [repr(rng.randint(1, 9) / 2) for _ in range(3)])
            b.do(e)
        b.do({"op": "look", "o": 1})
    finally:
        b.close()
    return b


def generate(profile, seed, length):
    if profile in ("disp", "min"):
        return commands(profile, seed, length)
    g = Gen(profile, seed)
    b, rng = g.b, g.rng
    try:
        if rng.random() < 0.9:
            b.do(g.event("setname" if rng.random() < 0.5 else "settuple"))
        for _ in range(rng.choice([0, 1, 3, 6, 14])):
            b.do(g.event("addx" if rng.random() < 0.7 else "addo"))
        if rng.random() < 0.4:
            b.do(g.event("setq"))
        if rng.random() < 0.4:
            b.do(g.event("setn"))
        n = len(b.events)
        while len(b.events) - n < length:
            b.do(g.event())
            if b.events[-1]["res"].startswith("state can not"):
                return b
        finish(b)
    finally:
        b.close()
    return b


def finish(b):
    """In the end everything that was stored is loaded."""
    for f in b.files():
        if f["k"] != "h5" and f["f"] in b.tb:
            b.do({"op": "loadtb", "o": 1, "f": f["f"], "via": "quiet"})
        elif f["k"] == "txt":
            b.do({"op": "loadt", "o": 1, "f": f["f"], "via": "txt"})
        else:
            for g in f["hams"]:
                b.do({"op": "loadh", "o": 1, "f": f["f"], "g": g, "via": "h5", "above": above(g)})
    for o in range(len(b.heap)):
        b.do({"op": "look", "o": o + 1})


def answer(job):
    if "gen" in job:
        return generate(job["gen"], job["seed"], job["len"]).trace(1)
    s = job["script"]
    b = StoreBench(s["A"], s["cell"], s["atoms"], False)
    try:
        for e in s["events"]:
            b.do({k: v for k, v in e.items() if k not in ("res", "val", "obs", "params", "xobs", "sha", "fs") and (k != "lines" or e["op"] == "puttb")})
        finish(b)
    finally:
        b.close()
    return b.trace(1)


if __name__ == "__main__":
    serve(answer)
