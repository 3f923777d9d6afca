"""Execute operations on the real SpinHamiltonian and observe the public state.

Job {"script": {...}}: run a given list of operations.
Job {"gen": profile, "seed": n, "len": k}: generate operations with hamgen.
Job {"tr": transition exported by TLC}: build the state, apply the operation.
The answer is a trace for HamTrace (or the verdict of the replay)."""
import sys, copy, os, io, tempfile, contextlib
import numpy as np
from util import num, vec, mat, kind, frac, serve
import magnopy
from magnopy import SpinHamiltonian, MatrixParameter
from magnopy.exceptions import NotationError
from magnopy import Energy, MagnonDispersion
from magnopy import io as mio
from wulfric import Atom, Crystal

COMP = {"dc": "double_counting", "sn": "spin_normalized", "ef": "exchange_factor", "of": "on_site_factor"}


def fullname(a):
    return "%s__%d" % (a.name, a.index)


def tree():
    """Content of all files of the current folder."""
    import h5py
    r = {}
    for p, _, fs in os.walk("."):
        for f in fs:
            f = os.path.join(p, f)
            if f.endswith(".hdf5"):
                r[f] = []
                with h5py.File(f) as F:
                    F.visititems(lambda n, o: r[f].append((n, repr(o[()]) if hasattr(o, "shape") else "", sorted((k, repr(v)) for k, v in o.attrs.items()))))
            else:
                r[f] = open(f, "rb").read()
    return r


def make_atom(r):
    k = {}
    if "g" in r:
        k["g_factor"] = frac(r["g"])
    if "q" in r:
        k["charge"] = frac(r["q"])
    return Atom(r["name"], position=[frac(x) for x in r["pos"]], spin=[frac(x) for x in r["spinv"]], index=r["idx"], **k)


def param(J):
    return MatrixParameter(**kwargs(J))


def kwargs(J):
    k = {}
    if "matrix" in J:
        k["matrix"] = [[frac(x) for x in r] for r in J["matrix"]]
    if "iso" in J:
        k["iso"] = frac(J["iso"])
    if "dmi" in J:
        k["dmi"] = [frac(x) for x in J["dmi"]]
    if "aniso" in J:
        k["aniso"] = [[frac(x) for x in r] for r in J["aniso"]]
    return k


def pred(p):
    if p is None or p["k"] == "any":
        return None
    v = frac(p["v"]) if "v" in p else None
    return {
        "iso_ge": lambda J: J.iso >= v,
        "xx_gt": lambda J: J.xx > v,
        "xy_le": lambda J: J.xy <= v,
        "dmi_lt": lambda J: float(np.dot(J.dmi, J.dmi)) < v,
        "none": lambda J: False,
    }[p["k"]]


def adata(atoms):
    r = []
    for a in atoms:
        try:
            q = num(a.charge)
        except ValueError:
            q = "undef"
        r.append({"pos": vec(a.position), "spinv": vec(a.spin_vector), "g": num(a.g_factor), "q": q})
    return r


def observe(h):
    s = {"cell": mat(h.cell), "adata": adata(h.atoms)}
    for c, attr in COMP.items():
        try:
            v = getattr(h, attr)
            if c in ("dc", "sn"):
                s[c] = "true" if v else "false"
                if not isinstance(v, (bool, np.bool_)):
                    s[c] = repr(v)
            else:
                s[c] = num(v)
        except NotationError:
            s[c] = "undef"
    s["atoms"] = [fullname(a) for a in h.atoms]
    # one iterator is read while another one of the same kind is in use
    it = h.exchange
    s["nex"] = len(it)
    s["ex"] = [[fullname(a), fullname(b), [int(x) for x in R], mat(J.matrix)] for _, (a, b, R, J) in zip(h.exchange, it)]
    it = h.on_site
    s["non"] = len(it)
    s["on"] = [[fullname(a), mat(J.matrix)] for _, (a, J) in zip(h.on_site, it)]
    try:
        it = h.exchange_like
        s["nlike"] = len(it)
        s["like"] = [[fullname(a), fullname(b), [int(x) for x in R], mat(J.matrix)] for _, (a, b, R, J) in zip(h.exchange_like, it)]
        s["like_res"] = "ok"
    except NotationError:
        s["like_res"], s["like"], s["nlike"] = "NotationError", [], 0
    s["mag"] = [fullname(a) for a in h.magnetic_atoms]
    s["I"] = int(h.I)
    s["q"] = [] if h.spiral_vector is None else vec(h.spiral_vector)
    s["n"] = [] if h.cone_axis is None else vec(h.cone_axis)
    return s


class Bench:
    """Objects of one trace and execution of events on them."""

    def __init__(self, A, cell, atoms, observe_all=False):
        self.A = {r["id"]: r for r in A}
        self.obj = {r["id"]: make_atom(r) for r in A}
        self.header = {"A": A, "cell": cell, "atoms": atoms}
        h = SpinHamiltonian(cell=[[frac(x) for x in r] for r in cell])
        for a in atoms:
            h.add_atom(self.obj[a])
        self.heap, self.aux = [h], []
        # reciprocal cells at the time when the objects for energies were made
        self.rec = {}
        self.shared, self.sharedJ = {}, {}
        self.events = []
        self.observe_all = observe_all

    def ref(self, r):
        return self.obj[r["id"]] if r["k"] == "obj" else r["id"]

    def value(self, e):
        """A parameter object, possibly shared between several events."""
        if "pid" in e:
            if e["pid"] not in self.shared:
                self.shared[e["pid"]] = param(e["J"])
                self.sharedJ[e["pid"]] = e["J"]
            return self.shared[e["pid"]]
        return param(e["J"])

    def apply(self, e):
        h = self.heap[e["o"] - 1]
        op, via = e["op"], e.get("via")
        if op == "addx":
            k = (self.ref(e["a"]), self.ref(e["b"]), tuple(e["R"]))
            if via == "item":
                h[k] = self.value(e)
            elif via == "kwargs":
                h.add_exchange(*k, **kwargs(e["J"]))
            else:
                h.add_exchange(*k, self.value(e))
        elif op == "addx_bad":
            h.add_exchange(self.ref(e["a"]), self.ref(e["b"]), tuple(e["R"]), matrix=[[1, 2], [3, 4]])
        elif op == "addo":
            if via == "item":
                h[self.ref(e["a"])] = self.value(e)
            elif via == "kwargs":
                h.add_on_site(self.ref(e["a"]), **kwargs(e["J"]))
            else:
                h.add_on_site(self.ref(e["a"]), self.value(e))
        elif op == "delx":
            k = (self.ref(e["a"]), self.ref(e["b"]), tuple(e["R"]))
            if via == "item":
                del h[k]
            elif e["strict"]:
                h.remove_exchange(*k)
            else:
                h.remove_exchange(*k, raise_if_no_bond=False)
        elif op == "delo":
            if via == "item":
                del h[self.ref(e["a"])]
            elif e["strict"]:
                h.remove_on_site(self.ref(e["a"]))
            else:
                h.remove_on_site(self.ref(e["a"]), raise_if_no_bond=False)
        elif op == "hasx":
            return "true" if (self.ref(e["a"]), self.ref(e["b"]), tuple(e["R"])) in h else "false"
        elif op == "haso":
            return "true" if self.ref(e["a"]) in h else "false"
        elif op == "getx":
            return mat(h[self.ref(e["a"]), self.ref(e["b"]), tuple(e["R"])].matrix)
        elif op == "geto":
            return mat(h[self.ref(e["a"])].matrix)
        elif op == "badkey":
            key = [(1, 2), 5, (self.obj[e["a"]["id"]],), ("a", "b", (0, 0, 0), 1)][e["v"] % 4]
            if via == "get":
                h[key]
            elif via == "set":
                h[key] = MatrixParameter(iso=1)
            elif via == "del":
                del h[key]
            else:
                key in h
        elif op == "adda":
            h.add_atom(self.obj[e["a"]["id"]])
        elif op == "dela":
            h.remove_atom(self.ref(e["a"]))
        elif op in ("setdc", "setsn"):
            setattr(h, COMP[op[3:]], {"true": True, "false": False}[e["v"]])
        elif op in ("setef", "setof"):
            setattr(h, COMP[op[3:]], frac(e["v"]))
        elif op == "setname":
            h.notation = e["spelling"]
        elif op == "settuple":
            t = [x == "true" if i < 2 else frac(x) for i, x in enumerate(e["v"])]
            h.notation = tuple(t) if via != "list" else t
        elif op == "setbad":
            h.notation = [None, 5, 1.5, True][e["v"] % 4]
        elif op == "read":
            v = getattr(h, COMP[e["v"]])
            return ("true" if v else "false") if e["v"] in ("dc", "sn") else num(v)
        elif op == "readall":
            n = h.notation
            return ["true" if n[0] else "false", "true" if n[1] else "false", num(n[2]), num(n[3])]
        elif op in ("filter", "filtered"):
            k = {}
            if e["lo"] != "undef":
                k["min_distance"] = frac(e["lo"])
            if e["hi"] != "undef":
                k["max_distance"] = frac(e["hi"])
            if pred(e.get("p")) is not None:
                k["custom_filter"] = pred(e.get("p"))
            if op == "filter":
                h.filter(**k)
            else:
                self.heap.append(h.filtered(**k))
        elif op == "copy":
            self.heap.append(h.copy())
        elif op == "init":
            v = e["v"]
            v = None if not v else e["spelling"] if len(v) == 1 else tuple(x == "true" if i < 2 else frac(x) for i, x in enumerate(v))
            k = {} if v is None and via != "none" else {"notation": v}
            if via == "kwargs":
                k.update(cell=np.array(h.cell), atoms=copy.deepcopy(h.atoms))
            else:
                k["crystal"] = h.crystal
            self.heap.append(SpinHamiltonian(**k))
        elif op == "setq":
            h.spiral_vector = [frac(x) for x in e["v"]]
        elif op == "setn":
            h.cone_axis = [frac(x) for x in e["v"]]
        elif op == "look":
            pass
        elif op == "fail":
            self.fail(h, e)
        elif op == "setspin":
            a = h.get_atom(e["a"]["id"])
            a.spin_vector = [frac(x) for x in e["v"]]
        elif op == "setcell":
            h.cell = [[frac(x) for x in r] for r in e["v"]]
        elif op == "setpos":
            h.get_atom(e["a"]["id"]).position = [frac(x) for x in e["v"]]
        elif op == "setg":
            h.get_atom(e["a"]["id"]).g_factor = frac(e["v"])
        elif op == "std":
            try:
                e["S"] = [[num(round(float(x), 6)) for x in r] for r in h.S_matrix]
            except Exception:
                e["S"] = []
            h.standardize()
        elif op == "shift":
            g = [frac(x) for x in e["v"]]
            if via == "absolute":
                h.shift_atoms([sum(g[i] * float(h.cell[i][k]) for i in range(3)) for k in range(3)], relative=False)
            else:
                h.shift_atoms(g)
        elif op == "cure":
            h.cure_negative()
        elif op == "energy":
            e["ids"] = [fullname(a) for a in h.magnetic_atoms]
            self.aux.append(Energy(h))
            self.rec[len(self.aux)] = h.reciprocal_cell.copy()
        elif op == "disp":
            e["ids"] = [fullname(a) for a in h.magnetic_atoms]
            self.aux.append(MagnonDispersion(h))
        elif op == "crystal":
            self.aux.append(h.crystal)
        elif op in ("eferro", "eafm", "espiral", "efield", "egs", "espins", "eopt", "efail"):
            return self.energy(self.aux[e["x"] - 1], e)
        elif op in ("dh", "domega", "domegas"):
            return self.dispersion(self.aux[e["x"] - 1], e)
        elif op == "crymut":
            c = self.aux[e["x"] - 1]
            if e["v"] == "remove":
                c.remove_atom(c.get_atom(e["a"]))
            elif e["v"] == "spin":
                c.get_atom(e["a"]).spin_vector = [frac(x) for x in e["w"]]
            elif e["v"] == "move":
                c.get_atom(e["a"]).position = [frac(x) for x in e["w"]]
        else:
            raise RuntimeError("harness: unknown operation " + op)
        return None

    def fail(self, h, e):
        """A call that can not be done."""
        t, what = e["t"], e["what"]
        of = lambda *l: l[t % len(l)]
        e["files"] = "same"
        if what in ("filter raises", "filtered raises"):
            terms = [p.matrix for *_, p in h.exchange] + [p.matrix for _, p in h.on_site]
            M = terms[t % len(terms)] if terms else None

            def user(p):
                if np.array_equal(p.matrix, M) or np.array_equal(p.matrix, M.T):
                    raise ZeroDivisionError("user")
                return t % 2 == 1
            (h.filter if what == "filter raises" else h.filtered)(custom_filter=user)
        elif what == "filter length":
            h.filter(max_distance=of("far", [1, 2, 3], {}))
        elif what == "cell":
            h.cell = of([[1, 0], [0, 1]], [1, 2, 3], "cell")
        elif what == "spiral":
            h.spiral_vector = of("abc", [[1, 2], [3, 4]], [1, 2], 5)
        elif what == "cone":
            h.cone_axis = of("abc", [0, 0, 0], [1, 2], [[1, 0], [0, 1]])
        elif what == "factor":
            setattr(h, of("exchange_factor", "on_site_factor"), of("x", "x", None, None, [1, 2], [1, 2]))
        elif what == "notation":
            h.notation = of((True, False, "x"), (False, True, 1, "x"), [True, False, None], (False, False, 2, [1, 2]),
                            (True,), "none", (True, True, -1, None), [False, True, "y", 1])
        elif what == "bond":
            a, b = self.ref(e["a"]), self.ref(e["b"])
            k = t % 8
            if k < 4:
                h.add_exchange(a, b, tuple(e["R"]), **of({"matrix": [[1, 2], [3, 4]]}, {"dmi": [1, 2]}, {"no": 1}, {"aniso": [[1]]}))
            else:
                h.add_exchange(a, b, of(None, (1, 0), "abc", (1, 0, 0, 0)), iso=1)
        elif what == "site":
            h.add_on_site(self.ref(e["a"]), **of({"matrix": [[1, 2], [3, 4]]}, {"dmi": [1, 2]}, {"no": 1}, {"aniso": [[1]]}))
        elif what == "atom":
            if t % 2 == 0 and h.atoms:
                h.add_atom(h.atoms[t % len(h.atoms)])
            else:
                h.remove_atom(of(Atom("Zz", (0, 0, 0), index=99), "Zz"))
        else:
            self.fail_files(h, e, t, what)

    def fail_files(self, h, e, t, what):
        """A file that can not be written or read, in a scratch folder."""
        g = SpinHamiltonian(notation="tb2j", cell=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        a = Atom("Fe", (0, 0, 0), spin=(0, 0, 1))
        g.add_atom(a)
        g.add_on_site("Fe", iso=1)
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                mio.dump_spinham_txt(g, "m.txt")
                mio.dump_spinham_hdf5(g, "m.hdf5")
                mio.dump_spinham_hdf5(g, "m.hdf5", "a/b")
                mio.dump_vampire(g, "v")
                before = tree()
                try:
                    k = t % 8
                    if what == "store again":
                        mio.dump_spinham_hdf5(h, "m.hdf5", "a/b" if t % 2 else "spinham")
                    elif what == "load":
                        if k == 0:
                            mio.load_spinham_txt("no.txt")
                        elif k == 1:
                            mio.load_spinham_hdf5("no.hdf5")
                        elif k == 2:
                            mio.load_spinham_hdf5("m.hdf5", "no")
                        elif k == 3:
                            mio.load_tb2j("no.out")
                        elif k == 4:
                            mio.load_spinham_hdf5("m.txt")
                        elif k == 5:
                            mio.load_spinham_txt("v.UCF")
                        elif k == 6:
                            mio.load_spinham_hdf5("m.hdf5", "a")
                        else:
                            mio.load_spinham("no.txt")
                    else:
                        p = "no/" if what == "no folder" else ""
                        if what == "export" or k == 7 and p:
                            mio.dump_vampire(h, p + "v", dmi=k % 2 == 0)
                        elif k in (0, 7):
                            mio.dump_spinham_txt(h, p + "m.txt")
                        elif k == 1:
                            mio.dump_spinham_txt(h, p + "new.txt")
                        elif k == 2:
                            mio.dump_spinham_hdf5(h, p + "m.hdf5", overwrite=True)
                        elif k == 3:
                            mio.dump_spinham_hdf5(h, p + "m.hdf5", "a/c")
                        elif k == 4:
                            mio.dump_spinham_hdf5(h, p + "m.hdf5", "a/b", overwrite=True)
                        else:
                            mio.dump_spinham_hdf5(h, p + "new.hdf5")
                finally:
                    if tree() != before:
                        e["files"] = "changed"
            finally:
                os.chdir(old)

    def energy(self, E, e):
        op = e["op"]
        fl = lambda l: [[frac(x) for x in r] for r in l]
        if op == "efield":
            E.magnetic_field = None if len(e["v"]) == 0 else [frac(x) for x in e["v"]]
            return None
        if op == "egs":
            E.g_factors = [frac(x) for x in e["v"]]
            return None
        if op == "espins":
            E.spins = [frac(x) for x in e["v"]]
            return None
        if op == "efail":
            n, t = len(E.spins), e["t"]
            if t < 4:
                setattr(E, "g_factors" if t < 2 else "spins", ([1.5] * (n - 1) + ["x"]) if t % 2 else 5)
            elif t < 7:
                E.magnetic_field = [[1, 2], "abc", [1, "x", 2]][t - 4]
            elif t < 10:
                setattr(E, ["m", "wolfe_c1", "wolfe_c2"][t - 7], "x")
            elif t < 13:
                d = [[0, 0, 1]] * n
                d[-1] = [0, "x", 1]
                if t == 10:
                    E.ferro(d)
                else:
                    (E.antiferro if t == 11 else E.spiral)(d, [0, 0, 1], [0, 0, 0])
            elif t < 16:
                E.optimize(["none", "3", "Ferro-magnet"][t - 13])
            else:
                d, v = [[0, 0, 1]] * n, [0, 0, 1]
                [lambda: E.ferro("abc"), lambda: E.antiferro(d, "abc", v), lambda: E.antiferro(d, v, "abc"), lambda: E.spiral(d, "abc", v),
                 lambda: E.spiral(d, v, "abc"), lambda: E.spiral("abc", v, v), lambda: E.optimize("ferro", initial_guess="abc"),
                 lambda: E.optimize("antiferro", initial_guess=(d,)), lambda: E.optimize("antiferro", initial_guess=(d, "abc")),
                 lambda: E.optimize("antiferro", initial_guess=(d, [1, 2])),
                 lambda: E.optimize("antiferro", antiferro_q="abc"), lambda: E.optimize("antiferro", antiferro_q=[1, 2]),
                 lambda: E.optimize("spiral", initial_guess=(d, v)), lambda: E.optimize("spiral", initial_guess=(d, "abc", v)),
                 lambda: E.optimize("spiral", initial_guess=(d, [1, 2], v)), lambda: E.optimize("spiral", initial_guess=(d, v, "abc")),
                 lambda: E.optimize("spiral", initial_guess=(d, v, [1, 2])), lambda: E.antiferro("abc", v, v)][t - 16]()
            return None
        if op == "eopt":
            return self.optimize(E, e)
        d = fl(e["e"])
        if e.get("flat") and len(d) == 1:
            d = d[0]
        if e.get("via") == "array":
            d = np.array(d)
        keep = copy.deepcopy(d)
        if op == "eferro":
            v = E.ferro(d)
        else:
            n, q = [frac(x) for x in e["n"]], [frac(x) for x in e["q"]]
            v = (E.antiferro if op == "eafm" else E.spiral)(d, n, q)
        if not np.array_equal(np.array(keep, dtype=object), np.array(d, dtype=object)):
            return "argument is modified"
        return num(v)

    def optimize(self, E, e):
        """One minimisation in a scratch folder (it may write files)."""
        vv = lambda l: [frac(x) for x in l]
        k = {}
        kind = e["kind"]
        if e["e"]:
            g = [[vv(r) for r in e["e"]]]
            if e.get("flat") and len(g[0]) == 1:
                g[0] = g[0][0]
            if e.get("via") == "array":
                g[0] = np.array(g[0])
            if kind != "ferro":
                g.append(vv(e["n"]))
            if kind == "spiral":
                g.append(vv(e["q"]))
            keep = copy.deepcopy(g)
            k["initial_guess"] = g[0] if kind == "ferro" else tuple(g)
        if kind == "antiferro":
            k["antiferro_q"] = vv(e["q"])
        if e["tol"]:
            k["tolerance"] = tuple(vv(e["tol"]))
        if e["maxit"] >= 0:
            k["max_iterations"] = e["maxit"]
        for a, b in e.get("set", {}).items():
            setattr(E, a, frac(b))
        np.random.seed(e["rnd"])
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                if e["rnd"] % 3 == 0:
                    # history of another minimisation
                    with open("history", "w") as f:
                        f.write("Energy Torque\n1.0 2.0")
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    if e["hist"] != "none":
                        k["save_history"] = True
                        if e["hist"] == "file":
                            k["history_filename"] = "history"
                        if e["step"] > 0:
                            k["history_step"] = e["step"]
                    r = E.optimize(int(e["case"]) if e["case"].lstrip("-").isdigit() else e["case"], **k)
                text = open("history").read() if e["hist"] == "file" else out.getvalue()
            finally:
                os.chdir(old)
        if e["e"] and not all(np.array_equal(a, b) for a, b in zip(keep, g)):
            return {"len": 0, "what": "argument is modified"}
        if any(getattr(E, a) != frac(b) for a, b in e.get("set", {}).items()):
            return {"len": 0, "what": "settings are not kept"}
        v = {"len": len(r), "e": [vec(x) for x in r[0]], "n": vec(r[1]) if len(r) > 1 else [],
             "q": vec(r[2]) if len(r) > 2 else [], "rows": [], "nrows": 0}
        if e["hist"] != "none":
            n = len(E.spins)
            nt = 1 if kind == "ferro" else 2
            rows = [l.split() for l in text.strip().split("\n")[1:]]
            v["nrows"] = len(rows)
            keep = sorted(set([0, 1, len(rows) - 2, len(rows) - 1] + [len(rows) * i // 5 for i in range(5)]))
            for i in keep:
                if not 0 <= i < len(rows):
                    continue
                r = [num(float(x)) for x in rows[i]]
                w = 1 + nt + 3 * n + (0 if kind == "ferro" else 6)
                v["rows"].append({"i": i + 1, "width": len(r) - w, "E": r[0], "t": r[1:1 + nt],
                                  "e": [r[1 + nt + 3 * j:4 + nt + 3 * j] for j in range(n)],
                                  "n": r[-6:-3] if kind != "ferro" else [], "q": r[-3:] if kind != "ferro" else []})
            v["Es"] = [r[0] for r in rows]
        return v

    def dispersion(self, D, e):
        cx = lambda z: [num(complex(z).real), num(complex(z).imag)]
        if e["op"] == "domegas":
            ks = [[frac(x) for x in k] for k in e["kps"]]
            zn = bool(e.get("none"))
            W = (D if e.get("via") == "call" else D.omegas)(ks, zeros_to_none=zn)
            return {"W": [vec(r) for r in W], "ws": [vec(D.omega(k, zeros_to_none=zn)) for k in ks]}
        k = [frac(x) for x in e["kp"]]
        r = {"u": [[cx(z) for z in u] for u in D.u], "v": [vec(np.real(v)) for v in D.v]}
        if e["op"] == "dh":
            r["h"] = [[cx(z) for z in row] for row in D.h(k)]
            if e.get("parts"):
                r["J"] = [[[[cx(z) for z in row] for row in m] for m in l] for l in D.J(k)]
                r["A"], r["B"], r["C"] = [[[cx(z) for z in row] for row in m] for m in (D.A(k), D.B(k), D.C())]
        else:
            o = {"zeros_to_none": True} if e.get("none") else {}
            E, G = D.omega(k, return_G=True, **o)
            r["E"], r["G"] = vec(E), [[cx(z) for z in row] for row in G]
            if e.get("im"):
                w = D.omega(k, return_imaginary=True, **o)
                r["w"], r["im"] = vec(np.real(w)), vec(np.imag(w))
            else:
                w = D.omega(k, **o)
                if np.iscomplexobj(w) or np.iscomplexobj(E):
                    r["E"] = []
                r["w"] = vec(w)
        return r

    def do(self, e):
        e = dict(e)
        n, m = len(self.heap), len(self.aux)
        try:
            v = self.apply(e)
            e["res"] = "ok"
            if v is not None:
                e["val"] = v
        except Exception as x:
            if isinstance(x, RuntimeError) and "harness:" in str(x):
                raise
            e["res"] = kind(x)
            del self.heap[n:]
            del self.aux[m:]
        which = range(1, len(self.heap) + 1) if self.observe_all else {e["o"], len(self.heap)} if len(self.heap) > n else {e["o"]}
        e["obs"] = []
        try:
            for o in sorted(which):
                e["obs"].append({"o": o, "s": observe(self.heap[o - 1])})
        except Exception as x:
            e["obs"] = []
            e["res"] = "state can not be read: " + kind(x)
        e["xobs"] = [{"x": k + 1, "s": {"atoms": [fullname(a) for a in x.atoms], "adata": adata(x.atoms), "cell": mat(x.cell)}}
                     for k, x in enumerate(self.aux) if self.observe_all and isinstance(x, Crystal)]
        e["xobs"] += [{"x": k + 1, "s": {"S": vec(x.spins), "g": vec(x.g_factors), "H": [] if x.magnetic_field is None else vec(x.magnetic_field)}}
                      for k, x in enumerate(self.aux) if self.observe_all and isinstance(x, Energy)]
        e["params"] = [{"J": self.sharedJ[p], "M": mat(self.shared[p].matrix)} for p in sorted(self.shared)]
        self.events.append(e)
        return e

    def trace(self, tid):
        return {"id": tid, **self.header, "events": self.events}


# ---------------------------------------------------------------- replay
def close(a, b, tol=1e-9):
    a, b = frac(a), frac(b)
    return abs(a - b) <= tol * (1 + abs(b))


def mclose(a, b):
    return all(close(a[i][j], b[i][j]) for i in range(3) for j in range(3))


def compare(h, s):
    """Expected state h (exported by TLC) against observation s; name of the difference or None."""
    for c in ("dc", "sn"):
        if s[c] != h[c]:
            return COMP[c]
    for c in ("ef", "of"):
        if (s[c] == "undef") != (h[c] == "undef") or (h[c] != "undef" and not close(s[c], h[c])):
            return COMP[c]
    if s["atoms"] != h["atoms"]:
        return "atoms"
    ex = {(a, b, tuple(R)): J for a, b, R, J in h["ex"]}
    if sorted((a, b, tuple(R)) for a, b, R, J in s["ex"]) != sorted(ex):
        return "bonds"
    for a, b, R, J in s["ex"]:
        if not mclose(J, ex[a, b, tuple(R)]):
            return "exchange value"
    on = {a: J for a, J in h["on"]}
    if sorted(a for a, J in s["on"]) != sorted(on):
        return "on-site atoms"
    for a, J in s["on"]:
        if not mclose(J, on[a]):
            return "on-site value"
    return None


def build(t):
    """The Hamiltonian of a state exported by TLC."""
    pre = t["pre"]
    b = Bench(t["A"], t["cell"], pre["atoms"])
    h = b.heap[0]
    if pre["dc"] == "false":
        # bonds that are added without double counting are stored as they are
        h.double_counting = False
    for a1, a2, R, J in pre["ex"]:
        h.add_exchange(b.obj[a1], b.obj[a2], tuple(R), matrix=[[frac(x) for x in r] for r in J])
    for a, J in pre["on"]:
        h.add_on_site(b.obj[a], matrix=[[frac(x) for x in r] for r in J])
    for c in ("dc", "sn"):
        if pre[c] != "undef" and (c, pre[c]) != ("dc", "false"):
            setattr(h, COMP[c], pre[c] == "true")
    for c in ("ef", "of"):
        if pre[c] != "undef":
            setattr(h, COMP[c], frac(pre[c]))
    return b


def replay_energy(t):
    """Energy or spin-wave matrix of a case exported by TLC."""
    try:
        h = build(t).heap[0]
        if t["op"] == "lswt":
            D = MagnonDispersion(h)
            got = D.h([frac(x) for x in t["k"]])
            cx = lambda z: complex(frac(z[0]), frac(z[1]))
            exp = np.array([[cx(z) for z in r] for r in t["val"]])
            # frames may differ by a phase
            z = [np.vdot([cx(y) for y in u], D.u[i]) / 2 for i, u in enumerate(t["u"])]
            if not np.allclose(np.abs(z), 1):
                return {"bad": "local frames", "t": t}
            P = np.diag(list(z) + list(np.conj(z)))
            if got.shape != exp.shape or not np.allclose(got, P @ exp @ P.conj().T, atol=1e-9):
                return {"bad": "spin-wave matrix", "t": t}
            return {}
        E = Energy(h)
        if t["H"]:
            E.magnetic_field = [frac(x) for x in t["H"]]
        d = [[frac(x) for x in r] for r in t["e"]]
        if t["op"] == "ferro":
            v = E.ferro(d)
        else:
            q = sum(n * b for n, b in zip(t["N"], h.reciprocal_cell)) / 2
            v = E.antiferro(d, [frac(x) for x in t["n"]], q)
    except Exception as x:
        return {"bad": "raises " + repr(x), "t": t}
    if not close(num(v) if np.isfinite(v) else "1e300", t["val"], 1e-9):
        return {"bad": "energy %r, expected %s" % (v, t["val"]), "t": t}
    return {}


def replay(t):
    """Transition exported by TLC: build the state before it through the public
    interface, apply the operation, compare with the state after it."""
    pre, post, e = t["pre"], t["post"], t["ev"]
    try:
        b = build(t)
        h = b.heap[0]
        d = compare(pre, observe(h))
    except Exception as x:
        return {"bad": "building the state raises " + repr(x), "t": t}
    if d:
        return {"bad": "state before: " + d, "t": t}
    e = b.do({**e, "o": 1})
    if not (e["res"] == t["res"] or t["res"] == "any" or (t["res"] == "error" and e["res"] != "ok")):
        return {"bad": "outcome: expected %s got %s" % (t["res"], e["res"]), "t": t}
    if t["res"] == "ok" and "val" in e:
        v, x = e["val"], t["val"]
        if isinstance(v, str):
            good = v == x if v in ("true", "false") or x in ("true", "false") else close(v, x)
        elif len(v) == 3:
            good = mclose(v, x)
        else:
            good = v[:2] == x[:2] and close(v[2], x[2]) and close(v[3], x[3])
        if not good:
            return {"bad": "returned value", "t": t}
    if not e["obs"]:
        return {"bad": e["res"], "t": t}
    d = compare(post, e["obs"][0]["s"])
    if d:
        return {"bad": "state after: " + d, "t": t}
    return {}


def answer(job):
    if "tr" in job:
        r = []
        for t in job["tr"]:
            x = replay(t)
            if x:
                r.append(x)
        return {"n": len(job["tr"]), "bad": r[:5]}
    if "en" in job:
        r = [x for x in map(replay_energy, job["en"]) if x]
        return {"n": len(job["en"]), "bad": r[:5]}
    if "gen" in job:
        import hamgen
        b = hamgen.generate(job["gen"], job["seed"], job["len"])
        return b.trace(job["id"])
    s = job["script"]
    b = Bench(s["A"], s["cell"], s["atoms"], s.get("all", False))
    for e in s["events"]:
        b.do({k: v for k, v in e.items() if k not in ("res", "val", "obs", "params", "xobs", "ids")})
    return b.trace(s.get("id", 1))


if __name__ == "__main__":
    serve(answer)
