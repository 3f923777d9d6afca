"""Give hdf5 files to the real loader."""
import os, random, tempfile, shutil, hashlib, logging, warnings
import numpy as np
import h5py
from util import kind, serve
from hamx import observe
import h5gen
from magnopy.io import load_spinham_hdf5

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")


def arr(v, r):
    a = np.array(v, dtype=float)
    # whole numbers may be stored as integers
    return a.astype(int) if r.random() < 0.2 and (a == a.astype(int)).all() and np.abs(a).max() < 1e6 else a


def sc(v, r):
    return arr(v, r)[()]


def write(f, T, r):
    g = f.create_group(r[1])
    g.attrs["type"] = r[2]
    r = r[0]
    c = g.create_group("cell")
    c.attrs["units"] = T["cell"]["units"]
    for k in range(3):
        c["a%d" % (k + 1)] = arr(T["cell"]["v"][k], r)
    a = g.create_group("atoms")
    for x in T["atoms"]:
        y = a.create_group(str(x["key"]))
        y["name"] = x["name"] if r.random() < 0.8 else np.bytes_(x["name"])
        y["position"], y["spin"], y["g-factor"] = arr(x["position"], r), arr(x["spin"], r), sc(x["g"], r)
        if "charge" in x:
            y["charge"] = sc(x["charge"], r)
        if r.random() < 0.1:
            y["orbital-moment"], y["total-moment"] = [0.0, 1.0, 2.0], [1.0, 0.0, 0.5]
    if "notation" in T:
        n = g.create_group("notation")
        b = (lambda s: s == "true") if r.random() < 0.5 else (lambda s: int(s == "true"))
        n["spin-normalized"] = b(T["notation"]["sn"])
        if "exchange" in T:
            n["double-counting"], n["exchange-factor"] = b(T["notation"]["dc"]), sc(T["notation"]["ef"], r)
        if "onsite" in T:
            n["on-site-factor"] = sc(T["notation"]["of"], r)
    if "exchange" in T:
        x = g.create_group("exchange")
        x.attrs["units"] = T["exchange"]["units"]
        for i in T["exchange"]["items"]:
            y = x.create_group(str(i["key"]))
            y["atom-1"], y["atom-2"], y["ijk"], y["matrix"] = i["a"], i["b"], i["ijk"], arr(i["matrix"], r)
    if "onsite" in T:
        x = g.create_group("on-site")
        x.attrs["units"] = T["onsite"]["units"]
        for i in T["onsite"]["items"]:
            y = x.create_group(str(i["key"]))
            y["atom"], y["matrix"] = i["a"], arr(i["matrix"], r)
    for n, p in (("spiral", "spiral-vector"), ("cone", "cone-axis")):
        if n in T:
            g[p] = arr(T[n]["v"], r)
            g[p].attrs["units"] = T[n]["units"]
    if r.random() < 0.1:
        g["comment"] = "made by other program"
    for p in T["drop"]:
        if "@" in p:
            x, k = p.split("@")
            del g[x].attrs[k]
        elif p in g:
            del g[p]


def load(T, seed):
    r = random.Random(seed)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "model.hdf5")
        name = r.choice(["spinham", "x", "data/one"])
        with h5py.File(f, "w", track_order=r.random() < 0.3) as o:
            write(o, T, (r, name, h5gen.case(r, "SpinHamiltonian")))
        h = lambda: hashlib.sha256(open(f, "rb").read()).hexdigest()
        before = h()
        e = {"op": "h5", "tree": T, "seed": seed}
        try:
            m = load_spinham_hdf5(f, groupname=name) if r.random() < 0.5 else load_spinham_hdf5(f)
            e["res"] = "ok"
        except Exception as x:
            e["res"], m = kind(x), None
        e["modified"] = h() != before
        if m is not None:
            try:
                e["obs"] = observe(m)
            except Exception as x:
                e["res"] = "state can not be read: " + kind(x)
        return e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def answer(job):
    if "trees" in job:
        return {"id": 1, "events": [load(t, k) for k, t in job["trees"]]}
    return {"id": 1, "events": [load(h5gen.make(s), s) for s in job["seeds"]]}


if __name__ == "__main__":
    serve(answer)
