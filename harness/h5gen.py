"""Random hdf5 files in the documented layout (see Hdf5File.tla)."""
import random
from txtgen import NAMES, case

CELLS = [
    [[3, 0, 0], [0, 4, 0], [0, 0, 12]], [[2, 0, 0], [1, 2, 0], [0, 0, 5]], [[4, 0.5, 0], [0, 3, 0.25], [1, 1, 6]],
    [[2, 2, 0], [0, 2, 2], [2, 0, 2]], [[0, 3, 0], [2.5, 0, 0], [0, 0, 7]], [[3.56, 0, 0], [0, 4.745, 0], [0, 0, 16.2]],
    [[-3, 0.5, 0], [0, 3, 0], [0.25, 0, 4]],
]
EN = {"milli-electron-volt": 0, "electron-volt": -3, "joule": -22, "kelvin": 1, "rydberg": -4}


def number(r, e=0, lim=4):
    x = r.choice([float(r.randint(-lim, lim)), round(r.uniform(-lim, lim), 4), r.randint(-8 * lim, 8 * lim) / 8])
    return repr(x * 10.0 ** e) if e else repr(x)


def vec(r, e=0, nz=False):
    while True:
        v = [number(r, e) for _ in range(3)]
        if not nz or any(float(x) for x in v):
            return v


def matrix(r, e):
    k = r.random()
    if k < 0.1:
        return [["0.0"] * 3 for _ in range(3)]
    if k < 0.25:
        j = number(r, e)
        return [[j if a == b else "0.0" for b in range(3)] for a in range(3)]
    return [vec(r, e) for _ in range(3)]


def make(seed):
    r = random.Random(seed)
    n = r.choice([1, 1, 2, 2, 3, 4, 10, 12])
    names = r.sample(NAMES, n) if r.random() < 0.75 else [r.choice(["Fe", "Cr", "Mn"]) for _ in range(n)]
    atoms = []
    for k in range(n):
        a = {"key": k + 1, "name": names[k], "position": vec(r), "spin": vec(r) if r.random() < 0.9 else ["0.0"] * 3,
             "g": r.choice(["2.0", "1.9", "2.0023", "-1.0", "0.5"])}
        if r.random() < 0.5:
            a["charge"] = number(r)
        atoms.append(a)
    full = ["%s__%d" % (a, k + 1) for k, a in enumerate(names)]

    def ref():
        k = r.randrange(n)
        return full[k] if names.count(names[k]) > 1 or r.random() < 0.2 else names[k]

    t = {"cell": {"units": case(r, r.choice(["Angstrom", "Bohr"])), "v": [[repr(float(x)) for x in v] for v in r.choice(CELLS)]}, "atoms": atoms, "drop": []}
    ex, on = r.random() < 0.75, r.random() < 0.6
    if ex or on:
        t["notation"] = {"dc": r.choice(["true", "false"]), "sn": r.choice(["true", "false"]), "ef": r.choice(["1.0", "-1.0", "0.5", "-2.0", "3.25"]),
                         "of": r.choice(["1.0", "-1.0", "0.5", "2.5"])}
    if ex:
        u = r.choice(list(EN))
        m = r.choice([0, 1, 2, 3, 5, 11])
        t["exchange"] = {"units": case(r, u), "items": [
            {"key": k + 1, "a": ref(), "b": ref(), "ijk": [r.choice([0, 0, 0, 1, -1, 2, 13]) for _ in range(3)], "matrix": matrix(r, EN[u])} for k in range(m)]}
        if t["notation"]["dc"] == "true" and r.random() < 0.3:
            for b in list(t["exchange"]["items"])[:2]:
                # both directions of a bond
                t["exchange"]["items"].append({"key": len(t["exchange"]["items"]) + 1, "a": b["b"], "b": b["a"], "ijk": [-x for x in b["ijk"]], "matrix": matrix(r, EN[u])})
    if on:
        u = r.choice(list(EN))
        t["onsite"] = {"units": case(r, u), "items": []}
        for k in range(r.choice([0, 1, 2, n])):
            m = matrix(r, EN[u])
            m = [[m[min(a, b)][max(a, b)] for b in range(3)] for a in range(3)]
            t["onsite"]["items"].append({"key": k + 1, "a": ref(), "matrix": m})
    if r.random() < 0.5:
        t["spiral"] = {"units": case(r, r.choice(["Relative", "Absolute"])), "v": vec(r)}
    if r.random() < 0.5:
        t["cone"] = {"units": case(r, r.choice(["Relative", "Absolute"])), "v": vec(r, nz=True)}
    for f in ("exchange", "onsite"):
        if f in t:
            r.shuffle(t[f]["items"])
    r.shuffle(t["atoms"])
    if r.random() < 0.12:
        f = r.choice([x for x in ("cell", "exchange", "onsite", "spiral", "cone") if x in t])
        t[f]["units"] = r.choice(["", "nm", "relatively", "angle", "eV", "mev", "kelvins", "ry"])
    elif r.random() < 0.12:
        paths = ["cell/a%d" % r.randint(1, 3), "cell", "atoms", "cell@units", "atoms/%d/%s" % (r.randint(1, n), r.choice(["name", "position", "charge"]))]
        if ex or on:
            paths += ["notation", "notation/spin-normalized", "notation/double-counting", "notation/exchange-factor", "notation/on-site-factor"]
        if ex:
            paths.append("exchange@units")
        if on:
            paths.append("on-site@units")
        if ex and t["exchange"]["items"]:
            paths += ["exchange/%d/%s" % (r.randint(1, len(t["exchange"]["items"])), x) for x in ("atom-1", "atom-2", "ijk", "matrix")]
        if on and t["onsite"]["items"]:
            paths += ["on-site/1/" + x for x in ("atom", "matrix")]
        if "spiral" in t:
            paths.append("spiral-vector@units")
        if "cone" in t:
            paths.append("cone-axis@units")
        p = r.choice(paths)
        if not (("double-counting" in p or "exchange-factor" in p) and not ex) and not ("on-site-factor" in p and not on) \
                and not (p.endswith("charge") and not any("charge" in a and "/%d/" % a["key"] in p for a in t["atoms"])):
            t["drop"] = [p]
    elif r.random() < 0.1 and ex and t["exchange"]["items"]:
        t["exchange"]["items"][0][r.choice("ab")] = r.choice(["Zz", "", names[0] + "__7", names[0] + "__", names[0].swapcase() + "_"])
    return t
