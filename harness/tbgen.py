"""Random result files of TB2J (exchange.out): lines."""
import random

NAMES = ["Fe1", "Cr1", "Mn1", "Cr2", "I1", "O12", "Fe2", "Ni3", "X", "Cr10", "Te1"]


def num(rng, lim=20.0):
    k = rng.random()
    if k < 0.15:
        return "0." if rng.random() < 0.5 else "0.000"
    x = rng.uniform(-lim, lim)
    return "%.4f" % x if k < 0.6 else "%.3e" % (x * 10 ** rng.randint(-5, 0)) if k < 0.75 else "%.8f" % x if k < 0.9 else "%d." % x


def short(rng, names):
    """Distinct bonds, one of every mirrored pair."""
    n = rng.choice([0, 1, 2, 3, 4, 6]) if rng.random() < 0.9 else rng.choice([9, 12, 20, 70])
    out, seen = [], set()
    lim = rng.choice([1, 2, 12])
    for _ in range(n):
        a, b = rng.choice(names), rng.choice(names)
        R = tuple(rng.randint(-lim, lim) for _ in range(3))
        m = (b, a, tuple(-x for x in R))
        if (a, b, R) == m or (a, b, R) in seen or m in seen:
            continue
        seen.add((a, b, R))
        out.append((a, b, R))
    return out


def make(seed, spins=False):
    """spins: every atom has a magnetic moment."""
    rng = random.Random("tb2j-%s" % seed)
    L = []
    major, minor = "=" * 90, "-" * rng.choice([88, 88, 88, 90])
    if rng.random() < 0.9:
        L += [major, "Information: ", "Exchange parameters generated by TB2J 0.%d.%d." % (rng.randint(1, 9), rng.randint(0, 30))]
    L.append(major)
    L.append(rng.choice(["Cell (Angstrom):", "Cell (Angstrom): ", " Cell (Angstrom):"]))
    while True:
        s = rng.choice([3, 5, 14])
        cell = [[round(rng.uniform(-s, s), 4) if i == j or rng.random() < 0.4 else 0.0 for j in range(3)] for i in range(3)]
        det = sum(cell[0][i] * (cell[1][(i + 1) % 3] * cell[2][(i + 2) % 3] - cell[1][(i + 2) % 3] * cell[2][(i + 1) % 3]) for i in range(3))
        if abs(det) > 0.05 * s ** 3:
            break
    f = rng.choice(["%.3f", "%.4f", "%10.6f", "%s"])
    cell = [[f % x for x in r] for r in cell]
    L += [" " * rng.randint(0, 3) + "  ".join(r) + " " * rng.randint(0, 2) for r in cell]
    L += [""] * rng.randint(0, 2) + [major]
    L.append(rng.choice(["Atoms:  ", "Atoms:"]))
    L.append("(Note: charge and magmoms only count the wannier functions.)")
    L.append(" Atom_number   x         y        z      w_charge   M(x)    M(y)     M(z)")
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 5, len(NAMES)]))
    cols = 8 if spins else rng.choice([8, 8, 8, 8, 5, 4])
    for a in names:
        w = ["%.4f" % rng.uniform(-s / 2, s) for _ in range(3)]
        w.append("%.4f" % rng.uniform(-2, 6))
        k = rng.random()
        m = rng.choice([0.01, 1, 6])
        w += ["0.0000", "0.0000", "%.4f" % rng.choice([-3, 2.5, 1])] if k < 0.3 or spins and k > 0.8 else ["0.0", "0.0", "0.0"] if k > 0.9 else [
            "%.4f" % rng.uniform(-m, m) for _ in range(3)]
        if spins and not any(float(x) for x in w[4:]):
            w[6] = "1.0"
        L.append(a + "   " + "   ".join(w[:cols - 1]) + " " * rng.randint(0, 2))
    L.append("Total         " + "   ".join("%.4f" % rng.uniform(-9, 9) for _ in range(4)))
    L += [""] * rng.randint(0, 2) + [major]
    L.append(rng.choice(["Exchange: ", "Exchange:"]))
    L.append("    i      j          R        J_iso(meV)          vector          distance(A)")
    one = short(rng, names)
    blocks = []
    sided = rng.choice(["both", "both", "one", "some"])
    full = rng.random() < 0.5
    for a, b, R in one:
        iso, dmi = num(rng), [num(rng, 3) for _ in range(3)]
        d = [num(rng, 2) for _ in range(5)]
        tr = "%.9f" % -(float(d[0]) + float(d[1]))
        an = [[d[0], d[2], d[3]], [d[2], d[1], d[4]], [d[3], d[4], tr]]
        parts = {"iso", "dmi", "ani"} if full else {x for x in ("iso", "dmi", "ani") if rng.random() < 0.6} | {"iso"}
        if not full and rng.random() < 0.05:
            parts.discard("iso")
        if rng.random() < 0.1 and "iso" in parts:
            parts = {"iso"}
        neg = [x[1:] if x[0] == "-" else "-" + x for x in dmi]
        pair = [(a, b, R, dmi), (b, a, tuple(-x for x in R), neg)]
        if sided == "one" or sided == "some" and rng.random() < 0.5:
            pair = [rng.choice(pair)]
        for x, y, T, D in pair:
            body = []
            if "iso" in parts:
                body.append(["J_iso: %s " % iso if rng.random() < 0.9 else "J_iso:    " + iso])
            if "dmi" in parts:
                v = "( %s %s %s)" % tuple(D) if rng.random() < 0.5 else "(%s, %s, %s)" % tuple(D) if rng.random() < 0.5 else "[ %s  %s  %s ]" % tuple(D)
                body.append([rng.choice(["[Testing!] DMI: ", "DMI: "]) + v])
            if "ani" in parts:
                rows = ["[" + "  ".join(r) + "]" for r in an]
                rows = ["[" + rows[0], " " + rows[1], " " + rows[2] + "]"]
                body.append([rng.choice(["[Testing!] J_ani:", "J_ani: "])] + rows)
            if rng.random() < 0.3:
                body.append(["[Testing!] Jprime: %.3f,  B: %.3f" % (rng.uniform(-1, 1), rng.uniform(-1, 1))])
            if rng.random() < 0.3:
                rng.shuffle(body)
            head = "   %s   %s   (%3d, %3d, %3d) %s  ( %.3f,  %.3f,  %.3f)  %.3f" % (
                x, y, *T, iso if "iso" in parts else "0.0000", *(rng.uniform(-9, 9) for _ in range(3)), rng.uniform(1, 20))
            blocks.append([head] + [l for b_ in body for l in b_] + [""] * rng.randint(0, 2))
    if rng.random() < 0.7:
        rng.shuffle(blocks)
    for b in blocks:
        L += [minor] + b
    return L
