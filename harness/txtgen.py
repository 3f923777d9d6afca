"""Random text model files: a description is written in one of the many admitted ways."""
import random


def case(rng, w):
    k = rng.random()
    return w if k < 0.4 else w.lower() if k < 0.6 else w.upper() if k < 0.75 else "".join(
        x.upper() if rng.random() < 0.5 else x.lower() for x in w)


def number(rng, lim=4.0, positive=False, small=True):
    """A decimal in some spelling."""
    x = rng.choice([rng.randint(-int(lim), int(lim)), round(rng.uniform(-lim, lim), rng.randint(1, 5)),
                    rng.randint(-8 * int(lim), 8 * int(lim)) / 8])
    if positive:
        x = abs(x) or 1
    k = rng.random()
    if k < 0.1 and small:
        return "%.3e" % (x * 10 ** rng.randint(-4, 2))
    if k < 0.15:
        return "%de-1" % (int(x) or 1) if not positive else "%dE0" % (abs(int(x)) or 1)
    if k < 0.2 and x >= 0 and str(x)[0] != "-":
        return "+%s" % x
    if k < 0.25 and 0 < x < 1:
        return ("%.3f" % x).lstrip("0") if float("%.3f" % x) > 0 else "1."
    if k < 0.3:
        return "%d." % (int(x) or 1) if not positive else "%d." % (abs(int(x)) or 1)
    if k < 0.4:
        return "%.8f" % x if not positive or x > 1e-8 else "1.0"
    return str(x)


NAMES = ["Fe", "Cr", "Mn", "A", "B", "Cr1", "Fe2", "X1", "1a", "O-2", "Ni_a", "cr", "Co*", "2", "x", "name", "m1", "Iso"]


class File:
    def __init__(self, rng):
        self.rng = rng
        n = rng.choice([1, 1, 2, 2, 3, 4, 11])
        self.names = rng.sample(NAMES, n) if n < 10 else ["Cr%d" % k for k in range(1, n + 1)]

    def words(self, l):
        return rng_join(self.rng, l)

    def head(self, kw, units):
        r = self.rng
        w = [case(r, kw)]
        if units and r.random() < 0.65:
            u = r.choice(units)
            w.append(case(r, r.choice([u, u, u[0], u[:3]])))
        return self.words(w)

    def cell(self):
        r = self.rng
        c = [list(x) for x in r.choice([
            [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[3, 0, 0], [0, 4, 0], [0, 0, 12]], [[2, 0, 0], [1, 2, 0], [0, 0, 5]],
            [[4, 0.5, 0], [0, 3, 0.25], [1, 1, 6]], [[2, 2, 0], [0, 2, 2], [2, 0, 2]], [[0, 3, 0], [2.5, 0, 0], [0, 0, 7]],
            [[3.56, 0, 0], [0, 4.745, 0], [0, 0, 16.2]]])]
        out = [self.head("Cell", ["Angstrom", "Bohr"])]
        k = r.random()
        if k < 0.2:
            out.append(number(r, 3, positive=True, small=False))
        elif k < 0.4:
            out.append(self.words([number(r, 3, positive=True, small=False) for _ in range(3)]))
        elif k < 0.5:
            out.append("-" + number(r, 3, positive=True, small=False).lstrip("+"))
        return out + [self.words([r.choice([str(x), "%.4f" % x]) for x in v]) for v in c]

    def vector_columns(self, x):
        r = self.rng
        xyz, full = [x + "x", x + "y", x + "z"], [x, x + "p", x + "t"]
        return r.choice([[], [x], xyz, full, [x] + xyz, full + xyz])

    def atoms(self):
        r = self.rng
        cols = ["name"] + r.choice([["r1", "r2", "r3"], ["r1", "r2", "r3"], ["x", "y", "z"], ["r1", "r2", "r3", "x", "y", "z"]])
        cols += self.vector_columns("s") if r.random() < 0.85 else []
        if r.random() < 0.15:
            cols += self.vector_columns("l")
        if r.random() < 0.15:
            cols += self.vector_columns("j")
        if r.random() < 0.5:
            cols.append("g")
        if r.random() < 0.4:
            cols.append("q")
        if r.random() < 0.15:
            cols.append(r.choice(["foo", "magmom", "type", "w", "g1", "qq"]))
        if r.random() < 0.6:
            r.shuffle(cols)
        rel = "r1" in cols
        out = [self.head("Atoms", ["Angstrom", "Bohr", "Relative"]), self.words([case(r, c) for c in cols])]
        for nm in self.names:
            row = []
            for c in cols:
                if c == "name":
                    row.append(nm)
                elif c in ("r1", "r2", "r3"):
                    row.append(number(r, 1))
                elif c in ("x", "y", "z"):
                    row.append("-" if rel and r.random() < 0.1 else number(r, 5))
                elif c in ("st", "lt", "jt", "sp", "lp", "jp"):
                    row.append("-" if r.random() < 0.05 else r.choice(["0", "30", "45.5", "90", "180", "270", "-60", "12.345"]))
                elif c == "s":
                    row.append("-" if r.random() < 0.05 else number(r, 3, positive=r.random() < 0.9, small=False))
                else:
                    row.append("-" if r.random() < 0.1 else number(r, 3))
            out.append(self.words(row))
        return out

    def notation(self, need_ex, need_on):
        r = self.rng
        keys = set()
        if need_ex:
            keys |= {"d", "s", "e"}
        if need_on:
            keys |= {"s", "o"}
        for k in "dseo":
            if r.random() < 0.5:
                keys.add(k)
        if r.random() < 0.1:
            keys.add(r.choice(["x", "f"]))
        spell = {"d": ["Double-counting", "d", "double", "Dc"], "s": ["Spin-normalized", "s", "spin", "Sn"],
                 "e": ["Exchange-factor", "e", "exch"], "o": ["On-site-factor", "o", "onsite"], "x": ["xfactor"], "f": ["foo"]}
        keys = sorted(keys)
        r.shuffle(keys)
        out = [case(r, "Notation")]
        for k in keys:
            v = (case(r, r.choice(["true", "t", "yes", "y", "1", "false", "f", "no", "n", "0"])) if k in "ds"
                 else r.choice(["1", "-1", "0.5", "-0.5", "2", "1e0", "-2.5", "0.25", "+3"]))
            out.append(self.words([case(r, r.choice(spell[k])), v]))
        return out

    def value(self):
        """A value of energy; Joule is a huge unit."""
        x = number(self.rng)
        return "%.5e" % (float(x) * 1e-22) if self.joule else x

    def energy_head(self, kw):
        l = self.head(kw, ["milli-electron-Volt", "meV", "eV", "electron-volt", "Joule", "Kelvin", "Rydberg"])
        self.joule = len(l.split()) == 2 and l.split()[1][0] in "jJ"
        return l

    def bond(self):
        r = self.rng
        R = [r.randint(-2, 2) for _ in range(3)]
        if r.random() < 0.08:
            R = [r.choice([0, 10, -12, 3]) for _ in range(3)]
        a, b = r.choice(self.names), r.choice(self.names)
        if (a, b, tuple(R)) in self.used or (r.random() < 0.8 and (b, a, tuple(-x for x in R)) in self.used):
            return None
        self.used.add((a, b, tuple(R)))
        head = self.words([a, b] + [("+%d" % x if x > 0 and r.random() < 0.05 else str(x)) for x in R])
        parts = []
        k = r.random()
        if k < 0.55:
            parts.append([case(r, r.choice(["Matrix", "m", "mat"]))] +
                         [self.words([self.value() for _ in range(3)]) for _ in range(3)])
        if r.random() < (0.25 if parts else 0.6):
            parts.append([self.words([case(r, r.choice(["Isotropic", "i", "iso"])), self.value()])])
        if r.random() < (0.25 if parts else 0.6):
            parts.append([self.words([case(r, r.choice(["DMI", "d", "Dm"]))] + [self.value() for _ in range(3)])])
        if r.random() < 0.25 or not parts:
            parts.append([self.words([case(r, r.choice(["Symmetric-anisotropy", "s", "symm"]))] + [self.value() for _ in range(5)])])
        r.shuffle(parts)
        return [head] + [l for p in parts for l in p]

    def sub(self, must):
        r = self.rng
        if must or r.random() < 0.6:
            return ["-" * r.choice([10, 10, 11, 20, 80])] * r.choice([1, 1, 1, 2])
        return []

    def exchange(self):
        r = self.rng
        self.used = set()
        out = [self.energy_head("Exchange")]
        bonds = [b for b in (self.bond() for _ in range(r.choice([1, 1, 2, 3, 5, 12]))) if b]
        out += self.sub(False)
        for k, b in enumerate(bonds):
            out += b + self.sub(k + 1 < len(bonds))
        return out

    def on_site(self):
        r = self.rng
        out = [self.energy_head("On-site")]
        l = r.sample(self.names, r.randint(1, len(self.names)))
        out += self.sub(False)
        for a in l:
            out += [a, self.words([self.value() for _ in range(6)])] + self.sub(False)
        return out

    def lines(self):
        r = self.rng
        ex, on = r.random() < 0.75, r.random() < 0.5
        secs = [self.cell(), self.atoms()]
        if ex or on or r.random() < 0.3:
            secs.append(self.notation(ex, on))
        if ex:
            secs.append(self.exchange())
        if on:
            secs.append(self.on_site())
        if r.random() < 0.35:
            k = r.random()
            v = [r.choice(["0", "30", "90", "135", "-45.5", "12.25"]) for _ in range(2)] if k < 0.4 else [number(r, 2) for _ in range(3)]
            if len(v) == 3 and all(float(x) == 0 for x in v):
                v[r.randrange(3)] = "1"
            secs.append([self.head("Cone-axis", ["Absolute", "Relative"]), self.words(v)])
        if r.random() < 0.35:
            secs.append([self.head("Spiral-vector", ["Absolute", "Relative"]), self.words([number(r, 1) for _ in range(3)])])
        while r.random() < 0.12:
            secs.append([r.choice(["Comment", "Parameters", "Foo bar 1 2 3", "cells"]), "some text 1 2 3", "- - -"][:r.randint(1, 3)])
        if r.random() < 0.5:
            r.shuffle(secs)
        sep = lambda: ["=" * r.choice([10, 10, 11, 30, 80])] * r.choice([1, 1, 1, 1, 2])
        out = sep() if r.random() < 0.6 else []
        for k, s in enumerate(secs):
            out += s + (sep() if k + 1 < len(secs) or r.random() < 0.6 else [])
        res = []
        for l in out:
            if r.random() < 0.06:
                res.append(r.choice(["", "   ", "# comment", "  # ======== comment", "#Cell", "\t", "# Atoms 1 2 3"]))
            if r.random() < 0.15:
                l = r.choice([" ", "  ", "\t"]) + l
            if r.random() < 0.15:
                l = l + r.choice([" ", "   ", "\t", " # comment", "# 1 2 3", "  # <- a (first vector) # x"])
            res.append(l)
        return res


def rng_join(rng, l):
    return "".join(w + rng.choice([" ", " ", "  ", "    ", "\t"]) for w in l).rstrip() if rng.random() < 0.5 else " ".join(l)


GARBAGE = ["abc", "1.5.2", "-", "--", "1,5", "1e", "x1", "0", "1", "-1", "2.5", "e5", "1.0", "0x1", "==", "Fe", "name", "r1", "A", "1-",
           "----------", "==========", "=========", "---------", "#", "q", "__a", "b__", "*a", "0.0", "-0", "1d0", "true", "Cell", "atoms"]


def mutate(rng, lines):
    """One or two edits of a file."""
    lines = list(lines)
    for _ in range(rng.choice([1, 1, 1, 2])):
        idx = [k for k, l in enumerate(lines) if l.split("#")[0].strip()]
        if not idx:
            break
        k = rng.choice(idx)
        op = rng.choice(["del", "del", "dup", "swap", "deltok", "deltok", "duptok", "tok", "tok", "tok", "short", "delsec", "dupsec", "ins",
                         "comment", "move", "join", "swaptok", "value", "value"])
        if op == "value":
            # another value: zero, other sign; often in the section of the cell
            c = [i for i in idx if lines[i].strip().lower()[:4] == "cell"]
            if c and rng.random() < 0.6:
                k = rng.choice([i for i in idx if c[0] <= i <= c[0] + 3])
        w = lines[k].split("#")[0].split()
        if op == "del":
            del lines[k]
        elif op == "dup":
            lines.insert(rng.choice([k, rng.randrange(len(lines) + 1)]), lines[k])
        elif op == "swap":
            j = rng.choice(idx)
            lines[j], lines[k] = lines[k], lines[j]
        elif op == "move":
            l = lines.pop(k)
            lines.insert(rng.randrange(len(lines) + 1), l)
        elif op == "join":
            if k + 1 < len(lines):
                lines[k] = lines[k].split("#")[0] + " " + lines[k + 1]
                del lines[k + 1]
        elif op == "deltok":
            del w[rng.randrange(len(w))]
            lines[k] = " ".join(w)
        elif op == "duptok":
            j = rng.randrange(len(w))
            w.insert(j, w[j])
            lines[k] = " ".join(w)
        elif op == "swaptok":
            j, i = rng.randrange(len(w)), rng.randrange(len(w))
            w[i], w[j] = w[j], w[i]
            lines[k] = " ".join(w)
        elif op == "tok":
            w[rng.randrange(len(w))] = rng.choice(GARBAGE)
            lines[k] = " ".join(w)
        elif op == "value":
            n = [j for j, x in enumerate(w) if x.replace(".", "").replace("-", "").isdigit()]
            if n:
                j = rng.choice(n)
                w[j] = rng.choice(["0", "0.0", "-0.0", w[j][1:] if w[j][0] == "-" else "-" + w[j]])
                lines[k] = " ".join(w)
        elif op == "short":
            seps = [i for i in idx if lines[i].strip()[:10] in ("=" * 10, "-" * 10)]
            if seps:
                i = rng.choice(seps)
                lines[i] = lines[i].strip()[0] * rng.choice([1, 2, 5, 9])
        elif op == "ins":
            lines.insert(k, rng.choice(GARBAGE + ["1 2 3", "Isotropic 1", "Spin-normalized true", "1", "0 0 0"]))
        elif op == "comment":
            lines[k] = "#" + lines[k]
        else:
            seps = [-1] + [i for i in idx if lines[i].strip().startswith("=" * 10)] + [len(lines)]
            j = rng.randrange(len(seps) - 1)
            a, b = seps[j] + 1, seps[j + 1]
            if op == "delsec":
                del lines[a:b]
            else:
                lines += ["=" * 10] + lines[a:b]
    return lines


def make(kind, seed):
    rng = random.Random("%s-%s" % (kind, seed))
    l = File(rng).lines()
    if kind == "mutant" or (kind == "mix" and rng.random() < 0.7):
        l = mutate(rng, l)
    return l
