"""Call the real solve_via_colpa."""
import random
import numpy as np
from util import num, vec, kind, frac, serve
from magnopy.magnons.diagonalization import solve_via_colpa

cx = lambda z: [num(complex(z).real), num(complex(z).imag)]


def call(D, arg):
    keep = np.array(arg, copy=True)
    e = {"op": "colpa", "D": [[cx(z) for z in r] for r in D], "E": [], "G": []}
    try:
        E, G = solve_via_colpa(arg)
        e["res"] = "ok"
        E, G = np.array(E), np.array(G)
        # complex type with zero imaginary parts is a real number
        if np.any(np.abs(np.imag(E)) > 1e-12 * np.max(np.abs(E))):
            e["res"] = "complex values"
        e["E"], e["G"] = vec(np.real(E)), [[cx(z) for z in r] for r in G]
    except Exception as x:
        e["res"] = kind(x)
    e["kept"] = bool(np.array_equal(keep, np.array(arg)))
    return e


def generate(seed):
    rng = np.random.default_rng([7, seed])
    N = int(rng.choice([1, 1, 2, 2, 3, 4, 5], p=[.1, .1, .2, .2, .2, .1, .1]))
    kindm = rng.choice(["any", "real", "int", "degenerate", "magnon", "diag", "negative", "indefinite", "tiny"])
    X = rng.normal(size=(2 * N, 2 * N)) + 1j * rng.normal(size=(2 * N, 2 * N))
    I = np.eye(2 * N)
    D = X @ X.conj().T + rng.choice([0.05, 0.5, 3]) * I
    if kindm == "real":
        D = np.real(D)
    elif kindm == "int":
        Y = rng.integers(-3, 4, size=(2 * N, 2 * N))
        D = Y @ Y.T + int(rng.integers(1, 4)) * np.eye(2 * N, dtype=int)
    elif kindm in ("degenerate", "magnon"):
        A, B = D[:N, :N], X[:N, N:]
        B = 0.1 * (B + B.T)
        if rng.random() < 0.5 or kindm == "degenerate":
            A = A[0, 0].real * np.eye(N)
        if kindm == "degenerate":
            B = 0.3 * A if rng.random() < 0.5 else 0 * A
        D = np.block([[A, B], [B.conj().T, A.conj()]])
        w = np.linalg.eigvalsh(D)[0]
        if w < 0.1:
            D = D + (0.2 - w) * I
    elif kindm == "diag":
        D = np.diag(rng.choice([1.0, 2.0, 2.5, 0.25], size=2 * N)).astype(rng.choice([float, complex]))
    elif kindm == "negative":
        D = -D
    elif kindm == "indefinite":
        D = D - (rng.choice([1e-5, 1e-4, 0.01, 0.3]) + np.linalg.eigvalsh(D)[0]) * I
    elif kindm == "tiny":
        D = D * rng.choice([1e-6, 1e-3, 1e4])
    if kindm != "int":
        D = (D + D.conj().T) / 2
    arg = D
    if rng.random() < 0.2:
        arg = D.tolist()
    elif rng.random() < 0.2:
        arg = np.asfortranarray(D)
    return call(D, arg)


def answer(job):
    if "gen" in job:
        ev = [generate(s) for s in job["gen"]]
    else:
        ev = []
        for t in job["cases"]:
            D = np.array([[complex(frac(z[0]), frac(z[1])) for z in r] for r in t["D"]])
            if job.get("real") and not D.imag.any():
                D = D.real
            e = call(D, D.copy())
            e["D"] = t["D"]
            if t["pos"]:
                e["exp"] = t["exp"]
            ev.append(e)
    return {"id": job["id"], "events": ev}


if __name__ == "__main__":
    serve(answer)
