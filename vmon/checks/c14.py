"""A strain value depends on its own frequency only, not on the rest of the grid."""
import numpy as np
from .. import models as mo

PROP = "C14"
RULE = ("a case is one binary of one model and one pair of frequency grids sharing some frequencies (permuted, reversed, half replaced, repeated, "
        "split in the middle, single frequencies, the same frequencies inside grids of 2 to 131073 points, grids running beyond the model's end); distinct by (model, change, strata)")
ASSUME = ["double precision; the strain at a shared frequency may differ by rounding (1e-9 of its modulus)"]
PARTS = ["D", "X", "P", "T+T2", "N+N2+NT", "Xl"]
LONG = dict(D=(2, 3, 65, 1000, 4097, 130000), X=(3, 33000), P=(2, 63, 1001, 4096, 131073), T=(2, 257, 5000, 131072), T2=(10000,), N=(2, 100, 1025, 20000, 131072), N2=(5000,), NT=(20001,))
NEED = {"values compared": 12000, "models": 8, "single frequencies": 40, "grids of other lengths": 80}
COUNT = dict(D=80, X=40, P=80, T=60, T2=60, N=80, N2=40, NT=40)
HOW = ("permute", "reverse", "half high", "half low", "half anywhere", "beyond", "repeat", "interleave", "shift neighbours", "single")


def cases(ctx):
    rng = np.random.default_rng([14, ctx.seed])
    for name, n in COUNT.items():
        for i in range(n if ctx.quick else 30 * n):
            c = mo.case(rng, name, top=0.24)
            c["how"] = HOW[i % len(HOW)]
            c["seed"] = int(rng.integers(2 ** 31))
            c["first"] = i == 0
            yield c
    # the 64 frequencies anywhere in a grid of another length (long ones as in data analysis)
    for rep in range(1 if ctx.quick else 30):
        for name, ns in LONG.items():
            for n in ns:
                for i in range(2 if name == "X" else 4):
                    yield dict(mo.case(rng, name, top=0.24), how="length", n=n, seed=int(rng.integers(2 ** 31)), first=False, part="Xl" if name == "X" else name)


def second(rng, f, how, end):
    """(grid, positions in the new grid, positions in f)"""
    n = len(f)
    i = np.arange(n)
    if how == "permute":
        j = rng.permutation(n)
        return f[j], i, j
    if how == "reverse":
        return f[::-1].copy(), i, i[::-1]
    if how == "repeat":
        j = np.sort(rng.integers(0, n, n))
        return f[j], i, j
    keep = np.sort(rng.permutation(n)[: n // 2])
    g = f.copy()
    other = np.setdiff1d(i, keep)
    k = len(other)
    if how == "half high":
        g[other] = rng.uniform(0.3, 1.0, k) * end
    elif how == "half low":
        g[other] = rng.uniform(0.3, 1.0, k) * f.min()
    elif how == "half anywhere":
        g[other] = np.exp(rng.uniform(np.log(f.min() / 2), np.log(end), k))
    elif how == "beyond":
        g[other] = rng.uniform(1.0, 5.0, k) * end
    elif how == "interleave":
        g[other] = f[other] * (1 + 1e-7 * rng.normal(size=k))
    else:
        g[other] = f[other] * rng.uniform(0.9, 1.1, k)
    return g, keep, keep


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    m = mo.MODELS[c["model"]]
    p, f, fr = c["p"], mo.grid_of(c), c["fref"]
    if c["first"]:
        ctx.ev("models")
    M = (p["m1"] + p["m2"]) * mo.GT
    end = (m.fcut or 0.2) / M
    th = m.theta(p)
    P, X = m.jit(f, th, fr)
    det = dict(model=m.name, change=c["how"])
    ctx.sig(m.name, c["how"], *c["strata"])
    if c["how"] == "single":
        j = int(rng.integers(len(f)))
        g, a, b = f[j:j + 1], np.array([0]), np.array([j])
        ctx.ev("single frequencies")
    elif c["how"] == "length":
        k = min(c["n"], 64)
        b = rng.permutation(64)[:k]
        a = np.sort(rng.permutation(c["n"])[:k])
        if c["n"] > 64:  # ends of the array and of its powers-of-two pieces included
            a[:4] = [0, c["n"] - 1, c["n"] // 2, 1 << (c["n"].bit_length() - 2)]
            a = np.unique(a)
            b = b[:len(a)]
        g = np.exp(np.sort(rng.uniform(np.log(f.min() / 2), np.log(end), c["n"])))
        g[a] = f[b]
        ctx.ev("grids of other lengths")
    else:
        g, a, b = second(rng, f, c["how"], end)
    Q, Y = m.jit(g, th, fr)
    if not ctx.ok(Q.shape == g.shape and Y.shape == g.shape, "one value per frequency", det):
        return
    A = np.abs(P) + np.abs(X)
    use = A[b] > 0
    ctx.ev("values compared", len(a))
    S = np.where(use, A[b], 1.0)
    tol = 1e-9
    ctx.close(np.where(use, Q[a] / S, Q[a] != 0), np.where(use, P[b] / S, 0), tol, "plus depends on its own frequency only", det)
    ctx.close(np.where(use, Y[a] / S, Y[a] != 0), np.where(use, X[b] / S, 0), tol, "cross depends on its own frequency only", det)
