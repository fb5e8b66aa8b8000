"""Detector noise curves."""
import os

import jax
import jax.numpy as jnp
import numpy as np
from ripplegw import noise
from .. import core

PROP = "C04"
RULE = ("a case is one noise curve x one family of frequencies (table knots, their floating-point neighbours, interval interiors, band edges, "
        "outside, random) x one calling convention; distinct by that triple, non-trivial when some value is finite or must be inf")
ASSUME = ["the frequency/ASD (PSD) tables distributed with the package are the intended curves; an independent copy is kept in data/psd.npz",
          "at a knot whose right neighbour is infinite either the knot value or inf is accepted"]
NEED = {"values compared": 60000, "values beyond the band": 1000, "curves": 7}

TABLES = dict(aLIGO=("aLIGO", True), ce=("ce", True), et=("et", True), aLIGOZeroDetHighPower=("aLIGOZeroDetHighPower", False),
              O3a=("O3a_Livingston_ASD", True), O2=("O2_ASD", True))
DATA = np.load(os.path.join(core.ROOT, "data", "psd.npz"))
FAM = ("knots", "knots+-", "interiors", "random", "edges", "outside", "huge", "near-knots", "uniform grid")
HOW = ("array", "jit", "vmap", "scalar", "python", "2d", "inside jit", "numpy", "strided", "reversed", "one-element", "integers", "float32", "3d", "long", "empty")


def table(name):
    x, y = DATA[TABLES[name][0]]
    y = y ** 2 if TABLES[name][1] else y.copy()
    y[y == 0] = np.inf
    return x.copy(), y


def cases(ctx):
    rng = np.random.default_rng([4, ctx.seed])
    for rep in range(1 if ctx.quick else 20):
        for name in list(TABLES) + ["LIGOI"]:
            x = table(name)[0] if name != "LIGOI" else np.geomspace(40.0, 1e4, 400)
            for fam in FAM:
                for how in HOW:
                    if how == "float32" and (name == "LIGOI" or fam == "huge"):
                        continue  # (single-precision arithmetic: see C20)
                    if how == "long" and fam not in ("random", "uniform grid", "knots"):
                        continue
                    yield dict(name=name, fam=fam, how=how, seed=int(rng.integers(2 ** 31)), n=1000 if ctx.quick else 4000)


def freqs(c, x):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    a, b = x[0], x[-1]
    j = r.integers(0, len(x) - 1, n)
    if c["fam"] == "knots":
        f = x if c["how"] in ("array", "jit") else x[j]
    elif c["fam"] == "knots+-":
        f = np.nextafter(x[j], r.choice([-np.inf, np.inf], n))
    elif c["fam"] == "interiors":
        f = x[j] + (x[j + 1] - x[j]) * r.uniform(0, 1, n)
    elif c["fam"] == "random":
        f = np.exp(r.uniform(np.log(a), np.log(b), n))
    elif c["fam"] == "uniform grid":
        f = np.linspace(a * r.uniform(0.3, 3), b * r.uniform(.3, 1.5), n)
    elif c["fam"] == "edges":
        f = np.array([a, b, np.nextafter(a, 0), np.nextafter(b, np.inf), np.nextafter(a, np.inf), np.nextafter(b, 0), a * (1 + 1e-9), b * (1 - 1e-9)])
    elif c["fam"] == "outside":
        f = np.concatenate([a * r.uniform(0, 1 - 1e-9, n // 2), b * (1 + 10 ** r.uniform(-9, 3, n // 2))])
    elif c["fam"] == "huge":
        f = np.array([0.0, -1.0, -a, 1e-300, 1e300, np.inf, -np.inf, -0.0])
    else:
        f = x[j] * (1 + r.choice([-1, 1], n) * 10 ** r.uniform(-14, -4, n))
    return np.asarray(f, float)


def evaluate(fn, f, how):
    if how == "array":
        return f, fn(jnp.array(f))
    if how == "jit":
        return f, jax.jit(lambda v: fn(v))(f)
    if how == "inside jit":
        return f, jax.jit(lambda v: fn(jnp.exp(jnp.log(jnp.array(2.0))) * v) * 1.0)(f / 2)
    if how == "vmap":
        return f, jax.vmap(fn)(jnp.array(f))
    if how == "scalar":
        f = f[:25]
        return f, np.array([fn(jnp.array(v)) for v in f])
    if how == "python":
        f = f[:25]
        f = f[(f > 1e-3) & (f < 1e9)]  # (0.0 ** -56 raises in Python itself)
        return f, np.array([fn(float(v)) for v in f])
    if how == "2d":
        f = f[: len(f) // 2 * 2]
        return f, np.asarray(fn(jnp.array(f).reshape(2, -1))).reshape(-1)
    if how == "numpy":
        return f, fn(f)
    if how == "integers":
        f = np.clip(np.round(np.where(np.isfinite(f), f, 0)), -2 ** 31, 2 ** 31)
        return f, fn(f.astype(np.int64))
    if how == "float32":
        g = f.astype(np.float32)
        return g.astype(float), fn(g)
    if how == "3d":
        f = f[: len(f) // 4 * 4]
        return f, np.asarray(fn(jnp.array(f).reshape(2, -1, 2))).reshape(-1)
    if how == "long":
        g = np.resize(f, 150001)
        return g, fn(jnp.array(g))
    if how == "empty":
        return f[:0], fn(jnp.array(f[:0]))
    if how == "strided":
        g = np.repeat(f, 2)
        return f, fn(g[::2])
    if how == "reversed":
        return f, np.asarray(fn(f[::-1]))[::-1]
    f = f[:25]
    return f, np.array([np.asarray(fn(jnp.array([v])))[0] for v in f])


def ligo1(f):
    with np.errstate(all="ignore"):
        x = f / 150.0
        return np.where(f > 40.0, 9e-46 * ((4.49 * x) ** -56.0 + 0.16 * x ** -4.52 + 0.52 + 0.32 * x * x), np.inf)


def run(ctx, c):
    name = c["name"]
    fn, rng_attr = getattr(noise, "Sn_" + name), getattr(noise, "f_range_" + name)
    det = dict(curve=name, family=c["fam"], how=c["how"])
    x, y = table(name) if name != "LIGOI" else (np.geomspace(40.0, 1e4, 400), None)
    f = freqs(c, x)
    if c["how"] in ("jit", "inside jit"):
        # exact same floating-point values inside and outside; halving/doubling is exact
        f = np.where(np.abs(f) < 1e-290, 0.0, f)
        f = np.where(np.abs(f) > 1e290, np.sign(f) * 1e290, f) if c["how"] == "inside jit" else f
    f, got = evaluate(fn, f, c["how"])
    got = np.asarray(got)
    if c["fam"] == "edges" and c["how"] == "array":
        ctx.ev("curves")
        r = [float(v) for v in rng_attr]
        ctx.ok(len(r) == 2 and r[0] == (x[0] if name != "LIGOI" else 40.0) and r[1] == (x[-1] if name != "LIGOI" else 1e4),
               "advertised frequency range = the table's", dict(det, range=r))
    ctx.sig(name, c["fam"], c["how"])
    if not ctx.ok(got.shape == f.shape, "one value per frequency", dict(det, shape=got.shape)):
        return
    ctx.ev("values compared", len(f))
    ctx.ok(not np.any(np.isnan(got)), "never NaN", dict(det, f=f[np.isnan(got)][:3]))
    ctx.ok(np.all(got > 0), "positive", dict(det, f=f[~(got > 0)][:3]))
    if name == "LIGOI":
        want = ligo1(f)
        m = np.isfinite(want) & (want < 1e300)
        ctx.ok(np.all(got[f <= 40.0] == np.inf), "inf at and below 40 Hz", det)
        ctx.close(got[m] / want[m], np.ones(m.sum()), 1e-9, "LIGO-I = published formula", det)
        ctx.ev("values beyond the band", (f <= 40).sum())
        return
    out = (f < x[0]) | (f > x[-1])
    ctx.ev("values beyond the band", out.sum())
    ctx.ok(np.all(got[out] == np.inf), "inf outside the table", dict(det, f=f[out & (got != np.inf)][:3]))
    f, got = f[~out], got[~out]
    if not len(f):
        return
    j = np.clip(np.searchsorted(x, f, side="right") - 1, 0, len(x) - 2)
    y0, y1 = y[j], y[j + 1]
    d01 = np.where(np.isfinite(y0) & np.isfinite(y1), y1, 0) - np.where(np.isfinite(y0) & np.isfinite(y1), y0, 0)
    fin = np.isfinite(y0) & np.isfinite(y1)
    w = (f - x[j]) / (x[j + 1] - x[j])
    with np.errstate(all="ignore"):
        want = np.where(fin, y0 + d01 * w, np.inf)
    # knots next to an infinite sample
    edge = ~fin & (((f == x[j]) & np.isfinite(y0)) | ((f == x[j + 1]) & np.isfinite(y1)))
    knot = np.where(f == x[j + 1], y1, y0)
    ctx.ev("values next to infinite samples", (~fin).sum())
    with np.errstate(invalid="ignore"):
        ctx.ok(np.all((got[edge] == np.inf) | (np.abs(got[edge] / np.where(np.isfinite(knot[edge]), knot[edge], 1) - 1) < 1e-12)), "knot beside an infinite sample", det)
    m = ~edge
    ctx.ok(np.all((got[m] == np.inf) == (want[m] == np.inf)), "inf exactly where a neighbouring sample is", det)
    m &= np.isfinite(want)
    # rounding: floor set by the larger neighbour
    tol = 1e-12 * np.maximum(y0, y1)[m] / want[m] + 1e-12
    tol = tol + 8e-16 * f[m] / (x[j + 1] - x[j])[m] * np.abs(d01)[m] / want[m]
    ctx.close(got[m] / want[m], np.ones(m.sum()), tol, "value = linear interpolation of the table", det)
    if c["fam"] == "knots":
        ctx.ev("table knots read back", len(f))
