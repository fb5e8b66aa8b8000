"""Workload of the inner-product and match checks: strains, noise and frequency grids."""
import jax.numpy as jnp
import numpy as np
from ripplegw.waveforms import IMRPhenomD

from . import models as mo


def pool(seed, size, kmax):
    """A limited number of (label, k0, k1): every new shape costs a compilation."""
    rng = np.random.default_rng([99, seed])
    out = []
    for i in range(size):
        if i in (4, 9):  # as long as in data analysis, a power of two or not
            k0 = int(rng.integers(20, 200))
            out.append(("very long", k0, k0 + (16384 if i == 4 else int(rng.integers(20000, 60000))) - 1))
            continue
        s = ("zero", "one", "low", "mid", "high", "short", "long")[i % 7]
        k0, n = {"zero": (0, rng.integers(8, 600)), "one": (1, rng.integers(8, 600)), "low": (rng.integers(2, 30), rng.integers(8, 600)),
                 "mid": (rng.integers(30, 400), rng.integers(2, 600)), "high": (rng.integers(400, kmax), rng.integers(2, 300)),
                 "short": (rng.integers(1, 60), rng.integers(2, 5)), "long": (rng.integers(10, 200), rng.integers(kmax, 2 * kmax))}[s]
        out.append((s, int(k0), max(int(k0 + n - 1), 2)))
    return out


def spacing(rng):
    return float(mo.pick(rng, 1.0, 0.5, 0.25, 1 / 16, 1 / 128, 2.0, 0.1, 0.3, 1 / 3, 0.05, 0.7, 1 / 7, 10 ** rng.uniform(-2, 1)))


def frequencies(k0, k1, df, how):
    k = np.arange(k0, k1 + 1)
    if how == "k*df":
        return k * df
    if how == "linspace":
        return np.linspace(k0 * df, k1 * df, len(k))
    return k0 * df + (k - k0) * df  # accumulated start


def noise(rng, f):
    """(label, one-sided PSD): realistic magnitudes, with lines, steps and infinite bins."""
    s = mo.pick(rng, "white", "power", "infs", "lines", "tiny", "unit")
    x = np.maximum(f, 1e-3) / 100
    S = {"white": np.full(len(f), 1e-46), "power": 1e-46 * (x ** -4.14 + 2 + x * x), "tiny": 1e-50 * (1 + x), "unit": 1 + x,
         "infs": 1e-46 * (1 + x * x), "lines": 1e-46 * 10 ** rng.uniform(0, 4, len(f))}[s]
    if s == "infs" and len(f) > 4:
        S = S.copy()
        S[: rng.integers(1, len(f) // 2 + 1)] = np.inf
        S[rng.random(len(f)) < 0.1] = np.inf
        S[-1] = 1e-46
    return s, S


def strain(rng, f, kind=None):
    s = kind or mo.pick(rng, "random", "chirp", "chirp", "real", "sparse", "phenomd")
    n = len(f)
    sc = 10 ** rng.uniform(-25, -20)
    if s == "random":
        h = sc * (rng.normal(size=n) + 1j * rng.normal(size=n))
    elif s == "real":
        h = sc * rng.normal(size=n) + 0j
    elif s == "sparse":
        h = np.zeros(n, complex)
        h[rng.integers(0, n, 3)] = sc * np.exp(1j * rng.uniform(0, 7, 3))
        h[-1] = sc
    elif s == "chirp":
        x = np.maximum(f, 0.1) / 100
        h = sc * x ** (-7 / 6) * np.exp(1j * (rng.uniform(-5, 50) * x ** (-5 / 3) + rng.uniform(-9, 9) + 2 * np.pi * f * rng.uniform(-1, 1)))
    else:
        M = 10 ** rng.uniform(0.8, 1.9)
        th = np.array([M * .4, rng.uniform(.1, .2499), *rng.uniform(-.9, .9, 2), 400., 0., 0., 0.])
        g = np.maximum(f, 1.0)
        h = np.asarray(IMRPhenomD.gen_IMRPhenomD_hphc(jnp.array(g), jnp.array(th), 20.)[0])
        h = np.where(f > 0, h, 0)
        if not np.any(h):
            h = h + sc
    return s, h
