"""Sine-Gaussian burst."""
import jax
import jax.numpy as jnp
import lalinference as li
import numpy as np
from ripplegw.waveforms import SineGaussian as SG
from .. import models as mo

PROP = "C12"
RULE = ("a case is one burst (strata of quality, frequency, phase, eccentricity, amplitude) on one time grid, called eagerly, jitted or batched; "
        "distinct by the strata, non-trivial when hrss > 0 and the grid reaches the pulse")
ASSUME = ["references: the closed form evaluated in extended precision, lalinference.BurstSineGaussian on its own time grid, and the definition of "
          "hrss (integral of h+^2 + hx^2) by quadrature"]
NEED = {"samples compared": 20000, "energy integrals": 40, "compared with lalinference": 40}
LD = np.longdouble


def cases(ctx):
    rng = np.random.default_rng([12, ctx.seed])
    for i in range(600 if ctx.quick else 20000):
        sq = mo.pick(rng, "low", "mid", "high", "one")
        se = mo.pick(rng, "circ", "lin", "gen", "near1", "near0")
        sp = mo.pick(rng, "0", "quarter", "half", "neg", "gen", "big")
        yield dict(i=i, strata=[sq, se, sp, mo.pick(rng, "eager", "jit", "numpy", "vmap"), mo.pick(rng, "around", "exact0", "far", "wide", "single")],
                   Q=float({"low": rng.uniform(.2, 2), "mid": rng.uniform(2, 20), "high": rng.uniform(20, 300), "one": 1.0}[sq]),
                   f0=float(10 ** rng.uniform(0.5, 3.7)), hrss=float(10 ** rng.uniform(-25, 1)),
                   e=float({"circ": 0., "lin": 1., "gen": rng.uniform(0, 1), "near1": 1 - 10 ** rng.uniform(-9, -2), "near0": 10 ** rng.uniform(-9, -2)}[se]),
                   phase=float({"0": 0., "quarter": np.pi / 2, "half": np.pi, "neg": rng.uniform(-7, 0), "gen": rng.uniform(0, 2 * np.pi), "big": rng.uniform(7, 60)}[sp]),
                   seed=int(rng.integers(2 ** 31)))


def reference(t, Q, f0, hrss, phase, e):
    t, Q, f0, hrss, phase, e = (np.asarray(v, LD) for v in (t, Q, f0, hrss, phase, e))
    pi = LD("3.14159265358979323846264338327950288")
    cn, sn = (Q / (4 * f0 * np.sqrt(pi)) * s for s in (1 + np.exp(-Q * Q), -np.expm1(-Q * Q)))
    a = 1 / np.sqrt(2 - e * e)
    b = a * np.sqrt(1 - e * e)
    c, s = np.cos(phase), np.sin(phase)
    x = 2 * pi * f0 * t
    g = np.exp(-x * x / (2 * Q * Q))
    hp0, hc0 = hrss * a / np.sqrt(cn * c * c + sn * s * s), hrss * b / np.sqrt(cn * s * s + sn * c * c)
    return g * np.cos(x - phase) * hp0, g * np.sin(x - phase) * hc0, float(hp0), float(hc0)


JIT = {}


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    th = np.array([c["Q"], c["f0"], c["hrss"], c["phase"], c["e"]])
    tau = c["Q"] / (2 * np.pi * c["f0"])
    how, gr = c["strata"][3:]
    t = {"around": lambda: rng.uniform(-4, 4, 256) * tau, "exact0": lambda: (np.arange(256) - 128) * tau / 30, "far": lambda: rng.uniform(5, 60, 256) * tau * rng.choice([-1, 1]),
         "wide": lambda: np.linspace(-15, 15, 4096) * tau, "single": lambda: rng.uniform(-2, 2, 1) * tau}[gr]()
    fn = SG.gen_SineGaussian_hphc
    if how == "jit":
        fn = JIT.setdefault("j", jax.jit(fn))
        p, x = fn(t, th)
    elif how == "vmap":
        fn = JIT.setdefault("v", jax.jit(jax.vmap(fn, in_axes=(None, 0))))
        other = np.array([3.0, 55.0, 1e-21, 0.4, 0.3])
        p, x = (np.asarray(v)[1] for v in fn(t, np.stack([other, th])))
    elif how == "numpy":
        p, x = fn(t, th)
    else:
        p, x = fn(jnp.asarray(t), jnp.asarray(th))
    p, x = np.asarray(p), np.asarray(x)
    ctx.sig(*c["strata"])
    det = dict(zip(("Q", "f0", "hrss", "phase", "e"), th), how=how, grid=gr)
    ctx.ok(p.shape == t.shape and x.shape == t.shape, "one sample per time", dict(det, shapes=[p.shape, x.shape]))
    rp, rx, hp0, hc0 = reference(t, *th[:4], th[4])
    # rounding of phi, phase and exponent, of 1 - e^2 near e = 1 and of 1 - exp(-Q^2)
    arg = np.abs(2 * np.pi * c["f0"] * t)
    tol = 2e-14 + 5e-15 * (arg + abs(c["phase"]) + arg ** 2 / c["Q"] ** 2) + 1e-15 / c["Q"] ** 2
    ctx.ev("samples compared", 2 * len(t))
    ctx.close(p / hp0, np.asarray(rp / LD(hp0), float), tol, "plus = closed form", det)
    s = hc0 if hc0 > 0 else 1.0
    ctx.close(x / s, np.asarray(rx / LD(s), float), tol + 1e-15 / max(1 - c["e"] ** 2, 1e-17) * (hc0 > 0), "cross = closed form", det)
    if hc0 == 0:
        ctx.ok(not np.any(x), "linear polarisation has no cross component", det)
    if c["i"] % 4 == 0:
        ctx.ev("energy integrals")
        n = 4096 * (1 + int(c["Q"] * 3 // 100))
        T = (np.arange(-n, n) + rng.uniform()) / n * 9 * tau
        a, b = SG.gen_SineGaussian_hphc(jnp.asarray(T), jnp.asarray(th))
        E = np.sum(np.asarray(a) ** 2 + np.asarray(b) ** 2) * (9 * tau / n)
        ctx.close(np.array(E / c["hrss"] ** 2), np.array(1.0), 1e-11 + 3e-15 / c["Q"] ** 2, "hrss^2 = integral of h+^2 + hx^2", det)
    if c["i"] % 4 == 1:
        ctx.ev("compared with lalinference")
        dt = tau / 12
        A, B = li.BurstSineGaussian(c["Q"], c["f0"], c["hrss"], c["e"], c["phase"], dt)
        n = A.data.length
        T = (np.arange(n) - (n - 1) // 2) * dt
        k = np.abs(T) < 3 * tau
        T2 = np.arange(-36, 37) * dt
        a, b = SG.gen_SineGaussian_hphc(jnp.asarray(T2), jnp.asarray(th))
        L, Lc = A.data.data[k], B.data.data[k]
        m = np.abs(T2) < 3 * tau
        if len(L) == m.sum():
            ctx.close(np.asarray(a)[m] / hp0, L / hp0, 1e-9, "plus = lalinference", det)
            ctx.close(np.asarray(b)[m] / s, Lc / s, 1e-9 + 1e-15 / max(1 - c["e"] ** 2, 1e-17) * (hc0 > 0), "cross = lalinference", det)
            ctx.ev("lalinference samples", int(m.sum()))
