"""Phase-maximised, noise-weighted inner product."""
import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg
from .. import models as mo, signals as sg

PROP = "C05"
RULE = ("a case is one pair of strains (random, chirp, PhenomD, sparse, real), one noise curve (with lines, infinite bins, extreme scales), one "
        "frequency grid and one time offset; distinct by their strata, non-trivial when both norms are non-zero")
ASSUME = ["the reference is evaluated with 80-bit extended precision from the definition |<h1|h2>|/sqrt(<h1|h1><h2|h2>)"]
NEED = {"inner products compared": 1500, "callable form": 100}
LD, CLD = np.longdouble, np.clongdouble


def cases(ctx):
    rng = np.random.default_rng([5, ctx.seed])
    pool = sg.pool(ctx.seed, 14 if ctx.quick else 210, 800)
    for i in range(360 if ctx.quick else 20000):
        yield dict(seed=int(rng.integers(2 ** 31)), i=i, grid=pool[i % len(pool)])


def reference(dt, f, S, h1, h2):
    w = np.exp(1j * (2 * np.pi * np.asarray(f, LD) * LD(dt)).astype(CLD))
    a, b = h1.astype(CLD), h2.astype(CLD)
    W = 1 / S.astype(LD)
    num = np.abs(np.sum(a.conj() * b * w * W))
    return float(num / np.sqrt(np.sum(np.abs(a) ** 2 * W)) / np.sqrt(np.sum(np.abs(b) ** 2 * W)))


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    gs, k0, k1 = c['grid']
    df = sg.spacing(rng)
    f = sg.frequencies(k0, k1, df, "k*df")
    ns, S = sg.noise(rng, f)
    s1, h1 = sg.strain(rng, f)
    rel = mo.pick(rng, "independent", "independent", "same", "scaled", "opposite", "shifted", "close")
    if rel == "independent":
        s2, h2 = sg.strain(rng, f)
    else:
        s2 = s1
        h2 = {"same": h1, "scaled": h1 * 10 ** rng.uniform(-3, 3) * np.exp(1j * rng.uniform(0, 7)), "opposite": -h1,
              "shifted": h1 * np.exp(2j * np.pi * f * rng.uniform(-.5, .5) / df), "close": h1 * (1 + 1e-3 * rng.normal(size=len(f)))}[rel]
    live = np.isfinite(S)
    if not (np.any(h1[live]) and np.any(h2[live])):
        ctx.ev("skipped: no signal in the band")
        return
    dl = mo.pick(rng, "0", "small", "big", "grid")
    dt = {"0": 0.0, "small": rng.uniform(-1e-3, 1e-3), "big": rng.uniform(-2, 2), "grid": rng.integers(-9, 9) / df / (2 * k1 - 1)}[dl]
    how = mo.pick(rng, "jnp", "np", "jit", "array dt")
    fn = jax.jit(rg.get_phase_maximized_inner_product_arr) if how == "jit" and len(f) < 8 else rg.get_phase_maximized_inner_product_arr
    conv = (lambda v: np.asarray(v)) if how == "np" else jnp.asarray
    call = lambda t, a, b, SS=S: float(fn(jnp.asarray(t) if how == "array dt" else t, conv(f), conv(SS), conv(a), conv(b)))
    det = dict(grid=[k0, k1, df], noise=ns, strains=[s1, s2], relation=rel, dt=dt, how=how)
    ctx.sig(gs, ns, s1, s2, rel, dl)
    n = len(f)
    v = call(dt, h1, h2)
    want = reference(dt, f, S, h1, h2)
    # cancellation in the sum: absolute, since both norms are 1; plus rounding of the phase 2 pi f dt
    tol = 1e-13 * np.sqrt(n) + 2e-15 * np.max(np.abs(2 * np.pi * f * dt)) + 1e-14
    ctx.ev("inner products compared")
    ctx.close(np.array(v), np.array(want), tol, "value = definition", det)
    ctx.ok(-1e-15 <= v <= 1 + 1e-12, "between 0 and 1", dict(det, v=v))
    ctx.close(np.array(call(0.0, h1, h1)), np.array(1.0), 1e-12, "normalised: <h|h> = 1", det)
    ctx.close(np.array(call(-dt, h2, h1)), np.array(v), tol, "exchange symmetry", det)
    z = rng.uniform(0, 7, 2)
    ctx.close(np.array(call(dt, h1 * np.exp(1j * z[0]), h2 * np.exp(1j * z[1]))), np.array(v), tol, "independent of both phases", det)
    r = 10 ** rng.uniform(-2, 2, 3)
    ctx.close(np.array(call(dt, h1 * r[0], h2 * r[1], S * r[2])), np.array(v), tol, "independent of the overall scales", det)
    t = rng.uniform(-.1, .1)
    ctx.close(np.array(call(dt - t, h1, h2 * np.exp(2j * np.pi * f * t))), np.array(v), tol + 4e-15 * np.max(np.abs(2 * np.pi * f * t)), "time offset = relative shift", det)
    if rel in ("same", "scaled", "opposite"):
        ctx.close(np.array(call(0.0, h1, h2)), np.array(1.0), 1e-12, "one for proportional strains", det)
    ctx.ev("inner products compared", 6)
    if c["i"] % 3 == 0:
        ctx.ev("callable form")
        # amplitude/phase callables; amp2/Psi2 = None means "the same functions"
        A1 = lambda ff, th: th[0] * (ff / 100 + 1) ** th[1]
        P1 = lambda ff, th: th[2] * (ff / 100 + 1) ** -1.5 + th[3]
        A2 = lambda ff, th: th[0] * (ff / 70 + .5) ** -th[1]
        P2 = lambda ff, th: th[2] * (ff / 60 + 1) ** -1.2 - th[3] * ff / 50
        th1, th2 = jnp.array(rng.uniform(.5, 3, 4)), jnp.array(rng.uniform(.5, 3, 4))
        S = jnp.asarray(S)
        seen = []
        Sn = lambda ff: (seen.append(len(ff)), S)[1]
        for a2, p2 in ((None, None), (A2, None), (None, P2), (A2, P2)):
            got = float(rg.get_phase_maximized_inner_product(dt, jnp.asarray(f), Sn, th1, th2, A1, P1, a2, p2))
            H1 = np.asarray(A1(f, np.asarray(th1)) * np.exp(1j * P1(f, np.asarray(th1))))
            H2 = np.asarray((a2 or A1)(f, np.asarray(th2)) * np.exp(1j * (p2 or P1)(f, np.asarray(th2))))
            ctx.close(np.array(got), np.array(reference(dt, f, np.asarray(S), H1, H2)), tol + 1e-13, "callable form = array form", dict(det, alt=[a2 is not None, p2 is not None]))
        ctx.ok(len(seen) >= 4 and set(seen) == {n}, "noise evaluated on the frequency grid", det)
