"""Match (time and phase maximised overlap) and the padding arrays."""
import warnings

import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg
from .. import models as mo, signals as sg

PROP = "C06"
RULE = ("a case is one frequency grid k*df (k0<=k<=k1; df dyadic, decimal, odd fractions) built in one of three ways, with one pair of strains and "
        "one noise curve; distinct by their strata and k0 mod 8, non-trivial when both norms are non-zero")
ASSUME = ["a grid counts as evenly spaced when k0 = f[0]/df and k1 = f[-1]/df are integers up to rounding"]
NEED = {"pads": 400, "matches compared": 300, "direct sums over the time grid": 50, "callable form": 50, "uneven grids": 20}


def cases(ctx):
    rng = np.random.default_rng([6, ctx.seed])
    pool = sg.pool(ctx.seed, 14 if ctx.quick else 210, 1500)
    for i in range(420 if ctx.quick else 15000):
        yield dict(seed=int(rng.integers(2 ** 31)), i=i, grid=pool[i % len(pool)])


def pads(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        lo, hi = rg.get_eff_pads(f)
    return lo, hi, [str(x.message) for x in w]


def series(f, S, h1, h2, k0, N):
    """|<h1|h2>(t)| on the N time steps t = j/(N df)."""
    W = 1 / S
    x = np.zeros(N, complex)
    x[k0:k0 + len(f)] = h1.conj() * h2 * W
    n1, n2 = np.sqrt(np.sum(np.abs(h1) ** 2 * W)), np.sqrt(np.sum(np.abs(h2) ** 2 * W))
    return np.abs(np.fft.fft(x)) / n1 / n2


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    gs, k0, k1 = c['grid']
    df = sg.spacing(rng)
    how = mo.pick(rng, "k*df", "k*df", "linspace", "offset")
    f = sg.frequencies(k0, k1, df, how)
    as_np = bool(rng.integers(2))
    det = dict(k0=k0, k1=k1, df=df, how=how)
    lo, hi, warned = pads(np.asarray(f) if as_np else jnp.asarray(f))
    ctx.ev("pads")
    ctx.sig(gs, how, k0 % 8, round(df, 3))
    lo, hi = np.asarray(lo), np.asarray(hi)
    ctx.ok(lo.shape == (k0,), "low pad has f[0]/df elements", dict(det, shape=lo.shape))
    ctx.ok(hi.shape == (k1 - 2,), "high pad has f[-1]/df - 2 elements", dict(det, shape=hi.shape))
    ctx.ok(not lo.any() and not hi.any(), "pads are zero", det)
    dyadic = np.log2(df) % 1 == 0
    if dyadic:
        ctx.ok(not warned, "no warning for an exact grid", dict(det, warned=warned))
    if len(f) > 4:
        g = f.copy()
        g[rng.integers(1, len(g) - 1)] += 0.3 * df
        w = pads(jnp.asarray(g))[2]
        if df >= 1e-3:
            ctx.ev("uneven grids")
            ctx.ok(any("evenly" in m for m in w), "uneven grid is reported", dict(det, warned=w))
    if lo.shape != (k0,) or hi.shape != (k1 - 2,):
        return
    ns, S = sg.noise(rng, f)
    s1, h1 = sg.strain(rng, f)
    rel = mo.pick(rng, "independent", "independent", "same", "shifted", "close")
    N = 2 * k1 - 1
    if rel == "independent":
        s2, h2 = sg.strain(rng, f)
    else:
        s2 = s1
        h2 = {"same": h1 * 3j, "shifted": h1 * np.exp(2j * np.pi * np.arange(k0, k1 + 1) * int(rng.integers(0, N)) / N),
              "close": h1 * (1 + 1e-2 * rng.normal(size=len(f)))}[rel]
    live = np.isfinite(S)
    if not (np.any(h1[live]) and np.any(h2[live])):
        ctx.ev("skipped: no signal in the band")
        return
    det.update(noise=ns, strains=[s1, s2], relation=rel)
    jl, jh = jnp.zeros(k0), jnp.zeros(k1 - 2)
    call = lambda a, b, SS=S: float(rg.get_match_arr(jl, jh, jnp.asarray(SS), jnp.asarray(a), jnp.asarray(b)))
    tol = 1e-11
    m = call(h1, h2)
    ser = series(f, S, h1, h2, k0, N)
    ctx.ev("matches compared")
    ctx.sig(gs, ns, s1, s2, rel)
    ctx.close(np.array(m), np.array(ser.max()), tol, "match = maximum over the time grid", det)
    ctx.ok(-1e-12 <= m <= 1 + 1e-11, "between 0 and 1", dict(det, m=m))
    if c["i"] % 4 == 0 and N * len(f) < 4e6:
        ctx.ev("direct sums over the time grid")
        t = np.arange(N) / N / df
        E = np.exp(2j * np.pi * np.outer(np.arange(N), np.arange(k0, k1 + 1) % N) / N)
        W = 1 / S
        d = np.abs(E @ (h1.conj() * h2 * W)) / np.sqrt(np.sum(np.abs(h1) ** 2 * W)) / np.sqrt(np.sum(np.abs(h2) ** 2 * W))
        ctx.close(np.array(m), np.array(d.max()), 1e-9, "match = best of the direct sums", det)
        j = int(np.argmax(d))
        v = float(rg.get_phase_maximized_inner_product_arr(t[j], jnp.asarray(np.arange(k0, k1 + 1) * df), jnp.asarray(S), jnp.asarray(h1), jnp.asarray(h2)))
        ctx.close(np.array(v), np.array(m), 1e-8, "match = inner product at the best time", det)
    z = float(rg.get_phase_maximized_inner_product_arr(0.0, jnp.asarray(f), jnp.asarray(S), jnp.asarray(h1), jnp.asarray(h2)))
    ctx.ok(m >= z - 1e-11, "not below the overlap at zero offset", dict(det, m=m, z=z))
    if rel in ("same", "shifted"):
        ctx.close(np.array(m), np.array(1.0), 1e-10, "one for phase- or grid-time-shifted copies", det)
    ctx.close(np.array(call(h2, h1)), np.array(m), tol, "exchange symmetry", det)
    r = 10 ** rng.uniform(-2, 2, 3)
    e = np.exp(1j * rng.uniform(0, 7, 2))
    ctx.close(np.array(call(h1 * r[0] * e[0], h2 * r[1] * e[1], S * r[2])), np.array(m), tol, "independent of phases and scales", det)
    sh = np.exp(2j * np.pi * np.arange(k0, k1 + 1) * (int(rng.integers(0, N)) / N))
    ctx.close(np.array(call(h1, h2 * sh)), np.array(m), 1e-9, "independent of a time shift by grid steps", det)
    if c["i"] % 5 == 0:
        ctx.ev("callable form")
        A1 = lambda ff, th: th[0] * (ff / 100 + 1) ** th[1]
        P1 = lambda ff, th: th[2] * (ff / 100 + 1) ** -1.5 + th[3]
        A2 = lambda ff, th: th[0] * (ff / 70 + .5) ** -th[1]
        P2 = lambda ff, th: th[2] * (ff / 60 + 1) ** -1.2 - th[3] * ff / 50
        th1, th2 = rng.uniform(.5, 3, 4), rng.uniform(.5, 3, 4)
        jS = jnp.asarray(S)
        for a2, p2 in ((None, None), (A2, None), (None, P2), (A2, P2)):
            got = float(rg.get_match(jnp.asarray(f), jl, jh, lambda ff: jS, jnp.asarray(th1), jnp.asarray(th2), A1, P1, a2, p2))
            H1 = A1(f, th1) * np.exp(1j * P1(f, th1))
            H2 = (a2 or A1)(f, th2) * np.exp(1j * (p2 or P1)(f, th2))
            ctx.close(np.array(got), np.array(series(f, S, H1, H2, k0, N).max()), tol, "callable form = array form", dict(det, alt=[a2 is not None, p2 is not None]))
