"""Utilities (conversions, noise curves, burst, overlap, match): jitted, batched and differentiated."""
import os
import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg
from ripplegw import noise
from ripplegw.waveforms import IMRPhenomD, SineGaussian, TaylorF2
from .. import models as mo, signals as sg

PROP = "C23"
RULE = ("a case is one utility (conversion, noise curve, burst, overlap, match of analytic chirps or of waveforms) at one random input, called directly, "
        "jitted and in a batch, and differentiated in forward and reverse mode with respect to every argument; distinct by (utility, strata)")
ASSUME = ["masses differ, the eccentricity is below one, frequencies are inside the tables and off their nodes, the two largest lags of a match are not tied",
          "difference quotients: central, two step sizes, Richardson extrapolated"]
PARTS = ["conv", "psd+burst", "overlap", "match", "wavesD", "wavesT"]
NEED = {"derivatives compared": 4000, "jitted = direct": 700, "batched = direct": 700, "forward = reverse": 700, "gradients of batches": 700,
        "stationary at equal waveforms": 10, "utilities": 20}
CURVES = dict(aLIGO=("aLIGO",), ce=("ce",), et=("et",), aLIGOZeroDetHighPower=("aLIGOZeroDetHighPower",), O3a=("O3a_Livingston_ASD",), O2=("O2_ASD",), LIGOI=())
CONV = dict(ms_to_Mc_eta=rg.ms_to_Mc_eta, Mc_eta_to_ms=rg.Mc_eta_to_ms, lambdas_to_lambda_tildes=rg.lambdas_to_lambda_tildes,
            lambdas_to_lambda_tildes_from_q=rg.lambdas_to_lambda_tildes_from_q, lambda_tildes_to_lambdas=rg.lambda_tildes_to_lambdas,
            lambda_tildes_to_lambdas_from_q=rg.lambda_tildes_to_lambdas_from_q, get_chi_eff=rg.get_chi_eff, get_f_isco=lambda x: rg.get_f_isco(x[0]))
TABLES, JIT = {}, {}
SHAPES = [(20, 180, 1.0), (160, 400, 0.25), (3, 66, 4.0)]  # k0, k1, df
NB = 3


def table(name):
    if name not in TABLES:
        TABLES[name] = np.loadtxt(os.path.join(os.path.dirname(noise.noise_resources.__file__), CURVES[name][0] + ".dat"), unpack=True)[0]
    return TABLES[name]


def cases(ctx):
    rng = np.random.default_rng([23, ctx.seed])
    k = 1 if ctx.quick else 25
    for name in CONV:
        for i in range(40 * k):
            yield dict(model="conv", util=name, seed=int(rng.integers(2 ** 31)))
    for name in CURVES:
        for i in range(12 * k):
            yield dict(model="psd", util=name, seed=int(rng.integers(2 ** 31)))
    for i in range(120 * k):
        yield dict(model="burst", util="burst", seed=int(rng.integers(2 ** 31)))
    for u in ("overlap", "overlap of arrays"):
        for i in range(60 * k):
            yield dict(model="overlap", util=u, shape=i % 3, seed=int(rng.integers(2 ** 31)))
    for u in ("match", "match of arrays"):
        for i in range(60 * k):
            yield dict(model="match", util=u, shape=i % 3, seed=int(rng.integers(2 ** 31)))
    for u in ("waves D", "waves T"):
        for i in range(24 * k):
            yield dict(model=u.replace(" ", ""), util=u, shape=i % 2 if u == "waves T" else 0, seed=int(rng.integers(2 ** 31)))


def problem(c, rng):
    """(function of (x, aux), x, aux, scales of x, strata, tolerance of the values[, the two strains as a function of (x, f)])"""
    u = c["util"]
    if c["model"] == "conv":
        q = float(mo.pick(rng, rng.uniform(0.3, 0.95), 10 ** rng.uniform(-1.3, -0.3), 1 - 10 ** rng.uniform(-3, -1)))
        m1 = 10 ** rng.uniform(-1, 4)
        m2 = q * m1
        l = mo.pick(rng, rng.uniform(0, 5000, 2), np.array([0.0, 300.0]), np.array([700.0, 0.0]))
        eta = q / (1 + q) ** 2
        x, s = {"ms_to_Mc_eta": ([m1, m2], [m1, m2]), "Mc_eta_to_ms": ([m1, eta], [m1, min(eta, 0.25 - eta)]),
                "lambdas_to_lambda_tildes": ([*l, m1, m2], [300, 300, m1 * (1 - q), m2 * (1 - q)]),
                "lambdas_to_lambda_tildes_from_q": ([*l, q], [300, 300, min(q, 1 - q)]),
                "lambda_tildes_to_lambdas": ([*l, m1, m2], [300, 300, m1 * (1 - q), m2 * (1 - q)]),
                "lambda_tildes_to_lambdas_from_q": ([*l, q], [300, 300, min(q, 1 - q)]),
                "get_chi_eff": ([m1, m2, *rng.uniform(-1, 1, 2)], [m1, m2, 1, 1]), "get_f_isco": ([m1 * 2e30], [m1 * 2e30])}[u]
        f = CONV[u]
        return (lambda x, a: jnp.stack([jnp.asarray(v) for v in jax.tree_util.tree_leaves(f(x))])), x, (), s, ["%.0f" % np.log10(max(1 - q, 1e-9)), "%.1f" % np.log10(q)], \
            (1e-12 + 1e-14 / (1 - q) ** 2) * (np.linalg.cond(mo.wade(eta).astype(float)) if u.startswith("lambda") else 1.0)
    if c["model"] == "psd":
        fn = getattr(noise, "Sn_" + u)
        if u == "LIGOI":
            x = np.exp(rng.uniform(np.log(41), np.log(9000), 8))
            s = 0.1 * x
        else:
            t = table(u)
            v = np.asarray(fn(jnp.asarray(t)))
            k = np.flatnonzero(np.isfinite(v[1:]) & np.isfinite(v[:-1]) & (np.diff(t) > 1e-9 * t[1:]))
            k = rng.choice(k, 8)
            w = t[k + 1] - t[k]
            x = t[k] + w * rng.uniform(0.3, 0.7, 8)
            s = 0.2 * w
        return (lambda x, a: fn(x)), x, (), s, [int(np.log10(x.min()) * 2)], 1e-12
    if c["model"] == "burst":
        Q = float(mo.pick(rng, rng.uniform(.3, 2), rng.uniform(2, 20), rng.uniform(20, 100)))
        f0 = 10 ** rng.uniform(1, 3.3)
        e = float(mo.pick(rng, 0.0, rng.uniform(0, 0.9), 1 - 10 ** rng.uniform(-3, -1)))
        t = np.sort(rng.uniform(-3, 3, 16)) * Q / (2 * np.pi * f0)
        t[int(rng.integers(16))] = 0.0
        th = [Q, f0, 10 ** rng.uniform(-24, -18), float(mo.pick(rng, 0.0, np.pi / 2, rng.uniform(-7, 7))), e]
        s = [min(Q, 1.0) / max(Q, 1.0), f0 / (1 + Q), th[2], 1.0, min(0.3, 1 - e)]
        return (lambda x, a: jnp.stack(SineGaussian.gen_SineGaussian_hphc(x[5:], x[:5]))), np.concatenate([th, t]), (), np.concatenate([s, np.full(16, 0.3 / (2 * np.pi * f0))]), \
            ["%.0f" % np.log10(Q), "%.0f" % np.log10(1 - e), e == 0, th[3] == 0], 1e-12
    k0, k1, df = SHAPES[c["shape"]]
    f = np.arange(k0, k1 + 1) * df
    ns, S = sg.noise(rng, f)
    low, high = np.zeros(k0), np.zeros(k1 - 2)
    A = lambda f, th: th[0] * (f / 100) ** -th[1]
    P = lambda f, th: th[2] * (f / 100) ** (-5 / 3) + th[3] * (f / 100)
    B = lambda f, th: th[0] * (1 + f / 100) ** -th[1]
    R = lambda f, th: th[2] * (1 + f / 100) ** -2.0 + th[3] * f / 90
    amp = lambda: [rng.uniform(.5, 2), rng.uniform(.5, 2), rng.uniform(0, 6), rng.uniform(-1, 1) * 50 / (f[-1] - f[0]) * 3]
    if c["model"] in ("overlap", "match"):
        how = int(rng.integers(4))
        x = np.array([rng.uniform(-2, 2) / (f[-1] - f[0]), *amp(), *amp()])
        s = np.array([0.3 / f[-1], 1, .5, .5, .3, 1, .5, .5, .3]) * 0.3

        def strain(f, th, second):
            a, p = B if second and how & 1 else A, R if second and how & 2 else P
            return a(f, th) * jnp.exp(1j * p(f, th))
        if u == "overlap":
            fn = lambda x, a: rg.get_phase_maximized_inner_product(x[0], a[0], lambda ff: a[1], x[1:5], x[5:], A, P, B if how & 1 else None, R if how & 2 else None)
        elif u == "overlap of arrays":
            fn = lambda x, a: rg.get_phase_maximized_inner_product_arr(x[0], a[0], a[1], strain(a[0], x[1:5], 0), strain(a[0], x[5:], 1))
        elif u == "match":
            fn = lambda x, a: rg.get_match(a[0], a[2], a[3], lambda ff: a[1], x[1:5], x[5:], A, P, B if how & 1 else None, R if how & 2 else None)
        else:
            fn = lambda x, a: rg.get_match_arr(a[2], a[3], a[1], strain(a[0], x[1:5], 0), strain(a[0], x[5:], 1))
        return fn, x, (f, S, low, high), s, [ns, how, c["shape"]], 1e-11, \
            lambda x, f: (strain(f, x[1:5], 0), strain(f, x[5:], 1))
    # the match of two waveforms (some frequencies beyond the model's end, where the strain is zero)
    if u == "waves D":
        M = rng.uniform(60, 0.25 / f[-1] / mo.GT)
        g = lambda f, t: IMRPhenomD.gen_IMRPhenomD(f, jnp.concatenate([t, jnp.array([400.0, 0.0, 0.0])]), 20.0)
        a = np.array([M * 0.42, rng.uniform(.15, .24), *rng.uniform(-.8, .8, 2)])
        s = np.array([a[0] * 0.02, 0.005, .1, .1])
    else:
        g = lambda f, t: TaylorF2.gen_TaylorF2(f, jnp.concatenate([t, jnp.array([40.0, 0.0, 0.0])]), 20.0, use_lambda_tildes=False)
        a = np.array([rng.uniform(1, 2), rng.uniform(.2, .245), *rng.uniform(-.1, .1, 2), *rng.uniform(100, 900, 2)])
        s = np.array([a[0] * 1e-4, 1e-4, .01, .01, 50, 50])
    same = bool(rng.random() < 0.4)
    b = a if same else a + s * rng.uniform(-1, 1, len(a))
    n = len(a)
    fn = lambda x, z: rg.get_match_arr(z[2], z[3], z[1], g(z[0], x[:n]), g(z[0], x[n:]))
    return fn, np.concatenate([a, b]), (f, S, low, high), np.concatenate([s, s]), [ns, c["shape"], same], 1e-8, lambda x, f: (g(f, x[:n]), g(f, x[n:]))


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    fn, x, aux, s, strata, tol, pair = (*problem(c, rng), None)[:7]
    x, s = np.asarray(x, float), np.asarray(s, float)
    u = c["util"]
    key = (u, strata[1] if c["model"] in ("overlap", "match") else 0)
    if key not in JIT:
        if not any(k[0] == u for k in JIT):
            ctx.ev("utilities")
        F = lambda x, a: jnp.asarray(fn(x, a))
        JIT[key] = dict(
            jit=jax.jit(F), batch=jax.jit(jax.vmap(F, in_axes=(0, None))),
            fwd=jax.jit(lambda x, a, v: jax.vmap(lambda w: jax.jvp(lambda y: F(y, a), (x,), (w,))[1])(v)),
            rev=jax.jit(lambda x, a, w: jax.vjp(lambda y: F(y, a), x)[1](w)[0]),
            revb=jax.jit(jax.vmap(lambda x, a, w: jax.vjp(lambda y: F(y, a), x)[1](w)[0], in_axes=(0, None, 0))))
    J = JIT[key]
    ctx.sig(u, *strata)
    det = dict(utility=u, strata=strata)
    v = np.asarray(fn(jnp.asarray(x), aux))  # directly
    if u == "match" or u == "match of arrays" or u.startswith("waves"):
        if not np.isfinite(v):
            ctx.ev("skipped: no signal in the band")
            return
    if not ctx.ok(np.all(np.isfinite(v)), "finite value", det):
        return
    if c["model"] == "burst":
        size = np.max(np.abs(v)) + 1e-300
    elif u.startswith("lambda"):  # (the sums cancel for some deformabilities)
        size = max(np.max(np.abs(v)), np.max(np.abs(x[:2])))
    else:
        size = np.maximum(np.abs(v), 1e-300)
    at = lambda y: np.asarray(J["jit"](y, aux))
    ctx.ev("jitted = direct")
    ctx.close(at(x) / size, v / size, tol, "jitted = direct: " + u, det)
    X = np.stack([x + 0.01 * s, x, x - 0.02 * s])
    Y = np.asarray(J["batch"](X, aux))
    ctx.ev("batched = direct")
    ctx.close(Y[1] / size, v / size, tol, "batched = direct: " + u, det)
    ctx.close(Y[2] / size, at(X[2]) / size, tol, "batched = direct: " + u, det)
    D = np.asarray(J["fwd"](x, aux, np.diag(s)))  # one row per argument
    bad = [int(i) for i in np.flatnonzero(~np.all(np.isfinite(D.reshape(len(x), -1)), axis=1))]
    if not ctx.ok(not bad, "finite derivative", dict(det, wrt=bad)):
        return
    g = D / size
    G = max(np.max(np.abs(g)), 1e-6)
    same = u.startswith("waves") and strata[-1]
    if same:
        ctx.ev("stationary at equal waveforms")
        ctx.close(g, np.zeros_like(g), 1e-6, "match is stationary at equal waveforms", det)
    tie = False
    if u.startswith("match") or u.startswith("waves"):
        if same:
            tie = True  # (stationary: the maximum moves between lags at second order)
        else:  # the maximum over the lags is differentiable where it is attained once
            tie = lags(x, aux, pair) > 1 - 2e-2
    if not tie:
        for i in (range(len(x)) if len(x) < 12 else [0, 1, 2, 3, 4] + sorted(rng.choice(np.arange(5, len(x)), min(3, len(x) - 5), replace=False).tolist())):
            dt = np.zeros_like(x)
            dt[i] = s[i]
            e = 1e-3 / max(1.0, G)
            d1, d2 = (at(x + e * dt) - at(x - e * dt)) / (2 * e) / size, (at(x + 2 * e * dt) - at(x - 2 * e * dt)) / (4 * e) / size
            q = (4 * d1 - d2) / 3
            ctx.ev("derivatives compared")
            ctx.close(g[i], q, 1e-5 * np.abs(g[i]) + 1e-6 * G + 1e-7 + 4 * tol / e, "derivative = difference quotient: " + u, dict(det, wrt=i, G=G))
    for k in range(2):
        w = rng.normal(size=v.shape) / size
        r = np.asarray(J["rev"](x, aux, w))
        if not ctx.ok(np.all(np.isfinite(r)), "finite gradient", dict(det, wrt=np.flatnonzero(~np.isfinite(r)).tolist())):
            return
        ctx.ev("forward = reverse")
        both = np.array([np.sum(w * D[i]) for i in range(len(x))])
        n = np.array([np.sum(np.abs(w * D[i])) for i in range(len(x))])
        ctx.close(r * s, both, 1e-10 * n + 1e-10 * G + 100 * tol * G, "forward = reverse mode: " + u, det)
    b = np.asarray(J["revb"](X, aux, np.stack([w] * 3)))
    ctx.ev("gradients of batches")
    ctx.ok(np.all(np.isfinite(b)), "finite gradient of a batch", det)
    ctx.close(b[1] * s, r * s, 1e-9 * G + 100 * tol * G, "gradient of a batch: " + u, det)


def lags(x, aux, pair):
    """Second-largest over largest modulus of the match's function of the lag."""
    f, S, low, high = aux
    h1, h2 = (np.asarray(h) for h in pair(jnp.asarray(x), jnp.asarray(f)))
    z = np.sort(np.abs(np.fft.ifft(np.concatenate([low, h1.conj() * h2 / np.asarray(S), high]))))
    return z[-2] / z[-1]
