"""Tidal-deformability conversions between (lambda1, lambda2) and the tilde pair."""
import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg
from .. import models as mo

PROP = "C02"
RULE = ("a case is a batch of (lambda1, lambda2, m1, m2) from one (mass ratio, deformability, mass scale, calling convention) stratum, pushed "
        "through all four conversions; distinct by stratum, non-trivial when a deformability is non-zero")
ASSUME = ["the published relations (Wade et al. 2014 eqs 5, 6) evaluated in extended precision are the reference"]
NEED = {"elements": 5000, "elements with nearly equal masses": 300}

QREG = ["equal", "ulp", "near12", "near8", "near4", "mid", "low", "vlow"]
LREG = ["zero", "tiny", "mid", "big", "one0", "two0", "equal", "unit"]


def cases(ctx):
    rng = np.random.default_rng([2, ctx.seed])
    for rep in range(1 if ctx.quick else 20):
        for qr in QREG:
            for lr in LREG:
                for how in ("scalar", "batch", "jit"):
                    n = 4 if how == "scalar" else 60
                    e = {"equal": np.zeros(n), "ulp": rng.integers(0, 5, n) * 2.2e-16}.get(qr)
                    if e is None:
                        e = 10 ** rng.uniform(-int(qr[4:]) - 1, -int(qr[4:]) + 1, n) if qr.startswith("near") else \
                            1 - {"mid": rng.uniform(0.5, 1, n), "low": rng.uniform(0.2, 0.5, n), "vlow": rng.uniform(0.05, 0.2, n)}[qr]
                    m1 = rng.uniform(1, 3, n) * rng.choice([1.0, 1.0, 1e-3, 1e30])
                    m2 = m1 * (1 - e)
                    z, t, u, v = np.zeros(n), 10 ** rng.uniform(-6, 0, (2, n)), rng.uniform(1, 2000, (2, n)), rng.uniform(2000, 20000, (2, n))
                    l1, l2 = {"zero": (z, z), "tiny": t, "mid": u, "big": v, "one0": (u[0], z), "two0": (z, u[1]), "equal": (u[0], u[0]), "unit": (z + 1, z + 1)}[lr]
                    yield dict(qr=qr, lr=lr, how=how, m1=m1.tolist(), m2=m2.tolist(), l1=l1.tolist(), l2=l2.tolist())


def call(fn, how, *cols):
    if how == "scalar":
        out = [[np.asarray(x) for x in fn(jnp.array(row))] for row in zip(*cols)]
        return [np.array(c) for c in zip(*out)]
    f = jax.jit(fn) if how == "jit" else fn
    if how == "batch":  # the row layout (parameters first) of the documentation
        return [np.asarray(x) for x in f(jnp.array(cols))]
    return [np.asarray(x) for x in jax.vmap(f)(jnp.array(cols).T)]


def run(ctx, c):
    m1, m2, l1, l2 = (np.array(c[k], float) for k in ("m1", "m2", "l1", "l2"))
    n, how = len(m1), c["how"]
    ctx.sig(c["qr"], c["lr"], how)
    ctx.ev("elements", n)
    if c["qr"] in ("ulp", "near12", "near8"):
        ctx.ev("elements with nearly equal masses", n)
    det = dict(qr=c["qr"], lr=c["lr"], how=how)
    L1, L2, M1, M2 = (np.longdouble(x) for x in (l1, l2, m1, m2))
    eta = M1 * M2 / (M1 + M2) ** 2
    d = (M1 - M2) / (M1 + M2)
    # rounding of eta limits sqrt(1 - 4 eta)
    ed = np.asarray(2.2e-16 * 4 / np.maximum(np.asarray(d, float), 1e-8) + 1e-15 + 2e-8 * (np.asarray(d, float) < 5e-8), float)
    k = np.longdouble(1319)
    A, B = 1 + 7 * eta - 31 * eta ** 2, d * (1 + 9 * eta - 11 * eta ** 2)
    Cc, E = d * (1 - 13272 / k * eta + 8944 / k * eta ** 2), 1 - 15910 / k * eta + 32850 / k * eta ** 2 + 3380 / k * eta ** 3
    lt = np.longdouble(8) / 13 * (A * (L1 + L2) + B * (L1 - L2))
    dl = (Cc * (L1 + L2) + E * (L1 - L2)) / 2
    lt, dl = np.asarray(lt, float), np.asarray(dl, float)
    tot = np.abs(l1) + np.abs(l2)
    tol = tot * (20 * ed + 1e-14) + 1e-300
    q = m2 / m1
    for name, got in (("masses", call(rg.lambdas_to_lambda_tildes, how, l1, l2, m1, m2)),
                      ("q", call(rg.lambdas_to_lambda_tildes_from_q, how, l1, l2, q))):
        ctx.close(got[0], lt, tol, "lambda tilde (%s)" % name, det)
        ctx.close(got[1], dl, tol, "delta lambda tilde (%s)" % name, det)
    # inverse: the exact tilde pair goes back to the components
    cond = np.empty(n)
    for i in range(n):
        cond[i] = np.linalg.cond(np.array([[8 / 13 * (A[i] + B[i]), 8 / 13 * (A[i] - B[i])], [(Cc[i] + E[i]) / 2, (Cc[i] - E[i]) / 2]], dtype=float))
    itol = cond * tot * (40 * ed + 1e-13) + 1e-300
    for name, fn, args in (("masses", rg.lambda_tildes_to_lambdas, (m1, m2)), ("q", rg.lambda_tildes_to_lambdas_from_q, (q,))):
        got = call(fn, how, lt, dl, *args)
        ctx.close(got[0], l1, itol, "lambda1 from tildes (%s)" % name, det)
        ctx.close(got[1], l2, itol, "lambda2 from tildes (%s)" % name, det)
        fwd = rg.lambdas_to_lambda_tildes if len(args) == 2 else rg.lambdas_to_lambda_tildes_from_q
        t = call(fwd, how, l1, l2, *args)
        back = call(fn, how, t[0], t[1], *args)
        ctx.close(back[0], l1, cond * tot * 1e-13 + 1e-300, "round trip lambda1 (%s)" % name, det)
        ctx.close(back[1], l2, cond * tot * 1e-13 + 1e-300, "round trip lambda2 (%s)" % name, det)
