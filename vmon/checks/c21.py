"""Reference frequency and phase anchoring of the non-precessing models."""
import numpy as np
from .. import models as mo

PROP = "C21"
RULE = ("a case is one binary of one non-precessing model on a 64-point grid with two reference frequencies (inside the band, below it, above it, on a grid "
        "point, near region boundaries); distinct by (model, strata, kinds of reference frequency)")
ASSUME = ["anchoring phases as in LALSimulation: arg h0(f_ref) - 2 phic = 0 (IMRPhenomD), -3 pi/4 (IMRPhenomXAS, TaylorF2) for tc = 0"]
PARTS = ["D", "X", "T+T2", "N+N2+NT"]
NEED = {"pairs of reference frequencies": 300, "anchors": 200, "models": 7}
COUNT = dict(D=110, X=70, T=50, T2=50, N=80, N2=60, NT=60)
ANCHOR = dict(D=0.0, X=-0.75 * np.pi, T=-0.75 * np.pi, T2=-0.75 * np.pi)
TREF = (0.0, 5.0, 10.0, 20.0, 50.0, 100.0, 450.0, 1500.0)


def cases(ctx):
    rng = np.random.default_rng([21, ctx.seed])
    for name, n in COUNT.items():
        for i in range(n if ctx.quick else 40 * n):
            c = mo.case(rng, name)
            p = c["p"]
            M = (p["m1"] + p["m2"]) * mo.GT
            kind = mo.pick(rng, "band", "low", "boundary", "high", "grid")
            if name[0] == "T":
                r2, kind = float(mo.pick(rng, *TREF)), "T"
            else:
                end = (mo.MODELS[name].fcut * 0.97 if not mo.MODELS[name].bns else 0.1) / M
                r2 = {"band": np.exp(rng.uniform(np.log(1e-3 / M), np.log(end))), "low": 10 ** rng.uniform(-4.5, -3) / M,
                      "boundary": mo.pick(rng, 0.018, 0.014) / M * (1 + mo.pick(rng, -1, 1) * 10 ** rng.uniform(-9, -2)), "high": end * rng.uniform(0.5, 1),
                      "grid": min(c["f"][rng.integers(64)], end)}[kind]
            c.update(fref2=float(r2), strata=c["strata"] + [kind], first=i == 0)
            p["inc"] = float(mo.pick(rng, 0.0, p["inc"], 1.0))
            yield c


def run(ctx, c):
    m, p, f = mo.MODELS[c["model"]], c["p"], mo.grid_of(c)
    if c["first"]:
        ctx.ev("models")
    th = m.theta(p)
    r1, r2 = c["fref"], c["fref2"]
    a, b = m.jit(f, th, r1), m.jit(f, th, r2)
    A = np.abs(a[0]) + np.abs(a[1])
    on = A > 0
    det = dict(model=m.name, f_ref=[r1, r2])
    ctx.sig(m.name, *c["strata"])
    M = (p["m1"] + p["m2"]) * mo.GT
    # rounding of the phases at the lowest frequencies involved
    lo = min(x for x in (f[0], r1, r2) if x > 0) * M
    eta = mo.mc_eta(p["m1"], p["m2"])[1]
    tol = 1e-9 + 2e-15 * (3 / 128 / eta * (np.pi * lo) ** (-5 / 3)) * 10 + 4e-13 * np.max(np.abs(f * p["tc"])) + 4e-13 * max(abs(r1), abs(r2)) * abs(p["tc"])
    if on.any():
        w = np.conj(a[0]) * b[0] + np.conj(a[1]) * b[1]
        s = np.sum(w[on] / A[on] ** 2)
        if not ctx.ok(abs(s) > 0, "comparable", det):
            return
        z = s / abs(s)
        ctx.ev("pairs of reference frequencies")
        for x, y, pol in zip(a, b, ("plus", "cross")):
            ctx.close(y[on] / A[on], x[on] * z / A[on], tol, "f_ref changes the phase by a constant", dict(det, pol=pol))
            ctx.ok(not np.any(y[~on]), "f_ref does not change the support", det)
    if m.name in ANCHOR:
        q = dict(p, tc=0.0, inc=0.0)
        for r in {r1, r2}:
            if r <= 0:
                continue
            g = np.full(64, r)  # (the length compiled already)
            h = m.jit(g, m.theta(q), r)[0][0]
            if h == 0:
                continue
            ctx.ev("anchors")
            ctx.close(np.array(h / abs(h)), np.array(np.exp(1j * (ANCHOR[m.name] + 2 * p["phic"]))), 1e-8 + tol * 10, "phase at f_ref: " + m.name, dict(det, at=r))
