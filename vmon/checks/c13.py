"""Extrinsic parameters: distance, coalescence phase and time, inclination."""
import numpy as np
from .. import models as mo

PROP = "C13"
RULE = ("a case is one random binary of one model on a 64-point grid together with changed extrinsic parameters; distinct by (model, strata, "
        "kind of change), non-trivial when the strain is non-zero somewhere")
ASSUME = ["conventions: h ~ 1/D, exp(2 i phic), exp(-2 pi i f tc); h+ = h0 (1 + cos^2 i)/2, hx = -i h0 cos i for the non-precessing models"]
PARTS = ["D", "X", "P", "T+T2", "N+N2+NT"]
NEED = {"relations checked": 2500, "models": 8}
COUNT = dict(D=90, X=60, P=90, T=80, T2=80, N=80, N2=80, NT=60)


def cases(ctx):
    rng = np.random.default_rng([13, ctx.seed])
    for name, n in COUNT.items():
        for i in range(n if ctx.quick else 40 * n):
            c = mo.case(rng, name)
            c["p"]["inc"] = float(mo.pick(rng, 0.0, np.pi / 2, np.pi, *rng.uniform(0, np.pi, 5)))
            c["ds"] = float(10 ** rng.uniform(-4, 4))
            c["dphi"] = float(mo.pick(rng, np.pi / 4, np.pi / 2, np.pi, rng.uniform(-7, 7), rng.uniform(-30, 30)))
            c["dt"] = float(mo.pick(rng, 1e-3, 0.25, rng.uniform(-.1, .1), rng.uniform(-10, 10)))
            c["inc2"] = float(mo.pick(rng, np.pi - c["p"]["inc"], rng.uniform(0, np.pi), -c["p"]["inc"], c["p"]["inc"] + 2 * np.pi))
            c["first"] = i == 0
            yield c


def run(ctx, c):
    m = mo.MODELS[c["model"]]
    p, f, fr = c["p"], mo.grid_of(c), c["fref"]
    if c["first"]:
        ctx.ev("models")
    ev = lambda **kw: m.jit(f, m.theta(dict(p, **kw)), fr)
    P, X = ev()
    A = np.abs(P) + np.abs(X)
    on = A > 0
    det = dict(model=m.name, fref=fr)
    if not ctx.ok(np.all(np.isfinite(P)) and np.all(np.isfinite(X)), "finite", det):
        return
    if not on.any():
        ctx.ev("grids entirely beyond the model's end")
        return
    ctx.sig(m.name, *c["strata"])

    # rounding of the phases added up inside: 2 pi f tc and the time alignment
    def same(kind, got, want, extra=0.0):
        ctx.ev("relations checked")
        tol = 1e-9 + 4e-13 * np.max(np.abs(2 * np.pi * f * (abs(p["tc"]) + extra))) / 2 / np.pi
        for g, w, pol in zip(got, want, ("plus", "cross")):
            ctx.close(g[on] / A[on], w[on] / A[on], tol, "%s: %s" % (kind, "precessing" if m.kind == "prec" else "aligned"), dict(det, pol=pol))
            ctx.ok(not np.any(g[~on]), "%s keeps the support" % kind, det)

    s = c["ds"]
    h = ev(D=p["D"] * s)
    same("strain ~ 1/distance", [v * s for v in h], (P, X))
    e = np.exp(-2j * np.pi * f * c["dt"])
    same("tc is a time shift", ev(tc=p["tc"] + c["dt"]), (P * e, X * e), abs(c["dt"]))
    same("phic has period 2 pi", ev(phic=p["phic"] + 2 * np.pi), (P, X))
    if m.kind == "prec":
        # D and tc act the same way at any inclination; phic and inclination are covered against LAL
        same("inclination has period 2 pi", ev(inc=p["inc"] + 2 * np.pi), (P, X))
        return
    e = np.exp(2j * c["dphi"])
    same("strain ~ exp(2 i phic)", ev(phic=p["phic"] + c["dphi"]), (P * e, X * e))
    same("phic has period pi", ev(phic=p["phic"] + np.pi), (P, X))
    F, G = ev(inc=0.0)
    for k, i in (("inclination", p["inc"]), ("changed inclination", c["inc2"])):
        h = (P, X) if k == "inclination" else ev(inc=i)
        co = np.cos(i)
        A2 = np.maximum(np.abs(F), 1e-300)
        for g, w, pol in zip(h, (F * (1 + co * co) / 2, -1j * F * co), ("plus", "cross")):
            ctx.ev("relations checked")
            ctx.close(g[on] / A2[on], w[on] / A2[on], 1e-13, "%s: (1+cos^2)/2, -i cos" % k, dict(det, pol=pol, inc=i))
    ctx.close(G[on] / A2[on], -1j * F[on] / A2[on], 1e-13, "face-on is circularly polarised", det)
