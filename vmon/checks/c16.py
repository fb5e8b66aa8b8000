"""Total mass enters through the product M f only (geometric units)."""
import numpy as np
from .. import models as mo

PROP = "C16"
RULE = ("a case is one binary of one model on a 64-point grid and a factor k by which masses, times and distance are multiplied and frequencies "
        "divided; distinct by (model, strata, size of k), non-trivial when the strain is non-zero somewhere")
ASSUME = ["scaled problem: m -> k m, f -> f/k, f_ref -> f_ref/k, tc -> k tc, dimensionless spins and deformabilities unchanged; strain (per Hz) -> k^2 strain"]
PARTS = ["D", "X", "P", "T+T2", "N+N2+NT"]
NEED = {"values compared": 15000, "models": 8}
COUNT = dict(D=110, X=70, P=110, T=60, T2=60, N=90, N2=60, NT=60)


def cases(ctx):
    rng = np.random.default_rng([16, ctx.seed])
    for name, n in COUNT.items():
        for i in range(n if ctx.quick else 40 * n):
            c = mo.case(rng, name, top=0.24)
            lk = mo.pick(rng, "near", "decade", "far", "power of two", "extreme")
            if name.startswith("T"):  # the reference frequency is a compile-time constant there
                k = float(mo.pick(rng, 2.0, 0.5, 5.0))
                lk = "T%g" % k
            else:
                k = float({"near": 1 + 10 ** rng.uniform(-6, -1), "decade": 10 ** rng.uniform(-1, 1), "far": 10 ** rng.uniform(1, 3),
                           "power of two": 2.0 ** rng.integers(-6, 12), "extreme": 10 ** rng.uniform(3, 7)}[lk])
            c["k"] = k
            c["strata"] = c["strata"] + [lk]
            c["first"] = i == 0
            yield c


def run(ctx, c):
    m, p, f, fr, k = mo.MODELS[c["model"]], c["p"], mo.grid_of(c), c["fref"], c["k"]
    if c["first"]:
        ctx.ev("models")
    det = dict(model=m.name, k=k, fref=fr)
    P, X = m.jit(f, m.theta(p), fr)
    th = m.theta(p)
    th[0] *= k  # chirp mass; the rest of theta is scale free except distance and tc
    th[-3] *= k
    Q, Y = m.jit(f / k, th, fr / k)
    Q, Y = Q / k ** 2, Y / k ** 2
    A = np.abs(P) + np.abs(X)
    # points within rounding of a cut-off may fall on either side of it
    Mf = f * (p["m1"] + p["m2"]) * mo.GT
    keep = np.abs(Mf / (m.fcut or 1e9) - 1) > 1e-9
    on = (A > 0) & keep
    ctx.sig(m.name, *c["strata"])
    if on.any():
        ctx.ev("values compared", int(on.sum()))
        tol = 3e-9 + mo.dcond(p)  # (mass difference reconstructed from eta)
        ctx.close(Q[on] / A[on], P[on] / A[on], tol, "plus scales with the total mass: " + m.name, det)
        ctx.close(Y[on] / A[on], X[on] / A[on], tol, "cross scales with the total mass: " + m.name, det)
    z = (A == 0) & keep & (not m.bns)
    ctx.ok(not np.any(Q[z]) and not np.any(Y[z]), "the cut-off scales with 1/M", det)
