"""Mass, spin and ISCO bookkeeping: ms_to_Mc_eta, Mc_eta_to_ms, get_chi_eff, get_f_isco."""
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg
from .. import models as mo

PROP = "C01"
RULE = ("a case is a batch of component masses/spins from one (mass-ratio regime, mass scale, container type) stratum; each element is "
        "checked; distinct by stratum")
ASSUME = ["reference values are computed with 80-bit extended precision (numpy longdouble) from the published definitions"]
NEED = {"elements": 5000, "elements with nearly equal masses": 500}
LD = np.longdouble

REG = ["equal", "ulp", "near14", "near11", "near8", "near5", "near2", "generic", "high", "extreme"]
SCALE = [1e-3, 1.0, 1.4, 30.0, 1e6, 1.98840987e30]


def cases(ctx):
    rng = np.random.default_rng([1, ctx.seed])
    n = 200 if ctx.quick else 4000
    for k in range(1 if ctx.quick else 6):
        for reg in REG:
            for sc in SCALE:
                for how in ("tuple", "array", "floats", "batch", "jit"):
                    m1 = sc * rng.uniform(0.5, 2, n)
                    if reg == "ulp":
                        d = rng.integers(1, 6, n) * 2.2e-16
                    elif reg.startswith("near"):
                        e = int(reg[4:])
                        d = 10 ** rng.uniform(-e - 1, -e + 1, n)
                    elif reg == "equal":
                        d = np.zeros(n)
                    elif reg == "generic":
                        d = 1 - rng.uniform(0.1, 1, n)
                    elif reg == "high":
                        d = 1 - 10 ** rng.uniform(-2, -1, n)
                    else:
                        d = 1 - 10 ** rng.uniform(-6, -2, n)
                    if how in ("floats", "tuple"):
                        m1, d = m1[:12], d[:12]
                    k2 = len(m1)
                    chi = rng.choice([-1.0, 1.0, 0.0, 0.5, -0.3], (2, k2)) * rng.choice([1.0, rng.uniform()], (2, k2))
                    yield dict(reg=reg, scale=sc, how=how, m1=m1.tolist(), m2=(m1 * (1 - d)).tolist(), swap=bool(rng.integers(2)), chi=chi.tolist())


def call(fn, how, *cols):
    """Evaluate fn on the columns, in the container its users pass."""
    if how in ("batch", "jit"):
        r = (jax.jit(fn) if how == "jit" else fn)(jnp.array(cols))
        return [np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))]
    out = []
    for row in zip(*cols):
        if how == "tuple":
            row = tuple(jnp.asarray(v) for v in row)
        elif how == "array":
            row = jnp.array(row)
        else:
            row = tuple(float(v) for v in row)
        r = fn(row)
        out.append([np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))])
    return [np.array(c) for c in zip(*out)]


def run(ctx, c):
    m1, m2 = np.array(c["m1"], float), np.array(c["m2"], float)
    if c["how"] == "array":
        m1, m2 = m1[:12], m2[:12]
    a, b = (m2, m1) if c["swap"] else (m1, m2)
    n = len(a)
    ctx.sig(c["reg"], c["scale"], c["how"], c["swap"])
    ctx.ev("elements", n)
    if c["reg"] in ("ulp", "near14", "near11", "near8"):
        ctx.ev("elements with nearly equal masses", n)
    eps = 2.3e-16
    L1, L2 = LD(a), LD(b)
    Mc_ref = (L1 * L2) ** (LD(3) / 5) / (L1 + L2) ** (LD(1) / 5)
    eta_ref = L1 * L2 / (L1 + L2) ** 2
    Mc, eta = call(rg.ms_to_Mc_eta, c["how"], a, b)
    det = dict(reg=c["reg"], how=c["how"])
    ctx.close(np.asarray(Mc / Mc_ref, float), np.ones(n), 40 * eps, "chirp mass = (m1 m2)^(3/5)/(m1+m2)^(1/5)", det)
    ctx.close(np.asarray(eta / eta_ref, float), np.ones(n), 20 * eps, "eta = m1 m2/(m1+m2)^2", det)
    ctx.ok(np.all((eta > 0) & (eta <= 0.25)), "0 < eta <= 1/4", dict(det, eta=eta.max()))
    # symmetric in the two masses
    Mc_s, eta_s = call(rg.ms_to_Mc_eta, c["how"], b, a)
    ctx.close(Mc_s / Mc, np.ones(n), 20 * eps, "chirp mass symmetric", det)
    ctx.close(eta_s / eta, np.ones(n), 20 * eps, "eta symmetric", det)
    # inverse
    r1, r2 = call(rg.Mc_eta_to_ms, c["how"], Mc, eta)
    ctx.ok(np.all(np.isfinite(r1)) and np.all(np.isfinite(r2)), "component masses finite", det)
    ctx.ok(np.all(r1 >= r2) and np.all(r2 > 0), "m1 >= m2 > 0", det)
    M = LD(Mc) / LD(eta) ** (LD(3) / 5)
    ctx.close(np.asarray((r1 + r2) / M, float), np.ones(n), 40 * eps, "m1 + m2 = Mc eta^(-3/5)", det)
    # delta = sqrt(1 - 4 eta): rounding of eta and of M^2 - 4 M^2 eta limits it to eps/delta (sqrt(eps) at equal masses)
    dl = np.sqrt(np.maximum(1 - 4 * LD(eta), 0))
    tol = 30 * eps / np.maximum(np.asarray(dl, float), 2e-8) + 30 * eps
    ctx.close(np.asarray((LD(r1) - LD(r2)) / M - dl, float), np.zeros(n), tol, "m1 - m2 = M sqrt(1 - 4 eta)", det)
    # ... and round trip to the original masses, in order
    hi, lo = np.maximum(a, b), np.minimum(a, b)
    d0 = (hi - lo) / (hi + lo)
    tol = 60 * eps / np.maximum(d0, 1e-8) + 1e-8 * (d0 < 3e-8)
    ctx.close(r1 / hi, np.ones(n), tol, "round trip heavier", det)
    ctx.close(r2 / lo, np.ones(n), tol * hi / lo, "round trip lighter", det)
    # scaling with the unit of mass
    s = 2.0 ** 7
    Mc2, eta2 = call(rg.ms_to_Mc_eta, c["how"], a * s, b * s)
    ctx.close(Mc2 / (s * Mc), np.ones(n), 60 * eps, "chirp mass scales with the masses", det)
    ctx.close(eta2 / eta, np.ones(n), 20 * eps, "eta is dimensionless", det)
    # effective spin
    x1, x2 = np.array(c["chi"], float)[:, :n]
    (ce,) = call(rg.get_chi_eff, c["how"], a, b, x1, x2)
    ref = np.asarray((L1 * x1 + L2 * x2) / (L1 + L2), float)
    ctx.close(ce, ref, 10 * eps, "chi_eff = (m1 chi1 + m2 chi2)/(m1 + m2)", det)
    ctx.ok(np.all((ce <= np.maximum(x1, x2) + 4 * eps) & (ce >= np.minimum(x1, x2) - 4 * eps)), "chi_eff between the spins", det)
    (cs,) = call(rg.get_chi_eff, c["how"], b, a, x2, x1)
    ctx.close(cs, ce, 10 * eps, "chi_eff symmetric under relabelling", det)
    # ISCO (kg)
    if c["how"] in ("batch", "jit"):
        fi = np.asarray(rg.get_f_isco(jnp.array(a)))
    else:
        fi = np.array([float(rg.get_f_isco(float(v))) for v in a])
    G, C = 6.67430e-11, 299792458.0
    ctx.close(fi * a, np.full(n, C ** 3 / (G * np.pi * 6 ** 1.5)), C ** 3 / G * 1e-17 * 20, "f_isco = c^3/(6^(3/2) pi G m)", det)
