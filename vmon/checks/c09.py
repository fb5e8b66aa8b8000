"""IMRPhenomPv2 against LALSimulation.

LAL removes the time of coalescence with a numerical (spline) derivative, ripple with an
exact one, so one number, a time shift of |dPhi/d(Mf)| < SLOPE, is left free per binary.
"""
import numpy as np
from .. import models as mo, refs, lalcheck as lc

PROP = "C09"
RULE = ("a case is one random precessing/aligned/non-spinning binary on a 64-point grid; distinct by its strata, "
        "non-trivial when the strain is non-zero")
ASSUME = ["LALSimulation as installed is the reference",
          "a per-binary time shift below 0.35 M (remnant spin < 0.95) is attributed to LAL's spline derivative"]
NEED = {"frequency points compared": 20000, "precessing": 300, "aligned": 100}


def cases(ctx):
    rng = np.random.default_rng([9, ctx.seed])
    for i in range(1500 if ctx.quick else 30000):
        c = mo.case(rng, "P", top=0.23)
        Mf = c["f"] * (c["p"]["m1"] + c["p"]["m2"]) * mo.GT
        c["f"] = np.where(np.abs(Mf - 0.2) < 1e-7, c["f"] * 0.999, c["f"])
        yield c


def bounds(af):
    """(phase/strain tolerance, largest slope)"""
    return (2e-6, 0.35) if af < 0.95 else (2e-6, 3.0) if af < 0.98 else (1e-2, 20.0) if af < 0.99 else (0.2, 100.0)


def run(ctx, c):
    p, f = c["p"], mo.grid_of(c)
    hp, hc = lc.evaluate(c)
    L, Lc = refs.imrphenompv2(f, p, c["fref"])
    prec = any(p["s1"][:2]) or any(p["s2"][:2])
    ctx.ev("precessing" if prec else "aligned")
    ctx.sig(*c["strata"])
    tol, slope = bounds(lc.remnant(p))
    tol = tol + mo.dcond(p)
    det = dict(fref=c["fref"])
    A = lc.scale(L, Lc)
    on = (A > 0) & (f * (p["m1"] + p["m2"]) * mo.GT < 0.2)
    if not ctx.ok(np.all(np.isfinite(hp)) and np.all(np.isfinite(hc)), "finite", det):
        return
    if on.sum() > 8:
        Mf = f * (p["m1"] + p["m2"]) * mo.GT
        d = (np.conj(L) * hp + np.conj(Lc) * hc)[on]
        r = np.angle(d)
        # continue the small phase difference from the lowest frequency
        r = np.unwrap(r)
        k = np.sum(Mf[on] * (r - np.round(r[0] / 2 / np.pi) * 2 * np.pi)) / np.sum(Mf[on] ** 2)  # line through the origin
        if abs(k) > slope:  # 2 pi ambiguity of the lowest point for narrow bands
            k2 = np.polyfit(Mf[on], r, 1)[0]
            k = k2
        ctx.close(np.array(k), np.array(0.0), slope, "time shift = LAL up to its spline derivative", det)
        e = np.exp(-1j * k * Mf)
        lc.compare(ctx, "strain = LAL", (hp * e, hc * e), (L, Lc), tol, det, on)
    else:
        lc.compare(ctx, "strain = LAL", (hp, hc), (L, Lc), tol + 0.1, det, on)
