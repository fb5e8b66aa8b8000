"""Shared monitors of the checks that compare a model with its reference implementation."""
import numpy as np
import lalsimulation as ls

from . import models as mo, refs


def remnant(p):
    """Remnant spin that sets the ringdown frequency of the PhenomD/Pv2 family."""
    m1, m2 = p["m1"], p["m2"]
    if "s1" in p:
        M = m1 + m2
        S1, S2 = m1 * m1 * np.hypot(*p["s1"][:2]), m2 * m2 * np.hypot(*p["s2"][:2])
        chip = max((2 + 1.5 * m2 / m1) * S1, (2 + 1.5 * m1 / m2) * S2) / ((2 + 1.5 * m2 / m1) * m1 * m1)
        a = ls.SimIMRPhenomDFinalSpin(m1, m2, p["s1"][2], p["s2"][2])
        return float(np.copysign(np.hypot(chip * (m1 / M) ** 2, a), a))
    return float(ls.SimIMRPhenomDFinalSpin(m1, m2, p["chi1"], p["chi2"]))


def qnm_tol(af):
    """ripple interpolates its own refinement of LAL's QNM table linearly: the two agree to
    1e-6 up to remnant spin 0.98 and less well where the table is steep."""
    return 1e-6 if af < 0.98 else 1e-2 if af < 0.99 else 0.2


def scale(L, Lc):
    return np.abs(L) + np.abs(Lc)


def compare(ctx, name, got, ref, tol, detail, inband=True):
    """Complex strains pointwise: |h - ref| <= tol (|h+| + |hx|), and exact zeros coincide."""
    (hp, hc), (L, Lc) = got, ref
    A = scale(L, Lc)
    on = (A > 0) & inband
    ctx.ev("frequency points compared", int(on.sum()))
    if on.any():
        ctx.close(hp[on] / A[on], L[on] / A[on], tol, name + ":plus", detail)
        ctx.close(hc[on] / A[on], Lc[on] / A[on], tol, name + ":cross", detail)
    if (~on).any():
        ctx.ev("frequency points beyond the model's end", int((~on).sum()))
        ctx.ok(np.all(hp[~on] == 0) and np.all(hc[~on] == 0), name + ":zero beyond the end", detail)


def evaluate(case):
    m = mo.MODELS[case["model"]]
    return m.jit(mo.grid_of(case), m.theta(case["p"]), case["fref"])
