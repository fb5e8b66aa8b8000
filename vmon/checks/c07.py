"""IMRPhenomD against LALSimulation."""
import numpy as np
from .. import models as mo, refs, lalcheck as lc

PROP = "C07"
MODEL, REF, TOP = "D", refs.imrphenomd, 0.24
RULE = ("a case is one random binary (mass-ratio, spin, inclination, phase, time and frequency-band strata) on a 64-point grid; "
        "distinct by its tuple of strata, non-trivial when at least one compared strain is non-zero")
ASSUME = ["LALSimulation as installed is the reference", "component masses handed to LAL are scaled so that both use the same G*Msun"]
NEED = {"frequency points compared": 20000}
N = (1500, 30000)


def cases(ctx):
    rng = np.random.default_rng([7, ctx.seed])
    for i in range(N[0 if ctx.quick else 1]):
        c = mo.case(rng, MODEL, top=TOP)
        Mf = c["f"] * (c["p"]["m1"] + c["p"]["m2"]) * mo.GT
        c["f"] = np.where(np.abs(Mf - mo.MODELS[MODEL].fcut) < 1e-7, c["f"] * 0.999, c["f"])
        yield c


def run(ctx, c):
    p, f = c["p"], mo.grid_of(c)
    got = lc.evaluate(c)
    ref = REF(f, p, c["fref"])
    tol = lc.qnm_tol(lc.remnant(p)) + mo.dcond(p)
    ctx.sig(*c["strata"])
    lc.compare(ctx, "strain = LAL", got, ref, tol, dict(fref=c["fref"]), f * (p["m1"] + p["m2"]) * mo.GT < 0.2)
