"""IMRPhenomXAS against LALSimulation."""
from .. import models as mo, refs, lalcheck as lc
from . import c07

PROP = "C08"
RULE, ASSUME, NEED = c07.RULE, c07.ASSUME, c07.NEED


def cases(ctx):
    import numpy as np
    rng = np.random.default_rng([8, ctx.seed])
    for i in range(1500 if ctx.quick else 20000):
        c = mo.case(rng, "X", top=0.33)
        Mf = c["f"] * (c["p"]["m1"] + c["p"]["m2"]) * mo.GT
        c["f"] = np.where(np.abs(Mf - 0.3) < 1e-7, c["f"] * 0.999, c["f"])
        yield c


def run(ctx, c):
    p, f = c["p"], mo.grid_of(c)
    got = lc.evaluate(c)
    ref = refs.imrphenomxas(f, p, c["fref"])
    ctx.sig(*c["strata"])
    lc.compare(ctx, "strain = LAL", got, ref, (1e-6 if lc.remnant(p) < 0.98 else 5e-5) + mo.dcond(p), dict(fref=c["fref"]), f * (p["m1"] + p["m2"]) * mo.GT < 0.3)
