"""TaylorF2 against LALSimulation."""
import numpy as np
from .. import models as mo, refs, lalcheck as lc

PROP = "C10"
RULE = ("a case is one random binary neutron star (mass-ratio, spin, tidal-deformability, inclination, band strata; parametrised by "
        "component or by tilde deformabilities) on a 64-point grid; distinct by its strata, non-trivial when the strain is non-zero")
ASSUME = ["LALSimulation's TaylorF2 (SimInspiralTaylorF2AlignedPhasing, with the universal-relation quadrupoles inserted) is the reference"]
NEED = {"frequency points compared": 20000, "T": 100, "T2": 100}


def cases(ctx):
    rng = np.random.default_rng([10, ctx.seed])
    for i in range(1800 if ctx.quick else 30000):
        yield mo.case(rng, ("T", "T2")[i % 2], cmax=0.9)


def run(ctx, c):
    p, f = c["p"], mo.grid_of(c)
    ctx.ev(c["model"])
    ctx.sig(c["model"], *c["strata"])
    lc.compare(ctx, c["model"] + " strain = LAL", lc.evaluate(c), refs.taylorf2(f, p, c["fref"]), 3e-7 + mo.dcond(p), dict(fref=c["fref"]))
