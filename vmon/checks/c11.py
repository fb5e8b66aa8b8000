"""IMRPhenomD_NRTidalv2 against LAL's PhenomD dressed with the published corrections, and
against LAL's own NRTidalv2 where the two implement the same spin terms."""
import numpy as np
from .. import models as mo, refs, lalcheck as lc

PROP = "C11"
RULE = ("a case is one random binary neutron star (strata of mass ratio, spins, tidal deformabilities, inclination, band; tilde/component "
        "parametrisation; with and without taper) on a 64-point grid; distinct by its strata, non-trivial when the strain is non-zero")
ASSUME = ["LALSimulation's IMRPhenomD is the binary-black-hole baseline; tidal and spin terms of arXiv:1905.06011 are written out in vmon/refs.py",
          "deviations are measured relative to the untapered amplitude A_BBH + |A_tidal|"]
NEED = {"frequency points compared": 20000, "N": 100, "N2": 100, "NT": 100, "direct comparison with LAL": 100}


def cases(ctx):
    rng = np.random.default_rng([11, ctx.seed])
    for i in range(1800 if ctx.quick else 30000):
        c = mo.case(rng, ("N", "N2", "NT")[i % 3], cmax=0.9)
        if rng.integers(3) == 0:
            c["p"]["chi1"] = c["p"]["chi2"] = 0.0
            c["strata"][2] = "zero"
        if rng.integers(4) == 0:  # the taper
            fm = refs.f_merger(c["p"])
            a, b = sorted(rng.uniform(0.95, 1.25, 2))
            c["f"] = np.linspace(a, b, 64) * fm
            c["strata"][-2] = "taper"
        yield c


def run(ctx, c):
    p, f, name = c["p"], mo.grid_of(c), c["model"]
    ctx.ev(name)
    ctx.sig(name, *c["strata"])
    hp, hc = lc.evaluate(c)
    M = p["m1"] + p["m2"]
    Mf = f * M * mo.GT
    keep = np.abs(Mf - 0.2) > 1e-6
    L, Lc = refs.nrtidalv2(f, p, c["fref"], taper=name != "NT")
    x = (np.pi * Mf) ** (2 / 3)
    B, Bc = refs.imrphenomd(f, p, c["fref"])
    At = np.abs(refs.nrt_amp(x, refs.kappa2(p))) * 2 * np.sqrt(5 / (64 * np.pi)) * M ** 2 * mo.GT ** 2 * 299792458.0 / (p["D"] * refs.MPC) * 2 * np.sqrt(np.pi / 5)
    A = lc.scale(B, Bc) + 2 * At
    tol = 1e-6 + mo.dcond(p)
    det = dict(fref=c["fref"])
    on = (A > 0) & (Mf < 0.2) & keep
    ctx.ev("frequency points compared", int(on.sum()))
    ctx.close(hp[on] / A[on], L[on] / A[on], tol, name + " plus = PhenomD + NRTidalv2", det)
    ctx.close(hc[on] / A[on], Lc[on] / A[on], tol, name + " cross = PhenomD + NRTidalv2", det)
    if name == "NT":
        return
    spin = p["chi1"] != 0 or p["chi2"] != 0
    use = on & ((Mf < 0.0179) if spin else True) & (f < refs.f_merger(p) * 1.19)
    if use.sum() > 3 and (not spin or Mf.min() < 0.0179):
        R, Rc = refs.lal_nrtidalv2(f, p, c["fref"])
        S = lc.scale(R, Rc)
        use &= S > 0
        if not use.any():
            return
        ctx.ev("direct comparison with LAL")
        ph = 1.0
        if spin:  # LAL does not reference the spin-induced phase at f_ref
            d = np.sum((np.conj(R) * hp + np.conj(Rc) * hc)[use] / S[use] ** 2)
            ph = d / abs(d)
        ctx.close(hp[use] / A[use], (R * ph)[use] / A[use], 3e-6 + mo.dcond(p), name + " plus = LAL NRTidalv2", det)
        ctx.close(hc[use] / A[use], (Rc * ph)[use] / A[use], 3e-6 + mo.dcond(p), name + " cross = LAL NRTidalv2", det)
