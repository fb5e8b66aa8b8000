"""Relations between the models: exchange symmetry, limits in which one model becomes another, rotation covariance."""
import numpy as np
from .. import models as mo

PROP = "C22"
RULE = ("a case is one relation (exchange of equal masses, tilde vs component deformabilities, zero deformability, aligned limit of the precessing model, "
        "rotation about L, vanishing in-plane spin, Newtonian limit) on one random binary; distinct by (relation, model, strata)")
ASSUME = ["aligned and vanishing-spin limits of IMRPhenomPv2: where L + S_parallel is positive throughout the band (elsewhere the published angles "
          "have no limit, in LALSimulation too)",
          "IMRPhenomPv2 and IMRPhenomD align their peaks in time differently: the aligned limit is compared up to a linear function of frequency in the phase",
          "the spin-induced octupole of the Love relations is 1.003 at zero deformability, so with spins the zero-deformability limit holds to 2%"]
PARTS = ["D", "X", "P", "T+T2", "N+N2+NT"]
NEED = {"exchange": 250, "parametrisations": 80, "zero deformability": 60, "aligned limit": 60, "rotation about L": 60, "vanishing in-plane spin": 60,
        "Newtonian limit": 150}


def cases(ctx):
    rng = np.random.default_rng([22, ctx.seed])
    for rep in range(1 if ctx.quick else 40):
        for name in mo.MODELS:
            for i in range(40):
                c = mo.case(rng, name, top=0.19)
                c["p"]["m2"] = c["p"]["m1"]
                yield dict(c, rel="exchange")
            for i in range(30):
                c = mo.case(rng, name, top=0.19)
                p = c["p"]
                M = (p["m1"] + p["m2"]) * mo.GT
                if name == "P":
                    p["s1"][:2], p["s2"][:2] = [0.0, 0.0], [0.0, 0.0]
                p.update(inc=0.0, tc=0.0)
                x = 10 ** rng.uniform(-5, -4)
                c["f"] = x / M * (1 + 9e-5 * (x / 1e-4) ** (5 / 6) * np.arange(-32, 32))
                yield dict(c, rel="Newtonian limit", fref=0.0 if name[0] == "T" else float(c["f"][0]))
        for name in ("T", "N"):
            for i in range(50):
                yield dict(mo.case(rng, name), rel="parametrisations")
        for i in range(80):
            c = mo.case(rng, "NT")
            c["p"].update(lam1=0.0, lam2=0.0)
            yield dict(c, rel="zero deformability")
        for rel in ("aligned limit", "rotation about L", "vanishing in-plane spin"):
            for i in range(80):
                c = mo.case(rng, "P", top=0.19)
                c["angle"] = float(mo.pick(rng, np.pi / 2, np.pi, rng.uniform(-7, 7)))
                c["eps"] = float(10 ** rng.uniform(-7.5, -4))
                c["dirs"] = rng.uniform(0, 2 * np.pi, 2).tolist()
                if rel != "rotation about L" and mo.total_j(c["p"]) < 0.02:
                    for k in ("s1", "s2"):
                        c["p"][k][2] = abs(c["p"][k][2])
                    c["strata"] = c["strata"] + ["aligned"]
                yield dict(c, rel=rel)


def pair(ctx, name, a, b, tol, det):
    A = np.abs(a[0]) + np.abs(a[1])
    on = A > 0
    for x, y, pol in zip(a, b, ("plus", "cross")):
        ctx.close(y[on] / A[on], x[on] / A[on], tol, name, dict(det, pol=pol))
        ctx.ok(not np.any(y[~on]), name + " (support)", dict(det, pol=pol))


def run(ctx, c):
    m, p, f, fr, rel = mo.MODELS[c["model"]], c["p"], mo.grid_of(c), c["fref"], c["rel"]
    ctx.ev(rel)
    ctx.sig(rel, m.name, *c["strata"])
    det = dict(model=m.name, f_ref=fr)
    h = m.jit(f, m.theta(p), fr)
    if rel == "exchange":
        q = dict(p, chi1=p["chi2"], chi2=p["chi1"])
        if m.bns:
            q.update(lam1=p["lam2"], lam2=p["lam1"])
        if m.kind == "prec":
            q.update(s1=p["s2"], s2=p["s1"])
        # (equal masses are resolved to sqrt(eps) through eta)
        pair(ctx, "equal masses can be exchanged: " + m.name, h, m.jit(f, m.theta(q), fr), 3e-4, det)
    elif rel == "parametrisations":
        b = mo.MODELS[m.name + "2"].jit(f, mo.MODELS[m.name + "2"].theta(p), fr)
        pair(ctx, "tilde = component deformabilities: " + m.name, h, b, 1e-9 + mo.dcond(p), det)
    elif rel == "zero deformability":
        D = mo.MODELS["D"]
        b = D.jit(f, D.theta(p), fr)
        spin = max(abs(p["chi1"]), abs(p["chi2"])) ** 2
        pair(ctx, "NRTidalv2 = PhenomD at zero deformability", h, b, 1e-9 + 0.02 * spin, det)
        if spin:
            z = dict(p, chi1=0.0, chi2=0.0)
            pair(ctx, "NRTidalv2 = PhenomD at zero deformability and spin", m.jit(f, m.theta(z), fr), D.jit(f, D.theta(z), fr), 1e-9, det)
    elif rel == "aligned limit":
        q = dict(p, s1=[0.0, 0.0, p["s1"][2]], s2=[0.0, 0.0, p["s2"][2]], chi1=p["s1"][2], chi2=p["s2"][2])
        D = mo.MODELS["D"]
        a, b = m.jit(f, m.theta(q), fr), D.jit(f, D.theta(q), fr)
        # remove a phase linear in f: anchor at two frequencies, test at all others
        A = np.abs(b[0]) + np.abs(b[1])
        w = np.conj(b[0]) * a[0] + np.conj(b[1]) * a[1]
        for x, y, pol in zip(a, b, ("plus", "cross")):
            ctx.close(np.abs(x) / A, np.abs(y) / A, 1e-9 + mo.dcond(p), "modulus of aligned Pv2 = PhenomD", dict(det, pol=pol))
        # second differences on a fine uniform grid around each of three frequencies
        j = np.random.default_rng(int(abs(f[7]) * 1e6) % 2 ** 31).integers(0, 64, 3)
        for k in j:
            g = f[k] * (1 + 2e-3 * np.arange(-32, 32) / 32)
            g = g[g < 0.1999 / ((p["m1"] + p["m2"]) * mo.GT)]
            if len(g) < 64:
                continue
            x, y = m.jit(g, m.theta(q), fr), D.jit(g, D.theta(q), fr)
            w = np.conj(y[0]) * x[0] + np.conj(y[1]) * x[1]
            t = np.angle(w[2:] * w[:-2] * np.conj(w[1:-1]) ** 2)
            ctx.close(t, np.zeros(62), 1e-9 + mo.dcond(p), "phase of aligned Pv2 - PhenomD is linear in f", det)
    elif rel == "rotation about L":
        d = c["angle"]
        R = lambda s: [s[0] * np.cos(d) - s[1] * np.sin(d), s[0] * np.sin(d) + s[1] * np.cos(d), s[2]]
        q = dict(p, s1=R(p["s1"]), s2=R(p["s2"]), phic=p["phic"] - d)
        b = m.jit(f, m.theta(q), fr)
        e = np.exp(2j * d)
        pair(ctx, "rotating the spins about L = changing phic", h, (b[0] * e, b[1] * e), rottol(p), det)
    elif rel == "vanishing in-plane spin":
        e, (t1, t2) = c["eps"], c["dirs"]
        z = dict(p, s1=[0.0, 0.0, p["s1"][2]], s2=[0.0, 0.0, p["s2"][2]])
        q = dict(p, s1=[e * np.cos(t1), e * np.sin(t1), p["s1"][2]], s2=[e * np.cos(t2) / 2, e * np.sin(t2) / 2, p["s2"][2]])
        pair(ctx, "Pv2 is continuous at aligned spins", m.jit(f, m.theta(z), fr), m.jit(f, m.theta(q), fr), 100 * e + 1e-7, det)
    else:
        mc, eta = mo.mc_eta(p["m1"], p["m2"])
        v2 = (np.pi * (p["m1"] + p["m2"]) * mo.GT * f) ** (2 / 3)
        newt = np.sqrt(5 / 24) * np.pi ** (-2 / 3) * (mc * mo.GT) ** (5 / 6) * f ** (-7 / 6) / (p["D"] * mo.MPC_S)
        x = h[0]
        ctx.close(np.abs(x) / newt, np.ones(64), 3 * v2, "amplitude tends to the quadrupole formula", det)
        if m.name[0] == "T":
            ctx.close(np.abs(x) / newt, np.ones(64), 1e-4, "TaylorF2 amplitude is the quadrupole formula", det)
        t = np.angle(x[2:] * x[:-2] * np.conj(x[1:-1]) ** 2)
        w = -np.diff(3 / 128 / eta * v2 ** -2.5, 2)
        ctx.close(t / w, np.ones(62), 6 * v2[1:-1], "phase tends to the quadrupole formula", det)


def rottol(p):
    return 1e-8 + mo.dcond(p)
