"""Finite in band, exactly zero beyond the model's end, continuous and kink-free in between."""
import numpy as np
import ripplegw as rg
from .. import models as mo, refs

PROP = "C15"
RULE = ("a case is one binary of one model, either on a 64-point grid (band, hostile frequencies, around the end) or on an 8192-point scan of the band and the floating-point neighbours of every point where the model switches expressions; "
        "distinct by (model, strata, kind)")
ASSUME = ["for the precessing model the scan is restricted to L + S_parallel > 0 in the band (see models.total_j)",
          "model ends: 0.2/M (IMRPhenomD, Pv2, NRTidalv2; the latter also 1.2 f_merger), 0.3/M (XAS), none (TaylorF2)",
          "a jump or kink is an isolated spike in the second difference of the log strain (complex strain for the precessing model)"]
PARTS = ["D", "X", "P", "T+T2", "N+N2+NT"]
NEED = {"values in band": 10000, "values beyond the end": 1500, "points scanned for jumps": 300000, "points within a few roundings of a join": 10000, "models": 8}
COUNT = dict(D=(90, 40), X=(60, 25), P=(90, 40), T=(60, 8), T2=(60, 8), N=(90, 20), N2=(60, 10), NT=(60, 10))
NS = 8192


def end_of(m, p):
    e = (m.fcut or np.inf) / ((p["m1"] + p["m2"]) * mo.GT)
    return min(e, 1.2 * refs.f_merger(p)) if m.name in ("N", "N2") else e


def cases(ctx):
    rng = np.random.default_rng([15, ctx.seed])
    for name, (n, k) in COUNT.items():
        m = mo.MODELS[name]
        for i in range(n if ctx.quick else 40 * n):
            c = mo.case(rng, name)
            p = c["p"]
            M = (p["m1"] + p["m2"]) * mo.GT
            e = end_of(m, p)
            e = e if np.isfinite(e) else 0.2 / M
            s = mo.pick(rng, "band", "around the end", "around the end", "beyond", "hostile", "at the end")
            if s == "around the end":
                c["f"] = e * (1 + np.linspace(-1, 1, 64) * 10 ** rng.uniform(-6, -0.5))
            elif s == "beyond":
                c["f"] = e * np.geomspace(1.0000001, 10 ** rng.uniform(0.1, 4), 64)
            elif s == "hostile":
                c["f"] = np.geomspace(1e-5, 10 ** rng.uniform(0, 3), 64) / M
            elif s == "at the end":
                c["f"] = np.sort(np.concatenate([e * (1 + rng.choice([-1, 1], 32) * 10 ** rng.uniform(-9, -2, 32)), c["f"][:32]]))
            c["kind"] = s
            c["first"] = i == 0
            yield c
        for i in range(k if ctx.quick else 40 * k):
            c = mo.case(rng, name)
            c["kind"], c["f"] = "scan", None
            if m.bns:
                c["fref"] = 20.0
            if name == "P" and mo.total_j(c["p"]) < 0.05:
                for k in ("s1", "s2"):
                    c["p"][k][2] = abs(c["p"][k][2])
                c["strata"] = c["strata"] + ["aligned"]
            yield c


def run(ctx, c):
    m, p, fr = mo.MODELS[c["model"]], c["p"], c["fref"]
    M = (p["m1"] + p["m2"]) * mo.GT
    end = end_of(m, p)
    ctx.sig(m.name, c["kind"], *c["strata"])
    det = dict(model=m.name, kind=c["kind"], fref=fr)
    if c["kind"] == "scan":
        return scan(ctx, c, m, p, M, end, det)
    if c["first"]:
        ctx.ev("models")
    f = mo.grid_of(c)
    P, X = m.jit(f, m.theta(p), fr)
    bad = ~(np.isfinite(P) & np.isfinite(X))
    ctx.ok(not bad.any(), "finite", dict(det, Mf=(f * M)[bad][:3]))
    A = np.abs(P) + np.abs(X)
    out = f > end * (1 + 1e-8)
    ctx.ev("values beyond the end", int(out.sum()))
    # (the untapered NRTidalv2 keeps its tidal amplitude beyond 0.2/M)
    if m.name != "NT":
        ctx.ok(np.all(A[out] == 0), "exactly zero beyond the end", dict(det, Mf=(f * M)[out & (A != 0)][:3], end=end * M))
    low = f < end * (1 - 1e-8)
    if m.name in ("N", "N2"):
        low = f < min(end * 0.99, 0.2 / M * (1 - 1e-8))  # the taper underflows just before its end
    ctx.ev("values in band", int(low.sum()))
    ctx.ok(np.all(A[low] > 0), "non-zero below the end", dict(det, Mf=(f * M)[low & ~(A > 0)][:3], end=end * M))
    # order of magnitude: below 40x the Newtonian amplitude
    mc, eta = mo.mc_eta(p["m1"], p["m2"])
    newt = np.sqrt(5 / 24) * np.pi ** (-2 / 3) * (mc * mo.GT) ** (5 / 6) * f ** (-7 / 6) / (p["D"] * mo.MPC_S)
    if m.kind != "bns":
        ctx.ok(np.all(A <= 40 * newt), "not above 40 times the Newtonian amplitude", dict(det, worst=np.max(A / newt)))
        ctx.track("amplitude/Newtonian (of 40)", np.max(A / newt) / 40)


def joins(m, p, M):
    """Frequencies (Hz) where the models switch expressions: from their definitions where these are
    closed formulas, otherwise asked of the package (only hints: none of them is judged)."""
    out = [0.018 / M, 0.014 / M]
    if m.name in ("N", "N2"):
        out.append(refs.f_merger(p))
    try:
        mc, eta = mo.mc_eta(p["m1"], p["m2"])
        m1, m2 = [float(x) for x in rg.Mc_eta_to_ms(np.array([mc, eta]))]
        if m.name == "X":
            from ripplegw.waveforms import IMRPhenomX_utils as xu
            rd, _, meco, isco = [float(x) for x in xu.get_cutoff_fMs(m1, m2, p["chi1"], p["chi2"])]
            im = 0.6 * (0.5 * rd + isco)
            d = (im - meco) * 0.03
            out = [x / M for x in (meco - d, im + 0.5 * d, meco + 0.25 * (isco - meco))]
        elif m.name[0] != "T":
            from ripplegw.waveforms import IMRPhenomD_utils as du, IMRPhenomPv2_utils as pu
            z = (p["chi1"], p["chi2"]) if m.kind != "prec" else (p["s1"][2], p["s2"][2])
            th = np.array([m1, m2, *z])
            k = du.get_coeffs(th)
            if m.kind == "prec":
                per = [np.hypot(*p[s][:2]) for s in ("s1", "s2")]
                chip = max((2 + 1.5 * m2 / m1) * m1 ** 2 * per[0], (2 + 1.5 * m1 / m2) * m2 ** 2 * per[1]) / ((2 + 1.5 * m2 / m1) * m1 ** 2)
                t = pu.phP_get_transition_frequencies(th, k[5], k[6], chip)
            else:
                t = du.get_transition_frequencies(th, k[5], k[6])
            out += [float(x) for x in t[:4]]
    except (ImportError, AttributeError, TypeError, ValueError):
        pass
    return out


def at_joins(ctx, m, p, M, end, fr, det):
    """Frequencies one rounding apart on both sides of, and exactly on, each switching point."""
    for k, f0 in enumerate(joins(m, p, M)):
        if not 0 < f0 < end * (1 - 1e-6):
            continue
        f = f0 + np.arange(-32, 32) * np.spacing(f0)
        P, X = m.jit(f, m.theta(p), fr)
        ctx.ev("points within a few roundings of a join", 64)
        ctx.sig("join", m.name, k)
        A = np.abs(P) + np.abs(X)
        d = (np.abs(P - P[0]) + np.abs(X - X[0])) / A[0]
        ctx.track("strain change across one rounding at a join", np.max(d) / 1e-6)
        ctx.ok(np.all(d < 1e-6), "no jump exactly on a join", dict(det, Mf=f0 * M, join=k, worst=np.max(d), at=int(np.argmax(d)) - 32))


def scan(ctx, c, m, p, M, end, det):
    at_joins(ctx, m, p, M, end, c["fref"], det)
    hi = min(end * (0.955 if m.name in ("N", "N2") else 1) * (1 - 1e-9), (0.19999 if m.fcut != 0.3 else 0.29999) / M)
    f = np.geomspace(0.003 / M, hi, NS)
    P, X = m.jit(f, m.theta(p), c["fref"])
    w = f ** (7 / 6)
    ctx.ev("points scanned for jumps", NS)
    if m.kind == "prec" or m.name[0] == "N":  # strains that may pass through zero
        s = (np.abs(P) + np.abs(X)) * w
        if m.name[0] == "N":
            s = np.full(NS, np.max(s))
        else:  # precession modulates both polarisations: local maximum
            s = np.maximum.reduce([np.roll(s, k) for k in range(-300, 301, 20)])
        for pol, h in (("plus", P), ("cross", X)):
            y = h * w
            spikes(ctx, (y[2:] - 2 * y[1:-1] + y[:-2]) / s[1:-1], f[1:-1] * M, m.name + " strain has no jump", dict(det, pol=pol), 1e-10, 5.0)
        return
    h = P if abs(np.cos(p["inc"])) < 0.99 else X  # (both are multiples of one strain)
    if not np.all(np.abs(h) > 0):
        return ctx.ok(False, "non-zero below the end", det)
    r = (h * w)[1:] / (h * w)[:-1]
    L = np.log(np.abs(r)) + 1j * np.angle(r)  # increments of the complex logarithm, |phase step| < pi
    D2 = np.diff(L)
    D2 = D2.real + 1j * np.angle(np.exp(1j * D2.imag))
    step = np.log(f[1] / f[0])
    # (rounding of the phase, which is largest at low frequency)
    floor = 1e-10 + 1e-14 * np.abs(np.cumsum(L.imag[::-1])[::-1]).max()
    spikes(ctx, D2.imag, f[1:-1] * M, "phase has no jump or kink", dict(det, step=step), floor, 5.0)
    spikes(ctx, D2.real, f[1:-1] * M, "amplitude has no jump or kink", dict(det, step=step), floor, 5.0)


def spikes(ctx, D2, Mf, name, det, floor, factor):
    """Isolated spikes: larger than `factor` times everything three to ten points away on both sides."""
    a = np.abs(D2)
    n = len(a)
    near = np.maximum.reduce([np.maximum(np.roll(a, k), np.roll(a, -k)) for k in range(3, 11)])
    ratio = a / (factor * near + floor)
    ratio = ratio[12:n - 12]
    i = int(np.argmax(ratio))
    ctx.track(name, ratio[i])
    ctx.ok(np.all(ratio <= 1.0), name, dict(det, Mf=Mf[12 + i], second_difference=a[12 + i], around=near[12 + i]))
