"""Derivatives: finite, forward = reverse, and equal to difference quotients."""
import jax
import jax.numpy as jnp
import numpy as np
from .. import models as mo

PROP = "C17"
PARTS = ["D", "X", "Xr", "P", "Pr", "T+T2", "N", "N2+NT"]
RULE = ("a case is one binary of one model (unequal masses; zero, extreme and one-sided spins; aligned and in-plane spins; zero, small and large "
        "deformabilities; face-on, edge-on) on a 16-point grid away from the end of the model; every parameter, f and f_ref is differentiated; distinct by "
        "(model, strata, mode)")
ASSUME = ["masses differ (the mass difference is not differentiable in eta at eta = 1/4)",
          "the derivative of IMRPhenomPv2 with respect to in-plane spin components is not taken at exactly aligned spins",
          "difference quotients: central, two step sizes, Richardson extrapolated"]
NEED = {"derivatives compared with difference quotients": 2000, "derivatives finite": 2000, "reverse-mode products": 150, "gradients of batches": 150, "models": 8}
COUNT = dict(D=30, X=16, P=40, T=30, T2=30, N=30, N2=15, NT=12)
NG = 16
FN = {}


def names(m):
    b = ["s1x", "s1y", "s1z", "s2x", "s2y", "s2z"] if m.kind == "prec" else ["chi1", "chi2"]
    if m.lam:
        b += ["lam1", "lam2"]
    return ["Mc", "eta"] + b + ["D", "tc", "phic", "inc"]


def functions(m, fref, what):
    key = (m.name, fref if m.name[0] == "T" else None, what)
    if key not in FN:
        def F(f, t, r):
            hp, hc = m.fn(f, t, fref if m.name[0] == "T" else r)
            return jnp.stack([hp.real, hp.imag, hc.real, hc.imag])
        if what == "value":
            FN[key] = jax.jit(F)
        elif what == "forward":
            FN[key] = jax.jit(lambda f, t, r, v: jax.jvp(F, (f, t, r), v)[1])
        elif what == "reverse":
            FN[key] = jax.jit(lambda f, t, r, w: jax.vjp(F, f, t, r)[1](w))
        else:  # gradients of a batch of binaries
            FN[key] = jax.jit(jax.vmap(lambda f, t, r, w: jax.vjp(F, f, t, r)[1](w), in_axes=(None, 0, None, 0)))
    return FN[key]


def cases(ctx):
    rng = np.random.default_rng([17, ctx.seed])
    for name, n in COUNT.items():
        m = mo.MODELS[name]
        for i in range(n if ctx.quick else 20 * n):
            while True:
                c = mo.case(rng, name, n=NG, cmax=0.99 if name in "DXP" else 0.7)
                p = c["p"]
                if 1 - p["m2"] / p["m1"] > 3e-5 and p["m1"] / p["m2"] < 30:
                    break
            if not m.bns and i % 5 == 2:  # where the amplitude peaks at the ringdown frequency (gamma2 > 1)
                p["m2"] = p["m1"] / rng.uniform(4, 11)
                chi = [float(rng.uniform(0.93, 0.985)), float(rng.uniform(0.2, 0.95))]
                p.update(chi1=chi[0], chi2=chi[1])
                if name == "P":
                    p["s1"], p["s2"] = [0.02, 0.05, chi[0]], [0.1, -0.1, chi[1]]
                c["strata"] = c["strata"] + ["fast"]
            if name == "P" and i % 5 == 0:  # aligned
                p["s1"][:2], p["s2"][:2] = [0.0, 0.0], [0.0, 0.0]
                c["strata"] = c["strata"] + ["aligned"]
            if m.bns and i % 6 == 1:
                p["lam1"], p["lam2"] = 0.0, 0.0
            M = (p["m1"] + p["m2"]) * mo.GT
            hi = (0.95 * m.fcut / M) if m.fcut and not m.bns else (1800 if m.bns else 0.19 / M)
            lo = 30.0 if m.bns else 0.001 / M
            g = mo.pick(rng, "wide", "narrow", "late")
            a, b = {"wide": (lo, hi), "narrow": sorted(np.exp(rng.uniform(np.log(lo), np.log(hi), 2))), "late": (0.3 * hi, hi)}[g]
            c["f"] = np.geomspace(a, max(b, a * 1.01), NG) * rng.uniform(0.98, 1.0)
            if name in ("N", "N2"):
                from ..refs import f_merger
                fm = f_merger(p)
                c["f"] = np.minimum(c["f"], 1.1 * fm)  # (1.2 f_merger is the end)
            c["fref"] = 20.0 if m.bns else float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
            c["strata"] = c["strata"] + [g]
            c["seed"] = int(rng.integers(2 ** 31))
            c["first"] = i == 0
            if name in ("X", "P"):  # compiled in parallel
                yield dict(c, part=name, mode="forward")
                yield dict(c, part=name + "r", mode="reverse", first=False)
            else:
                yield dict(c, mode="both")


def run(ctx, c):
    m, p, f, r = mo.MODELS[c["model"]], c["p"], mo.grid_of(c), c["fref"]
    if c["first"]:
        ctx.ev("models")
    rng = np.random.default_rng(c["seed"])
    T = m.name[0] == "T"
    th = m.theta(p)
    nm = names(m)
    ctx.sig(m.name, c["mode"], *c["strata"])
    det = dict(model=m.name, f_ref=r, strata=c["strata"])
    F = functions(m, r, "value")
    h = np.asarray(F(f, th, r))
    A = np.sqrt(np.sum(h ** 2, axis=0)) + 1e-300
    eta = th[1]
    scale = np.array([th[0], min(eta, 0.25 - eta)] + [0.1 if n[0] in "sc" else max(abs(th[i + 2]), 10.0) for i, n in enumerate(nm[2:-4])]
                     + [p["D"], 1 / (2 * np.pi * f.max()), 1.0, 1.0])
    if m.kind == "prec":  # in-plane components vary on the scale of the body's own in-plane spin
        # (and of the total: the effective precession spin and the angles vary on that scale)
        tot = p["m1"] ** 2 * np.hypot(*p["s1"][:2]) + p["m2"] ** 2 * np.hypot(*p["s2"][:2])
        for b, mb, k in (("s1", p["m1"], 2), ("s2", p["m2"], 5)):
            perp = np.hypot(*p[b][:2])
            if tot > 0:
                scale[k:k + 2] = 0.1 * min(1.0, tot / mb ** 2, perp if perp > 0 else 1.0)
    if m.lam == "comp":
        for i, n in enumerate(nm):
            if n[:3] == "lam" and th[i] == 0.0:
                scale[i] = 1.0
    # (the tabulated ringdown frequency is piecewise linear: its slope scatters for remnants spinning fast)
    bent = 5e-4 if m.name in "DP" and max(abs(x) for x in ((p["chi1"], p["chi2"]) if m.name == "D" else (p["s1"][2], p["s2"][2]))) > 0.7 else 0.0
    zero_f, zero_t = np.zeros_like(f), np.zeros_like(th)
    planar = m.kind == "prec" and not np.any(np.abs([*p["s1"][:2], *p["s2"][:2]]) > 0)
    if c["mode"] in ("both", "forward"):
        J = functions(m, r, "forward")
        for i, n in list(enumerate(nm)) + [(-1, "f"), (-2, "f_ref")]:
            if (n == "f_ref" and T) or (planar and n in ("s1x", "s1y", "s2x", "s2y")):
                continue
            df, dt, dr = zero_f.copy(), zero_t.copy(), 0.0
            if n == "f":
                df = f.copy()
            elif n == "f_ref":
                dr = r
            else:
                dt[i] = scale[i]
            g = np.asarray(J(f, th, r, (df, dt, dr))) / A
            ctx.ev("derivatives finite")
            kink = 0.0
            if not ctx.ok(np.all(np.isfinite(g)), "finite derivative", dict(det, wrt=n, n=int((~np.isfinite(g)).sum()))):
                continue
            G = np.max(np.abs(g))
            e = 1e-3 / max(1.0, G)
            if n == "lam2" or n == "lam1":
                if m.lam == "comp" and (th[i] < 1.2 and th[i] > 0.8):
                    continue  # the Love relations switch formulas at 1
                if m.lam == "tilde" and (min(p["lam1"], p["lam2"]) < 1.2):
                    continue
                e = min(e, 1e-2)
            at = lambda k: np.asarray(F(f + k * df, th + k * dt, r + k * dr))
            if (m.lam == "comp" and n[:3] == "lam" and th[i] == 0.0):
                q = (-3 * h + 4 * at(e) - at(2 * e)) / (2 * e) / A  # one-sided at zero deformability
                extra = 1e-4
            else:
                d1, d2 = (at(e) - at(-e)) / (2 * e) / A, (at(2 * e) - at(-2 * e)) / (4 * e) / A
                q = (4 * d1 - d2) / 3
                extra = 0
                if bent or m.name in "DP":  # a kink (an entry of the ringdown table) within the step shows in the second differences
                    S1, S2 = (at(e) - 2 * h + at(-e)) / e / A, (at(2 * e) - 2 * h + at(-2 * e)) / (2 * e) / A
                    kink = 1.5 * (np.abs(d1 - d2) + np.abs(S1 - S2 / 2))
            ctx.ev("derivatives compared with difference quotients")
            # rounding of the strain phase, amplified by 1/e and (for the mass difference) 1/(1 - 4 eta)
            psi = 3 / 128 / eta * (np.pi * (p["m1"] + p["m2"]) * mo.GT * min(f.min(), r)) ** (-5 / 3) + np.max(2 * np.pi * f) * abs(p["tc"]) + 30
            noise = 2e-15 * psi / e + mo.dcond(p, 100.0) / e
            ctx.close(g, q, 3e-4 * np.abs(g) + (1e-5 + bent) * G + 1e-6 + extra * G + noise + kink, "derivative = difference quotient: %s %s" % (m.name, n if n[0] != "s" else "spin"), dict(det, wrt=n, G=G))
    if c["mode"] in ("both", "reverse"):
        R = functions(m, r, "reverse")
        for k in range(2):
            w = rng.normal(size=h.shape) / A
            bf, bt, br = (np.asarray(x) for x in R(f, th, r, w))
            ctx.ev("reverse-mode products")
            keep = np.ones(len(th), bool)
            if planar:
                keep[[nm.index(n) for n in ("s1x", "s1y", "s2x", "s2y")]] = False
            if not ctx.ok(np.all(np.isfinite(bf)) and np.all(np.isfinite(bt[keep])) and np.isfinite(br), "finite gradient",
                          dict(det, bad=[n for n, x in zip(nm, bt) if not np.isfinite(x)], f=int((~np.isfinite(bf)).sum()), f_ref=br)):
                continue
            if m.name != "X" or not ctx.quick:  # (X takes two minutes to compile)
                mate = th * np.where([n[0] in "sc" for n in nm], 0.5, 1.0)
                B = functions(m, r, "batch")
                gf, gt, gr = (np.asarray(x) for x in B(f, np.stack([mate, th]), r, np.stack([w, w])))
                ctx.ev("gradients of batches")
                g1, g2 = np.concatenate([bf * f, bt * scale, [br * r]]), np.concatenate([gf[1] * f, gt[1] * scale, [gr[1] * r]])
                one = np.concatenate([np.ones(len(f), bool), keep, [True]])
                ctx.ok(np.all(np.isfinite(gf)) and np.all(np.isfinite(gt[:, keep])) and np.all(np.isfinite(gr)), "finite gradient of a batch", det)
                ctx.close(g2[one] / np.max(np.abs(g1[one])), g1[one] / np.max(np.abs(g1[one])), 1e-7 + mo.dcond(p), "gradient of a batch: " + m.name, det)
            if c["mode"] == "both":
                J = functions(m, r, "forward")
                vf, vt, vr = rng.normal(size=f.shape) * f, rng.normal(size=th.shape) * scale * keep, rng.normal() * r * (not T)
                Jv = np.asarray(J(f, th, r, (vf, vt, vr)))
                a, b = np.sum(w * Jv), np.sum(bf * vf) + np.sum(bt * vt) + br * vr
                s = np.sum(np.abs(w * Jv)) + np.sum(np.abs(bf * vf)) + np.sum(np.abs(bt * vt)) + abs(br * vr)
                ctx.close(np.array((a - b) / s), np.array(0.0), 1e-10, "forward = reverse mode: " + m.name, det)
            else:
                # one directional difference quotient of the scalar w.F
                vf, vt, vr = rng.normal(size=f.shape) * f, rng.normal(size=th.shape) * scale * keep, rng.normal() * r
                b = np.sum(bf * vf) + np.sum(bt * vt) + br * vr
                s = np.sum(np.abs(bf * vf)) + np.sum(np.abs(bt * vt)) + abs(br * vr)
                e = 1e-4 / max(1.0, s)
                at = lambda k: np.asarray(F(f + k * vf, th + k * vt, r + k * vr))
                d1, d2 = np.sum(w * (at(e) - at(-e))) / (2 * e), np.sum(w * (at(2 * e) - at(-2 * e))) / (4 * e)
                psi = 3 / 128 / eta * (np.pi * (p["m1"] + p["m2"]) * mo.GT * min(f.min(), r)) ** (-5 / 3) + np.max(2 * np.pi * f) * abs(p["tc"]) + 30
                ctx.close(np.array((4 * d1 - d2) / 3), np.array(b), (1e-4 + bent) * s + 1e-5 + 64 * (2e-15 * psi + mo.dcond(p, 100.)) / e, "gradient = difference quotient: " + m.name, det)
