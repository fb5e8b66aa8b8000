"""Second derivatives: finite, the same in every nesting of modes, symmetric, and difference quotients of first ones."""
import jax
import jax.numpy as jnp
import numpy as np
from .. import models as mo
from .c17 import names

PROP = "C24"
PARTS = [k + e for k in ("D", "T", "T2", "N", "N2", "X", "P") for e in ("", "log")]
RULE = ("a case is one binary of one model (unequal masses; zero and one-sided spins and deformabilities; face-on, edge-on) on a 16-point grid, one random linear "
        "functional of its strain and two random directions in its parameters; distinct by (model, strata)")
ASSUME = ["masses differ, spins below 0.9; quotients are compared where they converge (no join of the model within the step); deformabilities away from the Love relations' switch at one",
          "the tabulated ringdown frequency is piecewise linear: difference quotients are taken along parameters it does not depend on (IMRPhenomD, NRTidalv2, IMRPhenomPv2)",
          "IMRPhenomXAS and IMRPhenomPv2 (minutes of compilation) in the thorough tier only"]
NEED = {"second derivatives": 100, "symmetric": 100, "difference quotients": 100, "curvature of amplitude and phase": 100, "models": 3}
COUNT = dict(D=40, T2=60, N2=40)
DEEP = dict(D=800, T=800, T2=800, N=800, N2=800, X=200, P=200)
FN = {}


def cases(ctx):
    rng = np.random.default_rng([24, ctx.seed])
    for name, n in (COUNT if ctx.quick else DEEP).items():
        m = mo.MODELS[name]
        for i in range(n):
            while True:
                c = mo.case(rng, name, n=16, cmax=0.7)
                p = c["p"]
                if 1 - p["m2"] / p["m1"] > 3e-3 and p["m1"] / p["m2"] < 30:
                    break
            if name == "P":
                p["s1"][0] += 0.1
            elif i % 4 == 1:
                p["chi1" if rng.random() < 0.5 else "chi2"] = 0.0
            if m.bns:
                if i % 6 == 1:
                    p["lam1"] = p["lam2"] = 0.0
                for k in ("lam1", "lam2"):
                    if 0.5 < p[k] < 2 or (m.lam == "tilde" and p[k] < 2):
                        p[k] = 50.0
            M = (p["m1"] + p["m2"]) * mo.GT
            lo, hi = (30.0, 1800.0) if m.bns else (0.001 / M, 0.95 * m.fcut / M)
            a, b = np.sort(np.exp(rng.uniform(np.log(lo), np.log(hi), 2)))
            c["f"] = np.geomspace(a, max(b, a * 1.01), 16)
            if name in ("N", "N2"):
                from ..refs import f_merger
                c["f"] = np.linspace(1.02, 1.15, 16) * f_merger(p) if i % 3 == 0 else np.minimum(c["f"], 1.1 * f_merger(p))
                c["strata"] = c["strata"] + (["taper"] if i % 3 == 0 else [])
            c["fref"] = 20.0 if m.bns else float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
            seed = int(rng.integers(2 ** 31))
            for log in (False, True):  # (compiled in separate processes)
                yield dict(c, seed=seed, first=i == 0 and not log, log=log, part=name + ("log" if log else ""), strata=c["strata"] + (["log"] if log else []))


def functions(m, log, ctx):
    if (m.name, log) not in FN:
        T = m.name[0] == "T"

        def L(f, t, r, w):
            hp, hc = m.fn(f, t, 20.0 if T else r)
            return jnp.sum(w * jnp.stack([hp.real, hp.imag, hc.real, hc.imag]))

        def G(f, t, r, w):  # of the logarithm: amplitude and phase themselves (w[2] + i w[3] is the strain at the point of interest)
            z = m.fn(f, t, 20.0 if T else r)[0] / (w[2] + 1j * w[3])
            return jnp.sum(w[0] * jnp.log(jnp.abs(z)) + w[1] * jnp.arctan2(z.imag, z.real))

        def make(L, short):
            d = lambda f, t, r, w, u: jax.jvp(lambda y: L(f, y, r, w), (t,), (u,))[1]
            g = lambda f, t, r, w: jax.grad(lambda y: L(f, y, r, w))(t)
            F = dict(d=jax.jit(d))
            jj = jax.jit(lambda f, t, r, w, u, v: jax.jvp(lambda y: d(f, y, r, w, u), (t,), (v,))[1])
            if short or m.name in "XP":
                F["jvp of jvp"] = jj
            else:
                F["jvp of grad"] = jax.jit(lambda f, t, r, w, u, v: jnp.vdot(u, jax.jvp(lambda y: g(f, y, r, w), (t,), (v,))[1]))
                if T or not ctx.quick:
                    F["jvp of jvp"] = jj
                    F["grad of grad"] = jax.jit(lambda f, t, r, w, u, v: jnp.vdot(v, jax.grad(lambda y: jnp.vdot(u, g(f, y, r, w)))(t)))
            return F
        FN[m.name, log] = make(G, True) if log else make(L, False)
    return FN[m.name, log]


def quotient(at, e):
    """Extrapolated difference quotient and how far two of them differ (they do where a model's join lies inside the step)."""
    D = lambda e: (at(e) - at(-e)) / (2 * e)
    d1, d2, d3 = D(e / 2), D(e), D(2 * e)
    a, b = (4 * d1 - d2) / 3, (4 * d2 - d3) / 3
    return a, max(abs(a - b), 0.1 * abs(d1 - d2))


def run(ctx, c):
    m, p, f, r = mo.MODELS[c["model"]], c["p"], mo.grid_of(c), c["fref"]
    if c["first"]:
        ctx.ev("models")
    rng = np.random.default_rng(c["seed"])
    th, nm = m.theta(p), names(m)
    ctx.sig(m.name, *c["strata"])
    det = dict(model=m.name, f_ref=r, strata=c["strata"])
    J = functions(m, c["log"], ctx)
    h = [np.asarray(x) for x in m.fn(f, th, r)] if m.name not in "XP" else [np.asarray(x) for x in m.jit(f, th, r)]
    A = np.abs(h[0]) + np.abs(h[1]) + 1e-300
    w = rng.normal(size=(4, len(f))) / A / len(f)
    eta = th[1]
    # scales on which the strain changes by a fraction of itself (the phase is large)
    psi = 3 / 128 / eta * (np.pi * (p["m1"] + p["m2"]) * mo.GT * min(f.min(), r)) ** (-5 / 3)
    s = np.array([th[0] / psi, min(eta, 0.25 - eta) / psi] + [0.1 / np.sqrt(psi) if n[0] in "sc" else 10.0 for n in nm[2:-4]] + [p["D"], 1 / (2 * np.pi * f.max()), 1.0, 1.0])
    s *= 0.1
    free = np.array([n not in ("eta",) and n[0] not in "sc" for n in nm]) if m.name[0] in "DNP" else np.ones(len(nm), bool)
    if m.lam == "comp":  # (one-sided at zero)
        free &= ~np.array([n[:3] == "lam" and th[i] == 0.0 for i, n in enumerate(nm)])
    u, v0 = rng.normal(size=(2, len(th))) * s
    for v, smooth in () if c["log"] else ((v0, False), (v0 * free, True)):
        vals = {}
        for k, H in J.items():
            if k == "d":
                continue
            a, b = float(H(f, th, r, w, u, v)), float(H(f, th, r, w, v, u))
            ctx.ev("second derivatives", 2)
            if not ctx.ok(np.isfinite(a) and np.isfinite(b), "finite second derivative", dict(det, nesting=k)):
                return
            vals[k] = a
            size = sum(abs(float(H(f, th, r, w, u * e, v * e))) for e in np.eye(len(th))[:3]) + abs(a) + 1e-3
            ctx.ev("symmetric")
            ctx.close(np.array(a / size), np.array(b / size), 1e-6 + mo.dcond(p, 1e4), "second derivatives are symmetric: " + m.name, dict(det, nesting=k))
        for k in list(vals)[1:]:
            ctx.close(np.array(vals[k] / size), np.array(list(vals.values())[0] / size), 1e-6 + mo.dcond(p, 1e4), "the same in every nesting: " + m.name, dict(det, nesting=k))
        if smooth:
            at = lambda e: float(J["d"](f, th + e * v, r, w, u))
            e = 1e-2
            q, bad = quotient(at, e)
            noise = (2e-15 * (psi + np.max(2 * np.pi * f) * abs(p["tc"]) + 30) + mo.dcond(p, 100.)) / e * 10
            if bad > 0.3 * (1e-3 * size + noise):
                ctx.ev("not converged")
                continue
            ctx.ev("difference quotients")
            ctx.close(np.array(list(vals.values())[0] / size), np.array(q / size), 1e-3 + noise / size, "second derivative = difference quotient: " + m.name, det)
    if not c["log"]:
        return
    # the curvature of amplitude and phase (tiny against the square of the phase's slope above)
    if not np.all(np.abs(h[0]) > 1e-9 * A):
        return
    wg = np.stack([rng.normal(size=len(f)), rng.normal(size=len(f)) / psi, h[0].real, h[0].imag])
    s = np.array([th[0], min(eta, 0.25 - eta)] + [1.0 if n[0] in "sc" else max(10.0, th[i + 2]) for i, n in enumerate(nm[2:-4])] + [p["D"], 1e-3, 1.0, 1.0]) * 0.02
    for v in (v0 / np.abs(v0) * s * free, np.eye(len(th))[int(rng.integers(len(th) - 4))] * s * free):
        if not np.any(v):
            continue
        u = s * np.sign(u)
        H = J["jvp of jvp"]
        a = float(H(f, th, r, wg, u, v))
        size = sum(abs(float(H(f, th, r, wg, s * e, v))) for e in np.eye(len(th))[:4]) + abs(a) + 1e-9
        at = lambda e: float(J["d"](f, th + e * v, r, wg, u))
        e = 1e-2
        noise = (1e-14 + 1e-16 * psi + mo.dcond(p, 100.)) / e
        q, bad = quotient(at, e)
        if bad > 0.3 * (1e-3 * size + noise):
            ctx.ev("not converged")
            continue
        ctx.ev("curvature of amplitude and phase")
        ctx.close(np.array(a / size), np.array(q / size), 1e-3 + noise / size, "curvature of amplitude and phase = difference quotient: " + m.name, dict(det, direction=[float(x) for x in v]))
