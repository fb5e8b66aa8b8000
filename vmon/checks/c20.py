"""The default (single-precision) mode."""
import os
import subprocess
import sys
import tempfile

import jax
import numpy as np
from .. import models as mo
from .. import ref64
from .. import signals as sg

PROP = "C20"
PARTS = ["D", "X", "P", "T+T2", "N+N2", "NT+conversions+psd+sg+match+samplers"]
RULE = ("a case is a batch of inputs (exactly representable in single precision) to one public function in a process with JAX's default settings, and the same inputs in a "
        "double-precision process; distinct by (function, strata)")
ASSUME = ["tolerances follow the rounding of single-precision phases: 6e-8 times the accumulated phase, with a margin measured once",
          "frequencies between 10 Hz and the end of the model; chirp masses 1 to 100"]
NEED = {"single-precision waveforms": 240, "conversions": 600, "psd values": 4000, "bursts": 40, "matches": 40, "samples": 8000}
KINDS = dict(D=60, X=60, P=60, T=30, T2=30, N=40, N2=30, NT=30)


def cases(ctx):
    rng = np.random.default_rng([20, ctx.seed])
    for rep in range(1 if ctx.quick else 15):
        for name, n in KINDS.items():
            yield dict(model=name, n=n, seed=int(rng.integers(2 ** 31)))
        for k in ("conversions", "psd", "sg", "match", "samplers"):
            yield dict(model=k, seed=int(rng.integers(2 ** 31)))


def double(d):
    with tempfile.TemporaryDirectory() as tmp:
        np.savez(tmp + "/in.npz", **d)
        subprocess.run([sys.executable, "-m", "vmon.ref64", tmp + "/in.npz", tmp + "/out.npz"], check=True, env=dict(os.environ))
        with np.load(tmp + "/out.npz") as z:
            return {k: z[k] for k in z}


def run(ctx, c):
    rng = np.random.default_rng(c["seed"])
    k = c["model"]
    if k in mo.MODELS:
        return waveforms(ctx, c, rng)
    (run_sg if k == "sg" else globals()[k])(ctx, rng)


def waveforms(ctx, c, rng):
    name = c["model"]
    m = mo.MODELS[name]
    f32 = np.float32
    F, TH, R, PS = [], [], [], []
    while len(F) < c["n"]:
        p = mo.params(rng, m.kind, 0.99 if not m.bns else 0.7, (0.7, 2.3))
        if p["m1"] / p["m2"] > 20:
            continue
        p["tc"] = float(mo.pick(rng, 0.0, rng.uniform(-.1, .1)))
        p["D"] = float(10 ** rng.uniform(1, 4))
        M = (p["m1"] + p["m2"]) * mo.GT
        hi = 2000.0 if m.bns else min(0.95 * m.fcut / M, 3000.0)
        f = np.geomspace(max(10.0, 2e-4 / M), hi, 64)
        F.append(f.astype(f32))
        th = m.theta(p).astype(f32)
        th[1] = min(th[1], f32(0.25))
        TH.append(th)
        R.append(f32(mo.pick(rng, 20.0, 50.0, f[10])) if name[0] != "T" else f32(20.0))
        PS.append(p)
    d = dict(kind=name, f=np.array(F), theta=np.array(TH), fref=np.array(R))
    got, want = ref64.evaluate(d), double(d)
    for i, p in enumerate(PS):
        det = dict(model=name, p={k: v for k, v in p.items() if k != "strata"}, f_ref=float(R[i]))
        ctx.ev("single-precision waveforms")
        ctx.sig(name, *p["strata"])
        f = F[i].astype(float)
        M, eta = (p["m1"] + p["m2"]) * mo.GT, mo.mc_eta(p["m1"], p["m2"])[1]
        psi = 3 / 128 / eta * (np.pi * M * min(f[0], float(R[i]))) ** (-5 / 3)
        med = 1e-3 + 6e-8 * 40 * (psi + 2 * np.pi * f[-1] * (abs(p["tc"]) + 50 * M) + abs(p["phic"]))
        A = np.abs(want["hp"][i]) + np.abs(want["hc"][i])
        on = A > 1e-30
        if name[0] == "N":  # (next to the end of the taper, exponentials of large numbers)
            on &= A > 1e-3 * np.max(A) * (f / f[0]) ** (-7 / 6)
        for pol in ("hp", "hc"):
            g, w = got[pol][i], want[pol][i]
            ctx.ok(g.dtype == np.complex64, "single precision in, single precision out", dict(det, dtype=str(g.dtype)))
            if not ctx.ok(np.all(np.isfinite(g)), "finite", dict(det, pol=pol, n=int((~np.isfinite(g)).sum()))):
                continue
            # (the merger-ringdown coefficients solve small ill-conditioned systems: single frequencies may be off by more than most)
            ctx.close(g[on] / A[on], w[on] / A[on], 0.02 + 5 * med if name[0] == "T" else 0.4 + 5 * med, "single = double precision: " + name, dict(det, pol=pol))
            ctx.close(np.median(np.abs(g[on] - w[on]) / A[on]), np.array(0.0), 10 * med, "single = double precision, median: " + name, dict(det, pol=pol))
            ctx.close(np.abs(g[~on]), np.abs(w[~on]), 3e-3 * np.max(A), "single = double precision outside the band", dict(det, pol=pol))
        G, W = got["hp"][i].astype(complex), want["hp"][i]
        nrm = np.sqrt(np.sum(np.abs(G / W.max()) ** 2) * np.sum(np.abs(W / W.max()) ** 2))
        if nrm > 1e-6:  # (edge-on precessing binaries aside: hp never vanishes for aligned spins)
            o = abs(np.sum(G / W.max() * np.conj(W / W.max()))) / nrm
            ctx.close(np.array(1 - o), np.array(0.0), 1e-3, "mismatch of single and double precision", det)


def conversions(ctx, rng):
    f32 = np.float32
    n = 300
    m1, q = 10 ** rng.uniform(0, 2, n), np.where(rng.random(n) < .3, 1 - 10 ** rng.uniform(-5, -1, n), rng.uniform(.1, 1, n))
    q[:5] = 1.0
    m = np.stack([m1, m1 * q], 1).astype(f32)
    mc = np.array([mo.mc_eta(float(a), float(b)) for a, b in m]).astype(f32)
    mc[:, 1] = np.minimum(mc[:, 1], 0.25)
    lam = rng.uniform(0, 5000, (n, 2))
    lt = np.array([mo.lt_dlt(*l, float(a), float(b)) for l, (a, b) in zip(lam, m)])
    qq = (m[:, 1] / m[:, 0]).astype(f32)[:, None]
    d = dict(kind="conversions", ms_to_Mc_eta=m, Mc_eta_to_ms=mc, lambdas_to_lambda_tildes=np.hstack([lam, m]), lambdas_to_lambda_tildes_from_q=np.hstack([lam, qq]),
             lambda_tildes_to_lambdas=np.hstack([lt, m]), lambda_tildes_to_lambdas_from_q=np.hstack([lt, qq]), get_chi_eff=np.hstack([m, rng.uniform(-1, 1, (n, 2))]),
             get_f_isco=10 ** rng.uniform(30, 34, (n, 1)))
    d = {k: (v if k == "kind" else v.astype(f32)) for k, v in d.items()}
    got, want = ref64.evaluate(d), double(d)
    for k in want:
        ctx.ev("conversions", n)
        ctx.sig("conversions", k)
        ctx.ok(got[k].dtype == f32, "single precision in, single precision out", dict(fn=k, dtype=str(got[k].dtype)))
        if not ctx.ok(np.all(np.isfinite(got[k])), "finite", dict(fn=k)):
            continue
        tol, s = 3e-6, np.abs(want[k]) + 1e-30
        if k == "Mc_eta_to_ms":
            dl = np.sqrt(np.maximum(1 - 4 * mc[:, 1].astype(float), 0))[:, None]
            tol = 3e-6 + 3e-6 / np.maximum(dl, 1e-3)
        elif k[:6] == "lambda":
            # relative to the largest component (differences of large numbers), and the mass difference from eta
            s = np.max(np.abs(want[k]), axis=1, keepdims=True) + np.max(np.abs(d[k][:, :2]), axis=1, keepdims=True)
            dl = ((m[:, 0].astype(float) - m[:, 1]) / (m[:, 0].astype(float) + m[:, 1]))[:, None]
            tol = 1e-4 + 1e-5 / np.maximum(dl, 1e-3)
        elif k == "get_chi_eff":
            s = 1.0
        ctx.close(got[k] / s, want[k] / s, tol, "single = double precision: " + k, dict(fn=k))


def psd(ctx, rng):
    f = np.concatenate([10 ** rng.uniform(0.5, 3.9, 800), [0.0, 1.0, 9.9, 1e5]]).astype(np.float32)
    d = dict(kind="psd", f=f)
    got, want = ref64.evaluate(d), double(d)
    for k in want:
        g, w = got[k], want[k]
        ctx.ev("psd values", len(f))
        ctx.sig("psd", k)
        ctx.ok(not np.any(np.isnan(g)), "finite", dict(curve=k))
        out = np.isinf(w)
        # (float32 rounding may move a frequency across the edge of the table)
        ctx.ok(np.mean(np.isinf(g) != out) < 0.01, "infinite outside the band", dict(curve=k))
        both = ~out & np.isfinite(g)
        zero = both & (g == 0)
        if np.any(zero):
            small = np.all(w[zero] < 1.2e-38)  # below the smallest normal single-precision number
            ctx.ok(False, "positive", dict(curve=k, f=f[zero][0]), mech="psd-underflow" if small else None)
        m = both & ~zero & (w > 1e-36)
        ctx.close(g[m] / w[m], np.ones(m.sum()), 1e-3, "single = double precision: psd", dict(curve=k))


def sg_inputs(rng, n=60):
    th = np.stack([10 ** rng.uniform(0, 2, n), 10 ** rng.uniform(1, 3.3, n), 10 ** rng.uniform(-24, -19, n), rng.uniform(0, 6.3, n), rng.uniform(0, 1, n)], 1).astype(np.float32)
    th[:4, 4] = [0.0, 1.0, 0.0, 1.0]
    tau = th[:, 0] / (2 * np.pi * th[:, 1])
    t = (rng.uniform(-3, 3, (n, 128)) * tau[:, None]).astype(np.float32)
    return dict(kind="sg", t=t, theta=th)


def run_sg(ctx, rng):
    d = sg_inputs(rng)
    got, want = ref64.evaluate(d), double(d)
    for i, th in enumerate(d["theta"]):
        ctx.ev("bursts")
        ctx.sig("sg", i % 10)
        for pol in ("hp", "hc"):
            g, w = got[pol][i], want[pol][i]
            ctx.ok(g.dtype == np.float32, "single precision in, single precision out", dict(dtype=str(g.dtype)))
            s = np.sqrt(np.max(want["hp"][i] ** 2 + want["hc"][i] ** 2))
            ctx.close(g / s, w / s, 2e-5 + 2e-6 * float(th[0]), "single = double precision: sine-Gaussian", dict(theta=th.tolist(), pol=pol))


def match(ctx, rng):
    # (any scale at which squares of the strains and the noise are normal numbers)
    for scale in (1.0, 1e-14, 1e14, 10 ** rng.uniform(-15, 15)):
        df = float(mo.pick(rng, 0.25, 0.5, 1.0))
        f = (np.arange(40, 400) * df).astype(np.float32)
        S = (1 + (f / 60) ** -4 + (f / 200) ** 2).astype(np.float32)
        n = 16
        a, b = (np.array([h / np.max(np.abs(h)) for h in (sg.strain(rng, f.astype(float), kind)[1] for kind in ["random", "chirp"] * (n // 2))]).astype(np.complex64) for _ in range(2))
        S = (S * np.float32(scale) ** 2).astype(np.float32)
        a, b = a * np.float32(scale), b * np.float32(scale)
        d = dict(kind="match", f=f, S=S, a=a, b=b, dt=rng.uniform(-.2, .2, n).astype(np.float32))
        got, want = ref64.evaluate(d), double(d)
        ctx.ev("matches", n)
        ctx.sig("match", df, int(np.log10(scale)))
        ctx.ok(np.array_equal(got["pads"], want["pads"]), "same pads", dict(df=df, got=got["pads"], want=want["pads"]))
        ctx.ok(got["match"].dtype == np.float32 and got["inner"].dtype == np.float32, "single precision in, single precision out", dict(df=df))
        ctx.close(got["match"], want["match"], 1e-4, "single = double precision: match", dict(df=df))
        nrm = 4 * df * np.array([np.sqrt(np.sum(np.abs(x) ** 2 / S) * np.sum(np.abs(y) ** 2 / S)) for x, y in zip(a, b)])
        ctx.close(got["inner"] / nrm, want["inner"] / nrm, 1e-4, "single = double precision: inner product", dict(df=df))


def samplers(ctx, rng):
    import ripplegw as rg
    for i in range(6):
        a, b = sorted(rng.uniform(1, 50, 2)), sorted(rng.uniform(1, 50, 2))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        n = 1500
        x = np.asarray(rg.get_M_eta_sampler(tuple(a), (0.1, 0.25))(key, n))
        y = np.asarray(rg.get_m1_m2_sampler(tuple(a), tuple(b))(key, n))
        ctx.ev("samples", 2 * n)
        ctx.sig("samplers", i)
        ctx.ok(x.dtype == y.dtype == np.float32, "single precision in, single precision out", dict(dtype=str(x.dtype)))
        e = 1e-5
        ctx.ok(x.shape == y.shape == (n, 2) and np.all((x >= np.array([a[0], .1]) * (1 - e)) & (x <= np.array([a[1], .25]) * (1 + e))), "samples inside their ranges", dict(a=a))
        ctx.ok(np.all(y[:, 0] >= y[:, 1]) and np.all(y.min() >= min(a + b) * (1 - e)) and np.all(y.max() <= max(a + b) * (1 + e)), "samples ordered and inside their ranges", dict(a=a, b=b))
        ctx.close(np.mean(x[:, 0]), np.array(np.mean(a)), 6 * (a[1] - a[0]) / np.sqrt(12 * n), "mean of the samples", dict(a=a))
