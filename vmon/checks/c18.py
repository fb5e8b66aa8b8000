"""The same numbers however a waveform is invoked."""
import jax
import jax.numpy as jnp
import numpy as np
from ripplegw.FD_waveform import FD_waveform_generator
from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomPv2, TaylorF2
from ripplegw.waveforms import IMRPhenomD_NRTidalv2 as NRT
from .. import models as mo

PROP = "C18"
PARTS = ["D", "X", "Xb", "P", "T+T2", "N", "N2+NT"]
RULE = ("a case is one binary of one model evaluated through one alternative way of calling (eager, numpy, jit with static or traced f_ref, fresh jit, vmap over "
        "binaries / f_ref / frequencies, 2-d or integer frequencies, lists, dispatcher, strain-only and component-mass entry points) and through the jitted "
        "polarisation function; distinct by (model, way, strata)")
ASSUME = ["double precision; ways of calling may differ by rounding"]
NEED = {"values compared": 20000, "ways of calling": 113, "models": 8}
WAYS = dict(
    D=["eager", "numpy", "static f_ref", "fresh jit", "vmap theta", "vmap f_ref", "vmap f", "2-d f", "int f", "scalar f", "list theta", "strain", "dispatcher", "jnp f_ref", "map", "dispatcher eager", "dispatcher jit", "float32 scalar f_ref"],
    X=["eager", "strain", "dispatcher", "vmap theta", "numpy", "vmap f", "jnp f_ref", "int f"],
    P=["eager", "numpy", "static f_ref", "fresh jit", "vmap theta", "vmap f_ref", "vmap f", "2-d f", "int f", "scalar f", "list theta", "masses", "dispatcher", "jnp f_ref", "map"],
    T=["eager", "numpy", "fresh jit", "vmap theta", "vmap f", "2-d f", "int f", "scalar f", "list theta", "strain", "map"],
    N=["eager", "numpy", "static f_ref", "fresh jit", "vmap theta", "vmap f_ref", "vmap f", "2-d f", "int f", "scalar f", "list theta", "strain", "dispatcher", "jnp f_ref", "map", "dispatcher eager"],
)
FREF = dict(int=int, f32=np.float32, f64=np.float64, i64=np.int64, jnp=jnp.asarray, nd=np.asarray)  # types a reference frequency may come in
for _k, _v in WAYS.items():
    _v += ["f_ref as " + t for t in (FREF if _k != "X" else ("int", "nd"))]
    _v += ["mixed list theta", "tuple theta"] if _k != "X" else []
WAYS["T2"] = [w for w in WAYS["T"]]
WAYS["N2"] = ["eager", "vmap theta", "vmap f", "strain", "numpy"]
WAYS["NT"] = ["eager", "vmap theta", "strain"]
STRAIN = dict(D=IMRPhenomD.gen_IMRPhenomD, X=IMRPhenomXAS.gen_IMRPhenomXAS, T=TaylorF2.gen_TaylorF2, N=NRT.gen_IMRPhenomD_NRTidalv2,
              T2=lambda f, t, r: TaylorF2.gen_TaylorF2(f, t, r, use_lambda_tildes=False),
              N2=lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2(f, t, r, use_lambda_tildes=False),
              NT=lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2(f, t, r, use_lambda_tildes=False, no_taper=True))
DISP = dict(D="D", X="XAS", P="Pv2", N="D_NRTidalv2")
B = 4  # batch size


def cases(ctx):
    rng = np.random.default_rng([18, ctx.seed])
    for rep in range(1 if ctx.quick else 10):
        for name, ways in WAYS.items():
            for w in ways:
                slow = w.startswith("f_ref as") or w in ("mixed list theta", "tuple theta","eager", "numpy", "list theta", "dispatcher eager", "vmap f", "fresh jit", "static f_ref")
                k = {"X": 1 if slow else 4}.get(name, (1 if name in "DN" and w != "eager" else 2) if slow else 6)
                for i in range(k):
                    c = mo.case(rng, name, cmax=0.9 if name != "X" else None)
                    if name[0] == "T":
                        c["fref"] = 20.0
                    if w.startswith("f_ref as"):  # (a value every type represents)
                        c["fref"] = float(max(2, int(c["fref"])))
                    if w == "int f":
                        M = (c["p"]["m1"] + c["p"]["m2"]) * mo.GT
                        a = max(3, int(0.002 / M))
                        b = max(a + 64, int((0.05 if mo.MODELS[name].bns else 0.25) / M))  # (into the tapers and past the joins)
                        c["f"] = np.round(np.linspace(a, b, 64) if i % 2 == 0 else a + np.arange(64))
                        c["fref"] = a + float(mo.pick(rng, 0.0, 0.5, rng.uniform(0, 1)))
                    others = [mo.params(rng, mo.MODELS[name].kind, 0.9) for _ in range(B - 1)]
                    part = "Xb" if name == "X" and w in ("vmap theta", "vmap f", "dispatcher", "int f") else name
                    yield dict(c, part=part, way=w, others=others, pos=int(rng.integers(B)), first=rep == i == 0)
    yield dict(model="D", way="unknown name")


CACHE = {}


def cached(key, make):
    if key not in CACHE:
        CACHE[key] = make()
    return CACHE[key]


def run(ctx, c):
    w = c["way"]
    if w == "unknown name":
        for name in ("NoSuchModel", "imrphenomd ", "", "d", "XASX", None, 3):
            try:
                FD_waveform_generator().generate_waveform(name, jnp.linspace(20., 40., 4), jnp.array([20., .24, 0, 0, 400., 0, 0, 0]), 20.)
                ctx.ok(False, "unknown model name raises ValueError", dict(name=name))
            except ValueError as e:
                ctx.ok(repr(name).strip("'\"") in str(e), "unknown model name raises ValueError", dict(name=name, error=str(e)))
        return
    m, p, f, fr = mo.MODELS[c["model"]], c["p"], mo.grid_of(c), c["fref"]
    T = m.name[0] == "T"
    th = m.theta(p)
    want = m.jit(f, th, fr)
    if c["first"]:
        ctx.ev("ways of calling")
        if w == "eager":
            ctx.ev("models")
    ctx.sig(m.name, w, *c["strata"])
    det = dict(model=m.name, way=w, f_ref=fr)
    pos = c["pos"]
    batch = np.stack([m.theta(o) for o in c["others"]])
    batch = np.insert(batch, pos, th, axis=0)
    sel = slice(None)
    if w == "eager":
        got = m.eager(f, th, fr)
    elif w == "numpy":
        got = m.fn(f, th, fr)
    elif w.startswith("f_ref as"):
        got = m.fn(jnp.asarray(f), jnp.asarray(th), FREF[w[9:]](fr))
    elif w == "list theta":
        got = m.fn(jnp.asarray(f), [float(x) for x in th], fr)
    elif w == "tuple theta":
        got = m.fn(jnp.asarray(f), tuple(float(x) for x in th), fr)
    elif w == "mixed list theta":  # whole numbers given as integers
        th = np.where(np.arange(len(th)) > 1, np.round(th), th)
        if m.kind == "prec":
            th[[2, 3, 4, 5, 6, 7]] = [0, 1, 0, 0, 0, 0]
        else:
            th[[2, 3]] = [0, c["pos"] % 2]
        th[-4] = max(th[-4], 1)
        want = m.jit(f, th, fr)
        got = m.fn(jnp.asarray(f), [float(x) if i < 2 else [int(x), np.int64(x), np.float64(x)][i % 3] for i, x in enumerate(th)], fr)
        p = dict(p, tc=th[-3])
    elif w == "static f_ref":
        got = cached((m.name, w, fr), lambda: jax.jit(m.fn, static_argnums=2))(f, th, fr)
    elif w == "fresh jit":
        got = jax.jit(lambda a, b: m.fn(a, b, fr))(f, th)
    elif w == "jnp f_ref":
        got = cached((m.name, w), lambda: jax.jit(m.fn))(jnp.asarray(f), jnp.asarray(th), jnp.asarray(fr))
    elif w == "float32 scalar f_ref":
        fr = float(np.float32(fr))
        want = m.jit(f, th, fr)
        got = cached((m.name, "jnp f_ref"), lambda: jax.jit(m.fn))(jnp.asarray(f), jnp.asarray(th), jnp.asarray(fr))
    elif w == "vmap theta":
        g = cached((m.name, w), lambda: jax.jit(jax.vmap(m.fn, in_axes=(None, 0, None)), static_argnums=2 if T else None)) if T is False else \
            cached((m.name, w, fr), lambda: jax.jit(jax.vmap(lambda a, b: m.fn(a, b, fr), in_axes=(None, 0))))
        got = g(f, batch, fr) if not T else g(f, batch)
        got = [x[pos] for x in got]
    elif w == "vmap f_ref":
        rs = fr * np.array([1.0, 1.1, 0.9, 0.7])
        rs[[0, pos]] = rs[[pos, 0]]
        got = [x[pos] for x in cached((m.name, w), lambda: jax.jit(jax.vmap(m.fn, in_axes=(None, None, 0))))(f, th, rs)]
    elif w == "vmap f":
        got = jax.vmap(lambda x: m.fn(x, jnp.asarray(th), fr))(jnp.asarray(f)) if m.name != "X" else \
            cached((m.name, w), lambda: jax.jit(jax.vmap(m.fn, in_axes=(0, None, None))))(f, th, fr)
    elif w == "2-d f":
        g = cached((m.name, w, fr if T else 0), lambda: jax.jit(m.fn, static_argnums=2 if T else None)) if T else cached((m.name, w), lambda: jax.jit(m.fn))
        got = g(f.reshape(8, 8), th, fr)
        if not ctx.ok(all(np.shape(x) == (8, 8) for x in got), "shape follows the frequencies", det):
            return
        got = [np.asarray(x).reshape(-1) for x in got]
    elif w == "int f":
        g = cached((m.name, w, fr if T else 0), lambda: jax.jit(m.fn, static_argnums=2) if T else jax.jit(m.fn))
        got = g(f.astype(int), th, fr)
    elif w == "scalar f":
        j = int(np.argmax(np.abs(want[0])))
        g = cached((m.name, w, fr if T else 0), lambda: jax.jit(m.fn, static_argnums=2) if T else jax.jit(m.fn))
        got = [np.asarray(x) for x in g(np.float64(f[j]), th, fr)]
        if not ctx.ok(all(x.shape == () for x in got), "shape follows the frequencies", det):
            return
        got, sel = [x[None] for x in got], slice(j, j + 1)
    elif w == "map":
        g = cached((m.name, w, fr if T else 0), lambda: jax.jit(lambda a, b, r: jax.lax.map(lambda t: m.fn(a, t, r), b), static_argnums=2) if T else
                   jax.jit(lambda a, b, r: jax.lax.map(lambda t: m.fn(a, t, r), b)))
        got = [x[pos] for x in g(f, batch, fr)]
    elif w == "strain":
        h = cached((m.name, w, fr if T else 0), lambda: jax.jit(STRAIN[m.name], static_argnums=2) if T else jax.jit(STRAIN[m.name]))
        co = np.cos(p["inc"])
        # with and without the trailing inclination
        h1, h2 = np.asarray(h(f, th, fr)), np.asarray(STRAIN[m.name](jnp.asarray(f), jnp.asarray(th[:-1]), fr)) if m.name not in ("X",) else None
        got = [h1 * (1 + co * co) / 2, -1j * h1 * co]
        if h2 is not None:
            on = np.abs(h1) > 0
            ctx.close(h2[on] / np.abs(h1[on]), h1[on] / np.abs(h1[on]), 1e-8 + mo.dcond(p), "strain does not need the inclination", det)
    elif w == "masses":
        m1, m2 = mo.ms_from(th[0], th[1])
        got = cached((m.name, w), lambda: jax.jit(IMRPhenomPv2.gen_IMRPhenomPv2))(f, np.array([m1, m2, *th[2:]]), fr)
    elif w.startswith("dispatcher"):
        t = th.copy()
        if m.name == "P":  # (the generator's precessing model takes component masses)
            t[:2] = mo.ms_from(th[0], th[1])
        gen = FD_waveform_generator()
        if w == "dispatcher eager":
            got = gen.generate_waveform(DISP[m.name], jnp.asarray(f), jnp.asarray(t), fr)
        else:
            got = cached((m.name, w), lambda: jax.jit(lambda a, b, r: gen.generate_waveform(DISP[m.name], a, b, r)))(f, t, fr)
    if not ctx.ok(isinstance(got, (tuple, list)) and len(got) == 2, "a pair of polarisations", det):
        return
    got = [np.asarray(x) for x in got]
    want = [x[sel] for x in want]
    ctx.ok(all(x.dtype == np.complex128 for x in got), "double precision complex", dict(det, dtype=[str(x.dtype) for x in got]))
    A = np.abs(want[0]) + np.abs(want[1])
    on = A > 0
    ctx.ev("values compared", 2 * int(on.sum()))
    # rounding: phases at the lowest frequency, mass difference from eta
    lo = min(np.min(f), fr or np.inf) * (p["m1"] + p["m2"]) * mo.GT
    eta = mo.mc_eta(p["m1"], p["m2"])[1]
    tol = 1e-8 + 2e-14 * (3 / 128 / eta * (np.pi * lo) ** (-5 / 3)) + 4e-13 * np.max(np.abs(f * p["tc"])) + mo.dcond(p)
    if any(x.shape != on.shape for x in got):
        return ctx.ok(False, "shape follows the frequencies", dict(det, shapes=[x.shape for x in got]))
    for g, x, pol in zip(got, want, ("plus", "cross")):
        ctx.close(g[on] / A[on], x[on] / A[on], tol, "same strain: " + w, dict(det, pol=pol))
        # (a frequency within rounding of a cut-off may fall on either side)
        Mf = f[sel] * (p["m1"] + p["m2"]) * mo.GT
        ctx.ok(not np.any(g[~on & (np.abs(Mf / (m.fcut or 1e9) - 1) > 1e-8)]), "same support: " + w, det)
