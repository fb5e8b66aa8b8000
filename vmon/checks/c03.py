"""Parameter samplers."""
import jax
import jax.numpy as jnp
import numpy as np
import ripplegw as rg

PROP = "C03"
RULE = ("a case is one sampler with one pair of ranges and one sample size, drawn from several keys; distinct by (sampler, range relation, size, key)")
ASSUME = ["uniformity is tested with fixed keys and Kolmogorov distances six standard errors wide, so the verdict is deterministic"]
NEED = {"samples drawn": 20000}


def cases(ctx):
    rng = np.random.default_rng([3, ctx.seed])
    for rep in range(2 if ctx.quick else 30):
        for kind in ("M_eta", "m1_m2"):
            for rel in ("overlap", "disjoint", "reversed", "same", "point", "narrow", "wide", "negative", "list", "array"):
                for n in (0, 1, 2, 7, 4000) + ((65537,) if rel == "overlap" else ()):
                    a = np.sort(rng.uniform(1, 50, 2))
                    b = {"overlap": np.array([a[0] * .7, (a[0] + a[1]) / 2]), "disjoint": a[0] * np.array([.1, .5]), "reversed": a[1] + np.array([1., 9.]),
                         "same": a, "point": np.array([a[0], a[0]]), "narrow": a[0] * np.array([1, 1 + 1e-12]), "wide": np.array([1e-6, 1e9]),
                         "negative": np.array([-5., 3.]), "list": a * .5, "array": a * .5}[rel]
                    if kind == "M_eta" and rel in ("overlap", "list", "array"):
                        b = np.array([0.02, 0.25])
                    yield dict(kind=kind, rel=rel, n=n, r1=a.tolist(), r2=b.tolist(), key=int(rng.integers(2 ** 31)))


def runs(ctx, key, s, x, n, det):
    """Rows are independent of each other and of the rows drawn with related keys."""
    u = np.argsort(np.argsort(x, axis=0), axis=0) / n - 0.5  # ranks
    for lag in (1, 2, n // 2):
        c = np.mean(u[lag:] * u[:-lag], axis=0) * 12
        ctx.close(c, np.zeros(2), 6 / np.sqrt(n - lag), "draws independent of earlier draws", dict(det, lag=lag))
    for name, k in (("next", jax.random.fold_in(key, 1)), ("split 0", jax.random.split(key)[0]), ("split 1", jax.random.split(key)[1])):
        y = np.asarray(s(k, n))
        v = np.argsort(np.argsort(y, axis=0), axis=0) / n - 0.5
        ctx.ok(not np.any(x == y), "another key, another sample", dict(det, key=name))
        ctx.close(np.mean(u * v, axis=0) * 12, np.zeros(2), 6 / np.sqrt(n), "draws with related keys independent", dict(det, key=name))
    # every kind of key, and transformed calls
    t = np.asarray(s(jax.random.wrap_key_data(key), n))
    ctx.ok(np.array_equal(t, x), "new-style key, same sample", det)
    j = np.asarray(jax.jit(lambda k: s(k, n))(key))
    ctx.ok(np.allclose(j, x, rtol=1e-12, atol=0), "same sample inside jit", det)
    b = np.asarray(jax.jit(jax.vmap(lambda k: s(k, n)))(jnp.stack([jax.random.PRNGKey(1), key])))[1]
    ctx.ok(np.allclose(b, x, rtol=1e-12, atol=0), "same sample inside vmap", det)


def ks(x, lo, hi):
    x = np.sort((x - lo) / (hi - lo))
    i = np.arange(1, len(x) + 1)
    return max(np.max(i / len(x) - x), np.max(x - (i - 1) / len(x)))


def run(ctx, c):
    n, r1, r2 = c["n"], c["r1"], c["r2"]
    conv = {"list": list, "array": lambda r: jnp.array(r)}.get(c["rel"], tuple)
    mk = rg.get_M_eta_sampler if c["kind"] == "M_eta" else rg.get_m1_m2_sampler
    s = mk(conv(r1), conv(r2))
    key = jax.random.PRNGKey(c["key"])
    x = np.asarray(s(key, n))
    ctx.sig(c["kind"], c["rel"], n, c["key"] % 7)
    ctx.ev("samples drawn", n)
    det = dict(kind=c["kind"], rel=c["rel"], n=n)
    if not ctx.ok(x.shape == (n, 2), "shape (n, 2)", dict(det, shape=x.shape)):
        return
    ctx.ok(np.array_equal(np.asarray(s(key, n)), x), "same key, same sample", det)
    ctx.ok(np.array_equal(np.asarray(mk(conv(r1), conv(r2))(key, n)), x), "independent of the sampler instance", det)
    if n >= 7 and c["rel"] not in ("point", "narrow"):
        y = np.asarray(s(jax.random.PRNGKey(c["key"] + 1), n))
        ctx.ok(not np.any(x == y), "another key, another sample", det)
        ctx.ok(len(np.unique(x[:, 0])) > 0.99 * n, "draws are distinct", det)
    if n >= 1000 and c["rel"] not in ("point", "narrow"):
        runs(ctx, key, s, x, n, det)
    ctx.ok(np.all(np.isfinite(x)), "finite", det)
    if c["kind"] == "M_eta":
        for j, (lo, hi) in enumerate((r1, r2)):
            ctx.ok(np.all((x[:, j] >= lo) & (x[:, j] <= hi)), "column %d inside its range" % j, det)
            if n >= 1000 and hi > lo * (1 + 1e-9):
                ctx.close(np.array(ks(x[:, j], lo, hi)), np.array(0.0), 3.0 / np.sqrt(n), "column %d uniform" % j, det)
        if n >= 1000 and r1[1] > r1[0] and r2[1] > r2[0] * (1 + 1e-9):
            ctx.close(np.array(np.corrcoef(x.T)[0, 1]), np.array(0.0), 6 / np.sqrt(n), "columns independent", det)
        return
    ctx.ok(np.all(x[:, 0] >= x[:, 1]), "first not smaller than second", det)
    in1 = lambda v: (v >= r1[0]) & (v <= r1[1])
    in2 = lambda v: (v >= r2[0]) & (v <= r2[1])
    ok = (in1(x[:, 0]) & in2(x[:, 1])) | (in1(x[:, 1]) & in2(x[:, 0]))
    ctx.ok(np.all(ok), "one value from each range", det)
    if n >= 1000 and c["rel"] not in ("point", "narrow"):
        # distribution: (max, min) of independent uniforms
        z = np.linspace(min(r1[0], r2[0]), max(r1[1], r2[1]), 41)
        F = lambda z, r: np.clip((z - r[0]) / (r[1] - r[0]), 0, 1)
        cmax = np.array([np.mean(x[:, 0] <= t) for t in z])
        cmin = np.array([np.mean(x[:, 1] <= t) for t in z])
        ctx.close(cmax, F(z, r1) * F(z, r2), 3.0 / np.sqrt(n), "larger value distributed as the maximum", det)
        ctx.close(cmin, 1 - (1 - F(z, r1)) * (1 - F(z, r2)), 3.0 / np.sqrt(n), "smaller value distributed as the minimum", det)
        # joint: independence of the two draws through E[xy]
        u, v = np.mean(r1), np.mean(r2)
        sd = np.std(x[:, 0] * x[:, 1])
        ctx.close(np.array(np.mean(x[:, 0] * x[:, 1])), np.array(u * v), 6 * sd / np.sqrt(n) + 1e-12 * abs(u * v), "draws independent", det)
