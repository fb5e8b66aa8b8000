"""No side effects, no memory: purity, determinism, concurrency, process state."""
import json
import os
import subprocess
import sys
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from .. import ops as vo

PROP = "C19"
PARTS = ["inputs", "history", "leaks", "leaksX", "process", "threads", "neighbours"]
RULE = ("a case is one history: a sequence of calls (valid, failing, traced, differentiated, batched) in one process, a fresh process with its own import order, "
        "hash seed and working directory, or a set of threads making calls concurrently; results are compared bit for bit with the same call made alone; distinct by "
        "(kind of history, operation, position)")
ASSUME = ["one machine and one JAX/XLA version: bitwise equality is required between calls with the same inputs and the same way of calling"]
NEED = {"inputs compared after the call": 80, "results compared with the call made alone": 300, "fresh processes": 6, "concurrent calls": 150,
        "settings compared": 12, "calls with neighbouring arguments": 200, "traces without leaked tracers": 15}
THREADED = ["D/0", "P/0", "T/0", "N/0", "T2/1", "N2/1", "D/1", "P/1", "N/1", "inner", "match", "sg", "psd/aLIGO", "psd/O2", "psd/et", "conv/ms", "conv/lt", "pads",
            "sampler/m1_m2", "conv/tl", "D/2", "P/2"]


def cases(ctx):
    rng = np.random.default_rng([19, ctx.seed])
    ops = list(vo.inputs(ctx.seed))
    n = 1 if ctx.quick else 6
    for k in ops:
        for how in ("numpy", "read-only", "changed afterwards", "list", "same object"):
            yield dict(model="inputs", op=k, how=how)
    for i in range(n):
        seq = [ops[j] for j in rng.integers(0, len(ops), 110 if ctx.quick else 400)]
        seq = [k for k in seq if k[0] != "X" or rng.random() < 0.25]
        extra = [mo for mo in rng.choice(["unknown name", "nan input", "wrong shape", "grad", "vmap", "jit", "float32 input", "missing f_ref", "scalar f", "jvp", "keyboard"], len(seq))]
        yield dict(model="history", seq=seq, extra=extra, seed=ctx.seed + 1000 * i)
    for m in ("D", "P", "T", "N", "T2", "N2", "X", "inner", "sg", "match", "psd/aLIGO", "psd/O2", "psd/LIGOI", "conv/ms", "conv/mc", "conv/lt", "conv/tl", "conv/ltq", "conv/tlq", "conv/chi"):
        for how in ("jit", "vmap", "grad") if m != "X" else ("jit",):
            yield dict(model="leaks", part="leaksX" if m in "XN" else "leaks", op=m, how=how, seed=ctx.seed)
    variants = []
    for i in range(6 if ctx.quick else 24):
        imp = list(vo.MODULES)
        if i:
            rng.shuffle(imp)
        o = list(ops)
        if i:
            rng.shuffle(o)
        variants.append(dict(imports=imp, order=[k for k in o if k[0] != "X" or k == "X/0"], jit=["D/0", "P/0", "T/1", "N/1"], x64=i % 3 != 2, seed=ctx.seed,
                             hashseed=int(rng.integers(1, 2 ** 31)) if i else 0, env={"OMP_NUM_THREADS": str(rng.integers(1, 5))}))
    yield dict(model="process", variants=variants)
    some = ["D/0", "P/0", "T/0", "N/0", "T2/0", "N2/0", "X/0"] if ctx.quick else [k for k in ops if k[0] in "DPTNX" and "/" in k]
    for k in some + [k for k in ops if k[:4] in ("conv", "psd/", "samp") or k in ("inner", "match", "sg", "pads")]:
        yield dict(model="neighbours", op=k, seed=ctx.seed)
    for i in range(1 if ctx.quick else 6):
        nt = 8
        seqs = [[THREADED[j] for j in rng.integers(0, len(THREADED), 26 if ctx.quick else 80)] for _ in range(nt)]
        yield dict(model="threads", threads=seqs, seed=ctx.seed + 77 * i)


def spawn(spec, hashseed=0, env=None):
    tmp = tempfile.mkdtemp(prefix="c19-")
    os.makedirs(tmp + "/cwd")
    with open(tmp + "/spec.json", "w") as fh:
        json.dump(spec, fh)
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), **(env or {}))
    log = open(tmp + "/log", "w+")
    pr = subprocess.Popen([sys.executable, "-m", "vmon.ops", tmp + "/spec.json", tmp + "/out.json"], cwd=tmp + "/cwd", env=e, stdout=log, stderr=subprocess.STDOUT)
    return tmp, pr, log


def collect(job):
    import shutil
    tmp, pr, log = job
    pr.wait()
    log.seek(0)
    text = log.read()
    log.close()
    out = None
    if os.path.exists(tmp + "/out.json"):
        with open(tmp + "/out.json") as fh:
            out = json.load(fh)
    shutil.rmtree(tmp)
    return out, text


BASE = {}


def alone(F, ops, k):
    if k not in BASE:
        f, args = ops[k]
        BASE[k] = vo.digest(F[f](*args))
    return BASE[k]


def run(ctx, c):
    import time
    t = time.time()
    globals()["run_" + c["model"]](ctx, c)
    if os.environ.get("TIMES"):
        print("%.1f" % (time.time() - t), {k: v for k, v in c.items() if k in ("op", "how", "model")})


def run_inputs(ctx, c):
    F, ops = vo.functions(), vo.inputs(ctx.seed)
    f, args = ops[c["op"]]
    if (c["how"] in ("list", "changed afterwards", "same object") and c["op"][0] == "X") or (c["how"] == "list" and c["op"] == "isco"):
        return
    ctx.sig("inputs", c["op"], c["how"])
    det = dict(op=c["op"], how=c["how"])
    args = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
    before = [a.tobytes() if isinstance(a, np.ndarray) else repr(a) for a in args]
    call = args
    if c["how"] == "read-only":
        [a.setflags(write=False) for a in args if isinstance(a, np.ndarray)]
    if c["how"] == "list":  # parameter lists (not frequency arrays)
        call = [a.tolist() if isinstance(a, np.ndarray) and a.ndim == 1 and len(a) < 12 else a for a in args]
        lists = [list(a) if isinstance(a, list) else None for a in call]
    if c["how"] == "changed afterwards":
        out = F[f](*args)
        jax.block_until_ready(out)
        d = vo.digest(out)
        for a in args:
            if isinstance(a, np.ndarray):
                a += 1.0
        ctx.ev("inputs compared after the call")
        ctx.ok(vo.digest(out) == d, "a result does not change with the caller's array", det)
        return
    if c["how"] == "same object":  # refilled buffers: the values count, not the object
        F[f](*args)
        new = vo.neighbour(ops[c["op"]], np.random.default_rng(ctx.seed), 0)
        for a, b in zip(args, new):
            if isinstance(a, np.ndarray):
                a[...] = b
        ctx.ev("inputs compared after the call")
        ctx.ok(vo.digest(F[f](*args)) == vo.digest(F[f](*vo.fresh(new))), "a refilled array counts as its new values", det)
        return
    d = vo.digest(F[f](*call))
    ctx.ev("inputs compared after the call", len(args))
    ctx.ok([a.tobytes() if isinstance(a, np.ndarray) else repr(a) for a in args] == before, "inputs are not modified", det)
    if c["how"] == "list":
        ctx.ok(all(b is None or a == b for a, b in zip(call, lists)), "inputs are not modified", det)
    else:
        ctx.ok(d == alone(F, ops, c["op"]), "same call, same bits", det)


def disturb(F, ops, kind, k, rng):
    """Something else a program may do with the package (results ignored, errors expected)."""
    from ripplegw.FD_waveform import FD_waveform_generator
    f, args = ops[k]
    wave = f in vo.BODY and f != "X"
    try:
        if kind == "unknown name":
            gen = FD_waveform_generator()
            gen.generators["mine"] = gen.generators.pop("D")
            gen.generate_waveform("no such model", *args)
        elif kind == "nan input" and wave:
            F[f](args[0] * np.nan, args[1] * np.nan, args[2])
        elif kind == "wrong shape" and wave:
            F[f](args[0], args[1][:3], args[2])
        elif kind == "missing f_ref" and wave:
            F[f](args[0], args[1])
        elif kind == "float32 input" and wave:
            F[f](args[0].astype(np.float32), args[1].astype(np.float32), args[2])
        elif kind == "scalar f" and wave:
            F[f](40.0, args[1], args[2])
        elif kind == "vmap" and wave:
            jax.vmap(lambda t: F[f](args[0][:4], t, args[2]))(np.stack([args[1]] * 2))
        elif kind == "jit" and wave:
            jax.jit(lambda a, t: F[f](a, t, args[2]))(args[0][: int(rng.integers(1, 4))], args[1])
        elif kind == "grad" and f in ("D", "T"):
            jax.grad(lambda t: jnp.sum(jnp.abs(F[f](args[0][:4], t, args[2])[0])))(args[1])
        elif kind == "jvp" and f == "D":
            jax.jvp(lambda t: F[f](args[0][:4], t, args[2]), (args[1],), (args[1] * 0.1,))
        elif kind == "keyboard" and wave:
            class Stop(Exception):
                pass

            def bad(a):
                raise Stop()
            jax.jit(lambda a, t: (F[f](a, t, args[2]), bad(a)))(args[0][:3], args[1])
        else:
            return None
        return "returned"
    except Exception as e:
        return type(e).__name__


def run_history(ctx, c):
    F, ops = vo.functions(), vo.inputs(ctx.seed)
    rng = np.random.default_rng(c["seed"])
    for k in dict.fromkeys(c["seq"]):
        alone(F, ops, k)
    prev = "start"
    for i, (k, x) in enumerate(zip(c["seq"], c["extra"])):
        if i % 2:
            w = str(rng.choice(["D/0", "D/1", "T/0", "T2/1", "P/2", "N/0", "N2/1"]))
            r = disturb(F, ops, x, w if x not in ("grad", "jvp") else "D/1", rng)
            if r:
                ctx.ev("disturbances: " + x + " " + r)
                prev = x
        f, args = ops[k]
        a = [np.array(v) if isinstance(v, np.ndarray) else v for v in args]
        ctx.ev("results compared with the call made alone")
        ctx.sig("history", k, prev)
        if f == "D":  # through the generator too (a disturbance edits one generator's table)
            from ripplegw.FD_waveform import FD_waveform_generator
            g = FD_waveform_generator()
            ctx.ok(vo.digest(g.generate_waveform("D", *a)) == BASE[k],
                   "independent of earlier calls", dict(op="generator", position=i, after=prev))
        ctx.ok(vo.digest(F[f](*a)) == BASE[k], "independent of earlier calls", dict(op=k, position=i, after=[prev, c["seq"][max(i - 1, 0)]]))
        prev = k


def brief_reports():
    """JAX explains every leaked tracer by walking the heap, which takes hours for thousands of them: two are enough."""
    try:
        from jax._src import core
        full = core.leaked_tracer_error
        if not hasattr(full, "brief"):
            core.leaked_tracer_error = lambda name, t, tracers: full(name, t, tracers[:2])
            core.leaked_tracer_error.brief = True
    except Exception:
        pass


def run_leaks(ctx, c):
    brief_reports()
    F, ops = vo.functions(), vo.inputs(ctx.seed)
    k = c["op"] + "/0" if c["op"] in vo.BODY else c["op"]
    f, args = ops[k]
    det = dict(op=k, how=c["how"])
    ctx.sig("leaks", k, c["how"])
    arrays = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)]

    def g(*xs):
        a = list(args)
        for i, x in zip(arrays, xs):
            a[i] = x
        return F[f](*a)
    if c["op"] == "match":
        from ripplegw import get_match_arr, get_eff_pads
        lo, hi = get_eff_pads(args[0])
        g = lambda *xs: get_match_arr(lo, hi, *xs[1:])
    xs = [args[i] for i in arrays]
    alone(F, ops, k)
    try:
        with jax.checking_leaks():
            if c["how"] == "jit":
                jax.jit(g)(*xs)
            elif c["how"] == "vmap":
                jax.jit(jax.vmap(g))(*[np.stack([x, x]) for x in xs])
            else:
                real = [i for i, x in enumerate(xs) if not np.iscomplexobj(x)]

                def s(ys):
                    zs = list(xs)
                    for i, y in zip(real, ys):
                        zs[i] = y
                    return sum(jnp.sum(jnp.abs(v) ** 2) for v in jax.tree_util.tree_leaves(g(*zs)))
                jax.jit(jax.grad(s))([xs[i] for i in real])
    except Exception as e:
        if "Leaked" not in str(e) and "leak" not in str(e).lower():
            raise
        ctx.ok(False, "no tracer outlives its trace", dict(det, error=str(e)[:600]))
    ctx.ev("traces without leaked tracers")
    ctx.ok(True, "no tracer outlives its trace")
    ctx.ok(vo.digest(F[f](*args)) == BASE[k], "same bits after tracing", det)


def run_neighbours(ctx, c):
    """After calls with almost the same arguments (and with other arguments of the same shape)."""
    F, ops = vo.functions(), vo.inputs(ctx.seed)
    rng = np.random.default_rng([c["seed"], 7])
    f, args = ops[c["op"]]
    if c["op"] not in BASE_FRESH:
        # the same calls in a process which makes no other
        out, text = collect(spawn(dict(imports=vo.MODULES[:1], order=[k for k in ops if ctx.quick is False or k[0] != "X" or k == "X/0"], x64=True, seed=ctx.seed)))
        if not ctx.ok(out is not None, "the package imports and runs in any order", dict(log=text[-800:])):
            return
        BASE_FRESH.update(out["digests"])
    n = (2 if ctx.quick else 8) if f == "X" else (14 if ctx.quick else 60)
    for i in range(n):
        F[f](*vo.fresh(vo.neighbour(ops[c["op"]], rng, i)))
        ctx.ev("calls with neighbouring arguments")
    ctx.sig("neighbours", c["op"])
    ctx.ev("results compared with the call made alone")
    ctx.ok(vo.digest(F[f](*vo.fresh(args))) == BASE_FRESH[c["op"]], "independent of earlier calls with neighbouring arguments", dict(op=c["op"]))


BASE_FRESH = {}


def run_process(ctx, c):
    import concurrent.futures as cf

    def one(v):
        return collect(spawn(v, v["hashseed"], v["env"]))
    with cf.ThreadPoolExecutor(3) as ex:
        outs = list(ex.map(one, c["variants"]))
    base = {}
    for v, (o, text) in zip(c["variants"], outs):
        det = dict(imports=v["imports"][:4], x64=v["x64"], hashseed=v["hashseed"])
        if not ctx.ok(o is not None, "the package imports and runs in any order", dict(det, log=text[-800:])):
            continue
        ctx.ev("fresh processes")
        ctx.sig("process", v["hashseed"], v["x64"])
        ctx.ok(not o["errors"], "no call fails", dict(det, errors=o["errors"]))
        ctx.ok(not o["changed"], "imports and calls leave the process's settings alone", dict(det, changed=o["changed"][:5]))
        ctx.ok(text == "", "nothing is printed", dict(det, text=text[-400:]))
        ctx.ev("settings compared", 2)
        b = base.setdefault(v["x64"], o["digests"])
        for k, d in o["digests"].items():
            ctx.ev("results compared with the call made alone")
            ctx.ok(d == b[k], "same bits in every process", dict(det, op=k))


def run_threads(ctx, c):
    alone_, _ = collect(spawn(dict(imports=vo.MODULES[:1], order=THREADED, x64=True, seed=c["seed"])))
    # (the threads' first calls compile concurrently: a fresh process)
    o, text = collect(spawn(dict(imports=vo.MODULES[:1], order=[], threads=c["threads"], x64=True, seed=c["seed"])))
    if not ctx.ok(o is not None and alone_ is not None, "concurrent calls return", dict(log=text[-800:])):
        return
    prev = None
    for i, k, d in o["threaded"]:
        ctx.ev("concurrent calls")
        if prev is not None and prev[0] != i:
            ctx.ev("thread switches between calls")
            ctx.sig("threads", prev[1], k)
        prev = (i, k)
        ctx.ok(d == alone_["digests"][k], "concurrent call = the call made alone", dict(op=k, thread=i, got=d[:120]))
    ctx.ok(not o["changed"], "imports and calls leave the process's settings alone", dict(changed=o["changed"][:5]))
