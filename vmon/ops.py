"""A fixed set of calls into the package (for purity, determinism and concurrency monitors), and a
stand-alone worker that imports the package in a given order and records what the calls return and
what changed in the process.

    python -m vmon.ops SPEC.json OUT.json
"""
import hashlib
import json
import os
import sys

import numpy as np

MODULES = ["ripplegw", "ripplegw.noise", "ripplegw.constants", "ripplegw.typing", "ripplegw.FD_waveform", "ripplegw.waveforms", "ripplegw.waveforms.IMRPhenomD",
           "ripplegw.waveforms.IMRPhenomXAS", "ripplegw.waveforms.IMRPhenomPv2", "ripplegw.waveforms.TaylorF2", "ripplegw.waveforms.SineGaussian",
           "ripplegw.waveforms.IMRPhenomD_NRTidalv2", "ripplegw.waveforms.IMRPhenomD_utils", "ripplegw.waveforms.IMRPhenomPv2_utils",
           "ripplegw.waveforms.IMRPhenomX_utils", "ripplegw.waveforms.IMRPhenom_tidal_utils", "ripplegw.waveforms.IMRPhenomD_QNMdata"]
BODY = {"D": [0.3, -0.5], "X": [0.3, -0.5], "P": [0.3, 0.1, -0.2, -0.4, 0.2, 0.1], "T": [0.02, -0.04, 400.0, 60.0], "N": [0.02, -0.04, 400.0, 60.0],
        "T2": [0.1, 0.0, 300.0, 500.0], "N2": [0.1, 0.0, 300.0, 500.0]}


def digest(out):
    h = hashlib.sha256()
    for x in (out if isinstance(out, (tuple, list)) else (out,)):
        x = np.asarray(x)
        h.update(("%s%s" % (x.dtype, x.shape)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    return h.hexdigest()


def inputs(seed):
    """{op name: (function name, numpy arguments)}: pure data, no package involved."""
    rng = np.random.default_rng([19, seed])
    ops = {}
    for m, body in BODY.items():
        for k in range(2 if m == "X" else 3):
            bns = m[0] in "TN"
            M = rng.uniform(2.4, 3.4) if bns else rng.uniform(8, 90)
            b = np.array(body) * rng.uniform(0.6, 1.2)
            th = np.array([M * 0.41, rng.uniform(0.15, 0.2499), *b, 400 * rng.uniform(.5, 2), rng.uniform(-.1, .1), rng.uniform(0, 3), rng.uniform(0, 3)])
            f = np.linspace(20.0, (1500.0 if bns else 6000.0 / M), 48)
            ops["%s/%d" % (m, k)] = (m, [f, th, 20.0])
    f = np.arange(40, 200) * 0.5
    h = [np.exp(1j * rng.uniform(0, 6, len(f))) * f ** (-7 / 6) for _ in range(2)]
    ops["inner"] = ("inner", [rng.uniform(-.1, .1), f, 1 + (f / 50) ** 2, h[0], h[1]])
    ops["pads"] = ("pads", [f])
    ops["match"] = ("match", [f, 1 + (f / 50) ** 2, h[0], h[1]])
    for n in ("aLIGO", "ce", "et", "aLIGOZeroDetHighPower", "O3a", "O2", "LIGOI"):
        ops["psd/" + n] = ("psd/" + n, [rng.uniform(1, 9000, 300)])
    ops["sg"] = ("sg", [np.linspace(-.1, .1, 200), np.array([9.0, 100.0, 1e-21, 0.3, 0.4])])
    for n, v in (("ms", [30.0, 20.0]), ("mc", [20.0, 0.23]), ("lt", [300.0, 500.0, 1.5, 1.3]), ("ltq", [300.0, 500.0, 0.8]), ("tl", [400.0, 20.0, 1.5, 1.3]),
                 ("tlq", [400.0, 20.0, 0.8]), ("chi", [30.0, 20.0, 0.3, -0.2])):
        ops["conv/" + n] = ("conv/" + n, [np.array(v) * rng.uniform(0.98, 1.02)])
    ops["isco"] = ("isco", [np.array([1e31, 5e31])])
    for n in ("M_eta", "m1_m2"):
        ops["sampler/" + n] = ("sampler/" + n, [np.array([5.0, 40.0]), np.array([0.1, 30.0]), 11])
    return ops


def fresh(args):
    return [np.array(a) if isinstance(a, np.ndarray) else a for a in args]


def neighbour(op, rng, i):
    """The operation's arguments with one number changed (a little, or a lot), or with other
    numbers in the same places."""
    f, args = op
    args = fresh(args)
    arrays = [a for a in args if isinstance(a, np.ndarray)]
    small = [a for a in arrays if len(a) < 16]
    s = 10 ** rng.uniform(-11, -8) if i % 3 == 0 else 10 ** rng.uniform(-5, -3)
    if f in BODY and i % 7 == 5:  # another f_ref
        args[2] = args[2] * (1 + s)
    elif f in BODY and i % 7 == 6:  # other frequencies, same number and same ends
        arrays[0][1:-1] *= 1 + s * rng.uniform(0, 1, len(arrays[0]) - 2)
    elif f in BODY and i % 7 == 4:  # one parameter changed a lot
        k = rng.integers(len(small[0]))
        small[0][k] = small[0][k] * (0.9 if k != 1 else 0.99)
    elif small:
        a = small[rng.integers(len(small))]
        k = i % len(a) if f in BODY else rng.integers(len(a))
        a[k] *= 1 - s
    elif f in ("pads",):
        arrays[0] *= 2.0
    elif f in ("inner", "match"):
        for a in arrays[1:]:
            a *= 1 + s * rng.uniform(0, 1, len(a))
    else:
        arrays[0] *= 1 + s * rng.uniform(0, 1, len(arrays[0]))
    return args


def functions():
    import jax
    import jax.numpy as jnp
    import ripplegw as rg
    from ripplegw import noise
    from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomPv2, TaylorF2, SineGaussian
    from ripplegw.waveforms import IMRPhenomD_NRTidalv2 as NRT
    F = dict(D=IMRPhenomD.gen_IMRPhenomD_hphc, X=IMRPhenomXAS.gen_IMRPhenomXAS_hphc, P=IMRPhenomPv2.gen_IMRPhenomPv2_hphc,
             T=TaylorF2.gen_TaylorF2_hphc, N=NRT.gen_IMRPhenomD_NRTidalv2_hphc,
             T2=lambda f, t, r: TaylorF2.gen_TaylorF2_hphc(f, t, r, use_lambda_tildes=False),
             N2=lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2_hphc(f, t, r, use_lambda_tildes=False),
             inner=rg.get_phase_maximized_inner_product_arr, pads=rg.get_eff_pads,
             match=lambda f, S, a, b: rg.get_match_arr(*rg.get_eff_pads(f), S, a, b),
             sg=SineGaussian.gen_SineGaussian_hphc, isco=rg.get_f_isco)
    for n in ("aLIGO", "ce", "et", "aLIGOZeroDetHighPower", "O3a", "O2", "LIGOI"):
        F["psd/" + n] = getattr(noise, "Sn_" + n)
    F.update({"conv/ms": rg.ms_to_Mc_eta, "conv/mc": rg.Mc_eta_to_ms, "conv/lt": rg.lambdas_to_lambda_tildes, "conv/ltq": rg.lambdas_to_lambda_tildes_from_q,
              "conv/tl": rg.lambda_tildes_to_lambdas, "conv/tlq": rg.lambda_tildes_to_lambdas_from_q, "conv/chi": rg.get_chi_eff})
    F["sampler/M_eta"] = lambda a, b, k: rg.get_M_eta_sampler(a, b)(jax.random.PRNGKey(k), 20)
    F["sampler/m1_m2"] = lambda a, b, k: rg.get_m1_m2_sampler(a, b)(jax.random.PRNGKey(k), 20)
    F["convert"] = jnp.asarray
    return F


NAMES = dict(D="D", X="XAS", P="Pv2", N="D_NRTidalv2")


# ---------------------------------------------------------------------------- process state
def process_state():
    import decimal
    import locale
    import logging
    import random
    import signal
    import warnings

    import jax
    r = np.random.get_state()
    s = dict(environ=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), numpy_errstate=np.geterr(), numpy_print=repr(sorted(np.get_printoptions().items(), key=str)),
             numpy_random=hashlib.md5(r[1].tobytes()).hexdigest() + repr(r[2:]), python_random=hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
             warnings=[repr(x) for x in warnings.filters], recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
             decimal=repr(decimal.getcontext().prec), locale=locale.setlocale(locale.LC_ALL), umask=None,
             signals=[repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)],
             logging=[logging.getLogger().level, len(logging.getLogger().handlers), logging.raiseExceptions],
             hooks=[repr(sys.excepthook), repr(sys.displayhook), repr(sys.gettrace())],
             jax={k: repr(v) for k, v in jax.config.values.items()}, cwd_files=sorted(os.listdir(".")))
    m = os.umask(0o22)
    os.umask(m)
    s["umask"] = m
    return s


def changed(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
                out.append("%s: %s" % (k, d[:4]))
            else:
                out.append("%s: %s -> %s" % (k, str(a[k])[:200], str(b[k])[:200]))
    return out


def worker(spec, out):
    import importlib
    import logging  # noqa
    import jax
    import jax.numpy as jnp
    if spec["x64"]:
        jax.config.update("jax_enable_x64", True)
    # warm up jax itself, so that what it changes on first use is not attributed to the package
    jax.block_until_ready(jax.jit(lambda v: jnp.sin(v))(jnp.arange(3.0)))
    jax.random.uniform(jax.random.PRNGKey(0))
    import scipy.special, scipy.interpolate  # noqa
    jax.scipy.special.gammaln(1.0)
    np.random.seed(spec["seed"])
    res = dict(changed=[], digests={}, errors={})
    s0 = process_state()
    for name in spec["imports"]:
        importlib.import_module(name)
        s1 = process_state()
        res["changed"] += [["import " + name, c] for c in changed(s0, s1)]
        s0 = s1
    F = functions()
    ops = inputs(spec["seed"])
    order = [k for k in spec["order"] if k in ops]
    if spec.get("threads"):
        threaded(F, ops, spec, res)
    else:
        for k in order:
            f, args = ops[k]
            try:
                res["digests"][k] = digest(F[f](*args))
            except Exception as e:
                res["errors"][k] = repr(e)[:300]
        for k in spec.get("jit", []):
            f, args = ops[k]
            g = jax.jit(lambda a, b: F[f](a, b, args[2]))
            res["digests"]["jit " + k] = digest(g(*args[:2]))
    res["changed"] += [["calls", c] for c in changed(s0, process_state())]
    with open(out, "w") as fh:
        json.dump(res, fh)


def threaded(F, ops, spec, res):
    import threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    got, start = [], threading.Barrier(len(spec["threads"]))

    def go(i, seq):
        r = np.random.default_rng([spec["seed"], i])
        start.wait()
        for k in seq:
            f, args = ops[k]
            try:
                d = digest(F[f](*args))
            except Exception as e:
                d = "raised " + repr(e)[:200]
            got.append((i, k, d))
            if r.random() < 0.3:
                import time
                time.sleep(r.uniform(0, 2e-3))
    ts = [threading.Thread(target=go, args=(i, seq)) for i, seq in enumerate(spec["threads"])]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    res["threaded"] = got


if __name__ == "__main__":
    with open(sys.argv[1]) as fh:
        spec = json.load(fh)
    worker(spec, sys.argv[2])
