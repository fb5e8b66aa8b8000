"""Double-precision values for the single-precision check (a separate process: the mode is process-wide).

    python -m vmon.ref64 IN.npz OUT.npz
"""
import sys

import numpy as np


def evaluate(d):
    """{name: array} of the functions under test, in the precision of this process."""
    import jax
    import jax.numpy as jnp
    import ripplegw as rg
    from ripplegw import noise
    from ripplegw.waveforms import SineGaussian as SG
    from . import models as mo
    kind = str(d["kind"])
    out = {}
    if kind in mo.MODELS:
        m = mo.MODELS[kind]
        A, B = [], []
        for f, th, r in zip(d["f"], d["theta"], d["fref"]):
            if kind[0] == "T":
                a, b = m.jit(jnp.asarray(f), jnp.asarray(th), float(r))
            else:
                a, b = m.jit(jnp.asarray(f), jnp.asarray(th), jnp.asarray(r))
            A.append(a)
            B.append(b)
        return dict(hp=np.array(A), hc=np.array(B))
    if kind == "conversions":
        for name, fn in (("ms_to_Mc_eta", rg.ms_to_Mc_eta), ("Mc_eta_to_ms", rg.Mc_eta_to_ms), ("lambdas_to_lambda_tildes", rg.lambdas_to_lambda_tildes),
                         ("lambdas_to_lambda_tildes_from_q", rg.lambdas_to_lambda_tildes_from_q), ("lambda_tildes_to_lambdas", rg.lambda_tildes_to_lambdas),
                         ("lambda_tildes_to_lambdas_from_q", rg.lambda_tildes_to_lambdas_from_q), ("get_chi_eff", rg.get_chi_eff), ("get_f_isco", rg.get_f_isco)):
            x = jax.jit(jax.vmap(lambda v: jnp.stack([jnp.asarray(y) for y in (lambda z: z if isinstance(z, tuple) else (z,))(fn(v if name != "get_f_isco" else v[0]))])))(d[name])
            out[name] = np.asarray(x)
    elif kind == "psd":
        for n in ("aLIGO", "ce", "et", "aLIGOZeroDetHighPower", "O3a", "O2", "LIGOI"):
            out[n] = np.asarray(getattr(noise, "Sn_" + n)(jnp.asarray(d["f"])))
    elif kind == "sg":
        g = jax.jit(SG.gen_SineGaussian_hphc)
        r = [g(jnp.asarray(t), jnp.asarray(th)) for t, th in zip(d["t"], d["theta"])]
        out = dict(hp=np.array([x[0] for x in r]), hc=np.array([x[1] for x in r]))
    elif kind == "match":
        lo, hi = rg.get_eff_pads(jnp.asarray(d["f"]))
        out["pads"] = np.array([len(lo), len(hi)])
        g, k = jax.jit(rg.get_match_arr), jax.jit(rg.get_phase_maximized_inner_product_arr)
        out["match"] = np.array([g(lo, hi, jnp.asarray(d["S"]), jnp.asarray(a), jnp.asarray(b)) for a, b in zip(d["a"], d["b"])])
        out["inner"] = np.array([k(jnp.asarray(t), jnp.asarray(d["f"]), jnp.asarray(d["S"]), jnp.asarray(a), jnp.asarray(b)) for t, a, b in zip(d["dt"], d["a"], d["b"])])
    return out


if __name__ == "__main__":
    import jax
    jax.config.update("jax_enable_x64", True)
    with np.load(sys.argv[1]) as z:
        d = {k: (z[k].astype(np.float64) if z[k].dtype == np.float32 else z[k].astype(np.complex128) if z[k].dtype == np.complex64 else z[k]) for k in z}
    np.savez(sys.argv[2], **evaluate(d))
