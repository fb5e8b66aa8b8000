"""Fourth wave of planted bugs (see plant.py)."""
I, S, X, P, T, N, D, Q = ("__init__.py", "waveforms/SineGaussian.py", "waveforms/IMRPhenomXAS.py", "waveforms/IMRPhenomPv2.py", "waveforms/TaylorF2.py",
                          "waveforms/IMRPhenomD_NRTidalv2.py", "waveforms/IMRPhenomD.py", "noise.py")
PLANTS = [
dict(id="sinegaussian-sin-from-cos", property="C23",
  edits=[(S, '''    cos_phase, sin_phase = jnp.cos(phase), jnp.sin(phase)
''', '''    # only their squares are needed below
    cos_phase = jnp.cos(phase)
    sin_phase = jnp.sqrt(jnp.maximum(1.0 - cos_phase**2, 0.0))
''')],
  demo='''
from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc
t = jnp.linspace(-0.01, 0.01, 9)
for ph in [0.3, 0.0]:
    th = jnp.array([8.0, 100.0, 1e-21, ph, 0.4])
    J = jax.jacfwd(lambda p: jnp.stack(gen_SineGaussian_hphc(t, p)))(th)
    check(bool(jnp.all(jnp.isfinite(J))), f"derivatives at phase {ph}")
''', needs="a derivative at a phase of exactly zero", breaks="the burst's derivatives are NaN there"),
dict(id="match-whitened-norm", property="C23",
  edits=[(I, '''    # Factors of 4 and df drop out due to linearity
    norm1 = jnp.sqrt(jnp.sum(jnp.abs(h1s) ** 2 / Sns))
    norm2 = jnp.sqrt(jnp.sum(jnp.abs(h2s) ** 2 / Sns))
''', '''    # Factors of 4 and df drop out due to linearity
    w1s = jnp.sqrt((h1s.real**2 + h1s.imag**2) / Sns)
    w2s = jnp.sqrt((h2s.real**2 + h2s.imag**2) / Sns)
    norm1 = jnp.sqrt(jnp.sum(w1s**2))
    norm2 = jnp.sqrt(jnp.sum(w2s**2))
''')],
  demo='''
from ripplegw import get_eff_pads, get_match_arr
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
for top in [200.0, 900.0]:
    f = jnp.arange(20.0, top)
    low, high = get_eff_pads(f)
    g = lambda p: gen_IMRPhenomD(f, p, 20.0)
    a = jnp.array([30.0, 0.22, 0.1, 0.2, 400.0, 0.0, 0.0])
    b = jnp.array([30.4, 0.23, 0.1, 0.2, 400.0, 0.0, 0.0])
    m = jax.grad(lambda p: get_match_arr(low, high, jnp.ones_like(f), g(a), g(p)))(b)
    check(bool(jnp.all(jnp.isfinite(m))), f"gradient of the match on a grid up to {top} Hz: {m}")
''', needs="the gradient of a match whose grid reaches beyond a waveform's end (zero strain)", breaks="the gradient is NaN"),
dict(id="inner-frozen-norm", property="C23",
  edits=[(I, '''    norm2 = jnp.sqrt(jnp.sum(jnp.abs(h2s) ** 2 / Sns))
    # Compute unnormalized match, maximizing over phi_0 by taking the absolute value
''', '''    norm2 = jnp.sqrt(jnp.sum((h2s.conj() * jax.lax.stop_gradient(h2s)).real / Sns))
    # Compute unnormalized match, maximizing over phi_0 by taking the absolute value
'''), (I, "from jax import random\n", "import jax\nfrom jax import random\n")],
  demo='''
from ripplegw import get_phase_maximized_inner_product_arr as ip
f = jnp.arange(20.0, 60.0)
h = lambda a: (f / 30) ** -a + 0j
F = lambda a: ip(0.0, f, jnp.ones(40), h(1.0), h(a))
for a in [1.0, 1.4]:
    q = (F(a + 1e-5) - F(a - 1e-5)) / 2e-5
    check(abs(jax.grad(F)(a) - q) < 1e-6, f"derivative {jax.grad(F)(a)}, difference quotient {q}")
''', needs="the derivative with respect to the second strain's amplitude", breaks="half of the norm's derivative is lost"),
dict(id="xas-phi7-cross", property="C08",
  edits=[(X, "* (17.0 * chi1L2 - 14.0 * chi1L2L + 17.0 * chi2L2)", "* (17.0 * chi1L2 - 14.0 * chi1L2 + 17.0 * chi2L2)")],
  demo='''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
# equal masses: exchanging the spins changes nothing
f = jnp.linspace(10, 150, 60)
g = lambda a, b: np.asarray(gen_IMRPhenomXAS(f, jnp.array([30.0, 0.25, a, b, 400.0, 0.0, 0.3]), 20.0))
a, b = g(0.7, -0.3), g(-0.3, 0.7)
check(np.max(np.abs(a - b)) < 1e-7 * np.abs(a).max(), "exchanging the spins of equal masses")
''', needs="different spins on the two bodies", breaks="a 3.5PN spin-spin term of the inspiral phase"),
dict(id="xas-rd-node", property="C08",
  edits=[(X, "    CP_phase_RD3 = fMs_RD\n", "    CP_phase_RD3 = gpoints5[3] * deltax + xmin\n")],
  demo='''
import lal, lalsimulation as ls
from ripplegw import ms_to_Mc_eta
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
m1, m2, c1, c2 = 60.0, 20.0, 0.5, -0.4
f = np.arange(20.0, 300.0)
F = lal.CreateREAL8Sequence(len(f))
F.data = f
L = ls.SimIMRPhenomXASFrequencySequence(F, m1 * lal.MSUN_SI, m2 * lal.MSUN_SI, c1, c2, 400e6 * lal.PC_SI, 0.0, 20.0, lal.CreateDict()).data.data
Mc, eta = ms_to_Mc_eta((m1, m2))
h = np.asarray(gen_IMRPhenomXAS(jnp.array(f), jnp.array([Mc, eta, c1, c2, 400.0, 0.0, 0.0]), 20.0))
p = np.unwrap(np.angle(h * L.conj()))
n = np.abs(h) > 0
check(np.ptp(p[n]) < 1e-3, f"phase against LALSimulation varies by {np.ptp(p[n])}")
''', needs="the merger and ringdown", breaks="the ringdown phase is collocated at another point than its fit"),
dict(id="pv2-log-floor", property="C09",
  edits=[(P, "    logomega = jnp.log(omega)\n", "    logomega = jnp.log(jnp.maximum(omega, 1e-3))\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
# the phase's slope is continuous (here: where pi M f = 1e-3)
th = jnp.array([1.2, 0.24, 0.3, 0.2, 0.3, -0.1, 0.2, 0.1, 400.0, 0.0, 0.3, 1.0])
from ripplegw.constants import gt
k = 1e-3 / np.pi / (1.2 / 0.24 ** 0.6 * gt)


def slope(f):
    h, d = jax.jvp(lambda x: gen_IMRPhenomPv2_hphc(x, th, 20.0)[0], (jnp.array([f]),), (jnp.ones(1),))
    return float((d / h).imag[0])


for f in [2 * k, k]:
    l, u = slope(f * (1 - 1e-8)), slope(f * (1 + 1e-8))
    check(abs(l - u) < 1e-3, f"the phase's slope jumps at {f} Hz: {l} {u}")
''', needs="small M f (light binaries at low frequency)", breaks="the precession angles stop following their logarithmic term"),
dict(id="psd-ligoi-edge", property="C04",
  edits=[(Q, "        f > fs,\n", "        f >= fs,\n")],
  demo='''
from ripplegw.noise import Sn_LIGOI
check(np.isinf(float(Sn_LIGOI(jnp.array(39.9)))), "below")
check(np.isinf(float(Sn_LIGOI(jnp.array(40.0)))), "at 40 Hz")
check(np.isfinite(float(Sn_LIGOI(jnp.array(40.1)))), "above")
''', needs="a frequency of exactly 40 Hz", breaks="the curve is finite at its lower edge"),
dict(id="match-common-band", property="C06",
  edits=[(I, '''    norm2 = jnp.sqrt(jnp.sum(jnp.abs(h2s) ** 2 / Sns))

    # Use IFFT trick''', '''    norm2 = jnp.sqrt(jnp.sum(jnp.where(h1s != 0, jnp.abs(h2s) ** 2, 0.0) / Sns))

    # Use IFFT trick''')],
  demo='''
from ripplegw import get_match_arr
f = np.arange(10.0, 74.0)
S = jnp.ones(64)
h1 = np.where(f < 50, f ** -1.0, 0) + 0j
h2 = f ** -1.0 + 0j
want = (abs(h1) * abs(h2)).sum() / np.sqrt((abs(h1) ** 2).sum() * (abs(h2) ** 2).sum())
got = float(get_match_arr(jnp.zeros(10), jnp.zeros(71), S, jnp.array(h1), jnp.array(h2)))
check(abs(got - want) < 1e-10, f"{got} {want}")
''', needs="strains with different supports (the first ends earlier)", breaks="the part of the second strain beyond the first's end does not count"),
dict(id="taylorf2-distance-floor", property="C13",
  edits=[(T, "    r = dist_mpc * m_per_Mpc\n", "    r = jnp.maximum(dist_mpc, 1e-2) * m_per_Mpc\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(20, 200, 20)
g = lambda d: np.asarray(gen_TaylorF2(f, jnp.array([1.2, 0.24, 0.0, 0.0, 400.0, 0.0, d, 0.0, 0.0]), 20.0))
for d in [40.0, 1.0, 5e-3]:
    check(np.allclose(g(d) * d, g(100.0) * 100.0, rtol=1e-9, atol=0), f"distance {d}")
''', needs="distances below 10 kpc (galactic sources)", breaks="the amplitude stops growing with decreasing distance"),
dict(id="phenomd-fref-full-like", property="C18",
  edits=[(D, '''    Psi_ref = Phase(f_ref, theta_intrinsic, coeffs, transition_freqs)
''', '''    Psi_ref = Phase(
        jnp.full_like(f, f_ref), theta_intrinsic, coeffs, transition_freqs
    )
''')],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
th = jnp.array([30.0, 0.24, 0.1, 0.2, 400.0, 0.0, 0.3])
for r in [20.0, 22.5]:
    a = np.asarray(gen_IMRPhenomD(jnp.arange(20, 60), th, r))
    b = np.asarray(gen_IMRPhenomD(jnp.arange(20.0, 60.0), th, r))
    check(np.max(np.abs(a - b)) < 1e-9 * np.abs(b).max(), f"integer frequencies, f_ref = {r}")
''', needs="integer frequencies together with a fractional reference frequency", breaks="the reference frequency is truncated to an integer"),
dict(id="nrtidal-taper-dtype", property="C18",
  edits=[(N, "        A_P = get_planck_taper(f, f_merger)\n", "        A_P = get_planck_taper(f, f_merger).astype(f.dtype)\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2
th = jnp.array([1.2, 0.24, 0.1, 0.2, 400.0, 0.0, 40.0, 0.0, 0.3])
for lo, hi in [(20, 500), (1200, 2200)]:
    a = np.asarray(gen_IMRPhenomD_NRTidalv2(jnp.arange(lo, hi), th, 20.0))
    b = np.asarray(gen_IMRPhenomD_NRTidalv2(jnp.arange(float(lo), float(hi)), th, 20.0))
    check(np.max(np.abs(a - b)) < 1e-9 * np.abs(b).max(), f"integer frequencies {lo} to {hi}")
''', needs="integer frequencies inside the taper", breaks="the taper is truncated to zero"),
dict(id="taylorf2-v-floor", property="C10",
  edits=[(T, "    v = jnp.cbrt(piM * f)\n", "    v = jnp.maximum(jnp.cbrt(piM * f), 0.05)\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = np.array([3.0, 6.0, 12.0, 24.0, 48.0])
h = np.abs(np.asarray(gen_TaylorF2(jnp.array(f), jnp.array([0.3, 0.24, 0.0, 0.0, 400.0, 0.0, 40.0, 0.0, 0.0]), 20.0)))
n = np.diff(np.log(h)) / np.diff(np.log(f))
check(np.all(np.abs(n + 7 / 6) < 1e-6), f"slopes {n}")
''', needs="light bodies at low frequency (pi M f below 1.25e-4)", breaks="amplitude and phase saturate"),
dict(id="sinegaussian-ecc-clip", property="C12",
  edits=[(S, '''    b = a * jnp.sqrt(1.0 - (e * e))
''', '''    b = a * jnp.sqrt(jnp.maximum(1.0 - (e * e), 1e-8))
''')],
  demo='''
from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc
t = jnp.linspace(-0.01, 0.01, 9)
for e in [0.3, 0.999, 1.0]:
    p, c = gen_SineGaussian_hphc(t, jnp.array([8.0, 100.0, 1e-21, 0.3, e]))
    Q, n = 8.0, 8.0 / (400.0 * np.sqrt(np.pi))
    s, z = np.sin(0.3), np.cos(0.3)
    h0 = 1e-21 * np.sqrt((1 - e * e) / (2 - e * e)) / np.sqrt(n * (s * s * (1 + np.exp(-Q * Q)) + z * z * (1 - np.exp(-Q * Q))))
    w = 2 * np.pi * 100 * np.asarray(t)
    want = h0 * np.exp(-w ** 2 / (2 * Q * Q)) * np.sin(w - 0.3)
    check(np.max(np.abs(np.asarray(c) - want)) < 1e-10 * 1e-20, f"cross at eccentricity {e}: {np.max(np.abs(c))}")
''', needs="an eccentricity of (nearly) one", breaks="a cross polarisation remains"),
dict(id="taylorf2-fref-zero", property="C14",
  edits=[(T, '''    ref_phasing = 0.0
    if f_ref != 0:
''', '''    if f_ref == 0:
        f_ref = jnp.min(f)

    ref_phasing = 0.0
    if f_ref is not None:
''')],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
th = jnp.array([1.2, 0.24, 0.0, 0.0, 400.0, 0.0, 40.0, 0.0, 0.0])
f = np.linspace(20.0, 200.0, 19)
for r in [20.0, 0.0]:
    a = np.asarray(gen_TaylorF2(jnp.array(f), th, r))[9:]
    b = np.asarray(gen_TaylorF2(jnp.array(f[9:]), th, r))
    check(np.max(np.abs(a - b)) < 1e-8 * np.abs(b).max(), f"the same frequencies as part of a longer grid, f_ref = {r}")
''', needs="a reference frequency of zero (no reference)", breaks="the first frequency becomes the reference"),
dict(id="phenomd-arctan-rule", property="C17",
  edits=[(D, '''def get_IIb_raw_phase(fM_s: Array, theta: Array, coeffs: Array, f_RD, f_damp) -> Array:
''', '''@jax.custom_jvp
def _arctan(x):
    return jnp.arctan(x)


@_arctan.defjvp
def _arctan_jvp(primals, tangents):
    (x,), (x_dot,) = primals, tangents
    cos = jnp.cos(jax.lax.stop_gradient(jnp.arctan(x)))  # 1/(1 + x^2) without overflow
    return jnp.arctan(x), cos**2 * x_dot


def get_IIb_raw_phase(fM_s: Array, theta: Array, coeffs: Array, f_RD, f_damp) -> Array:
'''), (D, "jnp.arctan((fM_s - coeffs[18] * f_RDM_s) / f_dampM_s)", "_arctan((fM_s - coeffs[18] * f_RDM_s) / f_dampM_s)")],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
G = jax.jit(lambda q, f: jnp.unwrap(jnp.angle(gen_IMRPhenomD(f, q, 20.0)[jnp.array([0, 50])]))[1])
# dphase/dchi1 between two frequencies of a band, against difference quotients
h = jax.jit(lambda x, f: gen_IMRPhenomD(f, jnp.array([30.0, 0.22, x, 0.2, 400.0, 0.0, 0.0]), 20.0))
for f in [jnp.array([25.0, 30.0]), jnp.array([150.0, 170.0])]:
    j = jax.jacfwd(h)(0.3, f)
    q = (8 * (h(0.3001, f) - h(0.2999, f)) - (h(0.3002, f) - h(0.2998, f))) / 0.0012
    check(float(jnp.max(jnp.abs(j - q) / jnp.abs(q))) < 1e-3, f"derivative by spin at {f} Hz")
''', needs="a derivative of the strain by a parameter (the joins' slopes and the peak time are themselves derivatives of the arctan, so second derivatives enter)", breaks="first derivatives of the phase are wrong; the phase itself is right"),
dict(id="taylorf2-velocity-rule", property="C24",
  edits=[(T, '''def get_3PNSOCoeff(mByM):
''', '''@jax.custom_jvp
def _velocity(x):
    return jnp.cbrt(x)


@_velocity.defjvp
def _velocity_jvp(primals, tangents):
    (x,), (x_dot,) = primals, tangents
    v = jax.lax.stop_gradient(jnp.cbrt(x))
    return jnp.cbrt(x), x_dot / (3.0 * v * v)


def get_3PNSOCoeff(mByM):
'''), (T, "import jax.numpy as jnp\n", "import jax\nimport jax.numpy as jnp\n"), (T, "    v = jnp.cbrt(piM * f)\n", "    v = _velocity(piM * f)\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
F = lambda m: jnp.real(gen_TaylorF2(jnp.array([200.0]), jnp.array([m, 0.24, 0.1, 0.2, 400.0, 300.0, 40.0, 0.0, 0.3]), 20.0, use_lambda_tildes=False)[0]) * 1e24
d, H = jax.jit(jax.grad(F)), jax.jit(jax.jacfwd(jax.grad(F)))
e = 1e-6
q = (8 * (d(1.2 + e) - d(1.2 - e)) - (d(1.2 + 2 * e) - d(1.2 - 2 * e))) / (12 * e)
check(abs(H(1.2) - q) < 1e-3 * abs(q), f"second derivative by chirp mass: {H(1.2)}, difference quotient {q}")
''', needs="a second derivative by chirp mass", breaks="the Hessian misses the curvature of v(f M)"),
dict(id="tidal-exp-rule", property="C24",
  edits=[("waveforms/IMRPhenom_tidal_utils.py", '''def _get_quadparam_octparam_high(lambda_: float) -> tuple[float, float]:
''', '''@jax.custom_jvp
def _exp(x):
    return jnp.exp(x)


@_exp.defjvp
def _exp_jvp(primals, tangents):
    (x,), (x_dot,) = primals, tangents
    y = jnp.exp(jax.lax.stop_gradient(x))
    return y, y * x_dot


def _get_quadparam_octparam_high(lambda_: float) -> tuple[float, float]:
'''), ("waveforms/IMRPhenom_tidal_utils.py", '''    quadparam = jnp.exp(log_quadparam)
    octparam = jnp.exp(log_octparam)
''', '''    quadparam = _exp(log_quadparam)
    octparam = _exp(log_octparam)
''')],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
F = lambda l: jnp.real(gen_TaylorF2(jnp.array([400.0]), jnp.array([1.2, 0.24, 0.6, 0.2, l, 300.0, 40.0, 0.0, 0.3]), 20.0, use_lambda_tildes=False)[0]) * 1e24
d, H = jax.jit(jax.grad(F)), jax.jit(jax.jacfwd(jax.grad(F)))
q = (d(5.01) - d(4.99)) / 0.02
check(abs(H(5.0) - q) < 1e-3 * abs(q), f"second derivative by deformability: {H(5.0)}, difference quotient {q}")
''', needs="a second derivative by a deformability of a spinning star", breaks="the Hessian misses the curvature of the quadrupole relation"),
]
