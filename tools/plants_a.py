D = "waveforms/IMRPhenomD.py"
DU = "waveforms/IMRPhenomD_utils.py"
NT = "waveforms/IMRPhenomD_NRTidalv2.py"
P = "waveforms/IMRPhenomPv2.py"
PU = "waveforms/IMRPhenomPv2_utils.py"
T = "waveforms/TaylorF2.py"
TU = "waveforms/IMRPhenom_tidal_utils.py"
SG = "waveforms/SineGaussian.py"
X = "waveforms/IMRPhenomXAS.py"
XU = "waveforms/IMRPhenomX_utils.py"
I = "__init__.py"
N = "noise.py"
F = "FD_waveform.py"

LAL = '''
import lal
import lalsimulation as ls


def lal_hphc(name, f, m1, m2, s1, s2, D, phi, incl, f_ref, lams=None):
    d = None
    if lams is not None:
        d = lal.CreateDict()
        ls.SimInspiralWaveformParamsInsertTidalLambda1(d, float(lams[0]))
        ls.SimInspiralWaveformParamsInsertTidalLambda2(d, float(lams[1]))
        for i, l in enumerate(lams):
            q = ls.SimUniversalRelationQuadMonVSlambda2Tidal(float(l))
            [ls.SimInspiralWaveformParamsInsertdQuadMon1,
             ls.SimInspiralWaveformParamsInsertdQuadMon2][i](d, q - 1.0)
    seq = lal.CreateREAL8Vector(len(f))
    seq.data = np.asarray(f)
    hp, hc = ls.SimInspiralChooseFDWaveformSequence(
        phi, m1 * lal.MSUN_SI, m2 * lal.MSUN_SI, *s1, *s2, f_ref,
        D * 1e6 * lal.PC_SI, incl, d, getattr(ls, name), seq)
    return hp.data.data, hc.data.data


def mceta(m1, m2):
    return (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, m1 * m2 / (m1 + m2) ** 2
'''

PLANTS = [
dict(id="f-isco-mceta-cancel", property="C01",
  edits=[(I, "    m2 = (M - jnp.sqrt(M**2 - 4 * M**2 * eta)) / 2\n    m1 = M - m2\n",
             "    delta = jnp.sqrt(jnp.clip(1 - 4 * eta, 1e-6))\n    m2 = M * (1 - delta) / 2\n    m1 = M - m2\n")],
  demo='''
from ripplegw import Mc_eta_to_ms
for M, q in [(60.0, 1.0), (3.0, 1.0), (40.0, 0.9995)]:
    m1, m2 = M / (1 + q), M * q / (1 + q)
    mc, eta = (m1 * m2) ** 0.6 / M ** 0.2, m1 * m2 / M ** 2
    a, b = Mc_eta_to_ms(jnp.array([mc, min(eta, 0.25)]))
    check(abs(a - m1) < 1e-5 * M and abs(b - m2) < 1e-5 * M, f"masses for q={q}: {a} {b}, expected {m1} {m2}")
''',
  needs="mass ratio within 0.2% of one (1-4*eta below the floor put under the square root)",
  breaks="Mc_eta_to_ms returns unequal masses for equal-mass binaries"),
dict(id="lambda-from-q-eta3", property="C02",
  edits=[(I, '''    # For nearly equal masses, rounding can push eta above its maximum of 1/4
    eta = eta - (eta - 0.25) * (eta > 0.25)

    coefficient_1 = 1 + 7 * eta - 31 * eta**2
    coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
    coefficient_3 = (1 - 4 * eta) ** 0.5 * (
        1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
    )
''', '''    # For nearly equal masses, rounding can push eta above its maximum of 1/4
    eta = eta - (eta - 0.25) * (eta > 0.25)

    delta = abs(1 - q) / (1 + q)
    coefficient_1 = 1 + 7 * eta - 31 * eta**2
    coefficient_2 = delta * (1 + 9 * eta - 11 * eta**2)
    coefficient_3 = delta / (1 + q) * (
        1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
    )
''')],
  demo='''
from ripplegw import lambdas_to_lambda_tildes_from_q, lambda_tildes_to_lambdas_from_q
for q in (1.0, 0.9, 0.4):
    lt, dlt = lambdas_to_lambda_tildes_from_q(jnp.array([300.0, 900.0, q]))
    l1, l2 = lambda_tildes_to_lambdas_from_q(jnp.array([lt, dlt, q]))
    check(abs(l1 - 300) < 1e-4 and abs(l2 - 900) < 1e-4, f"q={q}: round trip gives {l1} {l2}")
''',
  needs="unequal masses through the mass-ratio variant only",
  breaks="lambda_tildes_to_lambdas_from_q no longer inverts lambdas_to_lambda_tildes_from_q"),
dict(id="sampler-skip-sort", property="C03",
  edits=[(I, "        return jnp.stack([ms.max(axis=1), ms.min(axis=1)]).T  # type: ignore\n",
             "        if m1_range[0] > m2_range[0] and m1_range[1] > m2_range[1]:\n            # the first range lies above the second: already ordered\n            return ms\n        return jnp.flip(jnp.sort(ms, axis=1), axis=1)\n")],
  demo='''
from jax import random
from ripplegw import get_m1_m2_sampler
for r1, r2 in [((1.0, 50.0), (1.0, 50.0)), ((40.0, 80.0), (1.0, 30.0)), ((10.0, 80.0), (5.0, 60.0))]:
    s = np.asarray(get_m1_m2_sampler(r1, r2)(random.PRNGKey(3), 2000))
    check((s[:, 0] >= s[:, 1]).all(), f"unordered masses for {r1} {r2}")
''',
  needs="partially overlapping ranges with both limits of the first above those of the second",
  breaks="the sampler returns pairs with m1 < m2"),
dict(id="psd-decimated-table", property="C04",
  edits=[(N, "    Sns[Sns == 0.0] = np.inf\n",
             "    Sns = np.where(Sns == 0.0, np.inf, Sns)\n    if len(fs) > 10000:\n        # interpolating in very long tables is slow\n        keep = np.union1d(np.arange(0, len(fs), 2), [len(fs) - 1])\n        fs, Sns = fs[keep], Sns[keep]\n")],
  demo='''
import os
import ripplegw
from ripplegw import noise
root = os.path.join(os.path.dirname(ripplegw.__file__), "noise_resources")
for fn, asd, Sn in [("aLIGO", True, noise.Sn_aLIGO), ("ce", True, noise.Sn_ce), ("et", True, noise.Sn_et),
                    ("aLIGOZeroDetHighPower", False, noise.Sn_aLIGOZeroDetHighPower),
                    ("O3a_Livingston_ASD", True, noise.Sn_O3a), ("O2_ASD", True, noise.Sn_O2)]:
    f, s = np.loadtxt(os.path.join(root, fn + ".dat"), unpack=True)
    s = s ** 2 if asd else s
    i = np.arange(1, len(f) - 1, 7)
    i = i[s[i] > 0]
    v = np.asarray(Sn(jnp.array(f[i])))
    check(np.allclose(v, s[i], rtol=1e-3, atol=0), f"{fn}: worst {np.abs(v / s[i] - 1).max()}")
''',
  needs="a table of more than 10000 rows, evaluated at a sharp line",
  breaks="the curve no longer goes through the tabulated values"),
dict(id="inner-psi2-with-amp1", property="C05",
  edits=[(I, '''        the phase at coalescence
    """
    h1s = amp1(fs, theta1) * jnp.exp(1j * Psi1(fs, theta1))
    if amp2 is None:
        amp2 = amp1
    if Psi2 is None:
        Psi2 = Psi1
''', '''        the phase at coalescence
    """
    h1s = amp1(fs, theta1) * jnp.exp(1j * Psi1(fs, theta1))
    if amp2 is None or Psi2 is None:
        amp2, Psi2 = amp1, Psi1
''')],
  demo='''
from ripplegw import get_phase_maximized_inner_product
fs = jnp.linspace(20, 500, 2000)
Sn = lambda f: 1 + (f / 100) ** 2
A = lambda f, t: t[0] * f ** (-7 / 6)
A2 = lambda f, t: t[0] * f ** (-2 / 3)
Psi = lambda f, t: t[1] * f ** (-5 / 3)
Psi2 = lambda f, t: 3 * t[1] * f ** (-5 / 3) + 0.1
th = jnp.array([1.0, 30.0])
for a2, p2 in [(None, None), (A2, Psi2), (None, Psi2), (A2, None)]:
    got = get_phase_maximized_inner_product(0.0, fs, Sn, th, th, A, Psi, a2, p2)
    h1 = A(fs, th) * jnp.exp(1j * Psi(fs, th))
    h2 = (a2 or A)(fs, th) * jnp.exp(1j * (p2 or Psi)(fs, th))
    w = 1 / Sn(fs)
    want = abs((h1.conj() * h2 * w).sum()) / jnp.sqrt((abs(h1) ** 2 * w).sum() * (abs(h2) ** 2 * w).sum())
    check(abs(got - want) < 1e-9, f"{a2} {p2}: {got} {want}")
''',
  needs="only one of amp2 and Psi2 given",
  breaks="the given function of the second waveform is ignored"),
dict(id="match-positive-lags", property="C06",
  edits=[(I, "    return jnp.abs(len(integrand_padded) * jnp.fft.ifft(integrand_padded)).max() / (\n        norm1 * norm2\n    )\n",
             "    n = len(integrand_padded)\n    # the second half of the (periodic) time series repeats the first one\n    overlaps = jnp.abs(n * jnp.fft.ifft(integrand_padded))[: n // 2 + 1]\n    return overlaps.max() / (norm1 * norm2)\n")],
  demo='''
from ripplegw import get_eff_pads, get_match_arr
fs = jnp.arange(20, 513) * 1.0
lo, hi = get_eff_pads(fs)
h = fs ** (-7 / 6) * jnp.exp(1j * 30 * fs ** (-5 / 3))
n = len(lo) + len(fs) + len(hi)
for k in (0, 5, 100, -5, -100):
    dt = k / n / (fs[1] - fs[0])
    m = get_match_arr(lo, hi, jnp.ones_like(fs), h, h * jnp.exp(2j * jnp.pi * fs * dt))
    check(abs(m - 1) < 1e-8, f"match with a copy shifted by {k} samples: {m}")
''',
  needs="the second waveform arriving on one particular side of the first",
  breaks="the match is not maximised over negative time shifts"),
dict(id="phenomd-A5-chi2", property="C07",
  edits=[(D, "                + 4 * (-91902.0 + 1579.0 * Seta) * eta\n", "                - 4 * (91902.0 + 1579.0 * Seta) * eta\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
f = np.linspace(20, 300, 400)
for m1, m2, c1, c2 in [(30, 30, 0.3, 0.3), (40, 10, 0.0, 0.8), (20, 5, 0.2, -0.7)]:
    hp, _ = gen_IMRPhenomD_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), c1, c2, 400.0, 0.0, 0.3, 0.4]), 20.0)
    lp, _ = lal_hphc("IMRPhenomD", f, m1, m2, (0, 0, c1), (0, 0, c2), 400.0, 0.3, 0.4, 20.0)
    r = np.abs(np.asarray(hp)) / np.abs(lp)
    check(np.abs(r - 1).max() < 2e-4, f"amplitude ratio {r.min()} {r.max()} for {m1, m2, c1, c2}")
''',
  needs="unequal masses with spin on the lighter body", breaks="inspiral amplitude of IMRPhenomD"),
dict(id="phenomd-gamma2-above-1", property="C07",
  edits=[(DU, "        f_RD_ + (-f_damp_ * gamma3_) / gamma2_\n", "        f_RD_ + -f_damp_ * gamma3_ * gamma2_\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
f = np.linspace(20, 500, 400)
for m1, m2, c1, c2 in [(30, 30, 0.0, 0.0), (30, 30, 0.99, 0.99), (40, 25, 0.95, 0.98), (60, 10, 0.99, 0.9), (30, 29, -0.99, -0.99), (80, 4, 0.99, 0.99), (80, 4, -0.99, -0.9)]:
    hp, _ = gen_IMRPhenomD_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), c1, c2, 400.0, 0.0, 0.3, 0.4]), 20.0)
    lp, _ = lal_hphc("IMRPhenomD", f, m1, m2, (0, 0, c1), (0, 0, c2), 400.0, 0.3, 0.4, 20.0)
    k = f * (m1 + m2) * lal.MTSUN_SI < 0.19
    r = np.abs(np.asarray(hp) - lp)[k] / np.abs(lp[k])
    check(r.max() < 5e-3, f"strain differs by {r.max()} for {m1, m2, c1, c2}")
''',
  needs="spins for which the fit coefficient gamma2 exceeds one (large aligned spins)",
  breaks="peak frequency of IMRPhenomD, hence its time origin and merger amplitude"),
dict(id="xas-gamma2-above-1", property="C08",
  edits=[(X, "        jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3 / gamma2),\n", "        jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3),\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS_hphc
f = np.linspace(20, 500, 400)
gen = jax.jit(gen_IMRPhenomXAS_hphc)
for m1, m2, c1, c2 in [(30, 30, 0.0, 0.0), (30, 30, 0.99, 0.99), (40, 25, 0.95, 0.98), (60, 10, 0.99, 0.9), (30, 29, -0.99, -0.99), (80, 4, 0.99, 0.99), (80, 4, -0.99, -0.9), (90, 6, 0.7, 0.0)]:
    hp, _ = gen(jnp.array(f), jnp.array([*mceta(m1, m2), c1, c2, 400.0, 0.0, 0.3, 0.4]), 20.0)
    lp, _ = lal_hphc("IMRPhenomXAS", f, m1, m2, (0, 0, c1), (0, 0, c2), 400.0, 0.3, 0.4, 20.0)
    k = f * (m1 + m2) * lal.MTSUN_SI < 0.29
    r = np.abs(np.abs(np.asarray(hp)) - np.abs(lp))[k] / np.abs(lp[k])
    check(r.max() < 1e-4, f"strain differs by {r.max()} for {m1, m2, c1, c2}")
''',
  needs="spins for which the fit coefficient gamma2 exceeds one", breaks="merger amplitude of IMRPhenomXAS"),
dict(id="pv2-nnlo-alpha5", property="C09",
  edits=[(PU, '''        - (35 * m2_2 * jnp.pi * chil) / (16.0 * mtot2 * eta)
        + (15 * chip2 * dm * m2_7 * chil2) / (128.0 * mtot8 * eta4)
        + (35 * chip2 * m2_8 * chil2) / (128.0 * mtot8 * eta4)
''', '''        - (35 * m2_2 * jnp.pi * chil) / (16.0 * mtot2 * eta)
        + (15 * chip2 * dm * m2_7 * chil2) / (128.0 * mtot8 * eta4)
        + (35 * chip2 * m2_8 * chil) / (128.0 * mtot8 * eta4)
''')],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
f = np.linspace(20, 300, 400)
for m1, m2, s1, s2 in [(30, 20, (0.1, 0.2, 0.3), (0, 0.1, 0.1)), (40, 12, (0.5, -0.2, -0.6), (0.1, 0.0, -0.5)), (30, 15, (0.4, 0.5, 0.5), (0.1, 0.3, 0.5))]:
    hp, hc = gen_IMRPhenomPv2_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), *s1, *s2, 400.0, 0.0, 0.3, 0.7]), 20.0)
    lp, lc = lal_hphc("IMRPhenomPv2", f, m1, m2, s1, s2, 400.0, 0.3, 0.7, 20.0)
    s = np.abs(lp) + np.abs(lc)
    r = (np.abs(np.abs(hp) - np.abs(lp)) + np.abs(np.abs(hc) - np.abs(lc))) / s
    check(r.max() < 2e-3, f"strain differs by {r.max()} for {m1, m2, s1, s2}")
''',
  needs="strong in-plane spin together with a non-unit aligned spin", breaks="precession angle alpha of IMRPhenomPv2"),
dict(id="pv2-final-spin-sign", property="C09",
  edits=[(PU, '''    af = jnp.copysign(1.0, af_parallel) * jnp.sqrt(
        Sperp * Sperp + af_parallel * af_parallel
    )
''', '''    af = jnp.sqrt(Sperp * Sperp + af_parallel * af_parallel)
''')],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
f = np.linspace(20, 300, 400)
for m1, m2, s1, s2 in [(30, 20, (0.1, 0.2, 0.3), (0, 0.1, 0.1)), (70, 6, (0.1, -0.2, -0.9), (0.1, 0.0, -0.5)), (60, 4, (0.1, 0.0, -0.8), (0.1, 0.3, 0.5))]:
    hp, hc = gen_IMRPhenomPv2_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), *s1, *s2, 400.0, 0.0, 0.3, 0.7]), 20.0)
    lp, lc = lal_hphc("IMRPhenomPv2", f, m1, m2, s1, s2, 400.0, 0.3, 0.7, 20.0)
    s = np.abs(lp) + np.abs(lc)
    r = (np.abs(np.abs(hp) - np.abs(lp)) + np.abs(np.abs(hc) - np.abs(lc))) / s
    check(r.max() < 2e-3, f"strain differs by {r.max()} for {m1, m2, s1, s2}")
''',
  needs="a retrograde remnant: high mass ratio with a strongly anti-aligned primary spin",
  breaks="ringdown frequency of IMRPhenomPv2"),
dict(id="taylorf2-qm-second", property="C10",
  edits=[(T, "        + (get_6PNQM2SCoeff(m2M) * qm_def2 + get_6PNSelf2SCoeff(m2M)) * S2z_2\n",
             "        + (get_6PNQM2SCoeff(m2M) * qm_def1 + get_6PNSelf2SCoeff(m2M)) * S2z_2\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2_hphc
# exchanging the labels of the bodies of an equal-mass binary changes nothing
f = jnp.linspace(30, 1500, 300)
a, _ = gen_TaylorF2_hphc(f, jnp.array([1.2, 0.25, 0.1, 0.4, 200.0, 2000.0, 40.0, 0.0, 0.0, 0.3]), 30.0, use_lambda_tildes=False)
b, _ = gen_TaylorF2_hphc(f, jnp.array([1.2, 0.25, 0.4, 0.1, 2000.0, 200.0, 40.0, 0.0, 0.0, 0.3]), 30.0, use_lambda_tildes=False)
check(jnp.abs(a - b).max() < 1e-6 * jnp.abs(a).max(), f"differs by {(jnp.abs(a - b) / jnp.abs(a)).max()}")
''',
  needs="a spinning secondary whose tidal deformability differs from the primary's",
  breaks="3PN quadrupole-monopole phase of TaylorF2"),
dict(id="taylorf2-ref-tidal", property="C21",
  edits=[(T, "        ref_phasing += pft14 * v14ref\n        ref_phasing += pft13 * v13ref\n        ref_phasing += pft12 * v12ref\n        ref_phasing += pft10 * v10ref\n",
             "        ref_phasing += pft14 * v14ref\n        ref_phasing += pft13 * v13ref\n        ref_phasing += pft12 * v13ref\n        ref_phasing += pft10 * v10ref\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
# the phase at the reference frequency is -pi/4 + 2 phic whatever the reference frequency
for f_ref in (20.0, 100.0, 1000.0):
    h = gen_TaylorF2(jnp.array([f_ref, 2 * f_ref]), jnp.array([1.2, 0.24, 0.0, 0.0, 1500.0, 1500.0, 40.0, 0.0, 0.3, 0.0]), f_ref, use_lambda_tildes=False)
    h0 = gen_TaylorF2(jnp.array([f_ref, 2 * f_ref]), jnp.array([1.2, 0.24, 0.0, 0.0, 0.0, 0.0, 40.0, 0.0, 0.3, 0.0]), f_ref, use_lambda_tildes=False)
    d = jnp.angle(h[0] / h0[0])
    check(abs(d) < 1e-7, f"f_ref={f_ref}: phase at f_ref depends on the tides: {d}")
''',
  needs="tidal parameters and a high reference frequency", breaks="anchoring of the phase at the reference frequency"),
dict(id="tidal-low-lambda-cubic", property="C11",
  edits=[(TU, "lambda_ * (-0.324336526985068 + lambda_ * 0.1107439432180572)", "lambda_ * (-0.324336526985068 + lambda_ * lambda_ * 0.1107439432180572)")],
  demo='''
from ripplegw.waveforms.IMRPhenom_tidal_utils import get_quadparam_octparam
def ref(l):
    if l < 1:
        return 1 + l * (0.427688866723244 + l * (-0.324336526985068 + l * 0.1107439432180572))
    x = np.log(l)
    return np.exp(0.1940 + 0.09163 * x + 0.04812 * x**2 - 4.283e-3 * x**3 + 1.245e-4 * x**4)
for l in (0.0, 0.3, 0.7, 0.95, 1.5, 300.0):
    q, _ = get_quadparam_octparam(l)
    check(abs(q - ref(l)) < 1e-9, f"quadrupole parameter at lambda={l}: {q}, expected {ref(l)}")
''',
  needs="tidal deformability strictly between 0 and 1", breaks="quadrupole parameter of nearly black-hole-like bodies"),
dict(id="nrtidal-sss-cross", property="C11",
  edits=[(NT, "        * ((X2sq + 308.0 / 3.0 * X2) * chi2 + (X1sq - 89.0 / 3.0 * X1) * chi1)\n",
              "        * ((X2sq + 308.0 / 3.0 * X2) * chi2 + (X2sq - 89.0 / 3.0 * X2) * chi1)\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2_hphc
f = np.linspace(30, 1000, 300)
for m1, m2, c1, c2, l1, l2 in [(1.4, 1.4, 0.0, 0.0, 400, 400), (2.4, 1.0, 0.4, 0.5, 50, 3000)]:
    hp, _ = gen_IMRPhenomD_NRTidalv2_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), c1, c2, l1, l2, 40.0, 0.0, 0.0, 0.4]), 30.0, use_lambda_tildes=False)
    lp, _ = lal_hphc("IMRPhenomD_NRTidalv2", f, m1, m2, (0, 0, c1), (0, 0, c2), 40.0, 0.0, 0.4, 30.0, (l1, l2))
    ph = np.unwrap(np.angle(np.asarray(hp) / lp))
    k = np.abs(lp) > 1e-3 * np.abs(lp).max()
    ph, x = ph[k], f[k]
    res = ph - np.polyval(np.polyfit(x, ph, 1), x)
    check(np.abs(res).max() < 2e-3, f"phase differs by {np.abs(res).max()} for {m1, m2, c1, c2}")
''',
  needs="two spinning bodies of unequal masses, deformable secondary", breaks="3.5PN spin-cubed phase of NRTidalv2"),
dict(id="sinegaussian-cross-norm", property="C12",
  edits=[(SG, "        hrss * b / jnp.sqrt(cosine_norm * (sin_phase**2) + sine_norm * (cos_phase**2))\n",
              "        hrss * b / jnp.sqrt(cosine_norm * (cos_phase**2) + sine_norm * (sin_phase**2))\n")],
  demo='''
from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc
t = jnp.arange(-1, 1, 1 / 8192)
for Q, ph in [(9.0, 0.3), (1.0, 0.2), (0.7, 1.2)]:
    hp, hc = gen_SineGaussian_hphc(t, jnp.array([Q, 50.0, 1e-22, ph, 0.0]))
    e = jnp.sqrt((hp**2 + hc**2).sum() / 8192)
    check(abs(e / 1e-22 - 1) < 1e-4, f"Q={Q}: root sum squared is {e}")
''',
  needs="a quality factor of order one", breaks="energy in the cross polarisation"),
dict(id="nrtidal-face-away", property="C13",
  edits=[(NT, "    hc = -1j * h0 * jnp.cos(iota)\n", "    hc = -1j * h0 * jnp.sqrt(jnp.maximum(2.0 * (hp / h0).real - 1.0, 0.0))\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2_hphc
f = jnp.linspace(30, 500, 50)
for i in (0.2, 1.2, 2.0, 3.0):
    hp, hc = gen_IMRPhenomD_NRTidalv2_hphc(f, jnp.array([1.2, 0.24, 0.1, 0.0, 400.0, 0.0, 40.0, 0.0, 0.0, i]), 30.0)
    want = -1j * hp * jnp.cos(i) / (0.5 * (1 + jnp.cos(i) ** 2))
    check(jnp.abs(hc - want).max() < 1e-6 * jnp.abs(hp).max(), f"cross polarisation at inclination {i}")
''',
  needs="inclination above 90 degrees", breaks="sign of the cross polarisation for binaries facing away"),
dict(id="phenomd-cropped-join", property="C14",
  edits=[(D, "    _, _, f3, f4, f_RD, f_damp = transition_frequencies\n",
             "    f3, f4, f_RD, f_damp = transition_frequencies[2:]\n    # no need to place the last join beyond the frequencies asked for\n    f4 = jnp.clip(f4, f3 * 1.01, jnp.maximum(jnp.max(f), f3 * 1.01))\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
p = jnp.array([30.0, 0.24, 0.3, -0.2, 400.0, 0.0, 0.1, 0.3])
full, _ = gen_IMRPhenomD_hphc(jnp.arange(20.0, 400.0), p, 20.0)
for n in (30, 50, 60, 80, 100, 300):
    part, _ = gen_IMRPhenomD_hphc(jnp.arange(20.0, 400.0)[:n], p, 20.0)
    check(jnp.abs(part - full[:n]).max() < 1e-6 * jnp.abs(full[n - 1]), f"first {n} frequencies alone differ")
''',
  needs="a frequency grid ending between the amplitude's joins", breaks="a strain value depends on the other frequencies of the call"),
dict(id="phenomd-join-double", property="C15",
  edits=[(D, "        Amp_Ins * jnp.heaviside(f3 - f, 0.5)\n        + jnp.heaviside(f - f3, 0.5) * Amp_IIa", "        Amp_Ins * jnp.heaviside(f3 - f, 1.0)\n        + jnp.heaviside(f - f3, 1.0) * Amp_IIa")],
  demo='''
from ripplegw.constants import gt
from ripplegw import Mc_eta_to_ms
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
for mc in (5.0, 17.0, 30.0, 61.0):
    m1, m2 = Mc_eta_to_ms(jnp.array([mc, 0.23]))
    f = 0.014 / ((m1 + m2) * gt)
    fs = jnp.array([f * (1 - 1e-6), f, f * (1 + 1e-6)])
    a = jnp.abs(gen_IMRPhenomD_hphc(fs, jnp.array([mc, 0.23, 0.3, -0.2, 400.0, 0.0, 0.1, 0.3]), 20.0)[0])
    check(abs(a[1] / a[0] - 1) < 1e-4, f"amplitude at the join {f}: {a}")
''',
  needs="a frequency exactly on the join at M f = 0.014", breaks="the strain jumps by a factor of two at that frequency"),
dict(id="xas-phase-join", property="C15",
  edits=[(X, "    beta0 = phi_Int_match_f2 - phi_MRD_match_f2 - beta1 * f2_Ms\n", "    beta0 = phi_Int_match_f2 - phi_MRD_match_f2 - beta1 * fMs_IMmatch\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
f = jnp.linspace(20, 300, 4000)
for c1 in (0.3, -0.5, 0.8):
    h = np.asarray(jax.jit(gen_IMRPhenomXAS)(f, jnp.array([25.0, 0.2, c1, 0.1, 400.0, 0.0, 0.1]), 20.0))
    d2 = np.diff(np.unwrap(np.angle(h)), 2)[1000:]
    check(np.abs(d2).max() < 2e-4, f"the phase jumps: {np.abs(d2).max()}")
''',
  needs="frequencies around the intermediate-to-ringdown join", breaks="the phase is discontinuous there"),
dict(id="taylorf2-fref-floor", property="C16",
  edits=[(T, "        vref = jnp.cbrt(piM * f_ref)\n", "        # the expansion is not meant to be used far below the band\n        vref = jnp.cbrt(piM * max(f_ref, 5.0))\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(30, 300, 100)
p = [1.2, 0.24, 0.05, 0.1, 0.0, 0.0, 40.0, 0.0, 0.2]
for k, fr in ((2.0, 20.0), (4.0, 8.0), (1.5, 6.0), (6.0, 20.0)):
    a = gen_TaylorF2(f, jnp.array(p), fr)
    b = gen_TaylorF2(f / k, jnp.array([p[0] * k] + p[1:]), fr / k)
    check(jnp.abs(b / k**2 - a).max() < 1e-6 * jnp.abs(a).max(), f"scaling the mass by {k} with f_ref {fr} changes the strain")
''',
  needs="a reference frequency below 5 Hz", breaks="mass scaling: the reference phase stops following f_ref"),
dict(id="tidal-where-gradient", property="C17",
  edits=[(TU, '''    return jax.lax.cond(
        is_low_lambda,
        _get_quadparam_octparam_low,
        _get_quadparam_octparam_high,
        lambda_,
    )
''', '''    low = _get_quadparam_octparam_low(lambda_)
    high = _get_quadparam_octparam_high(lambda_)
    return tuple(jnp.where(is_low_lambda, a, b) for a, b in zip(low, high))
''')],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(30, 300, 20)
for l1 in (300.0, 0.5, 0.0):
    g = jax.grad(lambda p: jnp.abs(gen_TaylorF2(f, p, 30.0, use_lambda_tildes=False).real.sum() * 1e22))(jnp.array([1.2, 0.24, 0.1, 0.1, l1, 400.0, 40.0, 0.0, 0.3]))
    check(bool(jnp.isfinite(g).all()), f"gradient at lambda1={l1}: {g}")
''',
  needs="the derivative at a tidal deformability of exactly zero", breaks="reverse-mode gradient is nan (value is fine)"),
dict(id="planck-taper-derivative", property="C17",
  edits=[(NT, "                + 1.2 * (-y + yp) / ((x - yp) ** 2)\n", "                + (-y + yp) / ((x - yp) ** 2)\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import get_planck_taper
for x in (900.0, 1020.0, 1100.0, 1180.0, 1300.0):
    for y in (1000.0,):
        g = jax.grad(get_planck_taper, argnums=1)(x, y)
        n = (get_planck_taper(x, y + 1e-3) - get_planck_taper(x, y - 1e-3)) / 2e-3
        check(abs(g - n) < 1e-6, f"derivative of the taper at {x}: {g}, difference quotient {n}")
''',
  needs="a derivative at a frequency inside the Planck taper", breaks="derivatives of the tapered strain are wrong by up to 20%"),
dict(id="pv2-eager-shortcut", property="C18",
  edits=[(P, "    phic = 2 * phi_aligned\n", "    phic = 2.0 * phi_aligned\n    if not isinstance(chip, jax.core.Tracer) and chip < 1e-2:\n        # negligible precession\n        chip = 0.0 * chip\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
f = jnp.linspace(20, 200, 100)
for sx in (0.3, 0.02, 0.009, 0.004, 0.0):
    p = jnp.array([25.0, 0.2, sx, 0.0, 0.3, 0.0, 0.0, 0.1, 400.0, 0.0, 0.3, 1.3])
    a = gen_IMRPhenomPv2_hphc(f, p, 20.0)[1]
    b = jax.jit(gen_IMRPhenomPv2_hphc)(f, p, 20.0)[1]
    check(jnp.abs(a - b).max() < 1e-7 * jnp.abs(a).max(), f"compiled and uncompiled calls differ for s1x={sx}")
''',
  needs="in-plane spins between 0 and 0.01 and an uncompiled call", breaks="uncompiled and compiled calls disagree"),
dict(id="dispatch-prefix", property="C18",
  edits=[(F, '''        if model_type in self.generators:
            gen_func = self.generators[model_type]
            return gen_func(fs, theta_ripple, f_ref)
''', '''        # accept abbreviated names
        names = [n for n in self.generators if n.startswith(model_type)]
        if names:
            gen_func = self.generators[names[0]]
            return gen_func(fs, theta_ripple, f_ref)
''')],
  demo='''
from ripplegw.FD_waveform import FD_waveform_generator
g = FD_waveform_generator()
f = jnp.linspace(20, 100, 5)
p = jnp.array([25.0, 0.2, 0.1, 0.1, 400.0, 0.0, 0.0, 0.2])
g.generate_waveform("D", f, p, 20.0)
for name in ("Z", "X", "D_N", "", "d"):
    try:
        g.generate_waveform(name, f, p, 20.0)
    except ValueError:
        continue
    except Exception as e:
        check(False, f"{name!r}: {e!r}")
    check(False, f"{name!r} was accepted")
''',
  needs="a name which is a strict prefix of a model's", breaks="an unknown model is silently served by another one"),
dict(id="taylorf2-coeff-cache", property="C19",
  edits=[(T, '''    # Get the phasing coefficients
    phasing_coeffs, phasing_log_coeffs = get_PNPhasing_F2(
        m1, m2, chi1, chi2, lambda1, lambda2
    )
''', '''    # Get the phasing coefficients
    phasing_coeffs, phasing_log_coeffs = _cached_phasing(theta_intrinsic)
'''), (T, '''def _gen_TaylorF2(
''', '''_phasing = {}


def _cached_phasing(theta_intrinsic):
    try:
        key = tuple(round(float(x), 3) for x in theta_intrinsic)
    except Exception:  # traced
        return get_PNPhasing_F2(*theta_intrinsic)
    if key not in _phasing:
        _phasing[key] = get_PNPhasing_F2(*theta_intrinsic)
    return _phasing[key]


def _gen_TaylorF2(
''')],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(30, 300, 20)
p = [1.2, 0.24, 0.1, 0.1, 400.0, 100.0, 40.0, 0.0, 0.3]
q = [1.2001, 0.24, 0.1, 0.1, 400.0, 100.0, 40.0, 0.0, 0.3]
r = [1.2, 0.24, 0.1002, 0.1, 400.0, 100.0, 40.0, 0.0, 0.3]
gen_TaylorF2(f, jnp.array(p), 30.0)
for s in (q, r):
    a = gen_TaylorF2(f, jnp.array(s), 30.0)
    b = jax.jit(lambda x: gen_TaylorF2(f, x, 30.0))(jnp.array(s))
    check(jnp.abs(a - b).max() < 1e-7 * jnp.abs(a).max(), "a call depends on the calls made before it")
''',
  needs="an uncompiled call following another one with nearly the same parameters", breaks="the phase is that of the earlier call"),
dict(id="pads-inplace-bins", property="C19",
  edits=[(I, "    if fs[0] % df != 0 or fs[-1] % df != 0:\n", "    bins = fs\n    bins /= df\n    if bins[0] % 1 != 0 or bins[-1] % 1 != 0:\n")],
  demo='''
from ripplegw import get_eff_pads
for xp in (jnp, np):
    fs = xp.arange(40, 200) * 0.5
    keep = np.array(fs)
    lo, hi = get_eff_pads(fs)
    check(np.array_equal(keep, np.asarray(fs)), f"{xp.__name__} grid was modified")
    check(len(lo) == 40 and len(hi) == 197, f"{xp.__name__}: pads of length {len(lo)} {len(hi)}")
''',
  needs="a frequency grid given as a numpy array", breaks="the caller's grid is rescaled in place"),
dict(id="taylorf2-si-masses", property="C20", x64=False,
  edits=[(T, "    amp0 = -4.0 * m1 * m2 / r * MRSUN * gt * jnp.sqrt(PI / 12.0)\n",
             "    # G^2 m1 m2 / c^5 in SI units\n    amp0 = -4.0 * (m1 * MRSUN) * (m2 * gt) * m_per_Mpc / (r * m_per_Mpc) * jnp.sqrt(PI / 12.0)\n")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(30, 300, 20)
for D in (40.0, 400.0):
    h = gen_TaylorF2(f, jnp.array([1.2, 0.24, 0.1, 0.1, 400.0, 100.0, D, 0.0, 0.3]), 30.0)
    check(bool((jnp.abs(h) > 0).all()) and bool(jnp.isfinite(h).all()), f"single precision strain at {D} Mpc: {h[:2]}")
''',
  needs="single precision (overflow of a product of SI lengths)", breaks="the strain vanishes in the default precision"),
dict(id="pv2-chip-primary-only", property="C09",
  edits=[(PU, "    num = jnp.maximum(ASp1, ASp2)\n", "    num = jnp.where(ASp2 > 0, ASp2, ASp1)\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
f = np.linspace(20, 300, 400)
for m1, m2, s1, s2 in [(30, 20, (0.1, 0.2, 0.3), (0, 0.0, 0.1)), (30, 20, (0, 0, 0.2), (0.5, 0, 0.1)), (26, 24, (0.05, 0, 0.2), (0.6, 0.3, 0.1))]:
    hp, hc = gen_IMRPhenomPv2_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), *s1, *s2, 400.0, 0.0, 0.3, 0.7]), 20.0)
    lp, lc = lal_hphc("IMRPhenomPv2", f, m1, m2, s1, s2, 400.0, 0.3, 0.7, 20.0)
    r = (np.abs(np.abs(hp) - np.abs(lp)) + np.abs(np.abs(hc) - np.abs(lc))) / (np.abs(lp) + np.abs(lc))
    check(r.max() < 2e-3, f"strain differs by {r.max()} for {m1, m2, s1, s2}")
''',
  needs="in-plane spins on both bodies, the lighter one's dominating", breaks="effective precession spin"),
dict(id="xas-fref-lina", property="C21",
  edits=[(X, "        -(Phase(f_ref, theta_intrinsic, phase_coeffs) + linb * (f_ref * M_s) + lina)\n",
             "        -(Phase(f_ref, theta_intrinsic, phase_coeffs) + linb * f_ref * m1_s * 2.0 + lina)\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
gen = jax.jit(gen_IMRPhenomXAS)
for eta in (0.25, 0.24, 0.15):
    ph = []
    for f_ref in (15.0, 20.0, 50.0):
        h = gen(jnp.array([f_ref, 90.0]), jnp.array([25.0, eta, 0.1, 0.2, 400.0, 0.0, 0.4]), f_ref)
        ph.append(float(jnp.angle(h[0])))
    d = np.angle(np.exp(1j * (np.array(ph) - ph[0])))
    check(np.abs(d).max() < 1e-6, f"eta={eta}: phase at the reference frequency depends on it: {ph}")
''',
  needs="unequal masses", breaks="the phase at the reference frequency is not the reference phase"),
dict(id="pv2-jx-secondary", property="C22",
  edits=[(PU, "    J0x_sf = m1_2 * s1x + m2_2 * s2x\n", "    J0x_sf = m1_2 * jnp.abs(s1x) + m2_2 * s2x\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc
f = jnp.linspace(20, 200, 100)
# turning both spins about the orbital axis together with the observer changes nothing but the constant phase
for s1, s2 in [((0.3, 0.1, 0.2), (0.1, 0.0, 0.3)), ((0.3, 0.1, 0.2), (-0.4, 0.0, 0.3)), ((0.3, 0.1, 0.2), (0.2, 0.3, 0.3))]:
    out = []
    for a in (0.0, 1.0, 2.5):
        c, s = np.cos(a), np.sin(a)
        r1 = (c * s1[0] - s * s1[1], s * s1[0] + c * s1[1], s1[2])
        r2 = (c * s2[0] - s * s2[1], s * s2[0] + c * s2[1], s2[2])
        # N's azimuth in the source frame is pi/2 - phi
        p = jnp.array([25.0, 0.22, *r1, *r2, 400.0, 0.0, 0.3 - a, 0.7])
        hp, hc = gen_IMRPhenomPv2_hphc(f, p, 20.0)
        out.append(np.abs(np.asarray(hp)))
    check(max(np.abs(o - out[0]).max() for o in out) < 1e-6 * out[0].max(), f"rotation changes the amplitude for {s1} {s2}")
''',
  needs="in-plane spin of the lighter body pointing along negative x", breaks="direction of the total angular momentum"),
]
