exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "plants_a.py")).read().split("PLANTS = [")[0])
PLANTS = [
dict(id="mceta-eta-floor", property="C01",
  edits=[(I, "    M = Mchirp / (eta ** (3 / 5))\n", "    M = Mchirp / (jnp.maximum(eta, 1e-5) ** (3 / 5))\n")],
  demo='''
from ripplegw import Mc_eta_to_ms, ms_to_Mc_eta
for m in [(30.0, 20.0), (1e6, 1.0), (1e7, 10.0)]:
    a = Mc_eta_to_ms(jnp.array(ms_to_Mc_eta(jnp.array(m))))
    check(abs(a[0] / m[0] - 1) < 1e-9, f"round trip of {m}: {a}")
''', needs="mass ratios beyond 1e5", breaks="the total mass is wrong for extreme mass ratios"),
dict(id="lambda-q-floor", property="C02",
  edits=[(I, '''    lambda_tilde, delta_lambda_tilde, q = params

    eta = q / (1 + q) ** 2
''', '''    lambda_tilde, delta_lambda_tilde, q = params

    eta = jnp.maximum(q, 0.1) / (1 + jnp.maximum(q, 0.1)) ** 2
''')],
  demo='''
from ripplegw import lambdas_to_lambda_tildes_from_q as a, lambda_tildes_to_lambdas_from_q as b
for q in [0.95, 0.5, 0.08]:
    t = a(jnp.array([300.0, 500.0, q]))
    l = b(jnp.array([*t, q]))
    check(abs(l[0] / 300 - 1) < 1e-6 and abs(l[1] / 500 - 1) < 1e-6, f"round trip at q = {q}: {l}")
''', needs="mass ratios below 0.1", breaks="deformabilities do not survive the round trip"),
dict(id="sampler-antithetic", property="C03",
  edits=[(I, '''            maxval=jnp.array([M_range[1], eta_range[1]]),
            shape=(n, 2),
        )
        return M_eta
''', '''            maxval=jnp.array([M_range[1], eta_range[1]]),
            shape=((n + 1) // 2, 2),
        )
        # mirror the draws to lower the variance of averages
        mid = jnp.array([sum(M_range), sum(eta_range)])
        M_eta = jnp.concatenate([M_eta, mid - M_eta])[:n]
        return M_eta
''')],
  demo='''
from jax import random
from ripplegw import get_M_eta_sampler
s = np.asarray(get_M_eta_sampler((5.0, 50.0), (0.1, 0.25))(random.PRNGKey(1), 4000))
m = np.sort(s[:, 0])
check(np.max(np.abs(m + m[::-1] - 55.0)) > 1e-3, "the samples are mirror images of each other")
''', needs="looking at the samples jointly (each is uniform and in range)", breaks="half of the samples are mirror images of the other half"),
dict(id="sampler-key-cache", property="C03",
  edits=[(I, '''    def sampler(key, n):
        ms = random.uniform(
            key,
''', '''    drawn = 0

    def sampler(key, n):
        nonlocal drawn
        drawn += 1
        ms = random.uniform(
            key if drawn == 1 else random.fold_in(key, drawn),
''')],
  demo='''
from jax import random
from ripplegw import get_m1_m2_sampler
s = get_m1_m2_sampler((5.0, 50.0), (5.0, 50.0))
k = random.PRNGKey(1)
check(np.array_equal(s(k, 100), s(k, 100)), "the same key gave another sample")
''', needs="calling one sampler twice with the same key", breaks="samples are not reproducible from their key"),
dict(id="inner-long-blocks", property="C05",
  edits=[(I, '''    integral = jnp.abs(
        jnp.sum(h1s.conj() * h2s * jnp.exp(1j * 2 * pi * fs * del_t) / Sns)
    )
''', '''    integrand = h1s.conj() * h2s * jnp.exp(1j * 2 * pi * fs * del_t) / Sns
    if integrand.size > 8192:
        # block-wise summation loses less precision on long grids
        n = integrand.size // 1024
        integrand = integrand[: n * 1024].reshape(n, 1024).sum(axis=1)
    integral = jnp.abs(jnp.sum(integrand))
''')],
  demo='''
from ripplegw import get_phase_maximized_inner_product_arr as ip
for n in [1000, 10000, 9216]:
    fs = jnp.arange(n) * 0.125 + 20.0
    h = jnp.exp(1j * fs**0.5)
    check(abs(ip(0.0, fs, jnp.ones(n), h, h) - 1) < 1e-9, f"overlap of a strain with itself on {n} points")
''', needs="a grid of more than 8192 points, and not a multiple of 1024", breaks="the end of the grid is dropped from the overlap"),
dict(id="pads-allclose-grid", property="C06",
  edits=[(I, "    if not jnp.allclose(jnp.diff(fs), df).all():\n", "    if not jnp.allclose(fs, jnp.linspace(fs[0], fs[-1], len(fs))):\n")],
  demo='''
import warnings
from ripplegw import get_eff_pads
def warned(fs):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        get_eff_pads(fs)
    return len(w)
f = np.arange(80, 8001) * 0.25
check(warned(jnp.array(f)) == 0, "warning for an even grid")
g = f.copy()
g[7000] += 0.01
check(warned(jnp.array(g)) > 0, "no warning for an uneven grid")
''', needs="an unevenness small compared with the frequency but not with the spacing", breaks="uneven grids pass without the warning"),
dict(id="pads-warn-once", property="C06",
  edits=[(I, '''    if not jnp.allclose(jnp.diff(fs), df).all():
        warnings.warn("frequency grid may not be evenly spaced")
''', '''    if not jnp.allclose(jnp.diff(fs), df).all():
        if not getattr(get_eff_pads, "warned", False):
            warnings.warn("frequency grid may not be evenly spaced")
        get_eff_pads.warned = True
''')],
  demo='''
import warnings
from ripplegw import get_eff_pads
for i in range(3):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        get_eff_pads(jnp.array([1.0, 2.0, 3.0, 4.5, 5.0]))
    check(any("evenly" in str(x.message) for x in w), f"no warning for uneven grid number {i}")
''', needs="a second uneven grid in the same process", breaks="only the first uneven grid is warned about"),
dict(id="phenomd-remnant-prograde", property="C07",
  edits=[(DU, "    a = FinalSpin0815_s(eta_s, S)\n", "    # the ringdown fits start at zero spin\n    a = jnp.maximum(FinalSpin0815_s(eta_s, S), 0.0)\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
f = np.linspace(20, 400, 200)
for m1, m2, c1, c2 in [(30.0, 20.0, 0.5, -0.3), (60.0, 6.0, -0.8, 0.1)]:
    hp, _ = gen_IMRPhenomD_hphc(jnp.array(f), jnp.array([*mceta(m1, m2), c1, c2, 400.0, 0.0, 0.4, 0.6]), 20.0)
    lp, _ = lal_hphc("IMRPhenomD", f, m1, m2, (0, 0, c1), (0, 0, c2), 400.0, 0.4, 0.6, 20.0)
    ok = np.abs(lp) > 1e-30
    check(np.max(np.abs(np.abs(hp[ok]) / np.abs(lp[ok]) - 1)) < 1e-4, f"amplitude of {m1, m2, c1, c2}")
''', needs="a remnant that spins against the orbit (unequal masses, primary strongly anti-aligned)", breaks="ringdown frequency of retrograde remnants"),
dict(id="phenomd-join-floor-hz", property="C16",
  edits=[(DU, '''    f_RD, f_damp = get_fRD_fdamp(m1, m2, chi1, chi2)

    # Phase transition frequencies
    f1 = 0.018 / (M * gt)
''', '''    f_RD, f_damp = get_fRD_fdamp(m1, m2, chi1, chi2)

    # Phase transition frequencies
    f1 = jnp.maximum(0.018 / (M * gt), 1e-2)
''')],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
def h(k):
    x = jnp.geomspace(0.004, 0.1, 100) / (50 * 4.925491025543575903411922162094833998e-6)
    return np.abs(gen_IMRPhenomD(x / k, jnp.array([21.3 * k, 0.24, 0.3, -0.2, 400.0, 0.0, 0.0]), 20.0 / k)) / k**2, \\
        np.unwrap(np.angle(gen_IMRPhenomD(x / k, jnp.array([21.3 * k, 0.24, 0.3, -0.2, 400.0, 0.0, 0.0]), 20.0 / k)))
for k in [2.0, 1e2, 1e5]:
    check(np.max(np.abs(h(k)[1] - h(1.0)[1])) < 1e-4, f"phase at {k} times the mass")
''', needs="total masses above 4e5 solar masses", breaks="the phase regions stop scaling with the mass"),
dict(id="pv2-beta-floor", property="C09",
  edits=[(PU, "    s = Sp / (L + SL)\n", "    s = Sp / jnp.maximum(L + SL, 0.03)\n")],
  demo=LAL + '''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2
f = np.linspace(30, 240, 200)
for m1, m2, s1, s2 in [(30.0, 20.0, (0.1, 0.2, 0.3), (0.1, 0.0, -0.2)), (90.0, 10.0, (0.3, 0.1, -0.85), (0.0, 0.1, 0.2))]:
    hp, _ = gen_IMRPhenomPv2(jnp.array(f), jnp.array([m1, m2, *s1, *s2, 400.0, 0.0, 0.4, 0.6]), 30.0)
    lp, _ = lal_hphc("IMRPhenomPv2", f, m1, m2, s1, s2, 400.0, 0.4, 0.6, 30.0)
    ok = np.abs(lp) > 1e-28
    check(np.max(np.abs(np.abs(hp[ok]) / np.abs(lp[ok]) - 1)) < 1e-3, f"amplitude of {m1, m2, s1, s2}")
''', needs="unequal masses with a large anti-aligned primary spin, late in the signal", breaks="the opening angle of the precession cone when the spin nearly cancels the orbital angular momentum"),
dict(id="pv2-chip-threshold", property="C09",
  edits=[(PU, "    chip = num / den\n", "    chip = num / den\n    chip = jnp.where(chip < 1e-3, 0.0 * chip, chip)\n"),
         (PU, '''    # Magnitude of the spin projections in the orbital plane
''', '''    # Magnitude of the spin projections in the orbital plane (negligible ones are dropped)
''')],
  demo='''
from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2
f = jnp.linspace(30, 240, 200)
def h(s):
    return np.asarray(gen_IMRPhenomPv2(f, jnp.array([40.0, 10.0, s, 0.0, 0.1, 0.0, 0.0, 0.2, 400.0, 0.0, 0.4, 1.2]), 30.0)[0])
a, b, c = h(0.9e-3), h(0.99e-3), h(1.01e-3)
check(np.max(np.abs(c - b)) < 3 * np.max(np.abs(b - a)), "a jump at small in-plane spin")
''', needs="in-plane spins below 1e-3", breaks="small in-plane spins have no effect"),
dict(id="taylorf2-tilde-cap", property="C10",
  edits=[(T, '''        lambda1, lambda2 = lambda_tildes_to_lambdas(
            jnp.array([params[4], params[5], m1, m2])
        )
    else:
        lambda1, lambda2 = params[4], params[5]

    theta_intrinsic = jnp.array([m1, m2, params[2], params[3], lambda1, lambda2])
''', '''        lambdas = lambda_tildes_to_lambdas(
            jnp.array([params[4], params[5], m1, m2])
        )
        lambda1, lambda2 = jnp.clip(jnp.array(lambdas), 0.0, 5000.0)
    else:
        lambda1, lambda2 = params[4], params[5]

    theta_intrinsic = jnp.array([m1, m2, params[2], params[3], lambda1, lambda2])
''')],
  demo='''
from ripplegw import lambdas_to_lambda_tildes
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2_hphc
f = jnp.linspace(20, 1500, 500)
for l1, l2, m1, m2 in [(400.0, 700.0, 1.6, 1.3), (600.0, 9000.0, 1.9, 1.0)]:
    mc = [(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, m1 * m2 / (m1 + m2) ** 2]
    t = lambdas_to_lambda_tildes(jnp.array([l1, l2, m1, m2]))
    a = gen_TaylorF2_hphc(f, jnp.array([*mc, 0.0, 0.0, l1, l2, 40.0, 0.0, 0.0, 0.3]), 20.0, use_lambda_tildes=False)[0]
    b = gen_TaylorF2_hphc(f, jnp.array([*mc, 0.0, 0.0, *t, 40.0, 0.0, 0.0, 0.3]), 20.0)[0]
    check(np.max(np.abs(a - b) / np.abs(a)) < 1e-4, f"components and tildes differ for {l1, l2}")
''', needs="deformabilities above 5000 given as the tilde pair", breaks="large deformabilities are capped"),
dict(id="nrtidal-untapered-tail", property="C11",
  edits=[(NT, "    h0 = A_P * (bbh_amp + A_T) * jnp", "    # (the fit of the tidal amplitude ends at merger)\n    A_T = A_T * (f <= 1.2 * f_merger)\n    h0 = A_P * (A_T + bbh_amp) * jnp")],
  demo='''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2 as g
f = jnp.linspace(1000, 2500, 3000)
th = jnp.array([1.2, 0.249, 0.0, 0.0, 400.0, 600.0, 40.0, 0.0, 0.0])
a = np.abs(g(f, th, 20.0, use_lambda_tildes=False, no_taper=True))
d = np.abs(np.diff(np.log(a)))
check(d.max() < 5 * np.median(d), "a jump of the untapered amplitude")
''', needs="no_taper and frequencies above 1.2 times the merger frequency", breaks="the tidal amplitude correction stops at merger"),
dict(id="sinegaussian-window", property="C12",
  edits=[(SG, "    fac = jnp.exp(phi**2 / (-2.0 * quality**2) + complex_phase)\n", "    fac = jnp.exp(phi**2 / (-2.0 * quality**2) + complex_phase)\n    fac = jnp.where(jnp.abs(phi) < 6.0 * quality, fac, 0.0 * fac)\n"),
         (SG, "    # window to taper the waveform\n", "    # window (up to six sigma) to taper the waveform\n")],
  demo='''
from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc
q, f0 = 5.0, 100.0
for x in [1.0, 3.0, 6.5]:
    t = jnp.array([x * q / (2 * np.pi * f0)])
    p, c = gen_SineGaussian_hphc(t, jnp.array([q, f0, 1e-21, 0.3, 0.5]))
    check(np.hypot(p[0], c[0]) > 0, f"no signal at {x} sigma")
''', needs="times more than six widths from the centre", breaks="the far tails of the burst are cut off"),
dict(id="phenomd-tc-wrap", property="C13",
  edits=[(D, '''    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
    Psi += ext_phase_contrib
    fcut_true''', '''    tc = theta_extrinsic[1]
    if jnp.size(f) > 1:
        # the signal is periodic in the duration of the segment
        duration = 1.0 / (f.ravel()[1] - f.ravel()[0])
        tc = tc - duration * jnp.round(tc / duration)
    ext_phase_contrib = 2.0 * PI * f * tc - 2 * theta_extrinsic[2]
    Psi += ext_phase_contrib
    fcut_true''')],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
th = lambda tc: jnp.array([20.0, 0.24, 0.1, 0.2, 400.0, tc, 0.3])
for f0 in [20.0, 20.3]:
    f = f0 + jnp.arange(200)
    r = gen_IMRPhenomD(f, th(1.7), 20.0) / gen_IMRPhenomD(f, th(0.2), 20.0)
    check(np.max(np.abs(r - jnp.exp(-2j * jnp.pi * f * 1.5))) < 1e-6, f"shift of tc on a grid from {f0}")
''', needs="a grid that is not at multiples of its spacing (or not even) and a time longer than half the segment", breaks="tc is only applied modulo the segment"),
dict(id="nrtidal-fref-clipped", property="C14",
  edits=[(NT, "    Psi_ref = Phase(f_ref, bbh_theta_intrinsic, coeffs, transition_freqs)\n    Mf_ref = f_ref * M_s\n", "    f_first = jnp.maximum(f_ref, jnp.min(f))\n    Psi_ref = Phase(f_first, bbh_theta_intrinsic, coeffs, transition_freqs)\n    Mf_ref = f_first * M_s\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2 as g
f = jnp.linspace(20, 1500, 500)
th = jnp.array([1.2, 0.249, 0.0, 0.0, 400.0, 6.0, 40.0, 0.0, 0.0])
a, b = g(f, th, 20.0), g(f[100:], th, 20.0)
check(np.max(np.abs(a[100:] - b)) < 1e-8 * np.abs(a).max(), "a part of the grid gives other values")
''', needs="a grid that starts above the reference frequency", breaks="the strain depends on where the grid starts"),
dict(id="phenomd-f4-where", property="C17",
  edits=[(DU, '''    f4 = jax.lax.cond(
        gamma2 >= 1,
        f4_gammaneg_gtr_1,
        f4_gammaneg_less_1,
        f_RD,
        f_damp,
        gamma3,
        gamma2,
    )
''', '''    f4 = jnp.where(
        gamma2 >= 1,
        f4_gammaneg_gtr_1(f_RD, f_damp, gamma3, gamma2),
        f4_gammaneg_less_1(f_RD, f_damp, gamma3, gamma2),
    )
''')],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
f = jnp.linspace(20, 200, 50)
for m1, m2, c1, c2 in [(40.0, 30.0, 0.1, 0.2), (146.3661096983466, 30.0, 0.9788921105743698, 0.7565912705439723)]:
    th = jnp.array([(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, m1 * m2 / (m1 + m2) ** 2, c1, c2, 400.0, 0.1, 0.2])
    g = jax.grad(lambda t: jnp.sum(jnp.abs(gen_IMRPhenomD(f, t, 20.0)) * 1e22))(th)
    check(np.all(np.isfinite(g)), f"gradient at {m1, m2, c1, c2}: {g}")
''', needs="spins near one at moderate mass ratio (gamma2 above 1)", breaks="derivatives are nan"),
dict(id="taylorf2-ravel", property="C18",
  edits=[(T, "    v = jnp.cbrt(piM * f)\n", "    v = jnp.cbrt(piM * jnp.ravel(f))\n"), (T, "    phasing += shft * f - 2.0", "    phasing += shft * jnp.ravel(f) - 2.0")],
  demo='''
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
th = jnp.array([1.2, 0.249, 0.0, 0.0, 400.0, 6.0, 40.0, 0.0, 0.0])
for f in [jnp.linspace(20, 100, 6), jnp.linspace(20, 100, 6).reshape(2, 3), jnp.array(30.0)]:
    check(gen_TaylorF2(f, th, 20.0).shape == f.shape, f"shape for frequencies of shape {f.shape}")
''', needs="scalar or two-dimensional frequencies", breaks="the strain is returned flat"),
dict(id="generator-jit-cache", property="C19",
  edits=[(F, '''            gen_func = self.generators[model_type]
            return gen_func(fs, theta_ripple, f_ref)
''', '''            gen_func = self.generators[model_type]
            key = (model_type, len(fs), float(f_ref))
            if key not in self.compiled:
                self.compiled[key] = jax.jit(lambda th: gen_func(fs, th, f_ref))
            return self.compiled[key](theta_ripple)
'''), (F, "        # Initialize the dictionary of generator functions\n", "        # Initialize the dictionaries of generator functions\n        self.compiled = {}\n"),
   (F, "from ripplegw.waveforms import (\n", "import jax\n\nfrom ripplegw.waveforms import (\n")],
  demo='''
from ripplegw.FD_waveform import FD_waveform_generator
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc
g = FD_waveform_generator()
th = jnp.array([20.0, 0.24, 0.1, 0.2, 400.0, 0.0, 0.3, 0.5])
for f in [jnp.linspace(20, 200, 50), jnp.linspace(30, 100, 50)]:
    a, b = g.generate_waveform("D", f, th, 20.0)[0], gen_IMRPhenomD_hphc(f, th, 20.0)[0]
    check(np.max(np.abs(a - b)) < 1e-8 * np.max(np.abs(b)), f"strain from {f[0]} Hz")
''', needs="one generator used with a second grid of the same length", breaks="the strain of an earlier grid is returned"),
dict(id="taylorf2-shared-dict", property="C19",
  edits=[(T, '''    phasing_coeffs = dict()
    phasing_log_coeffs = dict()
''', '''    phasing_coeffs, phasing_log_coeffs = _PHASING, _PHASING_LOG
'''), (T, "###########################\n### AUXILIARY FUNCTIONS ###\n###########################\n", "_PHASING, _PHASING_LOG = dict(), dict()  # filled on every call\n\n###########################\n### AUXILIARY FUNCTIONS ###\n###########################\n")],
  demo='''
from concurrent.futures import ThreadPoolExecutor
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
f = jnp.linspace(20, 1500, 64)
ths = [jnp.array([1.0 + 0.1 * i, 0.24, 0.1 * i, -0.05 * i, 100.0 * i, 6.0, 40.0, 0.0, 0.0]) for i in range(8)]
want = [np.asarray(gen_TaylorF2(f, t, 20.0)) for t in ths]
with ThreadPoolExecutor(8) as ex:
    got = list(ex.map(lambda t: np.asarray(gen_TaylorF2(f, t, 20.0)), ths * 10))
for i, g in enumerate(got):
    check(np.allclose(g, want[i % 8], rtol=1e-9, atol=0), f"call {i} from a thread gave another strain")
''', needs="calls from several threads at once", breaks="threads mix up each other's coefficients"),
dict(id="phenomd-f32-square", property="C20", x64=False,
  edits=[(D, "    return Amp0 * Amp * (M_s**2.0) / dist_s\n", "    return Amp0 * Amp * dist_s * (M_s / dist_s) ** 2.0\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD
f = jnp.linspace(20, 200, 50)
for D in [1.0, 100.0, 1e4]:
    h = np.abs(gen_IMRPhenomD(f, jnp.array([20.0, 0.24, 0.1, 0.2, D, 0.0, 0.3]), 20.0)) * D
    check(h.dtype == np.float32 and 1e-23 < h[0] < 1e-15, f"strain at {D} Mpc: {h[0]}")
''', needs="single precision (the square of mass over distance underflows)", breaks="strains are zero in the default precision"),
dict(id="xas-fref-ringdown", property="C21",
  edits=[(X, "        -(Phase(f_ref, theta_intrinsic, phase_coeffs) + linb * (f_ref * M_s) + lina)\n", "        -(\n            Phase(jnp.minimum(f_ref, fMs_RD / M_s), theta_intrinsic, phase_coeffs)\n            + linb * jnp.minimum(f_ref * M_s, fMs_RD)\n            + lina\n        )\n")],
  demo='''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
th = jnp.array([60.0, 0.24, 0.1, 0.2, 400.0, 0.0, 0.3])
for r in [30.0, 80.0, 180.0, 300.0]:
    h = gen_IMRPhenomXAS(jnp.array([r, r + 1.0]), th, r)[0]
    check(abs(np.angle(h * np.exp(-1j * (0.6 + np.pi / 4 + np.pi)))) < 1e-6 or abs(h) == 0, f"phase at f_ref = {r}: {np.angle(h)}")
''', needs="a reference frequency above the ringdown frequency", breaks="the phase is not anchored at the reference frequency"),
dict(id="xas-equal-mass-second", property="C22",
  edits=[(X, '''    StotR = (mm1**2 * chi1 + mm2**2 * chi2) / (mm1**2 + mm2**2)
    chia = chi1 - chi2

    fM_s = f * M_s
    fMs_RD, fMs_damp, _, _ = IMRPhenomX_utils.get_cutoff_fMs(m1, m2, chi1, chi2)
    Psi = Phase(f, theta_intrinsic, phase_coeffs)
''', '''    StotR = (mm1**2 * chi1 + mm2**2 * chi2) / (mm1**2 + mm2**2)
    chia = jnp.where(delta < 1e-2, jnp.abs(chi1 - chi2), chi1 - chi2)
    StotR = jnp.where(delta < 1e-2, jnp.maximum(StotR, chi1), StotR)

    fM_s = f * M_s
    fMs_RD, fMs_damp, _, _ = IMRPhenomX_utils.get_cutoff_fMs(m1, m2, chi1, chi2)
    Psi = Phase(f, theta_intrinsic, phase_coeffs)
''')],
  demo='''
from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS
f = jnp.linspace(20, 200, 100)
g = lambda eta, a, b: np.asarray(gen_IMRPhenomXAS(f, jnp.array([20.0, eta, a, b, 400.0, 0.0, 0.3]), 20.0))
a, b = g(0.25, 0.5, -0.3), g(0.25, -0.3, 0.5)
check(np.max(np.abs(a - b)) < 1e-6 * np.abs(a).max(), "exchanging the spins of equal masses changes the strain")
''', needs="nearly equal masses with different spins", breaks="the exchange symmetry of equal masses (the time alignment)"),
]
