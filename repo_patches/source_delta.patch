From 8b7323b8451f927c5be5551de8f24794c6dc03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 01/14] fix: IMRPhenomXAS phic/tc convention (h ~ exp(2i phic -
 2 pi i f tc), as LAL and the other models)

---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..7a87c80 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,7 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    ext_phase_contrib = 2.0 * theta_extrinsic[2] - 2.0 * PI * f * theta_extrinsic[1]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 72f23bad6f897818d5e83469dbdd77244fb4b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 02/14] fix: IMRPhenomPv2 applies tc (seconds) as exp(-2 pi i f
 tc), as the other models do

---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 51cb66095ab2662d1089a063fcf9b60b8e36c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 03/14] fix: PhenomD cutoff no longer depends on the frequency
 grid passed in

---
 src/ripplegw/waveforms/IMRPhenomD.py           | 9 ++-------
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2bb9c53 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -494,9 +494,7 @@ def Amp(
     Amp_IIb = get_IIb_Amp(f * M_s, theta, coeffs, f_RD, f_damp)
 
     # And now we can combine them by multiplying by a set of heaviside functions
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
         + jnp.heaviside(f - f3, 0.5) * Amp_IIa * jnp.heaviside(f4 - f, 0.5)
@@ -536,10 +534,7 @@ def _gen_IMRPhenomD(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..234ed37 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -443,9 +443,7 @@ def gen_IMRPhenomD_NRTidalv2(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
-- 
2.43.0


From 80f4b3b4e0afc944f39ed6546f9607934a172fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:28 +0000
Subject: [PATCH 04/14] fix: Planck taper is 0 at its end point and its
 derivative w.r.t. frequency is propagated

---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 234ed37..d1279d0 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -39,7 +39,7 @@ def get_planck_taper(x: Array, y: float) -> Array:
         x < y,
         1.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             1.0 - 1.0 / (jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp)) + 1.0),
         ),
@@ -79,8 +79,10 @@ def get_planck_taper_der(x: Array, y: float):
     return tangent_out
 
 
+# The taper only depends on x / y, hence x * dT/dx = - y * dT/dy
 get_planck_taper.defjvps(
-    None, lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot
+    lambda x_dot, primal_out, x, y: -get_planck_taper_der(x, y) * y / x * x_dot,
+    lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot,
 )
 
 
-- 
2.43.0


From 70348cd77036926906664005c944538e375fe313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:22 +0000
Subject: [PATCH 05/14] fix: no NaN for nearly equal masses when rounding
 pushes eta above 1/4

---
 src/ripplegw/__init__.py                     |  9 ++++++++-
 src/ripplegw/waveforms/IMRPhenomD.py         |  2 +-
 src/ripplegw/waveforms/IMRPhenomD_utils.py   |  4 ++--
 src/ripplegw/waveforms/IMRPhenomPv2.py       |  2 +-
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py |  2 +-
 src/ripplegw/waveforms/IMRPhenomXAS.py       | 14 +++++++-------
 src/ripplegw/waveforms/IMRPhenomX_utils.py   |  6 +++---
 7 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index f80bbd6..7942028 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -49,7 +49,10 @@ def ms_to_Mc_eta(m):
         the component masses
     """
     m1, m2 = m
-    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), m1 * m2 / (m1 + m2) ** 2
+    eta = m1 * m2 / (m1 + m2) ** 2
+    # For nearly equal masses, rounding can push eta above its maximum of 1/4
+    eta = eta - (eta - 0.25) * (eta > 0.25)
+    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), eta
 
 
 # TODO in code below, reduce copy-paste
@@ -77,6 +80,8 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
     """
     lambda_1, lambda_2, q = params
     eta = q / (1 + q) ** 2
+    # For nearly equal masses, rounding can push eta above its maximum of 1/4
+    eta = eta - (eta - 0.25) * (eta > 0.25)
     lambda_plus = lambda_1 + lambda_2
     lambda_minus = lambda_1 - lambda_2
     lambda_tilde = (
@@ -237,6 +242,8 @@ def lambda_tildes_to_lambdas_from_q(params: Array):
     lambda_tilde, delta_lambda_tilde, q = params
 
     eta = q / (1 + q) ** 2
+    # For nearly equal masses, rounding can push eta above its maximum of 1/4
+    eta = eta - (eta - 0.25) * (eta > 0.25)
 
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
     coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index 2bb9c53..815300e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -214,7 +214,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, coeffs: Array) -> Array:
     eta2 = eta * eta
     eta3 = eta * eta2
 
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     SetaPlus1 = 1.0 + Seta
 
     # Spin variables
diff --git a/src/ripplegw/waveforms/IMRPhenomD_utils.py b/src/ripplegw/waveforms/IMRPhenomD_utils.py
index 61a7ab2..4c2c35f 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_utils.py
@@ -38,7 +38,7 @@ def EradRational0815_s(eta, s):
 
 
 def EradRational0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
@@ -146,7 +146,7 @@ def get_coeffs(theta: Array) -> Array:
     # Definition of chiPN from lalsuite
     chi_s = (chi1 + chi2) / 2.0
     chi_a = (chi1 - chi2) / 2.0
-    seta = (1 - 4 * eta) ** (1 / 2)
+    seta = jnp.maximum(1 - 4 * eta, 0) ** (1 / 2)
     chiPN = chi_s * (1 - 76 * eta / 113) + seta * chi_a
 
     coeff = (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index 2a6f123..e546ac3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -33,7 +33,7 @@ def PhenomPCoreTwistUp(
 
     # here it is used to be LAL_MTSUN_SI
     f = fHz * gt * M  # Frequency in geometric units
-    q = (1.0 + jnp.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+    q = (1.0 + jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0)) - 2.0 * eta) / (2.0 * eta)
     m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
     m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
     Sperp = chip * (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 42aac9a..378f42d 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,7 +31,7 @@ def ROTATEY(angle, x, y, z):
 
 
 def FinalSpin0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 7a87c80..a0dd564 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -25,7 +25,7 @@ def get_inspiral_phase(fM_s: Array, theta: Array, phase_coeffs: Array) -> Array:
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
     eta3 = eta2 * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -342,7 +342,7 @@ def get_intermediate_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -554,7 +554,7 @@ def get_mergerringdown_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
     chi_eff = mm1 * chi1 + mm2 * chi2
@@ -811,7 +811,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, amp_coeffs: Array) -> Array:
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1018,7 +1018,7 @@ def get_intermediate_Amp(
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1212,7 +1212,7 @@ def get_mergerringdown_Amp(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1331,7 +1331,7 @@ def _gen_IMRPhenomXAS(
 
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
diff --git a/src/ripplegw/waveforms/IMRPhenomX_utils.py b/src/ripplegw/waveforms/IMRPhenomX_utils.py
index a8f8c48..2298c3f 100644
--- a/src/ripplegw/waveforms/IMRPhenomX_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomX_utils.py
@@ -20,7 +20,7 @@ def get_cutoff_fMs(m1, m2, chi1, chi2):
     # m1Sq = m1_s * m1_s
     # m2Sq = m2_s * m2_s
 
-    delta = jnp.sqrt(1.0 - 4.0 * eta_s)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta_s, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
@@ -432,7 +432,7 @@ def Eqspin_CV(EqSpin_coeffs, eta, S):
 
 def Uneqspin_CV(EqSpin_coeffs, eta, S, chia):
     chia2 = chia * chia
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     eta2 = eta * eta
     eta3 = eta2 * eta
     eta4 = eta3 * eta
@@ -522,7 +522,7 @@ def Amp_Eqspin_CV(EqSpin_coeffs, eta, S):
 
 
 def Amp_Uneqspin_CV(UneqSpin_coeffs, eta, S, chia):
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     return (
         chia
         * delta
-- 
2.43.0


From b67f48ec3b4d46204af11d7b7d2b9a3a560d6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:35 +0000
Subject: [PATCH 06/14] fix: get_eff_pads rounds the pad lengths instead of
 truncating them

---
 src/ripplegw/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index 7942028..b9716b8 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -372,9 +372,11 @@ def get_eff_pads(fs: Array) -> Tuple[Array, Array]:
             "function will thus yield inaccurate results when used with fft/ifft."
         )
 
-    N = 2 * jnp.array(fs[-1] / df - 1).astype(int)
-    pad_low = jnp.zeros(jnp.array(fs[0] / df).astype(int))
-    pad_high = jnp.zeros(N - jnp.array(fs[-1] / df).astype(int))
+    # Round rather than truncate: e.g. 0.3 / 0.1 is slightly smaller than 3
+    N_low = jnp.round(jnp.array(fs[0] / df)).astype(int)
+    N_high = jnp.round(jnp.array(fs[-1] / df)).astype(int)
+    pad_low = jnp.zeros(N_low)
+    pad_high = jnp.zeros(2 * (N_high - 1) - N_high)
     return pad_low, pad_high
 
 
-- 
2.43.0


From e161ebbbb21e7efd45974edb26964da5430d7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:38 +0000
Subject: [PATCH 07/14] fix: tabulated PSDs are inf, not nan, between infinite
 samples (Sn_O2 below 15 Hz)

---
 src/ripplegw/noise.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/noise.py b/src/ripplegw/noise.py
index 3e883fc..a8701ca 100644
--- a/src/ripplegw/noise.py
+++ b/src/ripplegw/noise.py
@@ -78,10 +78,12 @@ def _load_noise(
     Sns = jnp.array(Sns)
     f_range = (fs[0], fs[-1])
 
-    return (
-        jax.jit(lambda f: jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)),
-        f_range,
-    )
+    def Sn(f):
+        Sns_f = jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)
+        # Interpolating between infinite samples yields nan rather than inf
+        return jnp.where(jnp.isnan(Sns_f) & ~jnp.isnan(f), jnp.inf, Sns_f)
+
+    return jax.jit(Sn), f_range
 
 
 Sn_aLIGO, f_range_aLIGO = _load_noise("aLIGO", asd=True)
-- 
2.43.0


From 83213198c3a49c0b99ba654980e616b2d78afdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 08/14] fix: finite IMRPhenomPv2 gradients when only one object
 has in-plane spin

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 378f42d..a3750c6 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -70,8 +70,15 @@ def convert_spins(
     chi2_l = s2z  # Dimensionless aligned spin on BH 2
 
     # Magnitude of the spin projections in the orbital plane
-    S1_perp = m1_2 * jnp.sqrt(s1x**2 + s1y**2)
-    S2_perp = m2_2 * jnp.sqrt(s2x**2 + s2y**2)
+    # (the inner where keeps the gradient finite when one of them vanishes)
+    s1_perp_sq = s1x**2 + s1y**2
+    s2_perp_sq = s2x**2 + s2y**2
+    S1_perp = m1_2 * jnp.where(
+        s1_perp_sq > 0, jnp.sqrt(jnp.where(s1_perp_sq > 0, s1_perp_sq, 1.0)), 0.0
+    )
+    S2_perp = m2_2 * jnp.where(
+        s2_perp_sq > 0, jnp.sqrt(jnp.where(s2_perp_sq > 0, s2_perp_sq, 1.0)), 0.0
+    )
 
     A1 = 2 + (3 * m2) / (2 * m1)
     A2 = 2 + (3 * m1) / (2 * m2)
-- 
2.43.0


From 2fd81a9af75b7b551ec6894a9d3d9e96d27c02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:29 +0000
Subject: [PATCH 09/14] fix: finite IMRPhenomXAS reverse-mode gradients when
 gamma2 > 1

---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index a0dd564..e5e2896 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1239,11 +1239,14 @@ def get_mergerringdown_Amp(
             amp_coeffs[5, amp_uneqspin_indx:], eta, StotR, chia
         )
     )
+    # Keep the sqrt real in the branch which is not selected, so that it does not
+    # turn the reverse-mode gradient into nan
+    sqrt_gamma2 = jnp.sqrt(jnp.where(gamma2 <= 1.0, 1.0 - gamma2 * gamma2, 1.0))
     fMs_AmpRDMin = jnp.where(
         gamma2 <= 1.0,
         jnp.fabs(
             fMs_RD
-            + fMs_damp * gamma3 * (jnp.sqrt(1.0 - gamma2 * gamma2) - 1.0) / gamma2
+            + fMs_damp * gamma3 * (sqrt_gamma2 - 1.0) / gamma2
         ),
         jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3 / gamma2),
     )
-- 
2.43.0


From 4df11a3c82e93a2c1b09228d11bac31440af2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:56 +0000
Subject: [PATCH 10/14] fix: IMRPhenomPv2 no longer returns nan for some
 aligned-spin inputs (arccos of a ratio rounded above 1)

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index a3750c6..c242fa9 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -95,9 +95,14 @@ def convert_spins(
     J0x_sf = m1_2 * s1x + m2_2 * s2x
     J0y_sf = m1_2 * s1y + m2_2 * s2y
     J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
-    J0 = jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-    thetaJ_sf = jnp.arccos(J0z_sf / J0)
+    # arctan2 rather than arccos(J0z/J0): rounding can push the ratio above 1, where
+    # arccos is nan (the inner where keeps the gradient finite for aligned spins)
+    J0_perp_sq = J0x_sf * J0x_sf + J0y_sf * J0y_sf
+    J0_perp = jnp.where(
+        J0_perp_sq > 0, jnp.sqrt(jnp.where(J0_perp_sq > 0, J0_perp_sq, 1.0)), 0.0
+    )
+    thetaJ_sf = jnp.arctan2(J0_perp, J0z_sf)
 
     phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
 
@@ -132,7 +137,8 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
     Nx_Jf, Nz_Jf = tmp_x, tmp_z
-    thetaJN = jnp.arccos(Nz_Jf)
+    # N lies in the (pos x)z half plane of the J frame
+    thetaJN = jnp.arctan2(Nx_Jf, Nz_Jf)
 
     # Finally, we need to redefine the polarizations:
     # PhenomP's polarizations are defined following Arun et al (arXiv:0810.5336)
-- 
2.43.0


From 8b6f08e4f6f3962216fc31285058de7ecbc995c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 11/14] fix: IMRPhenomPv2 with exactly aligned spins depends on
 phiRef, as with nearly aligned spins

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index c242fa9..01f18b8 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -123,13 +123,10 @@ def convert_spins(
 
     kappa = -jnp.arctan2(tmp_y, tmp_x)
 
-    # Then we determine alpha0, by rotating LN
-    tmp_x, tmp_y, tmp_z = 0, 0, 1
-    tmp_x, tmp_y, tmp_z = ROTATEZ(-phiJ_sf, tmp_x, tmp_y, tmp_z)
-    tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
-    tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
-
-    alpha0 = jnp.arctan2(tmp_y, tmp_x)
+    # Then we determine alpha0, by rotating LN = (0, 0, 1). The first two rotations take
+    # it to (-sin(thetaJ_sf), 0, cos(thetaJ_sf)), so its azimuth after the third is
+    # pi + kappa. (The arctan2 of its components loses this for exactly aligned spins.)
+    alpha0 = jnp.pi + kappa
 
     # Finally we determine thetaJ, by rotating N
     tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From 19ad317d3aecf9e74a3bf84fe9575b579fcc8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:50 +0000
Subject: [PATCH 12/14] fix: IMRPhenomPv2 gradients are finite for aligned
 spins

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 01f18b8..723a0e3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -30,6 +30,14 @@ def ROTATEY(angle, x, y, z):
     return tmp_x, y, tmp_z
 
 
+def arctan2_safe(y, x):
+    """arctan2 with arctan2(0, 0) = 0 and a finite (zero) gradient at that point."""
+    origin = (x == 0) & (y == 0)
+    return jnp.where(
+        origin, 0.0, jnp.arctan2(jnp.where(origin, 0.0, y), jnp.where(origin, 1.0, x))
+    )
+
+
 def FinalSpin0815(eta, chi1, chi2):
     Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
@@ -104,7 +112,7 @@ def convert_spins(
     )
     thetaJ_sf = jnp.arctan2(J0_perp, J0z_sf)
 
-    phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
+    phiJ_sf = arctan2_safe(J0y_sf, J0x_sf)
 
     phi_aligned = -phiJ_sf
 
@@ -121,7 +129,7 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEZ(-phiJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
 
-    kappa = -jnp.arctan2(tmp_y, tmp_x)
+    kappa = -arctan2_safe(tmp_y, tmp_x)
 
     # Then we determine alpha0, by rotating LN = (0, 0, 1). The first two rotations take
     # it to (-sin(thetaJ_sf), 0, cos(thetaJ_sf)), so its azimuth after the third is
@@ -229,9 +237,11 @@ def WignerdCoefficients(v: float, SL: float, eta: float, Sp: float):
     L = L2PNR(v, eta)
     s = Sp / (L + SL)
     s2 = s**2
-    cos_beta = 1.0 / (1.0 + s2) ** 0.5
+    sec_beta = (1.0 + s2) ** 0.5
+    cos_beta = 1.0 / sec_beta
     cos_beta_half = ((1.0 + cos_beta) / 2.0) ** 0.5  # cos(beta/2)
-    sin_beta_half = ((1.0 - cos_beta) / 2.0) ** 0.5  # sin(beta/2)
+    # sin(beta/2), ie sqrt((1 - cos_beta) / 2), with a finite gradient at s = 0
+    sin_beta_half = jnp.abs(s) / (2.0 * sec_beta * (1.0 + sec_beta)) ** 0.5
 
     return cos_beta_half, sin_beta_half
 
-- 
2.43.0


From 59c12cbb656c2d5017689724e3bb80de8884702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:21 +0000
Subject: [PATCH 13/14] fix: IMRPhenomPv2 with exactly aligned spins has LAL's
 phiRef dependence also when J is antiparallel to L

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 723a0e3..644f8aa 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -112,7 +112,11 @@ def convert_spins(
     )
     thetaJ_sf = jnp.arctan2(J0_perp, J0z_sf)
 
-    phiJ_sf = arctan2_safe(J0y_sf, J0x_sf)
+    # The azimuth of J is arbitrary for aligned spins. As in LAL, take N's, which gives
+    # the same dependence on phiRef whether J is parallel or antiparallel to L.
+    phiJ_sf = jnp.where(
+        J0_perp_sq > 0, arctan2_safe(J0y_sf, J0x_sf), jnp.pi / 2.0 - phiRef
+    )
 
     phi_aligned = -phiJ_sf
 
-- 
2.43.0


From 57480fee4bfad348aeda39d071d6c7a2de8d161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:39 +0000
Subject: [PATCH 14/14] fix: IMRPhenomPv2 inclination gradient for aligned
 spins seen face-off

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 644f8aa..eeb4237 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,11 +31,13 @@ def ROTATEY(angle, x, y, z):
 
 
 def arctan2_safe(y, x):
-    """arctan2 with arctan2(0, 0) = 0 and a finite (zero) gradient at that point."""
+    """
+    arctan2 with arctan2(0, 0) = 0 and a finite (zero) gradient at that point, and where
+    x and y are zero up to rounding.
+    """
     origin = (x == 0) & (y == 0)
-    return jnp.where(
-        origin, 0.0, jnp.arctan2(jnp.where(origin, 0.0, y), jnp.where(origin, 1.0, x))
-    )
+    angle = jnp.arctan2(jnp.where(origin, 0.0, y), jnp.where(origin, 1.0, x))
+    return jnp.where(x * x + y * y > 1e-24, angle, jax.lax.stop_gradient(angle))
 
 
 def FinalSpin0815(eta, chi1, chi2):
-- 
2.43.0

