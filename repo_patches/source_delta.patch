From 0de902e47fdc62cb77ac83b108dd3ada64667cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:55 +0000
Subject: [PATCH 01/31] fix: flip_stars exchanges the star label of oDoubleCE,
 oMerging and Match events

---
 posydon/utils/common_functions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..70550ed 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1425,6 +1425,11 @@ def flip_stars(binary):
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
         setattr(binary, 'event', 'CC1')
+    for label in ['oDoubleCE', 'oMerging', 'Match']:
+        if event == label+'1':
+            setattr(binary, 'event', label+'2')
+        elif event == label+'2':
+            setattr(binary, 'event', label+'1')
 
     state_history = np.array(getattr(binary, 'state_history'))
     cond_RLO2 = state_history == 'RLO1'
@@ -1446,6 +1451,11 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    for label in ['oDoubleCE', 'oMerging', 'Match']:
+        cond_2 = event_history == label+'1'
+        cond_1 = event_history == label+'2'
+        event_history[cond_2] = label+'2'
+        event_history[cond_1] = label+'1'
     setattr(binary, 'event_history', event_history.tolist())
 
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
-- 
2.43.0


From 154bbd045e3006e29ebf1e3602abd08c0f059f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 02/31] fix: restoring a binary or star to a negative history
 index keeps the rows before it

---
 posydon/binary_evol/binarystar.py | 4 ++++
 posydon/binary_evol/singlestar.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..86c9306 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -364,6 +364,10 @@ class BinaryStar:
             By default 0, i.e. the star will be restored to its initial state.
 
         """
+        # negative indices count from the end of the history
+        if i < 0:
+            i += len(self.state_history)
+
         # Move current binary properties to the ith step, using its history
         for p in BINARYPROPERTIES:
             setattr(self, p, getattr(self, '{}_history'.format(p))[i])
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..f065772 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -401,6 +401,10 @@ class SingleStar:
         if hooks is None:
             hooks = []
 
+        # negative indices count from the end of the history
+        if i < 0:
+            i += len(self.state_history)
+
         # Move current star properties to the ith step, using its history
         for p in STARPROPERTIES:
             setattr(self, p, getattr(self, '{}_history'.format(p))[i])
-- 
2.43.0


From 7ec237e05f6b0af6b1644bce99765db3acb4206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:09 +0000
Subject: [PATCH 03/31] fix: orbital periods are derived from separations when
 a binary is read from a table without periods

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 86c9306..522f086 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -685,9 +685,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -913,9 +913,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From 1527c38c14ae72495d97b6bdf2e035b5dd429ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:24 +0000
Subject: [PATCH 04/31] fix: Fryer+12-delayed gives full fallback for a CO core
 of exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..fbdbd23 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1366,7 +1366,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From 917a81642a070f12921068d39231e3a1a190cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:24 +0000
Subject: [PATCH 05/31] fix: without kicks the orbit widens by the mass lost
 from the star that collapsed

---
 posydon/binary_evol/SN/step_SN.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fbdbd23..b5a0489 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,10 +487,15 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            collapsed_second = binary.event == "CC2"
             binary.event = None
+            if collapsed_second:
+                star, companion = binary.star_2, binary.star_1
+            else:
+                star, companion = binary.star_1, binary.star_2
             new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
+                    star.mass, star.mass_history[-1],
+                    companion.mass, binary.separation)
             new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
-- 
2.43.0


From 13f02280b0bcde62ad2e17b587c8aee176de6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:37 +0000
Subject: [PATCH 06/31] fix: rounding errors no longer disrupt a binary whose
 orbit stays circular through core collapse

---
 posydon/binary_evol/SN/step_SN.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index b5a0489..7ab2cf4 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1837,8 +1837,11 @@ class StepSN(object):
                     / (G * Mtot_post * Apost))
 
                 # catch negative values, i.e. disrupted binaries
-                if 1.-x < 0.:
+                if 1.-x < -const.SNcheck_ERR:
                     epost = np.nan
+                elif 1.-x < 0.:
+                    # circular orbit up to rounding errors
+                    epost = 0.
                 else:
                     epost = np.sqrt(1 - x)
 
@@ -1936,8 +1939,9 @@ class StepSN(object):
                 # Continuity demands post-SN orbit to pass through preSN positions.
                 # Updated to work for eccentric orbits,
                 # see Eq. 15 in Wong, T.-W., Valsecchi, F., Fragos, T., & Kalogera, V. 2012, ApJ, 747, 111
-                SNflag1 = (1 - epost - rpre / Apost <= err) and (
-                    rpre / Apost - (1 + epost) <= err
+                # (epost is a square root, hence less precise close to 0)
+                SNflag1 = (1 - epost - rpre / Apost <= np.sqrt(err)) and (
+                    rpre / Apost - (1 + epost) <= np.sqrt(err)
                 )
 
                 # SNflag2: Equations 22-23, Willems, B., Henninger, M., Levin, T., et al. 2005, ApJ, 625, 324
-- 
2.43.0


From fd43cd0765b0e3f44b9a5016427e4277e30b2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:27 +0000
Subject: [PATCH 07/31] fix: after a double common envelope the companion's
 final core radius is its own, not the donor's

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From 0294a1a543e2a76fb9a85ced8333ad6b35420fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:37 +0000
Subject: [PATCH 08/31] fix: partial envelope ejection in a merging single
 common envelope no longer fails on undefined envelope masses

---
 posydon/binary_evol/CE/step_CEE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..e502890 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1288,11 +1288,15 @@ class StepCEE(object):
                       const.Msun/(2. * separation_before_merger)
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
+
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
         if not double_CE:
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
+            Mejected_comp = 0.0
 
         else: # in double_CE
 
@@ -1300,8 +1304,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From 5200e56a8d54ffc79e085a96d918c4bec9869a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:37 +0000
Subject: [PATCH 09/31] fix: no envelope is ejected when the spiral-in releases
 no orbital energy

---
 posydon/utils/common_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 70550ed..5d710de 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -2857,7 +2857,7 @@ def calculate_Mejected_for_integrated_binding_energy(profile, Ebind_threshold,
         U_energy = U_energy + specific_internal_energy[i]*donor_dm[i]*const.Msun
         Ebind_so_far = Grav_energy + factor_internal_energy * U_energy
         i=i+1
-    ind_threshold = i-1
+    ind_threshold = max(i-1, 0)
 
     if donor_mass[ind_threshold]< mc1_i or  donor_radius[ind_threshold]<rc1_i:
         Pwarn("partial mass ejected is greater than the envelope mass", "EvolutionWarning")
-- 
2.43.0


From 9cf143e4d0784bf16db6388024833cfb13493150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 10/31] fix: surface abundances of merging He-rich stars are
 mixed before their masses are summed

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..c06e344 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -642,11 +642,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -656,6 +651,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From b31ef492dbaf65a2b2587903929509d02e31336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 11/31] fix: the burning luminosities of the evolved star
 survive a merger with a main-sequence star

---
 posydon/binary_evol/DT/step_merged.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index c06e344..8159c03 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -288,12 +288,14 @@ class MergedStep(IsolatedStep):
                 # adding the mass changes the envelope mass only.
                 merged_star.mass = star_base.mass + comp.mass
 
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -315,12 +317,14 @@ class MergedStep(IsolatedStep):
                 # The change of masses occurs after the calculation of weighted averages
                 merged_star.mass = star_base.mass + comp.mass
 
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From 7a461dc58d812708d3a819abb7b0a6255ac09966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 12/31] fix: mass-ratio factor of the e^4 term in the
 gravitational-wave orbital decay

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..47ab629 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -52,7 +52,7 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
         * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From 638d2344ff5c662a6b18ba7520544fc86094de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 13/31] fix: saturated M15 magnetic braking of the primary uses
 the solar angular velocity in rad/yr

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From e28f07d01cb4489917e18633eab2802b8c44adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 14/31] fix: CARB magnetic braking of the primary fades with
 its own mass

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From ee30829fd94001c518d0c7246fa1c3dcbc4f1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:51 +0000
Subject: [PATCH 15/31] fix: an unknown magnetic braking mode warns and applies
 no braking instead of failing

---
 posydon/binary_evol/DT/step_detached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..af6a335 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1383,7 +1383,7 @@ class detached_evolution:
 
         else:
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
@@ -1391,6 +1391,7 @@ class detached_evolution:
                 "'G18' for Garraffo et al. 2018"
                 "'M15' for Matt et al. 2015"
                 "'CARB' for Van & Ivanova 2019", "UnsupportedModelWarning")
+            dOmega_mb_sec, dOmega_mb_pri = 0.0, 0.0
 
         #if self.verbose:
         #    print("magnetic_braking_mode = ", self.magnetic_braking_mode)
-- 
2.43.0


From 5cbe60f192daa1600a7da8a90c0ff07f7517a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 16/31] fix: a detached phase shorter than half the requested
 time step is recorded at its end instead of failing

---
 posydon/binary_evol/DT/step_detached.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index af6a335..90a97ad 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -553,7 +553,7 @@ class detached_step:
 
         if self.dt is not None and self.dt > 0:
             t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
+            if len(t) == 0 or t[-1] < self.res.t[-1]:
                 t = np.hstack([t, self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
-- 
2.43.0


From f7b4f849914ff36e3888caa07a33abffda53666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:31 +0000
Subject: [PATCH 17/31] fix: normalise the Sana+12 period law over the part of
 the period range on each side of its break

With p_min above ~25 days the normalisation constant was negative (sampling
periods of massive primaries failed), with p_max below 1 day undefined.
---
 posydon/popsyn/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index 67a9f64..b1127dc 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -419,8 +419,10 @@ class Sana12Period():
 
         mask2 = m1 > self.mbreak
         beta = 1 - self.slope
-        A = np.log10(10**0.15)**(-self.slope) * (np.log10(10**0.15) - np.log10(self.p_min))
-        B = 1./beta * (np.log10(self.p_max)**beta - np.log10(10**0.15)**beta)
+        # parts of [log10(p_min), log10(p_max)] below and above the break
+        logp_min, logp_max = np.log10(self.p_min), np.log10(self.p_max)
+        A = np.log10(10**0.15)**(-self.slope) * (np.minimum(logp_max, 0.15) - np.minimum(logp_min, 0.15))
+        B = 1./beta * (np.maximum(logp_max, 0.15)**beta - np.maximum(logp_min, 0.15)**beta)
         C = 1./(A + B)
         logp_valid = logp[mask2]
 
-- 
2.43.0


From 5459d088e0617dcb34ed6d64c4a23ba27ef98c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:31 +0000
Subject: [PATCH 18/31] fix: keep the primary mass unrounded when Sana12Period
 is evaluated at integer periods

---
 posydon/popsyn/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index b1127dc..22c744e 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -407,7 +407,7 @@ class Sana12Period():
         logp = np.asarray(logp)
         m1 = np.asarray(m1)
         if m1.size == 1:
-            m1 = np.full_like(logp, m1)
+            m1 = np.full_like(logp, m1, dtype=float)
         elif m1.shape != logp.shape:
             raise ValueError("m1 must be a single value or an array of "
                              "the same length as p.")
@@ -463,7 +463,7 @@ class Sana12Period():
         p = np.asarray(p)
         m1 = np.asarray(m1)
         if m1.size == 1:
-            m1 = np.full_like(p, m1)
+            m1 = np.full_like(p, m1, dtype=float)
         elif m1.shape != p.shape:
             raise ValueError("m1 must be a single value or an array of "
                              "the same length as p.")
-- 
2.43.0


From e6378bcf43a0a9a5bffb98caae5b7499fe09a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 19/31] fix: single stars of a q=1 population keep their
 primary mass

generate_secondary_masses returned the primary-mass array itself, so blanking
the secondaries of single stars blanked their primaries too.
---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..5762b77 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = np.copy(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From 1edfcfbf9b50a7ef19b0ac2a80124db5226953d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 20/31] fix: mean mass of a population integrates the mass
 ratios each primary allows

---
 posydon/popsyn/norm_pop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..0729b22 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -305,6 +305,12 @@ def get_mean_mass(params):
     if q_min > q_max:
         raise ValueError("q_min must be less than q_max")
 
+    # the mass ratio limits set by the secondary masses depend on the primary
+    if (params['secondary_mass_scheme'] == 'flat_mass_ratio'
+            and ('q_min' not in params and 'q_max' not in params)):
+        q_min = lambda m: np.max([params['secondary_mass_min']/m, 0])
+        q_max = lambda m: np.min([params['secondary_mass_max']/m, 1])
+
     # binary integration
     I_bin = dblquad(lambda q, m: (m + m * q) * PDF(m, q, P=0, binary=True),
                     m1_min, m1_max,
-- 
2.43.0


From 360c405740b4644406593e3f5d77de219a1482da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 21/31] fix: period density of separations flat in log is per
 log period

---
 posydon/popsyn/norm_pop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 0729b22..bd83b2e 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -205,9 +205,10 @@ def get_period_pdf(kwargs):
             # PDF(P) = PDF(a) * |da/dP|
             # da/dP = (2/3) * (a/P)
             # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            # The period PDFs are per log10(P), hence the factor a.
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From 5d402976b8756bf04ac9ad6e1cf24b5d5cc721db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 22/31] fix: settings of one cosmic-weights calculation no
 longer leak into the defaults

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..773b45b 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2082,10 +2082,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From 3cc3a3cfe57ebeb9f316204f5503e3d57033a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 23/31] fix: model weights follow their binaries when the
 population is not in formation-channel order

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 773b45b..2e659a4 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1966,7 +1966,7 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From 72bb2c103a79cfe3d281b16d77fd61fc82cd2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 24/31] fix: formation times from a custom star-formation
 history give one time per binary

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ac91a2e 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,8 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = np.atleast_1d(
+            histogram_sampler(x, y, size=N_binaries, rng=RNG))
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From 182ac8f7480b4773f9db119fa3a599a85bb27aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:26 +0000
Subject: [PATCH 25/31] fix: thin tracks of integer values (scaled values were
 truncated)

---
 posydon/grids/downsampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/downsampling.py b/posydon/grids/downsampling.py
index a7922b3..dfdcd2f 100644
--- a/posydon/grids/downsampling.py
+++ b/posydon/grids/downsampling.py
@@ -71,7 +71,7 @@ def rescale_from_0_to_1(array, return_minmax=False):
             Value of the maximum (only returned if return_minmax is True).
 
     """
-    arr = np.array(array)
+    arr = np.array(array, dtype=float)
     if len(arr.shape) != 2:
         raise ValueError("Scaler works for matrices only.")
 
-- 
2.43.0


From b3e3691329fc1bb722962495566b08a0a118e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:26 +0000
Subject: [PATCH 26/31] fix: use the secondary's own age column to order the
 depletions

---
 posydon/grids/scrubbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/scrubbing.py b/posydon/grids/scrubbing.py
index 1d44e8b..f447171 100644
--- a/posydon/grids/scrubbing.py
+++ b/posydon/grids/scrubbing.py
@@ -258,7 +258,7 @@ def keep_till_central_abundance_He_C(bh, h1, h2,
                 age_He_depletion1 = h1["star_age"][last_index]
             else:
                 age_He_depletion1 = bh["age"][last_index]
-            if ("star_age" in h1.dtype.names):
+            if ("star_age" in h2.dtype.names):
                 age_He_depletion2 = h2["star_age"][last_index2]
             else:
                 age_He_depletion2 = bh["age"][last_index2]
-- 
2.43.0


From 109a2c568a7655c1cfc647fe17ddd1f60ef4191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 27/31] fix: selecting constraints no longer narrows the global
 list of constraints

---
 posydon/interpolation/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..7f813b2 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -436,7 +436,8 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                # do not change the global definition of the constraint
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From ceb5f65b5991661cfa78a27dec7e2ecb9809b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 28/31] fix: rescale sums to the value of the constraining
 field

---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 7f813b2..3baca72 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -159,7 +159,7 @@ def correct_sum(fv_dict, sum_keys, constraint):
 
     if abs(keys_sum - target) > EPS:
         for key in sum_keys:
-            fv_dict[key] = constraint * (fv_dict[key] / keys_sum)
+            fv_dict[key] = target * (fv_dict[key] / keys_sum)
 
     return fv_dict
 
-- 
2.43.0


From 71d02349d8e681b2339eb314e0fc90a0a4e189c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 29/31] fix: linear interpolation without classes failed for
 binaries outside the hull

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..33aaed5 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -700,7 +700,7 @@ class BaseIFInterpolator:
             Ypredn = self.interpolator.predict(Xtn, classes, self.X_scaler)
         else:
             Xtn = self.X_scaler.normalize(Xt)
-            Ypredn = self.interpolator.predict(Xtn)
+            Ypredn = self.interpolator.predict(Xtn, scaler=self.X_scaler)
 
         Ypredn = np.array([
             list(sanitize_interpolated_quantities(
-- 
2.43.0


From ad7d4e04c0ca4d6b06a65f64281cd47097afc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 30/31] fix: scale integer initial values without truncating
 them

---
 posydon/interpolation/IF_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 33aaed5..503914e 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -296,7 +296,7 @@ class IFInterpolator:
         ------
         Interpolated values
         """
-        new_values = np.array(initial_values, copy = True)
+        new_values = np.array(initial_values, copy = True, dtype = float)
 
         if self.interp_in_q:
             new_values.T[1] = new_values.T[1] / new_values.T[0]
@@ -320,7 +320,7 @@ class IFInterpolator:
         ------
         Classified values
         """
-        new_values = np.array(initial_values, copy = True)
+        new_values = np.array(initial_values, copy = True, dtype = float)
 
         if self.interp_in_q:
             new_values.T[1] = new_values.T[1] / new_values.T[0]
@@ -1554,7 +1554,7 @@ class MatrixScaler:
     def normalize(self, X):
         """Scale input X."""
         assert X.shape[1] == self.N
-        Xn = np.empty_like(X)
+        Xn = np.empty_like(X, dtype=float)
         for i in range(self.N):
             Xn[:, i] = self.scalers[i].transform(X[:, i])
 
@@ -1564,7 +1564,7 @@ class MatrixScaler:
         """Unscale input X."""
 
         assert Xn.shape[1] == self.N
-        X = np.empty_like(Xn)
+        X = np.empty_like(Xn, dtype=float)
         for i in range(self.N):
             X[:, i] = self.scalers[i].inv_transform(Xn[:, i])
         return X
-- 
2.43.0


From 518f2aa4c55d41271da75a6f145c7ed3d3d12506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 31/31] fix: binaries with nans in their input values stay
 discarded

---
 posydon/interpolation/IF_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 503914e..d4ae42d 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -638,11 +638,11 @@ class BaseIFInterpolator:
             print(f"Discarded {np.sum(which)} binaries with "
                   f"interpolation_class = [{flag}]")
 
+        for i, flag in enumerate(self.valid_classes):
+            valid[ic == flag] = i + 1
         which = pd.isna(np.sum(X, axis=1))
         valid[which] = -1
         print(f"Discarded {np.sum(which)} binaries with nans in input values.")
-        for i, flag in enumerate(self.valid_classes):
-            valid[ic == flag] = i + 1
 
         if(self.interp_in_q):   # if HMS-HMS grid, take out q = 1
             for i, iv in enumerate(X):
-- 
2.43.0

