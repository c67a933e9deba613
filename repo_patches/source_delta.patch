From 85d24b1e4afe27e1e3ea485aa724920fe81af870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 01/25] fix: quadrant of the periapsis longitude in the
 equinoctial rates

atan(g/f) flips the sign of da/dt for f < 0 and fails for f = 0.
---
 pyqlaw/_eom.py      | 2 +-
 pyqlaw/_symbolic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..101bd4d 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g, f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..270dac3 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g, f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From fd9910cb027e25532679d39d64971ed5bb6c405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 02/25] fix: J2 acceleration at distances other than one length
 unit

The polar term is 5*(z/r)^2, not 5*z^2.
---
 pyqlaw/_perturbations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..33ac1aa 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -43,10 +43,11 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     r = np.linalg.norm(rECI)
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
+    z2_r2 = (rPA[2]/r)**2
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*z2_r2) * rPA[0],
+        (1 - 5*z2_r2) * rPA[1],
+        (3 - 5*z2_r2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 33d237500780c3f33ed22a7ddc6dec839999bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 03/25] fix: wrap angles modulo a full turn

% binds before *, so the angle was taken modulo 2 and scaled by pi.
---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From b642da5f550199574814675cc5ee6a1d4e8f6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 04/25] fix: stages and weights of the Runge-Kutta-Fehlberg
 step

The increments already contain the step size; the fourth weight is 2197/4104.
---
 pyqlaw/_integrate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,12 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From cd047523753ef3d73b0dedeb0a23043e26b7cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 05/25] fix: Runge-Kutta-Fehlberg step with zero error estimate

It failed with a division by zero, e.g. on a constant right-hand side.
---
 pyqlaw/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..81ee6ad 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,6 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = max(np.linalg.norm(z_next - y_next), 1e-300)    # can be exactly zero
+    h_next = h*0.84*(tol/err)**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From ec1f3130cf4d59bb6916d3e271ff011f537c6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 06/25] fix: battery update with rkf45 uses the step that was
 taken

The step was overwritten by the suggested next one, which is not used anyway.
---
 pyqlaw/_qlaw.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..140f3f7 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -532,7 +532,7 @@ class QLaw:
                 oe_iter = oe_next
 
             elif self.integrator == "rkf45":
-                oe_next, h_next = rkf45(
+                oe_next, _ = rkf45(
                     self.eom, 
                     t_iter,
                     t_step_local,
@@ -544,7 +544,6 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From 6dbf6faef8321b3904ef2aaf43ad3a96e213045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 07/25] fix: inclination and argument of periapsis at the ends
 of their range

arccos of a value rounded above one gave nan (apse line on the line of nodes), and
near the equator periapsis was not measured from the node that is reported.
---
 pyqlaw/_elements.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..312e5d7 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -23,7 +23,7 @@ def get_inclination(state):
     # angular momentum
     h = np.cross(r,v)
     # inclination
-    inc = np.arccos(h[2] / la.norm(h))
+    inc = np.arctan2(np.sqrt(h[0]**2 + h[1]**2), h[2])
     return inc
 
 
@@ -89,19 +89,16 @@ def get_omega(state, mu):
     v = state[3:6]
     # angular momentum
     h = np.cross(r,v)
-    # normal direction of xy-plane
-    zdir = np.array([0, 0, 1])
-    ndir = np.cross(zdir, h)
+    # direction of ascending node
+    raan = get_raan(state)
+    ndir = np.array([np.cos(raan), np.sin(raan), 0.0])
     # compute eccentricity vector
     ecc = (1/mu) * np.cross(v,h) - r/la.norm(r)
 
-    # compute argument of periapsis
-    if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
-        if ecc[2] < 0:
-            omega = 2*np.pi - omega
-    else:
-        omega = np.arctan2(ecc[1], ecc[0])
+    # compute argument of periapsis, from the node in the direction of motion
+    omega = np.arctan2(np.dot(np.cross(ndir,ecc), h)/la.norm(h), np.dot(ndir,ecc))
+    if omega < 0:
+        omega = omega + 2*np.pi
     return omega
 
 
-- 
2.43.0


From cb77ad4b535cb811f5dbd1966e9af34323acda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 08/25] fix: argument of periapsis of equatorial equinoctial
 elements

With h = k = 0 both arguments of arctan2 were zero and periapsis was lost.
---
 pyqlaw/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 312e5d7..abb3b54 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -261,7 +261,7 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    om = np.arctan2(g*np.cos(raan)-f*np.sin(raan), f*np.cos(raan)+g*np.sin(raan))
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 3c354a8ff50e9d83c258dbad2ae9cc0b616c2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 09/25] fix: reset exit code and convergence flag at each solve

A second solve on the same object reported the verdict of the first.
---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 140f3f7..d240ce6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -356,6 +356,8 @@ class QLaw:
         self.battery = [self.battery_initial,]
         n_relaxed_cleared = 0
         n_nan_angles = 0
+        self.converge = False
+        self.exitcode = 0
 
         if self.verbosity >= 2:
             self.disable_tqdm = True
-- 
2.43.0


From 8c0071583a5bda40b2ecb4487b0a7ed334fcef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 10/25] fix: elements_safety must not modify its argument

It changed the initial elements of the caller and states already recorded.
---
 pyqlaw/_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index bb013c8..faa7aa7 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -58,7 +58,7 @@ def elements_safety(oe, oe_min, oe_max):
     Returns:
         (np.array): "cleaned" osculating elements
     """
-    oe_clean = oe
+    oe_clean = oe.copy()
     for idx in range(5):
         oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])
     return oe_clean
\ No newline at end of file
-- 
2.43.0


From 9c5876b81a1fc3621e28ec7ca394b05f85174bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 11/25] fix: refuse eta_r of invalid type as eta_a is

An integer threshold was silently ignored.
---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index d240ce6..00579d9 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,9 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = self.oe0
-- 
2.43.0


From 43ddb0d61e90ff3ad9e310e0897a71e75cac7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 12/25] fix: effectivity in backward propagation

qdot is negative there, so the best and the worst anomaly were swapped.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 00579d9..3d28081 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -645,8 +645,8 @@ class QLaw:
                     self.wp, self.woe
                 )
             )
-        # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        # fastest and slowest descent; qdot has the sign of the acceleration
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From b17f43dfe1d6168ab94e015d378ab83e7a8f722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 13/25] fix: starting with an empty battery

The control angles were stored before any had been computed.
---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 3d28081..9765a4f 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -371,6 +371,7 @@ class QLaw:
         t_last_ON  = 0.0
         t_last_OFF = 0.0
         charging = False
+        alpha, beta = 0.0, 0.0      # control angles until the thruster is first available
 
         # iterate until nmax
         idx = 0
-- 
2.43.0


From bc277b7d44462dc798a789fdb2804a333744ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 14/25] fix: export of Keplerian solutions

Keplerian states were exported as if they were equinoctial elements.
---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 9765a4f..a16d5c1 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -24,6 +24,7 @@ from ._elements import (
     mee_with_a2sv,
     get_orbit_coordinates, 
     mee_with_a2mee,
+    kep2mee,
     mee2mee_with_a,
     mee_with_a2kep,
     ta2ea,
@@ -736,12 +737,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        to_mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From b528056d203adbdbf18509d0c4011ed996503dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 15/25] fix: thrust angles of a purely normal direction

It failed with a division by zero.
---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From 78feb2c7054307c51efcf5dcbf61a9eeccb5a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 16/25] fix: Keplerian control law at small eccentricity

Cancellation made the base of a cube root negative, hence nan.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 270dac3..e36e538 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -60,7 +60,7 @@ def symbolic_qlaw_keplerian(cse = True):
         radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
-        ta_xx_term2 = (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
+        ta_xx_term2 = 1/(3*ta_xx_term1)     # (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3) without cancellation
         cos_ta_xx = ta_xx_term1 - ta_xx_term2 - 1/e
         r_xx = p / (1 + e*cos_ta_xx)
         omdot_i = f/(e*h)*sym.sqrt(
-- 
2.43.0


From e377e8e1628f26cd1399f2562c16dbcf72e37f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 17/25] fix: Keplerian control law with node or periapsis at
 its target

The derivative of acos(cos(x)) is 0/0 at zero, so all angles were nan.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index e36e538..127d2fa 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From 78abd03584e214ebdbed4a3aeb3573753b0b3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 18/25] fix: Keplerian semi-major axis scaling below the target

Uses the distance to the target as the equinoctial law does; the power of a negative
number was nan or changed sign.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 127d2fa..d487058 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 6af3172eedade869ab8dc079b03e689069e5b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 19/25] fix: backward angle steps

A negative angle made one step of almost a period forward.
---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index a16d5c1..b285648 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -397,10 +397,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 6a713a34e30e41b910f970a0a60b17b6a7ebebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 20/25] fix: perturbations without third bodies

third_bodies_names=None was accepted but failed at the first evaluation.
---
 pyqlaw/_perturbations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 33ac1aa..fdb3c9d 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -149,6 +149,8 @@ class SpicePerturbations:
             self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in third_bodies_names]
         else:
             self.third_bodies_gms = third_bodies_gms
+        if third_bodies_names is None:
+            self.third_bodies_names, self.third_bodies_gms = [], []
         return
     
     def get_perturbations_RTN(self, t, oe, elements_type):
-- 
2.43.0


From 6a9fbf36c13d2436ab31c07ae87683d62f677079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 21/25] fix: periapsis history of equinoctial elements

f was used as the eccentricity.
---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..62694f6 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if self.elements_type == "mee_with_a" and not to_keplerian:
+            ecc = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        else:
+            ecc = oes[1,:]
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - ecc))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From b9ee7cc04bb3164cd4ba1010d96f6146269de8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 22/25] fix: no thrust step beyond the battery capacity

Without full recharge, the step after a recharge was not shortened to the energy left.
A step without thrust is not limited by it.
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index b285648..5af87a4 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -418,7 +418,7 @@ class QLaw:
             
             # overwrite time-step to time until we hit bottom of battery capacity
             elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
+                (duty is True) and (charging is False or self.require_full_recharge is False):
                 t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
-- 
2.43.0


From 1f1718a5c4d279a205159e0c67db73fe0c2e0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 23/25] fix: duty cycle in backward propagation

Elapsed times are negative there, so the thruster never went off.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 5af87a4..c3fbecb 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -402,11 +402,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From f519d2cd092a79911097dbb8f8263539398cdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 24/25] fix: safety clamp truncated integer elements

---
 pyqlaw/_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index faa7aa7..62bb49c 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -58,7 +58,7 @@ def elements_safety(oe, oe_min, oe_max):
     Returns:
         (np.array): "cleaned" osculating elements
     """
-    oe_clean = oe.copy()
+    oe_clean = np.asarray(oe).astype(np.float64)
     for idx in range(5):
         oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])
     return oe_clean
\ No newline at end of file
-- 
2.43.0


From e7c5c6a12a50129b1e691d46738fe7ea11bd764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 25/25] fix: initial and target elements of any numeric type

---
 pyqlaw/_qlaw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index c3fbecb..70f109a 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -293,11 +293,11 @@ class QLaw:
         self.tf_max = tf_max
         self.t_step = t_step
         # spacecraft parameters
-        self.oe0   = oe0
+        self.oe0   = np.array(oe0, dtype=float)
         if len(oeT) == 6:
-            self.oeT = oeT[0:5]
+            self.oeT = np.array(oeT[0:5], dtype=float)
         else:
-            self.oeT = oeT
+            self.oeT = np.array(oeT, dtype=float)
         self.mass0 = mass0
         self.tmax  = tmax
         self.mdot  = mdot
-- 
2.43.0

