From f292163ea796ce4f4daaf556f424520d1badabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/33] fix: do not convert M to kg when scaling constants of
 motion

Orbit.constants_of_motion('mks'/'cgs') converts the scaled constants to
physical units itself, so L and Q came out too large by one and two
factors of the solar mass in kg.
---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From 57ef12170a793908a0277959b1c1ff9d9401de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/33] fix: standardize spin sign in stable_trajectory

For a < 0 the frequencies and constants of the mirrored orbit were combined
with radial and polar solutions evaluated at the original (negative) spin,
which gave wrong t and phi components.
---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From fb84f2d7b2757e2e73c9c323d808f02048ce352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 03/33] fix: use polar roots in trajectory_deltas of real-root
 plunges

The four radial roots were passed where the two polar roots are expected, so
trajectory_deltas raised 'too many values to unpack' for every plunging orbit
with four real radial roots.
---
 kerrgeopy/orbit.py  | 7 ++++++-
 kerrgeopy/plunge.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..2e3b4c2 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -155,9 +155,14 @@ class Orbit:
                 from .stable import radial_solutions, polar_solutions
 
                 constants = (self.E, self.L, self.Q)
+                E, L, Q = constants
+                # polar polynomial written in terms of z = cos^2(theta)
+                Z = Polynomial(
+                    [Q, -(Q + self.a**2 * (1 - E**2) + L**2), self.a**2 * (1 - E**2)]
+                )
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, Z.roots()
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..7e8e18d 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -108,8 +108,13 @@ class PlungingOrbit(Orbit):
             theta, t_theta, phi_theta = plunging_polar_solutions(self.a, self.E, self.L, self.Q)
         else:
             constants = (self.E, self.L, self.Q)
+            E, L, Q = constants
+            # polar polynomial written in terms of z = cos^2(theta)
+            Z = Polynomial(
+                [Q, -(Q + self.a**2 * (1 - E**2) + L**2), self.a**2 * (1 - E**2)]
+            )
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, Z.roots())
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From 1585033f620a7694c76c907f9ef4cbf8eb8d184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 04/33] fix: test every point against the horizon in is_visible

The norm was taken over the whole array of points, so points inside the event
horizon were reported as visible; also accept any array_like as documented.
---
 kerrgeopy/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 2e3b4c2..d975139 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -566,6 +566,7 @@ class Orbit:
         np.array
             boolean array indicating whether each point is visible
         """
+        points = np.asarray(points)
         # compute event horizon radius
         event_horizon = 1 + sqrt(1 - self.a**2)
 
@@ -590,7 +591,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 766d8bc58ff434b7e95f74aea021ac23032dfcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 05/33] fix: accept fractional tail_length in animate

tail_length is documented as a double but was used unrounded as a slice index,
which raised TypeError.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index d975139..fb76743 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -800,7 +800,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, int(j - tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0


From e04333a1d22669a0fad1d8e5b72e05d0a77b88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 06/33] fix: polar initial phase of Schwarzschild and
 retrograde orbits

For a = 0 the elliptic modulus was 1 instead of 0, which gave infinite phases.
The signs of L and of the polar frequency only cancel when the internally
computed (signed) frequency is used, so the phase was wrong for L < 0 when a = 0
or when a positive upsilon_theta was passed in.
---
 kerrgeopy/initial_conditions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..3c3b18c 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -245,12 +245,13 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        upsilon_theta = abs(upsilon_theta)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From ec368d4361c25bc6d38ab386fee24753ba0b2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 07/33] fix: initial phases of plunging orbits at turning
 points and in the equator

Honour tol at the radial and polar turning points when two radial roots are
complex: rounding pushed the arcsin argument past 1, and the equatorial special
case was overwritten (and divided by z1 = 0), so the phases came out as nan.
---
 kerrgeopy/initial_conditions.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 3c3b18c..b63819f 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -355,20 +355,31 @@ def plunging_orbit_initial_phases(
                 k_r**2,
             )
         )
-        # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
         q_t0 = t0
-        q_r0 = -lambda_r0 * upsilon_r if dr0 > 0 else 2 * pi + lambda_r0 * upsilon_r
-
-        if dtheta0 < 0:
-            q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
-            q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
-            q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
+        # check for turning points in r
+        if abs(r0 - r1) < tol:
+            q_r0 = 0
+        elif abs(r0 - r2) < tol:
+            q_r0 = pi
+        else:
+            q_r0 = -lambda_r0 * upsilon_r if dr0 > 0 else 2 * pi + lambda_r0 * upsilon_r
+
+        # check for turning points in theta
+        theta_min = arccos(z1)
+        if abs(theta0 - theta_min) < tol:
+            q_theta0 = 0
+        elif abs(theta0 - (pi - theta_min)) < tol:
+            q_theta0 = pi
+        else:
+            # derived by inverting equation 29
+            lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+            if dtheta0 < 0:
+                q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
+            else:
+                q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
         q_phi0 = phi0
 
-- 
2.43.0


From 0426db4df9dcfdcc07c5a9b22f6dbabc7379c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 08/33] fix: precision of constants of motion for nearly polar
 orbits

1 - z**2 with z = sqrt(1 - x**2) loses all digits of x**2 as x goes to 0: L had
a relative error of 4e-4 at x = 1e-7 and the constants were nan at x = 1e-10.
Use x**2 directly.
---
 kerrgeopy/constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..24c68b4 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -163,7 +163,7 @@ def _coefficients(r, a, x):
     delta = r**2 - 2 * r + a**2
     f = lambda r: r**4 + a**2 * (r * (r + 2) + z**2 * delta)
     g = lambda r: 2 * a * r
-    h = lambda r: r * (r - 2) + z**2 / (1 - z**2) * delta
+    h = lambda r: r * (r - 2) + z**2 / x**2 * delta
     d = lambda r: (r**2 + a**2 * z**2) * delta
 
     return f(r), g(r), h(r), d(r)
@@ -189,7 +189,7 @@ def _coefficients_derivative(r, a, x):
     z = sqrt(1 - x**2)
     f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + (1 - z**2))
     g_prime = lambda r: 2 * a
-    h_prime = lambda r: 2 * (r - 1) / (1 - z**2)
+    h_prime = lambda r: 2 * (r - 1) / x**2
     d_prime = lambda r: 2 * (2 * r - 3) * r**2 + 2 * a**2 * ((1 + z**2) * r - z**2)
 
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
@@ -411,7 +411,7 @@ def carter_constant(a, p, e, x, E=None, L=None):
     if L is None:
         L = angular_momentum(a, p, e, x, E)
     #  equation B.4
-    return z**2 * (a**2 * (1 - E**2) + L**2 / (1 - z**2))
+    return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
 
 def constants_of_motion(a, p, e, x):
-- 
2.43.0


From 773a0a8d23286fed5a02a2bb74d0bc7e931621ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 09/33] fix: separatrix close to polar, equatorial and
 Schwarzschild limits

When a*x is close to 0 or x**2 is close to 1 the root of the separatrix polynomial
coincides with an end of its bracket to within rounding error, so the polynomial
may not change sign and separatrix raised ValueError (e.g. for x = cos(pi/2)).
---
 kerrgeopy/constants.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 24c68b4..126b5d3 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -589,6 +589,32 @@ def _S(p, a, e, x):
     # fmt: on
 
 
+def _generic_separatrix(a, e, x, bracket):
+    """Root of the full separatrix polynomial in the given bracket. If the root 
+    coincides with an end of the bracket to within rounding error (:math:`ax` 
+    close to 0 or :math:`x^2` close to 1), returns that end.
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin of the black hole
+    e : double
+        orbital eccentricity
+    x : double
+        cosine of the orbital inclination
+    bracket : list(double, double)
+        values of p below and above the root
+
+    Returns
+    -------
+    double
+    """
+    S0, S1 = [_S(p, a, e, x) / p**12 for p in bracket]
+    if S0 * S1 > 0 and min(abs(S0), abs(S1)) < 1e-12:
+        return bracket[0] if abs(S0) < abs(S1) else bracket[1]
+    return root_scalar(_S, args=(a, e, x), bracket=bracket).root
+
+
 def separatrix(a, e, x):
     """Returns the value of p at the separatrix for the given orbital parameters 
     computed using the bracked root finding method described in 
@@ -638,12 +664,10 @@ def separatrix(a, e, x):
         return p_equatorial_retrograde.root
 
     if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
+        return _generic_separatrix(a, e, x, [p_equatorial_prograde.root, p_polar.root])
 
     if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+        return _generic_separatrix(a, e, x, [p_polar.root, 12])
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0


From 8948f95173ac11c8619cee3c0d1e38f82937f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 10/33] fix: order of radial roots in initial phases of
 Schwarzschild orbits

The polar frequency was computed from roots in increasing order although it
expects decreasing order, which gave nan for a = 0.
---
 kerrgeopy/initial_conditions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index b63819f..3754a9f 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -200,9 +200,8 @@ def stable_orbit_initial_phases(
         )
         radial_roots = R.roots()
         # numpy returns roots in increasing order
-        r4, r3, r2, r1 = radial_roots
-    else:
-        r1, r2, r3, r4 = radial_roots
+        radial_roots = radial_roots[::-1]
+    r1, r2, r3, r4 = radial_roots
 
     # check for turning points in r
     if abs(r0 - r2) < tol:
-- 
2.43.0


From 379d64ec108aa3157b0572658fe840b1c1ddac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 11/33] fix: circular orbits defined by initial conditions

The double radial root of a circular orbit is split by rounding, half of the time
into a complex pair, and the orbit was then treated as a plunge (or rejected when
a = 0). Recognise such a pair in is_stable, apex_from_constants and
stable_orbit_initial_phases.
---
 kerrgeopy/constants.py          | 3 +++
 kerrgeopy/initial_conditions.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 126b5d3..c972a2f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -473,6 +473,9 @@ def apex_from_constants(a, E, L, Q):
     radial_roots = R.roots()
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
+    # rounding can split the double root of a circular orbit into a complex pair
+    if 0 < abs(np.imag(r1)) < 1e-4 * np.real(r1):
+        r1 = r2 = np.real(r1)
 
     # polar polynomial written in terms of z = cos^2(theta)
     Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 3754a9f..8f7e3d8 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -111,7 +111,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         raise ValueError("Not a physical orbit")
 
     if len(complex_roots) == 2:
-        return False
+        # rounding can split the double root of a circular orbit into a complex pair
+        return bool(r0 > real_roots[1] + tol and abs(r0 - np.real(complex_roots[0])) < tol)
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
@@ -198,7 +199,8 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
+        # rounding can split the double root of a circular orbit into a complex pair
+        radial_roots = np.real(R.roots())
         # numpy returns roots in increasing order
         radial_roots = radial_roots[::-1]
     r1, r2, r3, r4 = radial_roots
-- 
2.43.0


From a7b09007a704e3bc0a02d86405282176113c9121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 12/33] fix: constants of prograde orbits where the closed
 forms divide by zero

The energy was 0/0 for prograde orbits at the radius of the retrograde photon
orbit and the angular momentum for equatorial prograde orbits with r=2M (e.g.
a=0.95, p=2, e=0, x=1).
---
 kerrgeopy/constants.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index c972a2f..7d0a0a7 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -285,16 +285,15 @@ def energy(a, p, e, x):
     eta = f1 * g2 - g1 * f2
 
     # equation B.22
-    return sqrt(
-        (
-            kappa * rho
-            + 2 * epsilon * sigma
-            - sign(x)
-            * 2
-            * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
-        )
-        / (rho**2 + 4 * eta * sigma)
+    b = kappa * rho + 2 * epsilon * sigma
+    root = 2 * sqrt(
+        sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2)
     )
+    # for prograde orbits, multiply through by the conjugate where b - root would cancel
+    # because rho^2 + 4*eta*sigma vanishes if the retrograde solution is a photon orbit
+    if x > 0 and b > 0:
+        return sqrt(kappa**2 / (b + root))
+    return sqrt((b - sign(x) * root) / (rho**2 + 4 * eta * sigma))
 
 
 def angular_momentum(a, p, e, x, E=None):
@@ -338,17 +337,19 @@ def angular_momentum(a, p, e, x, E=None):
 
     # marginally bound case
     if e == 1:
-        r2 = p / (1 + e)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
-
+        r = p / (1 + e)
     # generic case
     else:
-        r1 = p / (1 - e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+        r = p / (1 - e)
+    f, g, h, d = _coefficients(r, a, x)
+
+    # obtained by solving equation B.17 for L
+    root = sqrt(-d * h + E**2 * (g**2 + f * h))
+    # for prograde orbits, multiply through by the conjugate because h vanishes in the
+    # ergosphere
+    if x > 0:
+        return (E**2 * f - d) / (E * g + root)
+    return (-E * g - root) / h
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From d0f05793a1d140cecaccaaa20e4bb96cb0036d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 13/33] fix: polar roots of orbits around slowly spinning black
 holes

The smaller polar root was found by a formula that cancels for small spins, so
that e.g. apex_from_constants returned x=16 for a=1e-8 and plunging orbits were
confined to the equator.
---
 kerrgeopy/constants.py          | 37 ++++++++++++++++++++++++-----
 kerrgeopy/frequencies.py        | 36 ++++------------------------
 kerrgeopy/initial_conditions.py | 37 ++++-------------------------
 kerrgeopy/orbit.py              | 11 +++------
 kerrgeopy/plunge.py             | 42 ++++++---------------------------
 5 files changed, 51 insertions(+), 112 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 7d0a0a7..dc51ace 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -213,6 +213,36 @@ def _standardize_params(a, x):
     return abs(a), x * copysign(1, a)
 
 
+def _polar_roots(a, E, L, Q):
+    """Computes the polar roots of an orbit with the given constants of motion as roots
+    of the polar polynomial written in terms of z = cos^2(theta)
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin parameter
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    tuple(double,double)
+        tuple of polar roots in the form (z_minus, z_plus)
+    """
+    beta = a**2 * (1 - E**2)
+    b = Q + beta + L**2
+    root = sqrt(b**2 - 4 * beta * Q)
+    # avoids cancellation for small spins, where z_plus is much larger than z_minus
+    z_minus = 2 * Q / (b + root)
+    z_plus = z_minus if a == 0 else (b + root) / (2 * beta)
+
+    return z_minus, z_plus
+
+
 def energy(a, p, e, x):
     """Computes the dimensionless energy of a bound orbit with the given parameters
 
@@ -478,12 +508,7 @@ def apex_from_constants(a, E, L, Q):
     if 0 < abs(np.imag(r1)) < 1e-4 * np.real(r1):
         r1 = r2 = np.real(r1)
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = _polar_roots(a, E, L, Q)
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..5254af1 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params
+from .constants import _standardize_params, _polar_roots
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, arcsin, floor, where
@@ -481,41 +481,15 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_r = pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(k_r**2))
 
         # equation 14
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
 
         # equation 53
         upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)
     else:
-        # polar polynomial written in terms of z = cos^2(theta)
-        Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-        polar_roots = Z.roots()
-        if a == 0:
-            polar_roots = [polar_roots[0], polar_roots[0]]
+        polar_roots = _polar_roots(a, E, L, Q)
         constants = (E, L, Q)
         upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
             a, constants, radial_roots, polar_roots
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 8f7e3d8..3ca1874 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,7 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import plunging_radial_roots
+from .constants import plunging_radial_roots, _polar_roots
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -181,12 +181,7 @@ def stable_orbit_initial_phases(
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = _polar_roots(a, E, L, Q)
 
     # recompute radial roots if they are not passed in
     if radial_roots is None:
@@ -314,31 +309,9 @@ def plunging_orbit_initial_phases(
     r1, r2, r3, r4 = radial_roots
 
     if np.iscomplex(r3):
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
         rho_r = np.real(r3)
         rho_i = np.imag(r4)
diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index fb76743..15ba9d5 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -7,6 +7,7 @@ from .constants import (
     apex_from_constants,
     stable_polar_roots,
     stable_radial_roots,
+    _polar_roots,
 )
 from .frequencies import mino_frequencies, fundamental_frequencies
 from numpy import sin, cos, sqrt, pi
@@ -155,15 +156,9 @@ class Orbit:
                 from .stable import radial_solutions, polar_solutions
 
                 constants = (self.E, self.L, self.Q)
-                E, L, Q = constants
-                # polar polynomial written in terms of z = cos^2(theta)
-                Z = Polynomial(
-                    [Q, -(Q + self.a**2 * (1 - E**2) + L**2), self.a**2 * (1 - E**2)]
-                )
+                polar_roots = _polar_roots(self.a, self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-                theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, Z.roots()
-                )
+                theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 7e8e18d..f48c167 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -1,8 +1,8 @@
 """Module implementing the plunging orbit solutions of `Dyson and van de Meent <https://doi.org/10.48550/arXiv.2302.03704>`_"""
 from numpy import sqrt, arctan, arctan2, arccos, log, pi
-from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
+from .constants import _polar_roots
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
 from .orbit import Orbit
@@ -108,13 +108,9 @@ class PlungingOrbit(Orbit):
             theta, t_theta, phi_theta = plunging_polar_solutions(self.a, self.E, self.L, self.Q)
         else:
             constants = (self.E, self.L, self.Q)
-            E, L, Q = constants
-            # polar polynomial written in terms of z = cos^2(theta)
-            Z = Polynomial(
-                [Q, -(Q + self.a**2 * (1 - E**2) + L**2), self.a**2 * (1 - E**2)]
-            )
+            polar_roots = _polar_roots(self.a, self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, Z.roots())
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
@@ -423,29 +419,9 @@ def plunging_polar_solutions(a, E, L, Q):
         tuple of polar solutions :math:`(\theta(q_\theta),
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
-    z1 = sqrt(
-        1
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            - sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
-    z2 = sqrt(
-        a**2
-        * (1 - E**2)
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            + sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
+    z_minus, z_plus = _polar_roots(a, E, L, Q)
+    z1 = sqrt(z_minus)
+    z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -657,11 +633,7 @@ def _real_plunge_trajectory(
     constants = (E, L, Q)
     radial_roots = plunging_radial_roots(a, E, L, Q)
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots(a, E, L, Q)
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
         a, constants, radial_roots, polar_roots
-- 
2.43.0


From 7be53a09d3db82296ce7a4febad72202c7ccaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 14/33] fix: precision of constants of motion for nearly
 circular orbits

The energy solves two conditions which become identical as e -> 0, so that
energy(0.5, 10, 1e-15, 0.5) was wrong by 5%.
---
 kerrgeopy/constants.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index dc51ace..d5dff37 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -195,6 +195,39 @@ def _coefficients_derivative(r, a, x):
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
 
 
+def _coefficients_difference(r1, r2, a, x):
+    """Computes the divided differences (f(r1)-f(r2))/(r1-r2) of the coefficients from 
+    equation B.5 in `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_
+
+    Parameters
+    ----------
+    r1 : double
+        first radius
+    r2 : double
+        second radius
+    a : double
+        dimensionless spin of the black hole
+    x : double
+        cosine of the orbital inclination
+
+    Returns
+    -------
+    tuple(double, double, double, double)
+    """
+    z = sqrt(1 - x**2)
+    s = r1 + r2
+    f = s * (r1**2 + r2**2) + a**2 * ((1 + z**2) * s + 2 * (1 - z**2))
+    g = 2 * a
+    h = (s - 2) / x**2
+    d = (
+        s * (r1**2 + r2**2)
+        - 2 * (r1**2 + r1 * r2 + r2**2)
+        + a**2 * ((1 + z**2) * s - 2 * z**2)
+    )
+
+    return f, g, h, d
+
+
 def _standardize_params(a, x):
     """Changes signs of a and x so that a is positive 
     and x encodes the direction of the orbit.
@@ -304,8 +337,10 @@ def energy(a, p, e, x):
     else:
         r1 = p / (1 - e)
         r2 = p / (1 + e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
+        # the conditions at r1 and r2 become degenerate for nearly circular orbits so
+        # replace one of them with their divided difference
+        f1, g1, h1, d1 = _coefficients(r2, a, x)
+        f2, g2, h2, d2 = _coefficients_difference(r1, r2, a, x)
 
     # equation B.19 - B.21
     kappa = d1 * h2 - h1 * d2
-- 
2.43.0


From 1f5054254374598f2d709bedb08f9f8d2ae35bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 15/33] fix: polar roots passed to the polar frequency in
 initial phases

---
 kerrgeopy/initial_conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 3ca1874..43489ae 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -181,7 +181,8 @@ def stable_orbit_initial_phases(
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
 
-    z_minus, z_plus = _polar_roots(a, E, L, Q)
+    polar_roots = _polar_roots(a, E, L, Q)
+    z_minus, z_plus = polar_roots
 
     # recompute radial roots if they are not passed in
     if radial_roots is None:
-- 
2.43.0


From 315e9f6ec3421f2c35bfe9ae74baef4d69112f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 16/33] fix: precision of incomplete elliptic integrals close
 to turning points

---
 kerrgeopy/frequencies.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 5254af1..ae3e507 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -4,7 +4,7 @@ Frequencies are computed using the method derived in `Fujita and Hikida <https:/
 from .constants import _standardize_params, _polar_roots
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
-from numpy import sin, cos, sqrt, pi, arcsin, floor, where
+from numpy import sin, cos, sqrt, pi, arcsin, floor, rint, where
 
 
 def _ellipeinc(phi, m):
@@ -24,7 +24,7 @@ def _ellipeinc(phi, m):
 
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * rint(phi / pi))
 
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) - 1 / 3 * m * sin(
@@ -78,7 +78,7 @@ def _ellippiinc(phi, n, m):
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * rint(phi / pi))
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-- 
2.43.0


From 40cb5a26c4f69db9157775889fb66ee467676f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 17/33] fix: time dilation factor of equatorial plunging orbits
 with four real roots

---
 kerrgeopy/frequencies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ae3e507..205febe 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -667,13 +667,11 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From c3f95163ae13a0c7b010a5590caee5981fe3fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 18/33] fix: azimuthal motion of stable orbits from initial
 conditions with a < 0

---
 kerrgeopy/orbit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 15ba9d5..861964b 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -94,6 +94,9 @@ class Orbit:
             self.omega_r, self.omega_theta, self.omega_phi = fundamental_frequencies(
                 a, p, e, x
             )
+            if a < 0:
+                # frequencies are defined for the orbit reflected so that a > 0
+                self.upsilon_phi, self.omega_phi = -self.upsilon_phi, -self.omega_phi
             self.initial_phases = stable_orbit_initial_phases(
                 a, initial_position, initial_velocity
             )
@@ -197,16 +200,20 @@ class Orbit:
         if self.stable:
             from .stable import stable_trajectory
 
-            return stable_trajectory(
+            # orbits with a < 0 are reflected by stable_trajectory so that a > 0
+            reflection = -1 if self.a < 0 else 1
+            q_t0, q_r0, q_theta0, q_phi0 = initial_phases
+            t, r, theta, phi = stable_trajectory(
                 self.a,
                 self.p,
                 self.e,
                 self.x,
-                initial_phases,
+                (q_t0, q_r0, q_theta0, reflection * q_phi0),
                 self.M,
                 distance_units,
                 time_units,
             )
+            return t, r, theta, lambda mino_time: reflection * phi(mino_time)
         else:
             from .plunge import plunging_trajectory
 
-- 
2.43.0


From ad168bdf7f60f58343350da1e24018880603b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 19/33] fix: integer overflow for numpy integer arguments

Powers of p, r, M and mu wrapped around silently when these were numpy integers
(e.g. constants_of_motion(0, np.int32(5006), 0, 1) returned E=18.8), and the
separatrix raised OverflowError for 32-bit e.
---
 kerrgeopy/constants.py          | 10 +++++++++-
 kerrgeopy/initial_conditions.py |  2 ++
 kerrgeopy/spacetime.py          |  2 ++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index d5dff37..d6caa8a 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -295,6 +295,8 @@ def energy(a, p, e, x):
     double
     """
     a, x = _standardize_params(a, x)
+    # powers of p would overflow for numpy integers
+    p = 1.0 * p
 
     if a == 1:
         raise ValueError("Extreme Kerr not supported")
@@ -384,6 +386,8 @@ def angular_momentum(a, p, e, x, E=None):
     double
     """
     a, x = _standardize_params(a, x)
+    # powers of p would overflow for numpy integers
+    p = 1.0 * p
 
     if a == 1:
         raise ValueError("Extreme Kerr not supported")
@@ -443,6 +447,8 @@ def carter_constant(a, p, e, x, E=None, L=None):
     double
     """
     a, x = _standardize_params(a, x)
+    # powers of p would overflow for numpy integers
+    p = 1.0 * p
 
     if a == 1:
         raise ValueError("Extreme Kerr not supported")
@@ -731,7 +737,7 @@ def separatrix(a, e, x):
         return _generic_separatrix(a, e, x, [p_equatorial_prograde.root, p_polar.root])
 
     if x < 0:
-        return _generic_separatrix(a, e, x, [p_polar.root, 12])
+        return _generic_separatrix(a, e, x, [p_polar.root, 12.0])
 
 
 def fast_separatrix(a, grid_spacing=0.01):
@@ -830,4 +836,6 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
+    # powers of the masses would overflow for numpy integers
+    M, mu = 1.0 * M, 1.0 * mu
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 43489ae..d04414f 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -32,6 +32,8 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
 
     t0, r0, theta0, phi0 = initial_position
     dt0, dr0, dtheta0, dphi0 = initial_velocity
+    # powers of r0 would overflow for numpy integers
+    r0 = 1.0 * r0
 
     sigma = r0**2 + a**2 * cos(theta0) ** 2
     delta = r0**2 - 2 * r0 + a**2
diff --git a/kerrgeopy/spacetime.py b/kerrgeopy/spacetime.py
index 1a70781..0d231d8 100644
--- a/kerrgeopy/spacetime.py
+++ b/kerrgeopy/spacetime.py
@@ -86,6 +86,8 @@ class KerrSpacetime:
         numpy.ndarray
         """
         a = self.a
+        # powers of r would overflow for numpy integers
+        r = 1.0 * r
         sigma = r**2 + a**2 * cos(theta) ** 2
         delta = r**2 - 2 * r + a**2
         # fmt: off
-- 
2.43.0


From 3cd6590a556e40ba30f6b5071008c97f3e6e7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 20/33] fix: time of plunges with r1+r2 close to 1/(1-E^2)

The closed forms of I_r and I_r2 for two complex roots divide by A-B, which
vanishes if r1+r2=1/(1-E^2), so the coordinate time of those plunges was lost
to roundoff or NaN. Write both integrals in terms which are regular there.
---
 kerrgeopy/frequencies.py | 37 ++++++++++++++++++++
 kerrgeopy/plunge.py      | 73 ++++++++++++++++++++++------------------
 2 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 205febe..dd8ec55 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -94,6 +94,43 @@ def _ellippiinc(phi, n, m):
     return result.item() if np.isscalar(phi) else result
 
 
+def _ellippiinc_slope(phi, n, m):
+    r"""Slope :math:`(\Pi(\phi,n,m) - \Pi(\phi,0,m))/n` of the incomplete elliptic integral of 
+    the third kind, equal to :math:`\int_0^{\phi} \frac{\sin^2\theta}{1-n\sin^2\theta}
+    \frac{1}{\sqrt{1-m\sin^2\theta}}d\theta` and regular at :math:`n=0`
+
+    Parameters
+    ----------
+    phi : double
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    # count the number of half periods
+    num_cycles = floor(phi / (pi / 2))
+    # map phi to [0,pi/2]
+    phi = abs(phi - pi * rint(phi / pi))
+    complete = 1 / 3 * elliprj(0, 1 - m, 1, 1 - n)
+    integral = (
+        1
+        / 3
+        * sin(phi) ** 3
+        * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, 1 - n * sin(phi) ** 2)
+    )
+
+    result = where(
+        num_cycles % 2 == 0,
+        num_cycles * complete + integral,
+        (num_cycles + 1) * complete - integral,
+    )
+
+    # return scalar for scalar input
+    return result.item() if np.isscalar(phi) else result
+
+
 def r_frequency(a, p, e, x, constants=None):
     """Computes the frequency of motion in r in Mino time
 
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index f48c167..de4d594 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -1,9 +1,9 @@
 """Module implementing the plunging orbit solutions of `Dyson and van de Meent <https://doi.org/10.48550/arXiv.2302.03704>`_"""
-from numpy import sqrt, arctan, arctan2, arccos, log, pi
+from numpy import sqrt, arctan, arccos, log, pi
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
 from .constants import _polar_roots
-from .frequencies import _mino_frequencies_from_constants, _ellippiinc
+from .frequencies import _mino_frequencies_from_constants, _ellippiinc, _ellippiinc_slope
 from .stable import *
 from .orbit import Orbit
 from .units import *
@@ -182,7 +182,6 @@ def plunging_radial_integrals(a, E, L, Q):
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
     B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
-    f = 4 * A * B / (A - B) ** 2
     k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -195,42 +194,52 @@ def plunging_radial_integrals(a, E, L, Q):
         A * (r_minus - r1) + B * (r2 - r_minus)
     )
 
-    def I_r(q_r):
+    # equations 46 and 47 are singular for A = B (which is the case if r1 + r2 = 1/(1 - E^2)),
+    # so they are rewritten with r = (r1 + r2)/2 - (r2 - r1)/2*(cn + alpha)/(1 + alpha*cn) as a
+    # combination of integrals which are regular there
+    alpha = (A - B) / (A + B)
+    beta = 1 - alpha**2
+    n = -1 * (A - B) ** 2 / (4 * A * B)
+    # gamma^2 = k_r^2 - n
+    gamma = (r2 - r1) / (2 * sqrt(A * B))
+
+    def cn_integrals(q_r):
+        """Integrals of cn/(1 + alpha*cn) and cn^2/(1 + alpha*cn)^2"""
         # equation 43
-        sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
-        mino_time = q_r / upsilon_r
-        # equation 46
+        u = 2 * ellipk(k_r**2) * q_r / pi
+        sn, cn, dn, xi_r = ellipj(u, k_r**2)
+        D = 1 - n * sn**2
+        # integrals of cn/D, 1/D, sn^2/D, sn^2/D^2 and cn^3/D^2
+        T = arctan(gamma * sn / dn) / gamma
+        Pi = _ellippiinc(xi_r, n, k_r**2)
+        P = _ellippiinc_slope(xi_r, n, k_r**2)
+        W = (
+            ellipeinc(xi_r, k_r**2) - u - k_r**2 * P + n * Pi - n * sn * cn * dn / D
+        ) / (2 * gamma**2 * (n - 1))
+        kappa = (1 - k_r**2) / gamma**2
+        C = (1 - kappa) / 2 * T + (1 + kappa) / 2 * sn * dn / D
+
         return (
-            (A * r1 - B * r2) / (A - B) * mino_time
-            - 1 / sqrt(1 - E**2) * arctan((r2 - r1) * sn / (2 * sqrt(A * B) * dn))
-            + (A + B)
-            * (r2 - r1)
-            / (2 * (A - B) * sqrt(A * B * (1 - E**2)))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
+            (T - alpha * (Pi - P)) / beta,
+            (Pi + (n - 1) * W - 2 * alpha * C + alpha**2 * (Pi + (n - 2) * W) - beta * (W - P))
+            / beta**2,
         )
 
+    def I_r(q_r):
+        mino_time = q_r / upsilon_r
+        J, J2 = cn_integrals(q_r)
+        return (
+            (r1 + r2) / 2 - alpha * (r2 - r1) / 2
+        ) * mino_time - beta * gamma / sqrt(1 - E**2) * J
+
     def I_r2(q_r):
-        # equation 43
-        sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
         mino_time = q_r / upsilon_r
-        # equation 47
+        J, J2 = cn_integrals(q_r)
+        r0 = (r1 + r2) / 2 - alpha * (r2 - r1) / 2
         return (
-            (A * r1**2 - B * r2**2) / (A - B) * mino_time
-            + sqrt(A * B) / sqrt(1 - E**2) * ellipeinc(xi_r, k_r**2)
-            - (A + B)
-            * (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
-            / (4 * (A - B) * sqrt((1 - E**2) * A * B))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
-            - sqrt(A * B)
-            * (A + B - (A - B) * cn)
-            * sn
-            * dn
-            / ((A - B) * sqrt(1 - E**2) * (f + sn**2))
-            + (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
-            / (4 * (r2 - r1) * sqrt(1 - E**2))
-            * arctan2(
-                2 * sn * dn * sqrt(f * (1 + f * k_r**2)), f - (1 + 2 * f * k_r**2) * sn**2
-            )
+            r0**2 * mino_time
+            - 2 * r0 * beta * gamma / sqrt(1 - E**2) * J
+            + beta**2 * (r2 - r1) / 2 * gamma / sqrt(1 - E**2) * J2
         )
 
     def I_r_plus(q_r):
-- 
2.43.0


From 5ae59ea96872532a6740d5a51c033c9e4c2fddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:03 +0000
Subject: [PATCH 21/33] fix: energy of nearly marginally bound orbits is not a
 number

---
 kerrgeopy/constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index d6caa8a..b03833f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -353,9 +353,9 @@ def energy(a, p, e, x):
 
     # equation B.22
     b = kappa * rho + 2 * epsilon * sigma
-    root = 2 * sqrt(
-        sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2)
-    )
+    # rho * epsilon - eta * kappa = sigma * (d1 * f2 - f1 * d2), which avoids cancellation
+    # for nearly marginally bound orbits
+    root = 2 * abs(sigma) * sqrt(epsilon**2 + kappa * (d1 * f2 - f1 * d2))
     # for prograde orbits, multiply through by the conjugate where b - root would cancel
     # because rho^2 + 4*eta*sigma vanishes if the retrograde solution is a photon orbit
     if x > 0 and b > 0:
-- 
2.43.0


From 9277e6cfaee318c0dfc8d576b77380e55cf63be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:03 +0000
Subject: [PATCH 22/33] fix: angular momentum of highly eccentric orbits loses
 all accuracy

---
 kerrgeopy/constants.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index b03833f..275e467 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -404,12 +404,8 @@ def angular_momentum(a, p, e, x, E=None):
     if x == 0:
         return 0
 
-    # marginally bound case
-    if e == 1:
-        r = p / (1 + e)
-    # generic case
-    else:
-        r = p / (1 - e)
+    # the apoapsis of a highly eccentric orbit is too distant to give an accurate answer
+    r = p / (1 + e)
     f, g, h, d = _coefficients(r, a, x)
 
     # obtained by solving equation B.17 for L
-- 
2.43.0


From 92869e33738ea549647d1c693be9a7e692a3343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:07 +0000
Subject: [PATCH 23/33] fix: r3 and r4 of highly eccentric orbits lose
 accuracy, frequencies with them

---
 kerrgeopy/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 275e467..00fdc29 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -39,7 +39,11 @@ def stable_radial_roots(a, p, e, x, constants=None):
     r1 = p / (1 - e)
     r2 = p / (1 + e)
 
-    A_plus_B = 2 / (1 - E**2) - r1 - r2
+    # (1 - E^2) * (A + B) from the linear term of the radial potential, because
+    # 2 / (1 - E^2) - r1 - r2 cancels for highly eccentric orbits
+    a, x = _standardize_params(a, x)
+    C = (2 * ((a * E - copysign(L, x)) ** 2 + Q) - a**2 * Q * (1 / r1 + 1 / r2)) / (r1 * r2)
+    A_plus_B = C * (r1 + r2) / (2 - C)
     AB = a**2 * Q / (r1 * r2 * (1 - E**2))
 
     r3 = (A_plus_B + sqrt(A_plus_B**2 - 4 * AB)) / 2
-- 
2.43.0


From 708008c5bfc828300cad7e2b374bb5466239a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:32 +0000
Subject: [PATCH 24/33] fix: polar frequency of nearly polar orbits loses
 accuracy

---
 kerrgeopy/constants.py   | 2 +-
 kerrgeopy/frequencies.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 00fdc29..2d0381d 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -141,7 +141,7 @@ def stable_polar_roots(a, p, e, x, constants=None):
     z_minus = 1 - x**2
     # z_plus = a**2*(1-E**2)/(L**2*epsilon0)+1/(epsilon0*(1-z_minus))
     # simplified using definition of carter constant
-    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * (1 - z_minus))
+    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * x**2)
 
     return z_minus, z_plus
 
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index dd8ec55..ed7cd85 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -225,7 +225,7 @@ def theta_frequency(a, p, e, x, constants=None):
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * x**2 + L**2) / (L**2 * x**2)
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -289,7 +289,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
         upsilon_theta = theta_frequency(a, p, e, x, constants)
 
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * x**2 + L**2) / (L**2 * x**2)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
@@ -369,7 +369,7 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
+        L**2 / ((1 - E**2) * abs(x))
         if a == 0
         else a**2 * z_plus / sqrt(epsilon0 * z_plus)
     )
-- 
2.43.0


From 4432146a22ac09c3052eeedfe9dc909ac651cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 25/33] fix: azimuthal motion of nearly polar orbits loses
 accuracy

---
 kerrgeopy/frequencies.py | 22 +++++++++++++++-------
 kerrgeopy/stable.py      | 11 +++++++----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ed7cd85..5e1f023 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -40,7 +40,7 @@ def _ellipeinc(phi, m):
     return result.item() if np.isscalar(phi) else result
 
 
-def _ellippi(n, m):
+def _ellippi(n, m, n1=None):
     r"""Complete elliptic integral of the third kind defined as 
     :math:`\Pi(n,m) = \int_0^{\frac{\pi}{2}} \frac{d\theta}{(1-n\sin^2{\theta})\sqrt{1-m\sin^2{\theta}}}`
 
@@ -48,6 +48,8 @@ def _ellippi(n, m):
     ----------
     n : double
     m : double
+    n1 : double, optional
+        complement :math:`1-n`, can be passed in to avoid cancellation if n is close to 1
 
     Returns
     -------
@@ -55,11 +57,13 @@ def _ellippi(n, m):
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
 
+    if n1 is None:
+        n1 = 1 - n
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
-    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, 1 - n)
+    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, n1)
 
 
-def _ellippiinc(phi, n, m):
+def _ellippiinc(phi, n, m, n1=None):
     r"""Incomplete elliptic integral of the third kind defined as 
     :math:`\Pi(\phi,n,m) = \int_0^{\phi} \frac{1}{1-n\sin^2\theta}\frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`.
 
@@ -68,6 +72,8 @@ def _ellippiinc(phi, n, m):
     phi : double
     n : double
     m : double
+    n1 : double, optional
+        complement :math:`1-n`, can be passed in to avoid cancellation if n is close to 1
 
     Returns
     -------
@@ -75,6 +81,8 @@ def _ellippiinc(phi, n, m):
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
 
+    if n1 is None:
+        n1 = 1 - n
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
@@ -82,12 +90,12 @@ def _ellippiinc(phi, n, m):
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-    ) ** 3 * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, 1 - n * sin(phi) ** 2)
+    ) ** 3 * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, cos(phi) ** 2 + n1 * sin(phi) ** 2)
 
     result = where(
         num_cycles % 2 == 0,
-        num_cycles * _ellippi(n, m) + integral,
-        (num_cycles + 1) * _ellippi(n, m) - integral,
+        num_cycles * _ellippi(n, m, n1) + integral,
+        (num_cycles + 1) * _ellippi(n, m, n1) - integral,
     )
 
     # return scalar for scalar input
@@ -303,7 +311,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, x**2
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 73486b7..54e3b0d 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -410,11 +410,14 @@ def polar_solutions(a, constants, polar_roots):
     E, L, Q = constants
     z_minus, z_plus = polar_roots
     epsilon0 = a**2 * (1 - E**2) / L**2
+    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
+    # because z_minus is close to 1 for nearly polar orbits
+    z1_minus = L**2 / (L**2 + Q) if a == 0 else 1 / (epsilon0 * (z_plus - 1))
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * z1_minus + L**2) / (L**2 * z1_minus)
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
+        L**2 / ((1 - E**2) * sqrt(z1_minus))
         if a == 0
         else a**2 * z_plus / sqrt(epsilon0 * z_plus)
     )
@@ -453,8 +456,8 @@ def polar_solutions(a, constants, polar_roots):
             * 1
             / sqrt(e0zp)
             * (
-                _ellippiinc(psi_theta, z_minus, k_theta**2)
-                - 2 / pi * _ellippi(z_minus, k_theta**2) * (q_theta + pi / 2)
+                _ellippiinc(psi_theta, z_minus, k_theta**2, z1_minus)
+                - 2 / pi * _ellippi(z_minus, k_theta**2, z1_minus) * (q_theta + pi / 2)
             )
         )
 
-- 
2.43.0


From f789fc6065d7a07fa6c8ea15b274de19094a84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:32 +0000
Subject: [PATCH 26/33] fix: inclination of nearly polar orbits from constants
 of motion loses accuracy

---
 kerrgeopy/constants.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2d0381d..53a3e37 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -553,7 +553,10 @@ def apex_from_constants(a, E, L, Q):
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
-    x = np.sign(L) * sqrt(1 - z_minus)
+    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
+    # because z_minus is close to 1 for nearly polar orbits
+    z1_minus = L**2 / (L**2 + Q if a == 0 else a**2 * (1 - E**2) * (z_plus - 1))
+    x = np.sign(L) * sqrt(z1_minus)
 
     return a, p, e, x
 
-- 
2.43.0


From 4fcc3ee4439eb964bed8e296e538dbf474f1902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 27/33] fix: azimuthal motion of nearly polar plunges loses
 accuracy

1 - z1^2 vanishes for small L, and computing it from z1 loses all digits: phi was off by 1e-3 at
L = 1e-6 and not a number at L = 1e-8.
---
 kerrgeopy/plunge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index de4d594..e95bd80 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -432,6 +432,9 @@ def plunging_polar_solutions(a, E, L, Q):
     z1 = sqrt(z_minus)
     z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
+    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
+    # because z_minus is close to 1 for nearly polar orbits
+    z1_minus = L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
@@ -461,7 +464,7 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
         # equation 31
-        return L / z2 * _ellippiinc(xi_theta, z1**2, k_theta**2)
+        return L / z2 * _ellippiinc(xi_theta, z1**2, k_theta**2, z1_minus)
 
     return theta, t_theta, phi_theta
 
-- 
2.43.0


From 10ee9251cdd5b2af5a13b15284dba821ceb75a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 28/33] fix: plunges into slowly rotating black holes are not a
 number

The inner horizon and the innermost radial root are of order a^2 and were lost to rounding below a ~ 1e-7,
so that t and phi of the orbit came out as NaN.
---
 kerrgeopy/constants.py | 7 ++++++-
 kerrgeopy/plunge.py    | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 53a3e37..5760530 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -85,11 +85,16 @@ def plunging_radial_roots(a, E, L, Q):
         ]
     )
     roots = R.roots()
+    # the innermost root is of order a**2, so for small spins it can only be resolved as
+    # part of the product of the roots
+    n = np.argmin(abs(roots))
+    if Q != 0 and np.isreal(roots[n]):
+        roots[n] = a**2 * Q / ((1 - E**2) * np.real(np.prod(np.delete(roots, n))))
     # get the real roots and the complex roots
     real_roots = np.sort(np.real(roots[np.isreal(roots)]))
     complex_roots = roots[np.iscomplex(roots)]
 
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # if there are 4 real roots, by convention r4 < r3 < r2 < r1 
     # (consistent with stable orbits)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index e95bd80..e3fca3d 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -177,7 +177,7 @@ def plunging_radial_integrals(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
@@ -356,7 +356,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
-- 
2.43.0


From 9fcc12a3cac22a97f29721176ecc99e7a783968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 29/33] fix: nearly polar and slowly rotating plunges with four
 real roots

The polar frequency of nearly polar plunges was infinite, as 1 - z_minus was computed from z_minus, and
the inner horizon was lost to rounding for small spins.
---
 kerrgeopy/frequencies.py | 21 ++++++++++++---------
 kerrgeopy/stable.py      |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 5e1f023..dc7d87a 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -300,7 +300,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     e0zp = (a**2 * (1 - E**2) * x**2 + L**2) / (L**2 * x**2)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
@@ -389,7 +389,7 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
         upsilon_theta = theta_frequency(a, p, e, x, constants)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
@@ -601,8 +601,8 @@ def _theta_frequency_from_constants(a, constants, radial_roots, polar_roots):
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
-    # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    # epsilon0*z_plus
+    e0zp = a**2 * (1 - E**2) * z_plus / L**2
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -653,11 +653,14 @@ def _phi_frequency_from_constants(
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
-    # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    # epsilon0*z_plus
+    e0zp = a**2 * (1 - E**2) * z_plus / L**2
+    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
+    # because z_minus is close to 1 for nearly polar orbits
+    z1_minus = L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
@@ -668,7 +671,7 @@ def _phi_frequency_from_constants(
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, z1_minus
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
@@ -732,7 +735,7 @@ def _gamma_from_constants(
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 54e3b0d..779f319 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -296,7 +296,7 @@ def radial_solutions(a, constants, radial_roots):
     r1, r2, r3, r4 = radial_roots
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-- 
2.43.0


From d55cb50c638bf9ef38cb3447fa58be89a2caf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:18 +0000
Subject: [PATCH 30/33] fix: polar turning point of plunges with little angular
 momentum and Carter constant

For Q < a^2 (1 - E^2) the product formula for 1 - z_minus cancels as z_plus is close to 1, so 1 - z_minus
is computed as a root of the polar polynomial in 1 - z.
---
 kerrgeopy/constants.py   | 32 ++++++++++++++++++++++++++++----
 kerrgeopy/frequencies.py |  6 ++----
 kerrgeopy/plunge.py      |  6 ++----
 kerrgeopy/stable.py      |  6 ++----
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 5760530..877d99b 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -285,6 +285,33 @@ def _polar_roots(a, E, L, Q):
     return z_minus, z_plus
 
 
+def _polar_complement(a, E, L, Q):
+    """Computes 1 - z_minus for an orbit with the given constants of motion. It is obtained from the
+    polar polynomial written in terms of 1 - z because z_minus is close to 1 for nearly polar orbits
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin parameter
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    double
+        sine squared of the smallest polar angle
+    """
+    beta = a**2 * (1 - E**2)
+    c = Q + L**2 - beta
+    root = sqrt(c**2 + 4 * beta * L**2)
+
+    return 2 * L**2 / (c + root) if c > 0 else (root - c) / (2 * beta)
+
+
 def energy(a, p, e, x):
     """Computes the dimensionless energy of a bound orbit with the given parameters
 
@@ -558,10 +585,7 @@ def apex_from_constants(a, E, L, Q):
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
-    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
-    # because z_minus is close to 1 for nearly polar orbits
-    z1_minus = L**2 / (L**2 + Q if a == 0 else a**2 * (1 - E**2) * (z_plus - 1))
-    x = np.sign(L) * sqrt(z1_minus)
+    x = np.sign(L) * sqrt(_polar_complement(a, E, L, Q))
 
     return a, p, e, x
 
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index dc7d87a..ac919bc 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params, _polar_roots
+from .constants import _standardize_params, _polar_roots, _polar_complement
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, arcsin, floor, rint, where
@@ -655,9 +655,7 @@ def _phi_frequency_from_constants(
 
     # epsilon0*z_plus
     e0zp = a**2 * (1 - E**2) * z_plus / L**2
-    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
-    # because z_minus is close to 1 for nearly polar orbits
-    z1_minus = L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
+    z1_minus = _polar_complement(a, E, L, Q)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = a**2 / (1 + sqrt(1 - a**2))
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index e3fca3d..8354059 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -2,7 +2,7 @@
 from numpy import sqrt, arctan, arccos, log, pi
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
-from .constants import _polar_roots
+from .constants import _polar_roots, _polar_complement
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc, _ellippiinc_slope
 from .stable import *
 from .orbit import Orbit
@@ -432,9 +432,7 @@ def plunging_polar_solutions(a, E, L, Q):
     z1 = sqrt(z_minus)
     z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
-    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
-    # because z_minus is close to 1 for nearly polar orbits
-    z1_minus = L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
+    z1_minus = _polar_complement(a, E, L, Q)
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 779f319..8397ecc 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -1,6 +1,6 @@
 """Module implementing the stable bound orbit solutions of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_"""
 from .constants import *
-from .constants import _standardize_params
+from .constants import _standardize_params, _polar_complement
 from .frequencies import _ellippi, _ellippiinc, _ellipeinc
 from .frequencies import *
 from scipy.special import ellipj
@@ -410,9 +410,7 @@ def polar_solutions(a, constants, polar_roots):
     E, L, Q = constants
     z_minus, z_plus = polar_roots
     epsilon0 = a**2 * (1 - E**2) / L**2
-    # 1 - z_minus, obtained from the product of the roots of the polar equation in 1 - z
-    # because z_minus is close to 1 for nearly polar orbits
-    z1_minus = L**2 / (L**2 + Q) if a == 0 else 1 / (epsilon0 * (z_plus - 1))
+    z1_minus = _polar_complement(a, E, L, Q)
     # simplified form of epsilon0*z_plus
     e0zp = (a**2 * (1 - E**2) * z1_minus + L**2) / (L**2 * z1_minus)
     # simplified form of a**2*sqrt(z_plus/epsilon0)
-- 
2.43.0


From 360510cf44db35c58f080a582f4109563ee6ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:50 +0000
Subject: [PATCH 31/33] fix: do not wrap around for large integer constants of
 motion

Squares of L and twice Q overflowed for numpy integers of 32 bits (L > 46340).
---
 kerrgeopy/constants.py          | 13 +++++++++++++
 kerrgeopy/frequencies.py        | 12 ++++++++++++
 kerrgeopy/initial_conditions.py |  4 ++++
 kerrgeopy/spacetime.py          |  2 ++
 kerrgeopy/stable.py             |  2 ++
 5 files changed, 33 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 877d99b..b7ed9c9 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -74,6 +74,8 @@ def plunging_radial_roots(a, E, L, Q):
     tuple(double,double,double,double)
         tuple of radial roots
     """
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     # standard form of the radial polynomial R(r)
     R = Polynomial(
         [
@@ -142,6 +144,8 @@ def stable_polar_roots(a, p, e, x, constants=None):
     if constants is None:
         constants = constants_of_motion(a, p, e, x)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     epsilon0 = a**2 * (1 - E**2) / L**2
     z_minus = 1 - x**2
     # z_plus = a**2*(1-E**2)/(L**2*epsilon0)+1/(epsilon0*(1-z_minus))
@@ -275,6 +279,8 @@ def _polar_roots(a, E, L, Q):
     tuple(double,double)
         tuple of polar roots in the form (z_minus, z_plus)
     """
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     beta = a**2 * (1 - E**2)
     b = Q + beta + L**2
     root = sqrt(b**2 - 4 * beta * Q)
@@ -305,6 +311,8 @@ def _polar_complement(a, E, L, Q):
     double
         sine squared of the smallest polar angle
     """
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     beta = a**2 * (1 - E**2)
     c = Q + L**2 - beta
     root = sqrt(c**2 + 4 * beta * L**2)
@@ -514,6 +522,9 @@ def carter_constant(a, p, e, x, E=None, L=None):
         E = energy(a, p, e, x)
     if L is None:
         L = angular_momentum(a, p, e, x, E)
+    # powers of L would overflow for numpy integers
+    L = 1.0 * L
+
     #  equation B.4
     return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
@@ -564,6 +575,8 @@ def apex_from_constants(a, E, L, Q):
     tuple(double,double,double,double)
         tuple of orbital parameters :math:`(a,p,e,x)`
     """
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     # Radial polynomial
     R = Polynomial(
         [
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ac919bc..27609ab 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -228,6 +228,8 @@ def theta_frequency(a, p, e, x, constants=None):
     if constants is None:
         constants = constants_of_motion(a, p, e, x)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
 
     # equation 13
@@ -287,6 +289,8 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     if constants is None:
         constants = constants_of_motion(a, p, e, x)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     r1, r2, r3, r4 = stable_radial_roots(a, p, e, x, constants)
     z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
 
@@ -372,6 +376,8 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     if constants is None:
         constants = constants_of_motion(a, p, e, x)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     r1, r2, r3, r4 = stable_radial_roots(a, p, e, x, constants)
     z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
     epsilon0 = a**2 * (1 - E**2) / L**2
@@ -592,6 +598,8 @@ def _theta_frequency_from_constants(a, constants, radial_roots, polar_roots):
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
 
     # Schwarzschild case
     if a == 0:
@@ -638,6 +646,8 @@ def _phi_frequency_from_constants(
     """
 
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
@@ -714,6 +724,8 @@ def _gamma_from_constants(
     z_minus, z_plus = polar_roots
 
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     # marginally bound case
     if E == 1:
         return inf
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index d04414f..a72d114 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -89,6 +89,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     if constants is None:
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
 
     # radial polynomial
     R = Polynomial(
@@ -182,6 +184,8 @@ def stable_orbit_initial_phases(
     if constants is None:
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
 
     polar_roots = _polar_roots(a, E, L, Q)
     z_minus, z_plus = polar_roots
diff --git a/kerrgeopy/spacetime.py b/kerrgeopy/spacetime.py
index 0d231d8..61a9bc7 100644
--- a/kerrgeopy/spacetime.py
+++ b/kerrgeopy/spacetime.py
@@ -156,6 +156,8 @@ class KerrSpacetime:
         """
         a = self.a
         E, L, Q = constants
+        # powers of L would overflow for numpy integers
+        L, Q = 1.0 * L, 1.0 * Q
         q_t0, q_r0, q_theta0, q_phi0 = initial_phases
 
         # radial polynomial
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 8397ecc..6cebdd8 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -408,6 +408,8 @@ def polar_solutions(a, constants, polar_roots):
         tuple of functions :math:`(\theta, t^{(\theta)}, \phi^{(\theta)})`
     """
     E, L, Q = constants
+    # powers of L would overflow for numpy integers
+    L, Q = 1.0 * L, 1.0 * Q
     z_minus, z_plus = polar_roots
     epsilon0 = a**2 * (1 - E**2) / L**2
     z1_minus = _polar_complement(a, E, L, Q)
-- 
2.43.0


From aa027df1e0da9e17c490a0a25ea5184f536bb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 32/33] fix: t and phi of plunges which cross a horizon a
 quarter of a period after a turning point are not a number

---
 kerrgeopy/plunge.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 8354059..397ef09 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -193,6 +193,18 @@ def plunging_radial_integrals(a, E, L, Q):
     D_minus = sqrt(4 * A * B * (r2 - r_minus) * (r_minus - r1)) / (
         A * (r_minus - r1) + B * (r2 - r_minus)
     )
+    # 1 - 1/D^2, which is close to 0 if the horizon is crossed a quarter of a period after a turning
+    # point, kept away from 0 where the integral multiplied by zero in equation 48 is infinite
+    n1_plus = -1 * max(
+        (A * (r_plus - r1) - B * (r2 - r_plus)) ** 2
+        / (4 * A * B * (r2 - r_plus) * (r_plus - r1)),
+        1e-40,
+    )
+    n1_minus = -1 * max(
+        (A * (r_minus - r1) - B * (r2 - r_minus)) ** 2
+        / (4 * A * B * (r2 - r_minus) * (r_minus - r1)),
+        1e-40,
+    )
 
     # equations 46 and 47 are singular for A = B (which is the case if r1 + r2 = 1/(1 - E^2)),
     # so they are rewritten with r = (r1 + r2)/2 - (r2 - r1)/2*(cn + alpha)/(1 + alpha*cn) as a
@@ -258,7 +270,7 @@ def plunging_radial_integrals(a, E, L, Q):
                 * (r2 - r_plus)
                 * (A * (r1 - r_plus) - B * (r2 - r_plus))
             )
-            * _ellippiinc(xi_r, 1 / D_plus**2, k_r**2)
+            * _ellippiinc(xi_r, 1 / D_plus**2, k_r**2, n1_plus)
             - (
                 sqrt(r2 - r1)
                 * log(
@@ -298,7 +310,7 @@ def plunging_radial_integrals(a, E, L, Q):
                 * (r2 - r_minus)
                 * (A * (r1 - r_minus) - B * (r2 - r_minus))
             )
-            * _ellippiinc(xi_r, 1 / D_minus**2, k_r**2)
+            * _ellippiinc(xi_r, 1 / D_minus**2, k_r**2, n1_minus)
             - (
                 sqrt(r2 - r1)
                 * log(
-- 
2.43.0


From 5d07c9b16ac13ec5b3f002110b445a22c76e7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 33/33] fix: constants of motion of states close to the axis
 lose accuracy

---
 kerrgeopy/initial_conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index a72d114..ee53c32 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -42,10 +42,10 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
     A = np.array(
         [
             [
-                (r0**2 + a**2) ** 2 / delta - a**2 * (1 - cos(theta0) ** 2),
+                (r0**2 + a**2) ** 2 / delta - a**2 * sin(theta0) ** 2,
                 a - a * (r0**2 + a**2) / delta,
             ],
-            [a * (r0**2 + a**2) / delta - a, 1 / (1 - cos(theta0) ** 2) - a**2 / delta],
+            [a * (r0**2 + a**2) / delta - a, 1 / sin(theta0) ** 2 - a**2 / delta],
         ]
     )
     b = np.array([sigma * dt0, sigma * dphi0])
@@ -54,8 +54,8 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
     # solve for Q by substituting E and L back into the theta equation
     Q = (
         (sigma * dtheta0 * sin(theta0)) ** 2
-        + cos(theta0) ** 2 * (a**2 * (1 - E**2) * (1 - cos(theta0) ** 2) + L**2)
-    ) / (1 - cos(theta0) ** 2)
+        + cos(theta0) ** 2 * (a**2 * (1 - E**2) * sin(theta0) ** 2 + L**2)
+    ) / sin(theta0) ** 2
 
     return E, L, Q
 
-- 
2.43.0

