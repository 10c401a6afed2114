From 37a6b17d7cff0f2ba9b08185433e8957537783e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 01/82] fix: optimiser must start from the best, not the worst,
 initial candidate

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..a521bfc 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 0cf6608c3e3a470ea0f95812139aa36fe9fb3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:05 +0000
Subject: [PATCH 02/82] fix: optimiser can pick any control to modify, and
 works with a single control

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index a521bfc..1e23699 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From e6a06b2dd9e5a124807a53c075cc8a73f58b83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:12 +0000
Subject: [PATCH 03/82] fix: pickUnique can pick every allowed index

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 1e23699..7bdd06d 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -66,8 +66,8 @@ def pickUnique(N, m, e):
     others = []  # The list of three agents
     for i in range(m):
         high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
-        
+        newind = random.randint(0, high + 1)  # Upper limit is exclusive
+
         for ind in inds:
             if newind == ind:
                 newind += 1
-- 
2.43.0


From 4ff555d07b065325e7833be01d5eb35eb4808028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:05 +0000
Subject: [PATCH 04/82] fix: MirroredCoil puts the lower coil at -Z and keeps
 its current and control

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..1290377 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -307,10 +307,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From d6e571bd714ce4cbc1fc9c625cd4d35ab53bc6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:11 +0000
Subject: [PATCH 05/82] fix: force on a coil in a circuit must not include the
 coil's own field

---
 freegs/machine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1290377..6778210 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -209,8 +209,15 @@ class Circuit:
         Returns a dictionary of coil label -> force
         """
         forces = {}
-        for label, coil, multiplier in self.coils:
-            forces[label] = coil.getForces(equilibrium)
+        all_coils = self.coils
+        try:
+            for i, (label, coil, _) in enumerate(all_coils):
+                # Take this coil out of the circuit, so that evaluating the
+                # circuit field doesn't include the field of the coil itself
+                self.coils = all_coils[:i] + all_coils[i + 1 :]
+                forces[label] = coil.getForces(equilibrium)
+        finally:
+            self.coils = all_coils
         return forces
 
     def inShape(self, polygon):
-- 
2.43.0


From ac12d9a30aeabf84f24efecbecd8cce92836efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:18 +0000
Subject: [PATCH 06/82] fix: max_coil_force includes plasma forces and coils in
 circuits

---
 freegs/optimise.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..224e9b7 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,19 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    """
+    Given an equilibrium, return the maximum force on any coil,
+    including coils in circuits
+    """
+
+    def magnitudes(forces):
+        for force in forces.values():
+            if isinstance(force, dict):
+                yield from magnitudes(force)  # A circuit
+            else:
+                yield sqrt(force[0] ** 2 + force[1] ** 2)
+
+    return max(magnitudes(eq.getForces()))
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From 1976773d958403d4dfaabb8e65d23c8b98576665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:26 +0000
Subject: [PATCH 07/82] fix: a coil position limit of zero is a limit

---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index 224e9b7..59ffd52 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -107,9 +107,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -131,9 +131,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From f32e0703147d2c52cd25b7996a054cea5c8debc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:50 +0000
Subject: [PATCH 08/82] fix: moving a shaped or filament coil moves its outline

---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 7c5639bd04fb74e3bad62f3e2e89a369c1d7d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:57 +0000
Subject: [PATCH 09/82] fix: PreCalcCoil field includes the number of turns

---
 freegs/pre_calc_coil.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..95dbb35 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        # Maps are for 1A-turn
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +141,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +153,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From f8d9aad81c6c490e34ffaad2d49ece6790cf55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:06 +0000
Subject: [PATCH 10/82] fix: MultiCoil at a single point includes the number of
 turns

---
 freegs/multi_coil.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..4f73694 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -157,7 +157,8 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        # Note: turns is the number of filaments unless R,Z is a single point
+        return result * (self.turns / len(self.Rfil))
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +171,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * (self.turns / len(self.Rfil))
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +184,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * (self.turns / len(self.Rfil))
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From 4205187c2e71174f5e4cc856165bd46ba225b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:12 +0000
Subject: [PATCH 11/82] fix: moving a MultiCoil must not modify the caller's
 filament lists

---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 4f73694..7236871 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, since these are modified when the coil is moved
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From 7ba79faf2db4e2c2655964ebe2d00cdd244cf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:21 +0000
Subject: [PATCH 12/82] fix: MultiCoil.from_numpy_array reads the mirror flag

---
 freegs/multi_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 7236871..34022a8 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -250,7 +250,7 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
 
         return MultiCoil(
-- 
2.43.0


From 838e9ac3a82eb621ba1e59d9a0e919463a3ea8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:48 +0000
Subject: [PATCH 13/82] fix: Rogowski sensors count every turn of coils, and
 work with solenoids

---
 freegs/machine.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 6778210..97d505c 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -221,7 +221,10 @@ class Circuit:
         return forces
 
     def inShape(self, polygon):
-        return sum(coil.inShape(polygon)*multiplier for label, coil, multiplier in self.coils)
+        return sum(
+            coil.inShape(polygon) * multiplier * getattr(coil, "turns", 1)
+            for label, coil, multiplier in self.coils
+        )
 
     def __repr__(self):
         result = "Circuit(["
@@ -431,6 +434,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the given polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
@@ -547,7 +560,12 @@ class RogowskiSensor(Sensor):
             # coil current
             coil_current = 0
             for label, coil in tokamak.coils:
-                coil_current += coil.inShape(self.polygon) * coil.current
+                # Note: For circuits and solenoids inShape includes turns
+                coil_current += (
+                    coil.inShape(self.polygon)
+                    * coil.current
+                    * getattr(coil, "turns", 1)
+                )
 
             # plasma current
             plasma_current = 0
-- 
2.43.0


From 1cc9dc195ee0119a40992497535be3ee81f89ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:56 +0000
Subject: [PATCH 14/82] fix: Rogowski sensors see each filament of a MultiCoil

---
 freegs/multi_coil.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 34022a8..e7a1ea5 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -25,6 +25,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 import numpy as np
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
+from shapely.geometry import Point
 
 
 class MultiCoil(Coil):
@@ -187,6 +188,18 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * (self.turns / len(self.Rfil))
 
+    def inShape(self, polygon):
+        """
+        Fraction of the block current which is inside the polygon
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                result += self.polarity[1]
+        return result / len(self.Rfil)
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From 114d33b9bbe8ca11abbb1c9369fd2097e42fd85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:05 +0000
Subject: [PATCH 15/82] fix: sensors which start disabled have a (previous)
 measurement

---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 97d505c..aeb929c 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -519,9 +519,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 8c6cc84033ba66ce940c583866715acd74593a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:14 +0000
Subject: [PATCH 16/82] fix: Rogowski sensors see the cross-section of a
 PreCalcCoil

---
 freegs/pre_calc_coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 95dbb35..87caa75 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -27,6 +27,7 @@ from scipy.interpolate import RectBivariateSpline
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 from . import polygons
+from shapely.geometry import Polygon
 
 
 class PreCalcCoil(Coil):
@@ -155,6 +156,9 @@ class PreCalcCoil(Coil):
 
         return result * self.turns
 
+    def inShape(self, polygon):
+        return polygon.intersection(Polygon(self.shape)).area / self._area
+
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
             self.shape, self.current, self.turns, self.control
-- 
2.43.0


From 27757a8c55890a4af9fef325b42fcbbebe8940e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 17/82] fix: limiter flux is interpolated from psi[R,Z], not
 its transpose

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From 275fb4d57ae49f758d9b242b3900fce9421cfba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 18/82] fix: limiter contact is found for negative plasma
 current

---
 freegs/equilibrium.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..a5b4239 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -565,8 +565,16 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # psi is a maximum on axis for positive plasma current,
+                # and a minimum for negative plasma current
+                psi_near_axis = psi_2d(
+                    opt[0][0] + np.array([-self.dR, self.dR]),
+                    opt[0][1] + np.array([-self.dZ, self.dZ]),
+                )
+                sign = 1.0 if self.psi_axis > np.mean(psi_near_axis) else -1.0
+
+                # Get index of maximum psi value (minimum if current is negative)
+                indMax = np.argmax(sign * psi_limit_points)
 
                 # Extract R,Z of the contact point
                 self.Rlim = Rlimit[indMax]
@@ -581,7 +589,9 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
+                    self.psi_bndry = max(
+                        self.psi_xpt, self.psi_limit, key=lambda psi: sign * psi
+                    )
 
                     if self.psi_bndry == self.psi_limit:
                         self.is_limited = True
-- 
2.43.0


From a52e3b643fdff7345efbd1f7b9b6b73bdd2678ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:28 +0000
Subject: [PATCH 19/82] fix: X-point sets the boundary if no limit points are
 near the plasma

---
 freegs/equilibrium.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a5b4239..ab8c409 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -573,15 +573,21 @@ class Equilibrium:
                 )
                 sign = 1.0 if self.psi_axis > np.mean(psi_near_axis) else -1.0
 
-                # Get index of maximum psi value (minimum if current is negative)
-                indMax = np.argmax(sign * psi_limit_points)
+                if len(Rlimit) > 0:
+                    # Get index of maximum psi value (minimum if current is negative)
+                    indMax = np.argmax(sign * psi_limit_points)
 
-                # Extract R,Z of the contact point
-                self.Rlim = Rlimit[indMax]
-                self.Zlim = Zlimit[indMax]
+                    # Extract R,Z of the contact point
+                    self.Rlim = Rlimit[indMax]
+                    self.Zlim = Zlimit[indMax]
 
-                # Obtain maximum psi
-                self.psi_limit = psi_limit_points[indMax]
+                    # Obtain maximum psi
+                    self.psi_limit = psi_limit_points[indMax]
+                else:
+                    # All limit points removed, so the X-point sets the boundary
+                    self.Rlim = None
+                    self.Zlim = None
+                    self.psi_limit = -sign * np.inf
 
                 # Check if any xpoints are present
                 if xpt:
-- 
2.43.0


From bc069cf4e525dbe4698359122a4a8f02daf4b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:35 +0000
Subject: [PATCH 20/82] fix: a limited plasma without X-points has a core mask

---
 freegs/equilibrium.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index ab8c409..9872021 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -605,21 +605,20 @@ class Equilibrium:
                     else:
                         self.is_limited = False
 
-                    # Mask the core
-                    self.mask = critical.core_mask(
-                        self.R, self.Z, psi, opt, xpt, self.psi_bndry
-                    )
-
-                    # Use interpolation to find if a point is in the core.
-                    self.mask_func = interpolate.RectBivariateSpline(
-                        self.R[:, 0], self.Z[0, :], self.mask
-                    )
-
                 else:
                     # No xpoints, therefore psi_bndry = psi_limit
                     self.psi_bndry = self.psi_limit
                     self.is_limited = True
-                    self.mask = None
+
+                # Mask the core
+                self.mask = critical.core_mask(
+                    self.R, self.Z, psi, opt, xpt, self.psi_bndry
+                )
+
+                # Use interpolation to find if a point is in the core.
+                self.mask_func = interpolate.RectBivariateSpline(
+                    self.R[:, 0], self.Z[0, :], self.mask
+                )
 
             else:
                 # Either a wall was not provided or the user did not wish to
-- 
2.43.0


From b310d86bc6030d2ddf31181edd1315c46bb6eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 21/82] fix: limit points cover the closing segment of the wall

---
 freegs/machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index aeb929c..eda6c40 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -712,6 +712,8 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+        # The wall is closed, so include the segment from last to first point
+        points = np.concatenate([points, points[:1]])
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From 3f4d268284e3695ea2174b1b7ef67d75e7c5b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:47 +0000
Subject: [PATCH 22/82] fix: changing the machine wall updates the limit points

---
 freegs/machine.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index eda6c40..3d14c55 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -671,16 +671,29 @@ class Machine:
         """
 
         self.coils = coils
-        self.wall = wall
         self.sensors = sensors
         self.R0 = R0
 
+        self._nlimit = nlimit
+        self.wall = wall
+
+    @property
+    def wall(self):
+        return self._wall
+
+    @wall.setter
+    def wall(self, wall):
+        """
+        When changing the wall, also update the limit points
+        """
+        self._wall = wall
+
         self.limit_points_R = None
         self.limit_points_Z = None
 
         if self.wall is not None:
             self.limit_points_R, self.limit_points_Z = self.generate_limit_points(
-                nlimit
+                self._nlimit
             )
 
     def __repr__(self):
-- 
2.43.0


From 00f0958ee5e62ef42d3812ba26ff69a9045cb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:29 +0000
Subject: [PATCH 23/82] fix: refine keeps the limiter setting

---
 freegs/equilibrium.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 9872021..8fec9a9 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1306,6 +1306,7 @@ def refine(eq, nx=None, ny=None):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
-- 
2.43.0


From d9faefb95a96d59598f1e68869322d97b4bd664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 24/82] fix: coarsen keeps the plasma flux on the domain
 boundary

---
 freegs/equilibrium.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 8fec9a9..b3f6c8d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1328,7 +1328,13 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    nx, ny = eq.plasma_psi.shape
+    if nx % 2 == 1 and ny % 2 == 1:
+        # Keep every second point, including the boundaries
+        plasma_psi = eq.plasma_psi[::2, ::2].copy()
+    else:
+        # Can't divide any further
+        plasma_psi = eq.plasma_psi.copy()
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
-- 
2.43.0


From 390105d9b9515692fc62d7ac133e8bb8f9cd1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 25/82] fix: coarsen and newDomain keep boundary condition,
 order and limiter setting

---
 freegs/equilibrium.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b3f6c8d..53583e6 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1343,6 +1343,9 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1378,7 +1381,16 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From 79954c1294dd199cc02133fee29368f38839cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 26/82] fix: newDomain keeps the vertical resolution of a
 non-square grid

---
 freegs/equilibrium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 53583e6..4665f33 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1377,7 +1377,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-- 
2.43.0


From 1cf09eeb06f2d9c9057d4b18fb4869304fa2f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:23 +0000
Subject: [PATCH 27/82] fix: saved equilibria keep the order and limiter
 settings

---
 freegs/dump.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..c4a7208 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -162,6 +162,11 @@ class OutputFile(object):
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
 
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
+        equilibrium_group.create_dataset(
+            "check_limited", data=equilibrium.check_limited
+        )
+
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
 
         if equilibrium.tokamak.wall is not None:
@@ -238,6 +243,13 @@ class OutputFile(object):
 
         eq_boundary_func = boundary.__dict__[eq_boundary_name]
 
+        # These settings are not in files written by older versions
+        settings = {}
+        if "order" in equilibrium_group:
+            settings["order"] = int(equilibrium_group["order"][()])
+        if "check_limited" in equilibrium_group:
+            settings["check_limited"] = bool(equilibrium_group["check_limited"][()])
+
         equilibrium = Equilibrium(
             tokamak=tokamak,
             Rmin=Rmin,
@@ -249,6 +261,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            **settings,
         )
 
         return equilibrium
-- 
2.43.0


From f0add333cfc1d28044c2ccce7b140ccab19b4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 28/82] fix: saved machines keep the reference major radius

---
 freegs/dump.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index c4a7208..00e6f6e 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -169,6 +169,8 @@ class OutputFile(object):
 
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
 
+        tokamak_group.create_dataset("R0", data=equilibrium.tokamak.R0)
+
         if equilibrium.tokamak.wall is not None:
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
             tokamak_group.create_dataset("wall_Z", data=equilibrium.tokamak.wall.Z)
@@ -222,6 +224,8 @@ class OutputFile(object):
             wall = None
 
         tokamak = Machine(coils, wall)
+        if "R0" in tokamak_group:
+            tokamak.R0 = tokamak_group["R0"][()]
 
         Rmin = equilibrium_group["Rmin"][()]
         Rmax = equilibrium_group["Rmax"][()]
-- 
2.43.0


From 6cae7774d60297370a40afefb0a48d62828fe296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 29/82] fix: saved machines keep the order of their coils

---
 freegs/dump.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 00e6f6e..4d310e6 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -175,7 +175,9 @@ class OutputFile(object):
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
             tokamak_group.create_dataset("wall_Z", data=equilibrium.tokamak.wall.Z)
 
-        coils_group = tokamak_group.create_group(self.COILS_GROUP_NAME)
+        coils_group = tokamak_group.create_group(
+            self.COILS_GROUP_NAME, track_order=True
+        )
         for label, coil in equilibrium.tokamak.coils:
             try:
                 dtype = type_to_dtype[coil.dtype]
@@ -210,8 +212,8 @@ class OutputFile(object):
         def make_coil_set(thing):
             return machine.__dict__[thing.attrs["freegs type"]].from_numpy_array(thing)
 
-        # Unfortunately this creates the coils in lexographical order
-        # by label, losing the origin
+        # The group tracks the order in which coils were written, except in
+        # files from older versions where it is lexographical order by label
         coils = [
             (toString(label), make_coil_set(coil)) for label, coil in coil_group.items()
         ]
-- 
2.43.0


From 37d964ce12638908783974c435d35b8a551f4211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 30/82] fix: FilamentCoils can be saved and read back

---
 freegs/filament_coil.py | 68 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..8f1c1ce 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -188,6 +188,9 @@ class FilamentCoil(Coil):
             (str("turns"), int),
             (str("control"), bool),
             (str("npoints"), int),
+            (str("shapelen"), int),  # Length of the outline arrays
+            (str("Rshape"), "100f8"),
+            (str("Zshape"), "100f8"),
         ]
     )
 
@@ -377,3 +380,68 @@ class FilamentCoil(Coil):
         # axis.plot(rquad, zquad, 'ro')
 
         return axis
+
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[: self.npoints] = [r for r, z in self.points]
+        Z[: self.npoints] = [z for r, z in self.points]
+
+        shapelen = len(self.shape)
+        Rshape = np.zeros(100)
+        Zshape = np.zeros(100)
+        Rshape[:shapelen] = [r for r, z in self.shape]
+        Zshape[:shapelen] = [z for r, z in self.shape]
+
+        return np.array(
+            (
+                self.npoints,
+                R,
+                Z,
+                self.current,
+                self.turns,
+                self.control,
+                self.npoints,
+                shapelen,
+                Rshape,
+                Zshape,
+            ),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+        shapelen = value["shapelen"]
+
+        return FilamentCoil(
+            Rfil=value["R"][:RZlen],
+            Zfil=value["Z"][:RZlen],
+            shape=list(zip(value["Rshape"][:shapelen], value["Zshape"][:shapelen])),
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
+
+    def __eq__(self, other):
+        return (
+            np.shape(self.points) == np.shape(other.points)
+            and np.allclose(self.points, other.points)
+            and np.shape(self.shape) == np.shape(other.shape)
+            and np.allclose(self.shape, other.shape)
+            and self.current == other.current
+            and self.turns == other.turns
+            and self.control == other.control
+        )
+
+    def __ne__(self, other):
+        return not self == other
-- 
2.43.0


From 056eb00d2d200ab571c7f1d5e223f41b28e8f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:54 +0000
Subject: [PATCH 31/82] fix: read back circuits whose first coil has a zero
 multiplier

---
 freegs/machine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 3d14c55..b98f91b 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -275,14 +275,20 @@ class Circuit:
             except TypeError:
                 return s  # Probably already a string
 
-        # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # Use the current value from the first coil in the circuit which
+        # carries a fraction of the circuit current. Should be consistent!
+        current = 0.0
+        for _, coil, multiplier in value:
+            if multiplier != 0.0:
+                current = coil["current"] / multiplier
+                break
+
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
+            current=current,
             control=value[0][1]["control"],
         )
 
-- 
2.43.0


From 5a4713739c294004a7758433bd64c5fd8543c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:34 +0000
Subject: [PATCH 32/82] fix: filaments can be placed automatically in a
 FilamentCoil

---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 8f1c1ce..c4169cb 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From 29edb39a850a3c39bddc68ebc4a26ca9c71eb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:05 +0000
Subject: [PATCH 33/82] fix: safety factor can be requested for a list of flux
 surfaces

---
 freegs/equilibrium.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 4665f33..4e4023d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,9 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.atleast_1d(psinorm)
+
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From 397ed38b285fa1afd8fe752029c171774095a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 34/82] fix: safety factor of a limited plasma uses the plasma
 boundary

---
 freegs/critical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..a60f77f 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -470,7 +470,8 @@ def find_safety(
         # No X-point
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        # Normalise to the plasma boundary, which may be set by a limiter
+        psinormal = (psi - opoint[0][2]) / (eq.psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
-- 
2.43.0


From d8adb96b80476eb28254401b36f18542bf7c03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:17 +0000
Subject: [PATCH 35/82] fix: pressure can be evaluated for a list of flux
 values

---
 freegs/jtor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..08c2063 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -45,13 +45,14 @@ class Profile(abc.ABC):
         integrating pprime
         """
 
-        if not hasattr(psinorm, "shape"):
+        if not hasattr(psinorm, "__len__"):
             # Assume  a single value
             val, _ = quad(self.pprime, psinorm, 1.0)
             # Convert from integral in normalised psi to integral in psi
             return val * (self.psi_axis - self.psi_bndry)
 
-        # Assume a NumPy array
+        # Assume it's a NumPy array, or can be converted to one
+        psinorm = np.array(psinorm)
 
         if out is None:
             out = zeros(psinorm.shape)
-- 
2.43.0


From c897c53ada065b16b22886d544e91f89e829802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:24 +0000
Subject: [PATCH 36/82] fix: f = R*Bt in the plasma keeps the sign of the
 vacuum field

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 08c2063..5908a97 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -86,7 +86,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as the vacuum field
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -106,7 +107,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as the vacuum field
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 3ed060269141b7100a03ef2f67b9a881ed75fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:12 +0000
Subject: [PATCH 37/82] fix: intersection of open curves tests their last
 segments

---
 freegs/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..e3dfbd8 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -42,9 +42,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # Test for intersection between two line segments:
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
-            # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            # Note that if polynomials are closed the indices wrap around
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From 242d2a416cd44259e55751caa632e4a86e37501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 38/82] fix: triangulation of concave polygons stays inside the
 polygon

---
 freegs/polygons.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index e3dfbd8..9262b7e 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -113,14 +113,21 @@ def triangulate(polygon):
 
     if clockwise(polygon):
         # Copy input into list
-        polygon = list(iter(polygon))
+        polygon = [tuple(vert) for vert in polygon]
     else:
-        polygon = list(reversed(polygon))
+        polygon = [tuple(vert) for vert in reversed(polygon)]
     # Now polygon should be clockwise
 
     nvert = len(polygon)  # Number of vertices
     assert nvert > 2
 
+    def in_triangle(point, v1, v2, v3):
+        # True if point is inside or on the edge of a clockwise triangle
+        return all(
+            (b[1] - a[1]) * (point[0] - b[0]) >= (b[0] - a[0]) * (point[1] - b[1])
+            for a, b in ((v1, v2), (v2, v3), (v3, v1))
+        )
+
     triangles = []
     while nvert > 3:
         # Find an "ear"
@@ -137,22 +144,12 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that no other vertex is inside or on the edge of the triangle
+            if any(
+                in_triangle(other, prev_vert, vert, next_vert)
+                for other in polygon
+                if other not in (prev_vert, vert, next_vert)
+            ):
                 continue  # Skip
 
             # Found an ear
@@ -161,6 +158,8 @@ def triangulate(polygon):
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Could not triangulate polygon {0}".format(polygon))
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 27d7a2f051af48a9835fa8998d5adf6ac1023ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:14 +0000
Subject: [PATCH 39/82] fix: intersection of finely resolved curves is found

---
 freegs/polygons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 9262b7e..05bf9f6 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -56,8 +56,10 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
 
             det = a * d - b * c
 
-            if abs(det) < 1e-6:
-                continue  # Almost certainly doesn't intersect
+            # det is the product of the lengths and the sine of the angle between
+            # the line segments, so compare it to the product of the lengths
+            if abs(det) <= 1e-6 * ((a * a + c * c) * (b * b + d * d)) ** 0.5:
+                continue  # Nearly parallel, almost certainly doesn't intersect
 
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
             beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
-- 
2.43.0


From 290a6b62011af347e379479396a992ecfe14a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 40/82] fix: field line length increases for negative toroidal
 field

---
 freegs/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..038f716 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,7 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        dldphi = np.abs(evolving_R_Bt) * B  # Length always increases
 
         if backward:
             # Reverse direction
-- 
2.43.0


From e18c94d0a32c62a04ba67b297740d0b06f1b2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 41/82] fix: field lines stop at the wall wherever it is in the
 domain

---
 freegs/fieldtracer.py | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 038f716..b9f38f9 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -49,44 +49,30 @@ class FieldTracer(object):
         Rwall = self._eq.tokamak.wall.R
         Zwall = self._eq.tokamak.wall.Z
 
-        # Location of the middle of the domain
-        Rmid = 0.5 * (self._eq.Rmin + self._eq.Rmax)
-        Zmid = 0.5 * (self._eq.Zmin + self._eq.Zmax)
-
-        # True if a point is outside the wall
-        outside = np.full(R.shape, False)
+        # True if a point is inside the wall
+        inside = np.full(R.shape, False)
 
         nwall = len(Rwall)
         for wi in range(nwall):
-            # Find intersection between line from (Rmid, Zmid) to (R,Z)
+            # Find intersection between the line from (R,Z) outwards in R
             # with wall segment from (Rwall[wi], Zwall[wi]) to (Rwall[wi+1], Zwall[wi+1])
             wip = (wi + 1) % nwall
 
-            a = R - Rmid
-            b = Rwall[wip] - Rwall[wi]
-            c = Z - Zmid
-            d = Zwall[wip] - Zwall[wi]
-
-            dr = Rwall[wip] - Rmid
-            dz = Zwall[wip] - Zmid
+            if Zwall[wi] == Zwall[wip]:
+                continue  # Parallel to the line
 
-            det = a * d - b * c
+            # Each end of the segment is either above, or at or below, the line.
+            # This way a line through the end of a segment is counted once.
+            straddles = (Zwall[wi] > Z) != (Zwall[wip] > Z)
 
-            # Note: Here expect divide-by-zero errors occasionally
-            # but the resulting values won't be used
-            alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
-            beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
+            # Major radius where the segment is at height Z
+            Rcross = Rwall[wi] + (Rwall[wip] - Rwall[wi]) * (Z - Zwall[wi]) / (
+                Zwall[wip] - Zwall[wi]
+            )
 
             # If the lines cross, change outside <-> inside
-            # Note: If det is small then lines are nearly parallel
-            outside ^= (
-                (np.abs(det) > 1e-6)
-                & (alpha > 0.0)
-                & (alpha < 1.0)
-                & (beta > 0.0)
-                & (beta < 1.0)
-            )
-        evolving[outside] = 0.0
+            inside ^= straddles & (R < Rcross)
+        evolving[~inside] = 0.0
 
     def fieldDirection(self, pos, toroidal_angle, evolving, backward):
         """
-- 
2.43.0


From fcedb402103b1c7549be00d1c9dd611ee27d6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:41 +0000
Subject: [PATCH 42/82] fix: poloidalBeta3 is dimensionless

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 4e4023d..65812ea 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1163,9 +1163,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From b658df01c67bb36dba81a65a2228f35a05a4efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 43/82] fix: shafranovShift and betaN use the requested number
 of points

---
 freegs/equilibrium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 65812ea..1bfe3a9 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -993,8 +993,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
@@ -1203,13 +1203,13 @@ class Equilibrium:
 
     def betaN(self, npoints=360):
         """Calculate normalised plasma beta"""
-        geo = self.geometricAxis()
+        geo = self.geometricAxis(npoints=npoints)
         Bt = self.Btor(geo[0], geo[1])
         return (
             100.0
             * 1.0e06
             * self.toroidalBeta()
-            * ((self.minorRadius() * Bt) / (self.plasmaCurrent()))
+            * ((self.minorRadius(npoints=npoints) * Bt) / (self.plasmaCurrent()))
         )
 
     def pressure_ave(self):
-- 
2.43.0


From 94eb7e00eca42478b3790664d3a07e012207b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 44/82] fix: flux fits accept scalar weights

---
 freegs/control.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..41dc7fc 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,8 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        weights = np.broadcast_to(weights, np.shape(target_psi))
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
@@ -350,8 +351,11 @@ class ConstrainPsi2DAdvanced(object):
         Create an instance, specifying the constraints to apply
         """
 
+        weights = np.broadcast_to(weights, np.shape(target_psi))
+
         self.current_lims = current_lims
-        self.target_psi = target_psi
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=weights)
         self.weights = weights
 
     def __call__(self, eq):
-- 
2.43.0


From e9afd844e566219e3767c24a42b7418bb1f72df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 45/82] fix: bounded flux fits apply each limit to its own
 coil, and work without limits

---
 freegs/control.py | 78 +++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 41dc7fc..3db87ec 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -323,6 +323,30 @@ class ConstrainPsiNorm2D(object):
         ).ravel()  # flatten array
 
 
+def controlCurrentBounds(tokamak, current_lims):
+    """
+    Bounds on the current in each controlled coil, as an array of (lower, upper)
+
+    tokamak      - The machine, including the coils
+    current_lims - A list of tuples [(l1,u1),(l2,u2)...(lN,uN)] with one
+                   entry for each coil, or one for each controlled coil.
+                   If None then the currents are not bounded.
+    """
+    control = [coil.control for _, coil in tokamak.coils]
+    ncontrols = sum(control)
+
+    if current_lims is None:
+        return array([(-inf, inf)] * ncontrols).reshape((ncontrols, 2))
+
+    if len(current_lims) == len(control):
+        current_lims = [lims for lims, enabled in zip(current_lims, control) if enabled]
+    assert len(current_lims) == ncontrols, "Should provide current limits for all coils"
+
+    return array([(min(lims), max(lims)) for lims in current_lims]).reshape(
+        (ncontrols, 2)
+    )
+
+
 class ConstrainPsi2DAdvanced(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -365,31 +389,14 @@ class ConstrainPsi2DAdvanced(object):
 
         tokamak = eq.getMachine()
         start_currents = np.asarray(tokamak.controlCurrents())
-        ncontrols = len(start_currents)
+
+        current_bnds = controlCurrentBounds(tokamak, self.current_lims)
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
-            bnd_upper = max(self.current_lims[i])
-            bnd_lower = min(self.current_lims[i])
-            sc = start_currents[i]
-            if not (bnd_lower <= sc <= bnd_upper):
-                if sc < bnd_lower:
-                    start_currents[i] = bnd_lower
-                else:
-                    start_currents[i] = bnd_upper
-
-        current_bounds = []
-
-        for i in range(ncontrols):
-            if self.current_lims is None:
-                current_bounds.append((-inf, inf))
-            else:
-                bnd_upper = max(self.current_lims[i])
-                bnd_lower = min(self.current_lims[i])
-                current_bounds.append((bnd_lower, bnd_upper))
-
-        current_bnds = array(current_bounds)
+        start_currents = np.clip(
+            start_currents, current_bnds[:, 0], current_bnds[:, 1]
+        )
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
@@ -460,31 +467,14 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         tokamak = eq.getMachine()
         start_currents = np.asarray(tokamak.controlCurrents())
-        ncontrols = len(start_currents)
+
+        current_bnds = controlCurrentBounds(tokamak, self.current_lims)
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
-            bnd_upper = max(self.current_lims[i])
-            bnd_lower = min(self.current_lims[i])
-            sc = start_currents[i]
-            if not (bnd_lower <= sc <= bnd_upper):
-                if sc < bnd_lower:
-                    start_currents[i] = bnd_lower
-                else:
-                    start_currents[i] = bnd_upper
-
-        current_bounds = []
-
-        for i in range(ncontrols):
-            if self.current_lims is None:
-                current_bounds.append((-inf, inf))
-            else:
-                bnd_upper = max(self.current_lims[i])
-                bnd_lower = min(self.current_lims[i])
-                current_bounds.append((bnd_lower, bnd_upper))
-
-        current_bnds = array(current_bounds)
+        start_currents = np.clip(
+            start_currents, current_bnds[:, 0], current_bnds[:, 1]
+        )
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-- 
2.43.0


From 89ee10fe1d08a65629ff599a2d8d60f3177e7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 46/82] fix: bounded flux fits converge to the best currents
 within the limits

---
 freegs/control.py | 69 +++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 3db87ec..925746c 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -347,6 +347,34 @@ def controlCurrentBounds(tokamak, current_lims):
     )
 
 
+def boundedLeastSquares(residuals, start_currents, current_bnds, eq):
+    """
+    Find currents which minimise the sum of squares of residuals(currents, eq)
+    with bounds on the currents
+
+    The residuals change very little for a change in current of 1 Amp, so
+    the currents are scaled, and a small gradient is not taken as convergence
+    """
+    free = current_bnds[:, 0] < current_bnds[:, 1]
+
+    def all_currents(free_currents):
+        currents = np.array(start_currents, dtype=float)
+        currents[free] = free_currents
+        return currents
+
+    if not np.any(free):
+        return all_currents([])
+
+    result = optimize.least_squares(
+        lambda currents: residuals(all_currents(currents), eq),
+        all_currents(start_currents[free])[free],
+        bounds=(current_bnds[free, 0], current_bnds[free, 1]),
+        x_scale="jac",
+        gtol=None,
+    )
+    return all_currents(result.x)
+
+
 class ConstrainPsi2DAdvanced(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -400,13 +428,9 @@ class ConstrainPsi2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psi_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = boundedLeastSquares(
+            self.psi_difference, start_currents, current_bnds, eq
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -416,18 +440,16 @@ class ConstrainPsi2DAdvanced(object):
 
     def psi_difference(self, currents, eq):
         """
-        Sum of the squares of the differences between the achieved
-        psi and the target psi.
+        Weighted differences between the achieved psi and the target psi.
         """
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
         eq._updateBoundaryPsi(psi)
 
         psi_av = np.average(psi, weights=self.weights)
-        diff = (psi - psi_av - self.target_psi) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return (
+            (psi - psi_av - self.target_psi) * self.weights
+        ).ravel()  # flatten array
 
 
 class ConstrainPsiNorm2DAdvanced(object):
@@ -478,13 +500,9 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psinorm_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = boundedLeastSquares(
+            self.psinorm_difference, start_currents, current_bnds, eq
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -494,8 +512,8 @@ class ConstrainPsiNorm2DAdvanced(object):
 
     def psinorm_difference(self, currents, eq):
         """
-        Sum of the squares of the differences between the achieved normalised
-        psi and the target normalised psi.
+        Weighted differences between the achieved normalised psi and
+        the target normalised psi.
         """
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
@@ -508,7 +526,6 @@ class ConstrainPsiNorm2DAdvanced(object):
         # 0 = magnetic axis
         # 1 = plasma boundary
         psi_norm = (psi - psi_axis) / (psi_bndry - psi_axis)
-        diff = (psi_norm - self.target_psinorm) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return (
+            (psi_norm - self.target_psinorm) * self.weights
+        ).ravel()  # flatten array
-- 
2.43.0


From c59e13136d162dd70208c69537193f04424edd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:04 +0000
Subject: [PATCH 47/82] fix: exported G-EQDSK profiles are on a grid from axis
 to boundary

---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..388e07d 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,7 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    psinorm = linspace(0.0, 1.0, nx)  # From the magnetic axis to the boundary
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
-- 
2.43.0


From a6021165654208aa52854ca1bfc79d4168013b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:12 +0000
Subject: [PATCH 48/82] fix: reading G-EQDSK does not depend on the initial
 coil currents

---
 freegs/geqdsk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 388e07d..fe16538 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -356,6 +356,8 @@ def read(
     dR = eq.R[1, 0] - eq.R[0, 0]
     dZ = eq.Z[0, 1] - eq.Z[0, 0]
 
+    # The input psi already includes coils, so find the boundary using only this
+    eq._updateBoundaryPsi(psi)
     psi_bndry = eq.psi_bndry
     psi_axis = eq.psi_axis
     mask = eq.mask
-- 
2.43.0


From 070d493170c9f68c92b4b0d6f32233dbf5683d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 49/82] fix: reading G-EQDSK into a different domain

---
 freegs/geqdsk.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index fe16538..4874104 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -374,6 +374,7 @@ def read(
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
         # Calculate approximate grid size needed to keep current resolution
+        newnx, newny = nx, ny
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
             newnx = int(ceilPow2(fnewnx - 1)) + 1
@@ -384,9 +385,12 @@ def read(
         if (newnx != nx) or (newny != ny):
             print("Changing resolution: {} x {}".format(newnx, newny))
 
-        # Create an interpolation function for Jtor and the input psi
+        # Create an interpolation function for Jtor, the input psi and the mask
         Jtor_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], Jtor)
         psi_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psi)
+        mask_func = interpolate.RectBivariateSpline(
+            eq.R[:, 0], eq.Z[0, :], mask, kx=1, ky=1
+        )
 
         # Create a new Equilibrium object
         # (replacing previous 'eq')
@@ -396,18 +400,15 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
-        # Interpolate Jtor and psi onto new grid
+        # Interpolate Jtor, psi and mask onto new grid
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
-
-        psi_bndry = eq.psi_bndry
-        psi_axis = eq.psi_axis
-        mask = eq.mask
+        mask = np.where(mask_func(eq.R, eq.Z, grid=False) > 0.5, 1.0, 0.0)
 
         # Update the mask function by calculating normalised psi
         # on the new grid
-- 
2.43.0


From 7f870b483486a6b639f2627680f4d168fe9facc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 50/82] fix: G-EQDSK files can be read with recent freeqdsk
 versions

---
 freegs/geqdsk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 4874104..904ae40 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -245,6 +245,9 @@ def read(
 
     # Read the data as a Dictionary
     data = geqdsk.read(fh, cocos=cocos)
+    if not isinstance(data, dict):
+        # Since version 0.4 freeqdsk returns an object rather than a dictionary
+        data = {key: val for key, val in vars(data).items() if val is not None}
 
     # If data contains a limiter, set the machine wall
     if "rlim" in data:
-- 
2.43.0


From 04a447445145d6d6f51926d58e2f87be1b88666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 51/82] fix: coils without current have no force rather than
 NaN

---
 freegs/coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..5441b34 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -177,6 +177,10 @@ class Coil:
         current = self.current  # current per turn
         total_current = current * self.turns  # Total toroidal current
 
+        if total_current == 0.0:
+            # No current so no force. The area may be zero in this case
+            return np.zeros(2)
+
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
         self.current = 0.0
-- 
2.43.0


From 9581463d29f955e07e0602f2991d220427113c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:08 +0000
Subject: [PATCH 52/82] fix: multigrid solver does not modify its initial guess

---
 freegs/multigrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..df86268 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -73,7 +73,8 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        # Note: Copy x since the initial guess should not be modified
+        x = reshape(xi, -1).copy()
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From 8083c15fcc89b09debed3d27986e5f2c8933b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:12 +0000
Subject: [PATCH 53/82] fix: critical points midway between grid points are
 found

---
 freegs/critical.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index a60f77f..1f20eb1 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -87,14 +87,16 @@ def find_critical(R, Z, psi, discard_xpoints=True):
     nx, ny = Bp2.shape
     for i in range(2, nx - 2):
         for j in range(2, ny - 2):
+            # Note: A critical point midway between grid points can result in
+            # neighbouring points with equal values, one of which must be kept
             if (
-                (Bp2[i, j] < Bp2[i + 1, j + 1])
-                and (Bp2[i, j] < Bp2[i + 1, j])
-                and (Bp2[i, j] < Bp2[i + 1, j - 1])
+                (Bp2[i, j] <= Bp2[i + 1, j + 1])
+                and (Bp2[i, j] <= Bp2[i + 1, j])
+                and (Bp2[i, j] <= Bp2[i + 1, j - 1])
                 and (Bp2[i, j] < Bp2[i - 1, j + 1])
                 and (Bp2[i, j] < Bp2[i - 1, j])
                 and (Bp2[i, j] < Bp2[i - 1, j - 1])
-                and (Bp2[i, j] < Bp2[i, j + 1])
+                and (Bp2[i, j] <= Bp2[i, j + 1])
                 and (Bp2[i, j] < Bp2[i, j - 1])
             ):
 
-- 
2.43.0


From 9f78b2e6759daae23fdbc4bb9aa8e9c022c63f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:19 +0000
Subject: [PATCH 54/82] fix: coil current control finds the best currents
 within the limits

---
 freegs/control.py | 77 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 925746c..4234a80 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -159,32 +159,69 @@ class constrain(object):
         A2 = np.concatenate([A, self.gamma * eye(ncontrols)])
         b2 = np.concatenate([b, np.zeros(ncontrols)])
 
-        # The objetive function to minimize
-        # || A2x - b2 ||^2
-        def objective(x):
-            return (norm((A2 @ x) - b2)) ** 2
-
-        # Additional constraints on the optimisation
-        cons = []
-
-        def max_total_currents(x):
-            sum = 0.0
-            for delta, i in zip(x, tokamak.controlCurrents()):
-                sum += abs(delta + i)
-            return -(sum - self.max_total_current)
-
-        if self.max_total_current is not None:
-            con1 = {"type": "ineq", "fun": max_total_currents}
-            cons.append(con1)
-
         # Use the analytical current change as the initial guess
         if self.current_change.shape[0] > 0:
             x0 = self.current_change
+            bnds = current_change_bnds
+
+            # The change in coil currents is M @ x - offset
+            M = eye(ncontrols)
+            offset = np.zeros(ncontrols)
+
+            # Additional constraints on the optimisation
+            cons = []
+
+            if self.max_total_current is not None:
+                # The sum of absolute values is not differentiable where a
+                # current changes sign, so solve for the positive and negative
+                # parts of the coil currents, whose sum is limited
+                M = np.concatenate([eye(ncontrols), -eye(ncontrols)], axis=1)
+                offset = array(tokamak.controlCurrents())
+                total = x0 + offset
+                x0 = np.concatenate([np.maximum(total, 0.0), np.maximum(-total, 0.0)])
+                lims = bnds + offset[:, np.newaxis]
+                bnds = np.maximum(np.concatenate([lims, -lims[:, ::-1]]), 0.0)
+
+                # Start within the limits
+                x0 = np.clip(x0, bnds[:, 0], bnds[:, 1])
+                if np.sum(x0) > self.max_total_current:
+                    x0 = x0 * (self.max_total_current / np.sum(x0))
+
+            # Normalise the currents and the objective function to be of order 1.
+            # Otherwise the effect of changing a current by 1 Amp is so small
+            # that the initial guess is taken to be the solution
+            current_norm = np.amax(np.abs(x0), initial=1.0)
+            objective_norm = max(norm(b2), np.finfo(float).tiny)
+            b2 = (b2 + A2 @ offset) / objective_norm
+            A2 = (A2 @ M) * (current_norm / objective_norm)
+
+            if self.max_total_current is not None:
+                con1 = {
+                    "type": "ineq",
+                    "fun": lambda x: self.max_total_current / current_norm - np.sum(x),
+                    "jac": lambda x: -np.ones(x.shape),
+                }
+                cons.append(con1)
+
+            # The objetive function to minimize
+            # || A2x - b2 ||^2
+            def objective(x):
+                return (norm((A2 @ x) - b2)) ** 2
+
+            def objective_jac(x):
+                return 2.0 * (((A2 @ x) - b2) @ A2)
+
             sol = optimize.minimize(
-                objective, x0, method="SLSQP", bounds=current_change_bnds, constraints=cons
+                objective,
+                x0 / current_norm,
+                jac=objective_jac,
+                method="SLSQP",
+                bounds=bnds / current_norm,
+                constraints=cons,
+                options={"ftol": 1e-12, "maxiter": 1000},
             )
 
-            self.current_change = sol.x
+            self.current_change = (M @ sol.x) * current_norm - offset
             tokamak.controlAdjust(self.current_change)
 
         # Store info for user
-- 
2.43.0


From f91fc30ba034ac19642bd92ce05334bce0a6f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:43 +0000
Subject: [PATCH 55/82] fix: constrain with a total current limit, applied
 again to a satisfied state, moved away from it (objective scaled by the
 vanishing residual)

---
 freegs/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 4234a80..215fc62 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -191,8 +191,9 @@ class constrain(object):
             # Otherwise the effect of changing a current by 1 Amp is so small
             # that the initial guess is taken to be the solution
             current_norm = np.amax(np.abs(x0), initial=1.0)
+            b2 = b2 + A2 @ offset
             objective_norm = max(norm(b2), np.finfo(float).tiny)
-            b2 = (b2 + A2 @ offset) / objective_norm
+            b2 = b2 / objective_norm
             A2 = (A2 @ M) * (current_norm / objective_norm)
 
             if self.max_total_current is not None:
-- 
2.43.0


From 806844876a48c8dfdf94ca5c862618135b0703c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:24 +0000
Subject: [PATCH 56/82] fix: an iteration without a plasma boundary cannot
 converge on the boundary change of an earlier iteration

---
 freegs/picard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freegs/picard.py b/freegs/picard.py
index 8b40609..1db0966 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -180,6 +180,7 @@ def solve(
             # Dummy condition to prevent boundary
             # convergence when there is no boundary
             # ie set the change to > rtol
+            bndry_change = np.inf
             bndry_relchange = 2.0 * rtol
 
         # Get the new psi, including coils
-- 
2.43.0


From 5db0913d0911db20cef7504e2c68c8507d10abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:52 +0000
Subject: [PATCH 57/82] fix: coil current control within limits does not stop
 at its starting point when that is zero

---
 freegs/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 215fc62..ef0793a 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -168,6 +168,9 @@ class constrain(object):
             M = eye(ncontrols)
             offset = np.zeros(ncontrols)
 
+            # Typical size of the currents
+            current_norm = np.amax(np.abs(x0), initial=1.0)
+
             # Additional constraints on the optimisation
             cons = []
 
@@ -190,7 +193,6 @@ class constrain(object):
             # Normalise the currents and the objective function to be of order 1.
             # Otherwise the effect of changing a current by 1 Amp is so small
             # that the initial guess is taken to be the solution
-            current_norm = np.amax(np.abs(x0), initial=1.0)
             b2 = b2 + A2 @ offset
             objective_norm = max(norm(b2), np.finfo(float).tiny)
             b2 = b2 / objective_norm
-- 
2.43.0


From 5be000c8bd006b7fc9a8c7bcc6c4edab75d7b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:03 +0000
Subject: [PATCH 58/82] fix: pickUnique can pick every allowed index, all with
 the same probability

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 7bdd06d..12bbeab 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -69,7 +69,7 @@ def pickUnique(N, m, e):
         newind = random.randint(0, high + 1)  # Upper limit is exclusive
 
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From 0d707f2ced9b1e4ac86a1c392ccaddd24893b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 59/82] fix: a coil with a fractional number of turns is
 refused rather than saved with fewer turns

---
 freegs/dump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 4d310e6..4ab1cec 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -183,6 +183,11 @@ class OutputFile(object):
                 dtype = type_to_dtype[coil.dtype]
             except KeyError:
                 raise ValueError(f"Could not save coil type {type(coil)}")
+            for _, member, _ in getattr(coil, "coils", [(label, coil, 1.0)]):
+                # The number of turns is stored as an integer
+                turns = getattr(member, "turns", 1)
+                if turns != int(turns):
+                    raise ValueError(f"Could not save coil {label} with {turns} turns")
             coils_group.create_dataset(
                 label, dtype=dtype, data=np.array(coil.to_numpy_array())
             )
-- 
2.43.0


From 464fedf5de5755cbb60d71f32a9dc7351ede859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 60/82] fix: measurements of a machine without sensors can be
 taken and listed

---
 freegs/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index b98f91b..8d147dc 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -677,7 +677,7 @@ class Machine:
         """
 
         self.coils = coils
-        self.sensors = sensors
+        self.sensors = [] if sensors is None else sensors
         self.R0 = R0
 
         self._nlimit = nlimit
-- 
2.43.0


From 8ce6a4c992029974b667506f14a44e675477d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:16 +0000
Subject: [PATCH 61/82] fix: equilibria on a new grid have their own profiles,
 so can be solved and leave the original unchanged

---
 freegs/equilibrium.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1bfe3a9..a1578d1 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+from copy import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -1283,6 +1284,17 @@ class Equilibrium:
         return val
 
 
+def _copyProfiles(profiles, eq):
+    """
+    Copy profiles, for use with the given equilibrium. Profiles which
+    are constrained refer to, and update, their equilibrium.
+    """
+    profiles = copy(profiles)
+    if hasattr(profiles, "eq"):
+        profiles.eq = eq
+    return profiles
+
+
 def refine(eq, nx=None, ny=None):
     """
     Double grid resolution, returning a new equilibrium
@@ -1317,7 +1329,7 @@ def refine(eq, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _copyProfiles(eq._profiles, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1354,7 +1366,7 @@ def coarsen(eq):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _copyProfiles(eq._profiles, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1395,8 +1407,9 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     )
 
     # Calculate the current on the old grid
-    profiles = eq._profiles
+    profiles = _copyProfiles(eq._profiles, eq)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
+    profiles = _copyProfiles(profiles, result)
 
     # Interpolate Jtor onto new grid
     Jtor_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], Jtor)
-- 
2.43.0


From 3f6485cf53fde56f2cc53659f8fe8e92dd4a4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 62/82] fix: refine and coarsen keep the plasma current

---
 freegs/equilibrium.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a1578d1..a4acc01 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1317,6 +1317,7 @@ def refine(eq, nx=None, ny=None):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        current=eq.plasmaCurrent(),
         boundary=eq._applyBoundary,
         order=eq.order,
         check_limited=eq.check_limited,
@@ -1356,6 +1357,7 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        current=eq.plasmaCurrent(),
         boundary=eq._applyBoundary,
         order=eq.order,
         check_limited=eq.check_limited,
-- 
2.43.0


From 4f8a8d59fee6633a6f2d18efacd9eeb33ab13859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:31 +0000
Subject: [PATCH 63/82] fix: newDomain keeps the control system

---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a4acc01..4da1aa5 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1436,6 +1436,9 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     # Solve once more, calculating Jtor using new psi
     result.solve(profiles)
 
+    if hasattr(eq, "control"):
+        result.control = eq.control
+
     return result
 
 
-- 
2.43.0


From a528db69836ec2da97efd6c646a17b6119d3bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 64/82] fix: newDomain with a fixed boundary keeps the plasma
 flux on the boundary

---
 freegs/equilibrium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 4da1aa5..0cbe5f1 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1408,6 +1408,10 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
         ny=ny,
     )
 
+    # Start from the plasma flux on the old grid, which
+    # sets the values on the boundary if these are fixed
+    result._updatePlasmaPsi(eq.psi_func(result.R, result.Z, grid=False))
+
     # Calculate the current on the old grid
     profiles = _copyProfiles(eq._profiles, eq)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
-- 
2.43.0


From 83d4b458c7f078401089bdf19515d919c09c5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 65/82] fix: profiles can be used to solve an equilibrium on
 another grid

---
 freegs/equilibrium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 0cbe5f1..c8098ec 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -474,6 +474,10 @@ class Equilibrium:
         """
 
         self._profiles = profiles
+        if hasattr(profiles, "eq"):
+            # Constrained profiles use the grid and plasma boundary of
+            # the equilibrium, which may be on another grid than before
+            profiles.eq = self
         self._updateBoundaryPsi()
 
         if Jtor is None:
-- 
2.43.0


From 3e6497b2ca2c70fed84cc2d9a1c3f54b51ebb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 66/82] fix: boundary and safety factor of a limited plasma
 without X-points

---
 freegs/critical.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 1f20eb1..d52a729 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -388,8 +388,8 @@ def find_separatrix(
 ):
     """Find the R, Z coordinates of the separatrix for equilbrium
     eq. Returns a tuple of (R, Z, R_X, Z_X), where R_X, Z_X are the
-    coordinates of the X-point on the separatrix. Points are equally
-    spaced in geometric poloidal angle.
+    coordinates of the X-point on the separatrix (NaN if there is no
+    X-point). Points are equally spaced in geometric poloidal angle.
 
     If opoint, xpoint or psi are not given, they are calculated from eq
 
@@ -415,8 +415,11 @@ def find_separatrix(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
+    # A limited plasma may have no X-point
+    r_x, z_x = xpoint[0][0:2] if len(xpoint) > 0 else (np.nan, np.nan)
+
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(r_x - r0, z_x - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
@@ -439,7 +442,7 @@ def find_separatrix(
             axis=axis,
             n=1000,
         )
-        isoflux.append((r, z, xpoint[0][0], xpoint[0][1]))
+        isoflux.append((r, z, r_x, z_x))
 
     return isoflux
 
@@ -468,8 +471,8 @@ def find_safety(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
-    if (xpoint is None) or (len(xpoint) == 0):
-        # No X-point
+    if eq.psi_bndry is None:
+        # No X-point or limiter
         raise ValueError("No X-point so no separatrix")
     else:
         # Normalise to the plasma boundary, which may be set by a limiter
@@ -482,8 +485,11 @@ def find_safety(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
+    # A limited plasma may have no X-point
+    r_x, z_x = xpoint[0][0:2] if len(xpoint) > 0 else (np.nan, np.nan)
+
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(r_x - r0, z_x - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
-- 
2.43.0


From 515b7382eccea7a6dbe13c1d98c12ea3bd982022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 67/82] fix: reading G-EQDSK keeps a wall of three points

---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 904ae40..494c36c 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -251,7 +251,7 @@ def read(
 
     # If data contains a limiter, set the machine wall
     if "rlim" in data:
-        if len(data["rlim"]) > 3:
+        if len(data["rlim"]) >= 3:
             machine.wall = Wall(data["rlim"], data["zlim"])
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
-- 
2.43.0


From b047b117261bd8fcc636f9895d37f515a44e1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:21 +0000
Subject: [PATCH 68/82] fix: toroidal flux is measured from the magnetic axis
 for any requested values

---
 freegs/equilibrium.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index c8098ec..1c81e93 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -383,12 +383,20 @@ class Equilibrium:
         Calculates toroidal flux at specified values of poloidal flux.
         >>> q = drho/dpsi
         """
-        psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
+        if psi is None:
+            psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
+        psiN = (np.atleast_1d(psi) - self.psi_axis) / (self.psi_bndry - self.psi_axis)
+
+        # Integrate outwards from the magnetic axis, through all of the
+        # requested values
+        psiN_grid = np.union1d(np.linspace(0.0, 1.0, 101), psiN)
         # Get safety factor of these flux surfaces
-        qvals = self.q(psiN)
+        qvals = self.q(psiN_grid)
 
         # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-1.0 / (2.0 * np.pi))
+        flux = cumulative_trapezoid(qvals, psiN_grid, initial=0.0)
+        flux *= (self.psi_bndry - self.psi_axis) * (-1.0 / (2.0 * np.pi))
+        result = np.interp(psiN, psiN_grid, flux)
 
         # Convert to a scalar if only one result
         if len(result) == 1:
@@ -406,17 +414,9 @@ class Equilibrium:
         """
 
         torflux = self.tor_flux(psi)
+        torflux_LCFS = self.tor_flux(self.psi_bndry)
 
-        psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
-        torflux_for_LCFS = self.tor_flux(psi)
-
-        max_torflux = np.max(torflux_for_LCFS)
-
-        result = np.sqrt(torflux / max_torflux)
-
-        if len(result) == 1:
-            return result[0]
-        return result
+        return np.sqrt(torflux / torflux_LCFS)
 
     def pprime(self, psinorm):
         """
-- 
2.43.0


From 8e8f484dfb53824358b2e36bdce3a4311049520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 69/82] fix: centre of a FilamentCoil without outline is the
 middle of its filaments' extent

---
 freegs/filament_coil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index c4169cb..ebaf607 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -243,7 +243,6 @@ class FilamentCoil(Coil):
                 (minR, maxZ),
                 (maxR, maxZ),
                 (maxR, minZ),
-                (minR, minZ),
             ]
 
         assert len(shape) > 2
-- 
2.43.0


From 9613b1e29d1e83b25de455290b75a1024183a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 70/82] fix: MultiCoils are drawn on the given axis, with their
 mirror image

---
 freegs/multi_coil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index e7a1ea5..a46ae3f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -286,7 +286,9 @@ class MultiCoil(Coil):
             fig = plt.figure()
             axis = fig.add_subplot(111)
 
-        plt.plot(self.Rfil, self.Zfil, "bo")
+        axis.plot(self.Rfil, self.Zfil, "bo")
+        if self.mirror:
+            axis.plot(self.Rfil, [-Z for Z in self.Zfil], "bo")
 
         return axis
 
-- 
2.43.0


From 98ef936f78d86433963f8e8f5100fe7a3b25ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 71/82] fix: comparing coils, circuits, walls and machines with
 other kinds or sizes gives False

---
 freegs/coil.py          |  3 ++-
 freegs/filament_coil.py |  3 ++-
 freegs/machine.py       | 19 +++++++++++++++----
 freegs/shaped_coil.py   |  4 +++-
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 5441b34..6586c94 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -224,7 +224,8 @@ class Coil:
 
     def __eq__(self, other):
         return (
-            self.R == other.R
+            type(self) is type(other)
+            and self.R == other.R
             and self.Z == other.Z
             and self.current == other.current
             and self.turns == other.turns
diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index ebaf607..20402cc 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -433,7 +433,8 @@ class FilamentCoil(Coil):
 
     def __eq__(self, other):
         return (
-            np.shape(self.points) == np.shape(other.points)
+            type(self) is type(other)
+            and np.shape(self.points) == np.shape(other.points)
             and np.allclose(self.points, other.points)
             and np.shape(self.shape) == np.shape(other.shape)
             and np.allclose(self.shape, other.shape)
diff --git a/freegs/machine.py b/freegs/machine.py
index 8d147dc..f1ce233 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -239,7 +239,8 @@ class Circuit:
 
     def __eq__(self, other):
         return (
-            self.coils == other.coils
+            type(self) is type(other)
+            and self.coils == other.coils
             and self.current == other.current
             and self.control == other.control
         )
@@ -457,7 +458,8 @@ class Solenoid:
 
     def __eq__(self, other):
         return (
-            self.Rs == other.Rs
+            type(self) is type(other)
+            and self.Rs == other.Rs
             and self.Zsmin == other.Zsmin
             and self.Zsmax == other.Zsmax
             and self.Ns == other.Ns
@@ -506,7 +508,12 @@ class Wall:
         return "Wall(R={R}, Z={Z})".format(R=self.R, Z=self.Z)
 
     def __eq__(self, other):
-        return np.allclose(self.R, other.R) and np.allclose(self.Z, other.Z)
+        return (
+            type(self) is type(other)
+            and np.shape(self.R) == np.shape(other.R)
+            and np.allclose(self.R, other.R)
+            and np.allclose(self.Z, other.Z)
+        )
 
     def __ne__(self, other):
         return not self == other
@@ -710,7 +717,11 @@ class Machine:
     def __eq__(self, other):
         # Other Machine might be equivalent except for order of
         # coils. Assume this doesn't actually matter
-        return sorted(self.coils) == sorted(other.coils) and self.wall == other.wall
+        return (
+            type(self) is type(other)
+            and sorted(self.coils) == sorted(other.coils)
+            and self.wall == other.wall
+        )
 
     def __ne__(self, other):
         return not self == other
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..b692bd8 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -242,7 +242,9 @@ class ShapedCoil(Coil):
 
     def __eq__(self, other):
         return (
-            np.allclose(self.shape, other.shape)
+            type(self) is type(other)
+            and np.shape(self.shape) == np.shape(other.shape)
+            and np.allclose(self.shape, other.shape)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
-- 
2.43.0


From 7f86a4c9d1b53c9d662ab5c2a5c11795d5b40390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 72/82] fix: MultiCoils with different filaments, mirroring or
 polarity are not equal

---
 freegs/multi_coil.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index a46ae3f..0756119 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -213,8 +213,12 @@ class MultiCoil(Coil):
 
     def __eq__(self, other):
         return (
-            self.R == other.R
-            and self.Z == other.Z
+            type(self) is type(other)
+            and np.shape(self.Rfil) == np.shape(other.Rfil)
+            and np.allclose(self.Rfil, other.Rfil)
+            and np.allclose(self.Zfil, other.Zfil)
+            and self.mirror == other.mirror
+            and list(self.polarity) == list(other.polarity)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
-- 
2.43.0


From 6a97c9b805658ed56fa8fd906ad40a5c7037e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 73/82] fix: MultiCoil read from a numpy array keeps its turns

---
 freegs/multi_coil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 0756119..344229f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -270,7 +270,7 @@ class MultiCoil(Coil):
         mirror = value["mirror"]
         polarity = value["polarity"]
 
-        return MultiCoil(
+        coil = MultiCoil(
             R,
             Z,
             current=current,
@@ -279,6 +279,9 @@ class MultiCoil(Coil):
             mirror=mirror,
             polarity=polarity,
         )
+        # Given lists of points, the constructor sets turns to their number
+        coil.turns = turns
+        return coil
 
     def plot(self, axis=None, show=False):
         """
-- 
2.43.0


From 11f9dcafc8c4833c9ae1f92758ae9afef007e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 74/82] fix: PreCalcCoils with different outlines or tables are
 not equal

---
 freegs/pre_calc_coil.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 87caa75..796e19e 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -237,5 +237,20 @@ class PreCalcCoil(Coil):
             dtype=self.dtype,
         )
 
+    def __eq__(self, other):
+        return (
+            type(self) is type(other)
+            and np.shape(self.shape) == np.shape(other.shape)
+            and np.allclose(self.shape, other.shape)
+            and np.array_equal(self.Rgrid, other.Rgrid)
+            and np.array_equal(self.Zgrid, other.Zgrid)
+            and np.array_equal(self.mapPsi, other.mapPsi)
+            and np.array_equal(self.mapBr, other.mapBr)
+            and np.array_equal(self.mapBz, other.mapBz)
+            and self.current == other.current
+            and self.turns == other.turns
+            and self.control == other.control
+        )
+
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From 382d2a783662290991c28b32cb028469f02f21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:01 +0000
Subject: [PATCH 75/82] fix: a failing linear solver leaves the equilibrium as
 it was

The boundary condition was applied to plasma_psi in place, so that when
the solver raised an error the flux on the grid no longer agreed with
its interpolation (and with the previous solution).
---
 freegs/equilibrium.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1c81e93..3e264c1 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -489,19 +489,21 @@ class Equilibrium:
         # Set plasma boundary
         # Note that the Equilibrium is passed to the boundary function
         # since the boundary may need to run the G-S solver (von Hagenow's method)
-        self._applyBoundary(self, Jtor, self.plasma_psi)
+        # A copy is used so that plasma_psi is not changed if the solve fails
+        plasma_psi = self.plasma_psi.copy()
+        self._applyBoundary(self, Jtor, plasma_psi)
 
         # Right hand side of G-S equation
         rhs = -mu0 * self.R * Jtor
 
         # Copy boundary conditions
-        rhs[0, :] = self.plasma_psi[0, :]
-        rhs[:, 0] = self.plasma_psi[:, 0]
-        rhs[-1, :] = self.plasma_psi[-1, :]
-        rhs[:, -1] = self.plasma_psi[:, -1]
+        rhs[0, :] = plasma_psi[0, :]
+        rhs[:, 0] = plasma_psi[:, 0]
+        rhs[-1, :] = plasma_psi[-1, :]
+        rhs[:, -1] = plasma_psi[:, -1]
 
         # Call elliptic solver
-        plasma_psi = self._solver(self.plasma_psi, rhs)
+        plasma_psi = self._solver(plasma_psi, rhs)
 
         self._updatePlasmaPsi(plasma_psi)
 
-- 
2.43.0


From fe705ecb019c3842425b8105f13ebadb3401f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 76/82] fix: a coil keeps its current when calculating its
 force fails

Coil.getForces sets the current of the coil to zero while evaluating the
field, and left it so if the evaluation raised an error.
---
 freegs/coil.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 6586c94..8ec03a8 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -184,9 +184,11 @@ class Coil:
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
         self.current = 0.0
-        Br = equilibrium.Br(self.R, self.Z)
-        Bz = equilibrium.Bz(self.R, self.Z)
-        self.current = current
+        try:
+            Br = equilibrium.Br(self.R, self.Z)
+            Bz = equilibrium.Bz(self.R, self.Z)
+        finally:
+            self.current = current
 
         # Assume circular cross-section for hoop (self) force
         minor_radius = np.sqrt(self.area / np.pi)
-- 
2.43.0


From eca98af117c9165c8d0b1d75207c42c74a444e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:39 +0000
Subject: [PATCH 77/82] fix: read G-EQDSK files with grids which are not 2^n+1

The flux was resampled with piecewise linear interpolation, which makes
spurious O- and X-points. Depending on the size the plasma current was
wrong by a factor of 20, or no O-point was found.
---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 494c36c..efaf0f9 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -267,7 +267,7 @@ def read(
 
         rin = linspace(0, 1, nx)
         zin = linspace(0, 1, ny)
-        psi_interp = interpolate.RectBivariateSpline(rin, zin, psi, kx=1, ky=1)
+        psi_interp = interpolate.RectBivariateSpline(rin, zin, psi)
 
         # Ensure that newnx, newny is 2^n + 1
         nx = ceilPow2(nx - 1) + 1
-- 
2.43.0


From 4c34cf3d34097e9da86b398608f9f1e93d735c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:26 +0000
Subject: [PATCH 78/82] fix: PreCalcCoil responses along a line of constant R

With a scalar R and an array of Z only the value at the first Z was
returned (or an error raised if Z was not increasing).
---
 freegs/pre_calc_coil.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 796e19e..971969a 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -124,10 +124,7 @@ class PreCalcCoil(Coil):
         Calculate poloidal flux at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cPsi(R, Z)[0][0]
-        else:
-            result = self.cPsi(R, Z, grid=False)
+        result = self.cPsi(R, Z, grid=False)
 
         # Maps are for 1A-turn
         return result * self.turns
@@ -137,10 +134,7 @@ class PreCalcCoil(Coil):
         Calculate radial magnetic field Br at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cBr(R, Z)[0][0]
-        else:
-            result = self.cBr(R, Z, grid=False)
+        result = self.cBr(R, Z, grid=False)
 
         return result * self.turns
 
@@ -149,10 +143,7 @@ class PreCalcCoil(Coil):
         Calculate vertical magnetic field Br at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cBz(R, Z)[0][0]
-        else:
-            result = self.cBz(R, Z, grid=False)
+        result = self.cBz(R, Z, grid=False)
 
         return result * self.turns
 
-- 
2.43.0


From 48b6e4a1c65976e452db81e3806a35c7d1bf41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 79/82] fix: constraints read from G-EQDSK files can be plotted

---
 freegs/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/plotting.py b/freegs/plotting.py
index 6212835..13012ce 100644
--- a/freegs/plotting.py
+++ b/freegs/plotting.py
@@ -50,8 +50,9 @@ def plotConstraints(control, axis=None, show=True):
         axis = fig.add_subplot(111)
 
     # Locations of the X-points
-    for r, z in control.xpoints:
-        axis.plot(r, z, "bx")
+    # Note: These may be the result of find_critical, which also have a flux
+    for xpt in control.xpoints:
+        axis.plot(xpt[0], xpt[1], "bx")
 
     if control.xpoints:
         axis.plot([], [], "bx", label="X-point constraints")
-- 
2.43.0


From 22802fff6ec9673afb6b68ebd0eb7836d40bfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 80/82] fix: equilibria made without a machine do not share one

---
 freegs/equilibrium.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 3e264c1..55cbf89 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -56,7 +56,7 @@ class Equilibrium:
 
     def __init__(
         self,
-        tokamak: machine.Machine = machine.EmptyTokamak(),
+        tokamak: Optional[machine.Machine] = None,
         Rmin: float = 0.1,
         Rmax: float = 2.0,
         Zmin: float = -1.0,
@@ -74,7 +74,7 @@ class Equilibrium:
         Parameters
         ----------
         tokamak:
-            The set of coils and currents
+            The set of coils and currents. If None, a machine without coils
         Rmin, Rmax:
             Range of major radius R [m]
         Zmin, Zmax:
@@ -96,6 +96,10 @@ class Equilibrium:
             Checks if the plasma is limited
         """
 
+        if tokamak is None:
+            # Not shared with other equilibria
+            tokamak = machine.EmptyTokamak()
+
         self.tokamak = tokamak
 
         self._applyBoundary = boundary
-- 
2.43.0


From e1742d309b7deabb906509eb3c0b8afd02e050b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 81/82] fix: MultiCoils do not share their default polarity

---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 344229f..0d7b9f0 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -87,7 +87,7 @@ class MultiCoil(Coil):
         turns=1,
         control=True,
         mirror=False,
-        polarity=[1.0, 1.0],
+        polarity=(1.0, 1.0),
         area=AreaCurrentLimit(),
     ):
         """
@@ -140,7 +140,8 @@ class MultiCoil(Coil):
         self.current = current
         self.control = control
         self.mirror = mirror
-        self.polarity = polarity
+        # Copy, so that the wiring of one coil can be changed
+        self.polarity = list(polarity)
         self.area = area
 
         # Internal (R,Z) value, should not be modified directly
-- 
2.43.0


From c0e0a00bb5830dc0ff228df42e616a12b6ace8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 82/82] fix: constraints added to one control object do not
 appear in others

---
 freegs/control.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index ef0793a..d5782b2 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -48,20 +48,21 @@ class constrain(object):
 
     def __init__(
         self,
-        xpoints=[],
+        xpoints=None,
         gamma=1e-12,
-        isoflux=[],
-        psivals=[],
+        isoflux=None,
+        psivals=None,
         current_lims=None,
         max_total_current=None,
     ):
         """
         Create an instance, specifying the constraints to apply
         """
-        self.xpoints = xpoints
+        # Note: An empty list for each object, since constraints can be added to it
+        self.xpoints = [] if xpoints is None else xpoints
         self.gamma = gamma
-        self.isoflux = isoflux
-        self.psivals = psivals
+        self.isoflux = [] if isoflux is None else isoflux
+        self.psivals = [] if psivals is None else psivals
         self.current_lims = current_lims
         self.max_total_current = max_total_current
 
-- 
2.43.0

