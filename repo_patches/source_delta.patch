From 333da21443545c039edee093faeefedb28e07c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:49 +0000
Subject: [PATCH 01/19] fix: gears and racks own their placement arrays instead
 of sharing module constants

---
 src/gggears/gggears_base_classes.py |  9 +++++++++
 src/gggears/gggears_core.py         |  4 ++--
 src/gggears/gggears_wrapper.py      | 22 +++++++++++++---------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..3151fd3 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -62,6 +62,15 @@ class TransformData:
     orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
     scale: float = 1.0
 
+    def __post_init__(self):
+        # Every transform owns its arrays: the defaults are module-level constants and
+        # arguments belong to the caller, neither may change when this object is moved.
+        # (Recipes use callables here, those are left alone.)
+        if isinstance(self.center, np.ndarray):
+            self.center = self.center.copy()
+        if isinstance(self.orientation, np.ndarray):
+            self.orientation = self.orientation.copy()
+
     @property
     def x_axis(self):
         return self.orientation[:, 0]
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..252cc0d 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -968,7 +968,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = copy.copy(value)
 
     @property
     def center_sphere(self):
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..edd863f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,7 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        self.gearcore.transform.center = copy.copy(value)
 
     @property
     def center_spherical(self):
@@ -409,7 +409,7 @@ class InvoluteGear(GearInfoMixin):
             height=height,
             helix_angle=helix_angle,
             cone_angle=cone_angle,
-            center=center,
+            center=copy.copy(center),
             angle=angle,
             module=module,
             enable_undercut=enable_undercut,
@@ -702,7 +702,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -717,8 +719,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1637,7 +1639,7 @@ class CycloidGear(GearInfoMixin):
             number_of_teeth=number_of_teeth,
             height=height,
             cone_angle=cone_angle,
-            center=center,
+            center=copy.copy(center),
             angle=angle,
             module=module,
             root_fillet=root_fillet,
@@ -1846,7 +1848,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2108,8 +2112,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = copy.copy(position)
+        self.orientation = copy.copy(orientation)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From f7ebc66af3ceb43f5a38cb0acf13d349a41c0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 02/19] fix: building a conic gear does not modify the gear's
 z_vals

---
 src/gggears/gggears_build123d.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..dfff6be 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -89,19 +89,21 @@ class GearBuilder(GearToNurbs):
         else:
             # gear construction by defining a reference solid (a blank)
             # and cutting it with the side surfaces
-            z_vals_save = copy.deepcopy(gear.z_vals)
             zdiff = gear.z_vals[-1] - gear.z_vals[0]
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
-            gear.z_vals[-1] += side_surface_extension_ratio * zdiff
-            gear.z_vals[0] -= side_surface_extension_ratio * zdiff
+            # done on a copy, the gear itself must not change if the build fails
+            gear_extended = copy.copy(gear)
+            gear_extended.z_vals = gear.z_vals.copy()
+            gear_extended.z_vals[-1] += side_surface_extension_ratio * zdiff
+            gear_extended.z_vals[0] -= side_surface_extension_ratio * zdiff
             super().__init__(
-                gear=gear,
+                gear=gear_extended,
                 n_points_hz=n_points_hz,
                 n_points_vert=n_points_vert,
                 oversampling_ratio=oversampling_ratio,
             )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            # back to the gear with the original z_vals
+            self.gear = gear
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From 3aaff04bf44d5ad9e5d18d2825707cec81f4b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 03/19] fix: building a boundary wire does not rotate the gear

---
 src/gggears/gggears_build123d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index dfff6be..49d9b65 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -526,6 +526,8 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    # the angle is advanced below, the caller's transform must not change
+    transform = copy.deepcopy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From 85ac66d885faed3a8f864200459a41aae61c8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:57 +0000
Subject: [PATCH 04/19] fix: a failed mesh_to leaves the gear or rack where it
 was

---
 src/gggears/gggears_core.py    | 19 +++++----
 src/gggears/gggears_wrapper.py | 73 +++++++++++++++++++++-------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 252cc0d..66ad088 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1028,6 +1028,8 @@ class Gear:
         self.shape_recipe.tooth_generator = tg
 
     def mesh_to(self, other: "Gear", target_dir=RIGHT):
+        # compute everything first, so that a failure leaves the gear where it was
+        transform = copy.deepcopy(self.transform)
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
@@ -1036,8 +1038,8 @@ class Gear:
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-            self.transform.center = v0
-            self.transform.orientation = calc_mesh_orientation(
+            transform.center = v0
+            transform.orientation = calc_mesh_orientation(
                 self.cone.cone_angle,
                 other.cone.cone_angle,
                 self.cone.R,
@@ -1047,8 +1049,8 @@ class Gear:
                 target_dir,
                 offset=0,
             )
-            self.transform.angle = calc_mesh_angle(
-                self.transform,
+            transform.angle = calc_mesh_angle(
+                transform,
                 other.transform,
                 self.pitch_angle,
                 other.pitch_angle,
@@ -1061,16 +1063,17 @@ class Gear:
             else:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
-            self.transform.center = v0
-            self.transform.orientation = other.transform.orientation.copy()
-            self.transform.angle = calc_mesh_angle(
-                self.transform,
+            transform.center = v0
+            transform.orientation = other.transform.orientation.copy()
+            transform.angle = calc_mesh_angle(
+                transform,
                 other.transform,
                 self.pitch_angle,
                 other.pitch_angle,
                 gear1_inside_ring=self.tooth_param.inside_teeth,
                 gear2_inside_ring=other.tooth_param.inside_teeth,
             )
+        self.transform = transform
 
 
 def ref_curve_2_param(t, ref_curve: crv.Curve) -> RecipeKeyParams:
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index edd863f..41fe653 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -662,6 +662,20 @@ class InvoluteGear(GearInfoMixin):
             direction until it makes contact. -1 shifts in the negative direction,
             0 places it in the middle. Default is 0.0.
         """
+        # compute everything first, so that a failure leaves the gear where it was
+        self.gearcore.transform = self._calc_mesh_transform(
+            other, target_dir, backlash, angle_bias
+        )
+
+    def _calc_mesh_transform(
+        self,
+        other: "InvoluteGear",
+        target_dir: np.ndarray = RIGHT,
+        backlash: float = 0.0,
+        angle_bias: float = 0.0,
+    ) -> GearTransform:
+        """Calculates the transform of this gear when meshed to another gear."""
+        transform = copy.deepcopy(self.gearcore.transform)
         target_dir = target_dir / np.linalg.norm(target_dir)
         if self.cone_angle != 0 or other.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
@@ -671,8 +685,8 @@ class InvoluteGear(GearInfoMixin):
                 self.inputparam.inside_teeth,
                 other.inputparam.inside_teeth,
             )
-            self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = calc_mesh_orientation(
+            transform.center = v0
+            transform.orientation = calc_mesh_orientation(
                 self.gearcore.cone.cone_angle,
                 other.gearcore.cone.cone_angle,
                 self.gearcore.cone.R,
@@ -682,8 +696,8 @@ class InvoluteGear(GearInfoMixin):
                 target_dir,
                 offset=0,
             )
-            self.gearcore.transform.angle = calc_mesh_angle(
-                self.gearcore.transform,
+            transform.angle = calc_mesh_angle(
+                transform,
                 other.gearcore.transform,
                 self.pitch_angle,
                 other.pitch_angle,
@@ -701,13 +715,11 @@ class InvoluteGear(GearInfoMixin):
                 backlash=backlash,
             )
             v0 = target_dir * distance + other.gearcore.transform.center
-            self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = (
-                other.gearcore.transform.orientation.copy()
-            )
-            self.gearcore.transform.angle = (
+            transform.center = v0
+            transform.orientation = other.gearcore.transform.orientation.copy()
+            transform.angle = (
                 calc_mesh_angle(
-                    self.gearcore.transform,
+                    transform,
                     other.gearcore.transform,
                     self.pitch_angle,
                     other.pitch_angle,
@@ -716,6 +728,7 @@ class InvoluteGear(GearInfoMixin):
                 )
                 + angle_bias / 2 * backlash / self.r_base
             )
+        return transform
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
@@ -1167,14 +1180,13 @@ class HelicalGear(InvoluteGear):
 
     def mesh_to(self, other, target_dir=RIGHT):
         # basic meshing
-        super().mesh_to(other, target_dir)
+        transform = self._calc_mesh_transform(other, target_dir)
         # orientation correction
-        rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
+        rot_axis = normalize_vector(other.gearcore.center - transform.center)
         angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
-        self.gearcore.transform.orientation = (
-            rot.as_matrix() @ self.gearcore.transform.orientation
-        )
+        transform.orientation = rot.as_matrix() @ transform.orientation
+        self.gearcore.transform = transform
 
 
 class HelicalRingGear(InvoluteGear):
@@ -1814,6 +1826,8 @@ class CycloidGear(GearInfoMixin):
             gear.
             Should be a unit vector. Default is RIGHT (x).
         """
+        # compute everything first, so that a failure leaves the gear where it was
+        transform = copy.deepcopy(self.gearcore.transform)
         if self.cone_angle != 0 or other.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
@@ -1822,8 +1836,8 @@ class CycloidGear(GearInfoMixin):
                 self.inputparam.inside_teeth,
                 other.inputparam.inside_teeth,
             )
-            self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = calc_mesh_orientation(
+            transform.center = v0
+            transform.orientation = calc_mesh_orientation(
                 self.gearcore.cone.cone_angle,
                 other.gearcore.cone.cone_angle,
                 self.gearcore.cone.R,
@@ -1833,8 +1847,8 @@ class CycloidGear(GearInfoMixin):
                 target_dir,
                 offset=0,
             )
-            self.gearcore.transform.angle = calc_mesh_angle(
-                self.gearcore.transform,
+            transform.angle = calc_mesh_angle(
+                transform,
                 other.gearcore.transform,
                 self.pitch_angle,
                 other.pitch_angle,
@@ -1847,18 +1861,17 @@ class CycloidGear(GearInfoMixin):
             else:
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
-            self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = (
-                other.gearcore.transform.orientation.copy()
-            )
-            self.gearcore.transform.angle = calc_mesh_angle(
-                self.gearcore.transform,
+            transform.center = v0
+            transform.orientation = other.gearcore.transform.orientation.copy()
+            transform.angle = calc_mesh_angle(
+                transform,
                 other.gearcore.transform,
                 self.pitch_angle,
                 other.pitch_angle,
                 gear1_inside_ring=self.inside_teeth,
                 gear2_inside_ring=other.inside_teeth,
             )
+        self.gearcore.transform = transform
 
     def adapt_cycloid_radii(self, other: "CycloidGear"):
         """Adapts the radii of the 2 gears to enable meshing. The inside radii will
@@ -2242,17 +2255,21 @@ class InvoluteRack:
         )
         phase = ((angle_of_target_dir - gear.angle) / gear.pitch_angle) % 1
 
-        self.offset = (phase) % 1 - 0.5 + offset
+        # compute everything first, so that a failure leaves the rack where it was
+        new_offset = (phase) % 1 - 0.5 + offset
         target_dir_proj = normalize_vector(
             project_vector_to_plane(target_dir, gear.gearcore.transform.z_axis)
         )
-        self.orientation = (
+        new_orientation = (
             gear.gearcore.transform.orientation
             @ scp_Rotation.from_euler("z", PI + angle_of_target_dir).as_matrix()
         )
-        self.position = gear.gearcore.transform.center + target_dir_proj * (
+        new_position = gear.gearcore.transform.center + target_dir_proj * (
             gear.pitch_radius + gear.inputparam.profile_shift * gear.module
         )
+        self.offset = new_offset
+        self.orientation = new_orientation
+        self.position = new_position
 
 
 class HelicalRack(InvoluteRack):
-- 
2.43.0


From ed933cd9893abfaf67306cceeb78f072f3934cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:21 +0000
Subject: [PATCH 05/19] fix: adapting cycloid radii keeps both gears in place
 and drops outdated parts

---
 src/gggears/gggears_wrapper.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 41fe653..2059677 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -590,6 +590,8 @@ class InvoluteGear(GearInfoMixin):
                 scale=self.inputparam.module,
             ),
         )
+        # a part built with the previous parameters is outdated
+        self.builder = None
 
     def build_part(self, n_vert=None, n_points_hz=None) -> Part:
         """Creates the build123d Part object of the gear. This may take several seconds.
@@ -1768,6 +1770,8 @@ class CycloidGear(GearInfoMixin):
                 scale=self.inputparam.module,
             ),
         )
+        # a part built with the previous parameters is outdated
+        self.builder = None
 
     def build_part(self, n_vert=None) -> Part:
         """Creates the build123d Part object of the gear. This may take several seconds.
@@ -1922,8 +1926,11 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        # only the tooth shape changes, both gears stay where they are
+        for gear in (self, other):
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            gear.gearcore.transform = transform
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 923dc087d882198776df20811a0bbabf4adec270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:48 +0000
Subject: [PATCH 06/19] fix: the recipe of a copied gear does not refer to the
 original gear

---
 src/gggears/gggears_wrapper.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 2059677..7554458 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -495,11 +495,16 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # the functions below must not refer to self, they are shared with copies
+        number_of_teeth = self.inputparam.number_of_teeth
+        height = self.inputparam.height
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
+                - (z * 2 / height - 1) ** 2
+                * crowning
                 / rp_ref
                 * 1e-3
             )
@@ -579,7 +584,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / number_of_teeth),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1703,11 +1708,16 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # the functions below must not refer to self, they are shared with copies
+        number_of_teeth = self.inputparam.number_of_teeth
+        height = self.inputparam.height
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
+                - (z * 2 / height - 1) ** 2
+                * crowning
                 / rp_ref
                 * 1e-3
             )
@@ -1759,7 +1769,7 @@ class CycloidGear(GearInfoMixin):
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
                     scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    * (1 - z * 2 * np.sin(gamma) / number_of_teeth),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0


From bffd99020d4ff2888cc83bba32ff864c921613a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 07/19] fix: copied curves evaluate their own parameters
 instead of the original's

---
 src/gggears/curve.py | 98 +++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..1dec2a1 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -322,12 +322,16 @@ class Curve:
     def __truediv__(self, other):
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
+
+            def div_func(t, curve=self, val=other):
+                return curve(t) / val
+
             return Curve(
-                lambda t: self(t) / other,
+                div_func,
                 active=self.active,
                 t0=self.t_0,
                 t1=self.t_1,
-                params={},
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
@@ -1334,9 +1338,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1344,6 +1346,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1370,14 +1377,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1385,6 +1385,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1426,21 +1436,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1476,7 +1489,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1484,6 +1497,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t):
+        return self.apply_transform(self.target_curve(t))
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1494,20 +1510,19 @@ class MirroredCurve(TransformedCurve):
     def __init__(self, curve: Curve, plane_normal=RIGHT, center=ORIGIN):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
+        super().__init__(self.mirror_func, curve)
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
-
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1517,14 +1532,11 @@ class RotatedCurve(TransformedCurve):
         self.axis = normalize_vector(axis)
         self.angle = angle
         self.center = center
+        super().__init__(self.rotate_func, curve)
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
-
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From 252f0266fea83b93e64c4469a5088a0e357108ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 08/19] fix: converting a curve to NURB form never modifies the
 input curve

---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1dec2a1..a19aac5 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -925,7 +925,8 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
 
     else:
         if isinstance(input_curve, NurbCurve):
-            return input_curve
+            # a copy, because the result is transformed in place (see below)
+            return input_curve.copy()
         elif isinstance(input_curve, TransformedCurve):
             transform = input_curve.transform_method
             convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
-- 
2.43.0


From bb17703fb90f24a9f198829d0d34ac1dfc1fa9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 09/19] fix: editing the center fields in the GUI takes effect

---
 gui/gggui.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index 8b936f7..06ec16e 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -88,7 +88,7 @@ class InputArgPanel(QWidget):
                     box = QDoubleSpinBox()
                     box.setValue(value[i])
                     box.valueChanged.connect(
-                        lambda val, k=key, idx=i: self.update_dict(k[idx], val)
+                        lambda val, k=key, idx=i: self.update_dict_item(k, idx, val)
                     )
                     layout_loc.addWidget(box)
                 input_widget = QWidget()
@@ -140,12 +140,18 @@ class InputArgPanel(QWidget):
     def update_dict(self, key, value):
         self.dictionary[key] = value
 
+    def update_dict_item(self, key, index, value):
+        # new array: the old one may be in use by a gear
+        array = np.array(self.dictionary[key], dtype=float)
+        array[index] = value
+        self.dictionary[key] = array
+
     def init_dict(self):
         dictionary = {}
         for key in self.signature.parameters.keys():
             value = self.signature.parameters[key].default
             if isinstance(value, Iterable):
-                dictionary[key] = value
+                dictionary[key] = copy.copy(value)
             elif value != inspect.Parameter.empty:
                 dictionary[key] = value
             else:
-- 
2.43.0


From d4c081fc35eff4c51fd836745c21b3e02a55ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 10/19] fix: GUI save uses the existing exporters and reports
 failed writes

---
 gui/gggui.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index 06ec16e..cc06caa 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -386,12 +386,15 @@ class MainWindow(QMainWindow):
             filter="STL files (*.stl);;STEP files (*.stp *.step);; GLTF files (*.gltf)",
         )
         if self.geargen_finished[0]:
+            success = True
             if "STEP" in chosen_filter:
-                gg.export_step(self.gearparts[0], name)
+                success = bd.export_step(self.gearparts[0], name)
             elif "STL" in chosen_filter:
-                gg.export_stl(self.gearparts[0], name)
+                success = bd.export_stl(self.gearparts[0], name)
             elif "GLTF" in chosen_filter:
-                gg.export_gltf(self.gearparts[0], name)
+                success = bd.export_gltf(self.gearparts[0], name)
+            if not success:
+                raise RuntimeError(f"Failed to write {name}")
 
     def file_save_2(self):
         name, chosen_filter = QFileDialog.getSaveFileName(
@@ -400,12 +403,15 @@ class MainWindow(QMainWindow):
             filter="STL files (*.stl);;STEP files (*.stp *.step);; GLTF files (*.gltf)",
         )
         if self.geargen_finished[1]:
+            success = True
             if "STEP" in chosen_filter:
-                gg.export_step(self.gearparts[1], name)
+                success = bd.export_step(self.gearparts[1], name)
             elif "STL" in chosen_filter:
-                gg.export_stl(self.gearparts[1], name)
+                success = bd.export_stl(self.gearparts[1], name)
             elif "GLTF" in chosen_filter:
-                gg.export_gltf(self.gearparts[1], name)
+                success = bd.export_gltf(self.gearparts[1], name)
+            if not success:
+                raise RuntimeError(f"Failed to write {name}")
 
 
 ocp_view_process = subprocess.Popen(
-- 
2.43.0


From 59cc5011e3ea8893942ab64ca900342a6f9c40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 11/19] fix: a failed generate or clear in the GUI leaves
 gears, parts and buttons consistent

---
 gui/gggui.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index cc06caa..eac1049 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -272,16 +272,19 @@ class MainWindow(QMainWindow):
 
         cls = getattr(gg, self.gear_selector_left.currentText())
 
-        self.gear1 = cls(*positional_args, **keyword_args)
-        gearpart = self.gear1.build_part()
+        # state is only replaced when every step succeeded
+        gear1 = cls(*positional_args, **keyword_args)
+        gearpart = gear1.build_part()
         gearpart.label = "Gear1"
-        self.gearparts[0] = gearpart
+        gearparts = [gearpart, self.gearparts[1]]
         if any(self.geargen_finished):
             camera_opts = Camera.KEEP
         else:
             camera_opts = Camera.RESET
 
-        show(self.gearparts, reset_camera=camera_opts)
+        show(gearparts, reset_camera=camera_opts)
+        self.gear1 = gear1
+        self.gearparts = gearparts
         self.geargen_finished[0] = True
         if self.geargen_finished[1]:
             self.animatebutton.setEnabled(True)
@@ -302,19 +305,22 @@ class MainWindow(QMainWindow):
                 keyword_args[key] = dict[key]
 
         cls = getattr(gg, self.gear_selector_right.currentText())
-        self.gear2 = cls(*positional_args, **keyword_args)
+        # state is only replaced when every step succeeded
+        gear2 = cls(*positional_args, **keyword_args)
         if self.geargen_finished[0]:
-            self.gear2.mesh_to(self.gear1)
-        gearpart2 = self.gear2.build_part()
+            gear2.mesh_to(self.gear1)
+        gearpart2 = gear2.build_part()
         gearpart2.label = "Gear2"
-        self.gearparts[1] = gearpart2
+        gearparts = [self.gearparts[0], gearpart2]
 
         if any(self.geargen_finished):
             camera_opts = Camera.KEEP
         else:
             camera_opts = Camera.RESET
 
-        show(self.gearparts, reset_camera=camera_opts)
+        show(gearparts, reset_camera=camera_opts)
+        self.gear2 = gear2
+        self.gearparts = gearparts
         self.geargen_finished[1] = True
         if self.geargen_finished[0]:
             self.animatebutton.setEnabled(True)
@@ -338,9 +344,10 @@ class MainWindow(QMainWindow):
         self.right_layout.insertWidget(index, self.numpanel_right)
 
     def clear_gears(self):
-        self.gearparts = [gg.Part(), gg.Part()]
+        gearparts = [gg.Part(), gg.Part()]
+        show(gearparts, reset_camera=Camera.RESET)
+        self.gearparts = gearparts
         self.geargen_finished = [False, False]
-        show(self.gearparts, reset_camera=Camera.RESET)
         self.animatebutton.setEnabled(False)
 
     def animate_gears(self):
-- 
2.43.0


From f924e78689dc56f8ccf2393205b867a54c86277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 12/19] fix: the GUI stops its viewer process also when it
 fails

---
 gui/gggui.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index eac1049..a3cc0fa 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -421,13 +421,6 @@ class MainWindow(QMainWindow):
                 raise RuntimeError(f"Failed to write {name}")
 
 
-ocp_view_process = subprocess.Popen(
-    ["python", "-m", "ocp_vscode", "--port", "3838", "--theme", "dark"]
-)
-set_port(3838)
-set_defaults(reset_camera=Camera.KEEP, grid=True)
-
-
 dark_stylesheet = """
 QWidget {
     background-color: #2b2b2b;
@@ -468,12 +461,19 @@ QComboBox QAbstractItemView {
 """
 
 
-app = QApplication(sys.argv)
-# Apply the stylesheet to your application
-app.setStyleSheet(dark_stylesheet)
-window = MainWindow()
-window.show()
-app.exec()
-
-# make sure its dead?
-ocp_view_process.kill()
+ocp_view_process = subprocess.Popen(
+    ["python", "-m", "ocp_vscode", "--port", "3838", "--theme", "dark"]
+)
+try:
+    set_port(3838)
+    set_defaults(reset_camera=Camera.KEEP, grid=True)
+
+    app = QApplication(sys.argv)
+    # Apply the stylesheet to your application
+    app.setStyleSheet(dark_stylesheet)
+    window = MainWindow()
+    window.show()
+    app.exec()
+finally:
+    # make sure its dead?
+    ocp_view_process.kill()
-- 
2.43.0


From 51c5e1280b405b7ab9097fd60103b0527273f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 13/19] fix: annotate CycloidGear cone_angle so the GUI offers
 a field for it

---
 src/gggears/gggears_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7554458..0ae84b1 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1637,7 +1637,7 @@ class CycloidGear(GearInfoMixin):
         self,
         number_of_teeth: int,
         height: float = 1.0,
-        cone_angle=0,
+        cone_angle: float = 0,
         center: np.ndarray = ORIGIN,
         angle: float = 0,
         module: float = 1.0,
-- 
2.43.0


From dfe20ca6f3ad0395140cb5945bb247cfb0691030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:40 +0000
Subject: [PATCH 14/19] fix: building a rack does not expose half-placed parts

build_part used the part_transformed attribute as its working variable, so two threads
building the same rack applied the placement twice, and a failed build left a half-placed
part in place of the one obtained earlier.
---
 src/gggears/gggears_wrapper.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 0ae84b1..29cdb22 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2234,19 +2234,21 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # in a local variable, so that no half-placed part is visible meanwhile
+        part_transformed = self.part.translate(self.offset * UP * pitch)
+        part_transformed = part_transformed.scale(self.module)
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
-        self.part_transformed = (
+        part_transformed = (
             bd.Rotation(
                 Z=degrees[2], Y=degrees[1], X=degrees[0], ordering=bd.Extrinsic.ZYX
             )
-            * self.part_transformed
+            * part_transformed
         )
-        self.part_transformed = bd.Part(self.part_transformed.translate(self.position))
+        part_transformed = bd.Part(part_transformed.translate(self.position))
+        self.part_transformed = part_transformed
 
-        return self.part_transformed
+        return part_transformed
 
     def mesh_to(
         self, gear: "InvoluteGear", target_dir: np.ndarray = RIGHT, offset: float = 0
@@ -2441,16 +2443,18 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # in a local variable, so that no half-placed part is visible meanwhile
+        part_transformed = self.part.translate(self.offset * UP * pitch)
+        part_transformed = part_transformed.scale(self.module)
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
-        self.part_transformed = (
+        part_transformed = (
             bd.Rotation(
                 Z=degrees[2], Y=degrees[1], X=degrees[0], ordering=bd.Extrinsic.ZYX
             )
-            * self.part_transformed
+            * part_transformed
         )
-        self.part_transformed = self.part_transformed.translate(self.position)
+        part_transformed = part_transformed.translate(self.position)
+        self.part_transformed = part_transformed
 
-        return self.part_transformed
+        return part_transformed
-- 
2.43.0


From adcf325141243149217593b4c830d1af94f4398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:07 +0000
Subject: [PATCH 15/19] fix: rack offset is a number of teeth for every module

The offset was applied before scaling, and build123d scales a shape about its own location,
so a rack with module other than 1 was off by offset*pi*(1-module).
---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 29cdb22..a17be65 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2235,8 +2235,11 @@ class InvoluteRack:
 
         # Apply transformations to position, orient and scale the rack
         # in a local variable, so that no half-placed part is visible meanwhile
-        part_transformed = self.part.translate(self.offset * UP * pitch)
-        part_transformed = part_transformed.scale(self.module)
+        # scaling is not always done about the origin, so offset is applied after it
+        part_transformed = self.part.scale(self.module)
+        part_transformed = part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         part_transformed = (
@@ -2444,8 +2447,11 @@ class HelicalRack(InvoluteRack):
 
         # Apply transformations to position, orient and scale the rack
         # in a local variable, so that no half-placed part is visible meanwhile
-        part_transformed = self.part.translate(self.offset * UP * pitch)
-        part_transformed = part_transformed.scale(self.module)
+        # scaling is not always done about the origin, so offset is applied after it
+        part_transformed = self.part.scale(self.module)
+        part_transformed = part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         part_transformed = (
-- 
2.43.0


From ea08536b000089e8cea21736d0fad1e874891ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 16/19] fix: mesh distance is solved reliably for small working
 pressure angles

The solver started where the derivative is zero and its failure was not noticed, so pairs
with a working pressure angle below about 7 degrees were placed at a wrong distance.
---
 src/gggears/gearmath.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..5fcc536 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -78,11 +78,11 @@ def calc_involute_mesh_distance(
         d1 = r_base_1 * np.abs(angle_base_1)
         d2 = r_base_2 * np.abs(angle_base_2)
         bl_sign = np.sign(d2 - d1)
+        involute = (d1 - d2 + backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        # starting at 0 does not converge for small angles: the derivative is 0 there
         sol = root(
-            lambda a: np.tan(a)
-            - a
-            + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
+            lambda a: np.tan(a) - a - involute,
+            np.arctan(np.cbrt(3 * involute)),
         )
         Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
@@ -95,9 +95,10 @@ def calc_involute_mesh_distance(
         # )
         d1 = r_base_1 * ((angle_base_1))
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
+        involute = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
         sol = root(
-            lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
+            lambda a: a - np.tan(a) + involute,
+            np.arctan(np.cbrt(3 * involute)),
         )
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
-- 
2.43.0


From fb8b1edbc65a34afedfc09b9cf10636deef5349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:38 +0000
Subject: [PATCH 17/19] fix: curves own their position arrays instead of
 sharing module constants

LineCurve, ArcCurve, InvoluteCurve etc. kept the array given as default
(ORIGIN), so moving one curve in place (arc.center += v) moved the origin
for everything else.
---
 src/gggears/curve.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index a19aac5..a94b365 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1078,8 +1078,9 @@ class LineCurve(Curve):
     """Class to represent a line as a Curve."""
 
     def __init__(self, p0=ORIGIN, p1=ORIGIN, active=True, enable_vectorize=False):
-        self.p0 = p0
-        self.p1 = p1
+        # own copies: the defaults are shared constants
+        self.p0 = copy.copy(p0)
+        self.p1 = copy.copy(p1)
         super().__init__(
             self.line_func,
             active,
@@ -1123,7 +1124,7 @@ class ArcCurve(Curve):
     ):
         self._radius = radius
         self._angle = angle
-        self._center = center
+        self._center = copy.copy(center)
         self._yaw = yaw
         self._pitch = pitch
         self._roll = roll
@@ -1336,7 +1337,7 @@ class InvoluteCurve(Curve):
     ):
         self.r = r
         self.angle = angle
-        self.v_offs = v_offs
+        self.v_offs = copy.copy(v_offs)
         self.z_offs = z_offs
         super().__init__(
             self.involute_func,
@@ -1375,7 +1376,7 @@ class SphericalInvoluteCurve(Curve):
         self.r = r
         self.angle = angle
         self.c_sphere = c_sphere
-        self.v_offs = v_offs
+        self.v_offs = copy.copy(v_offs)
         self.z_offs = z_offs
         super().__init__(
             self.involute_func,
@@ -1433,7 +1434,7 @@ class OctoidCurve(Curve):
         self.r = r
         self.angle = angle
         self.c_sphere = c_sphere
-        self.v_offs = v_offs
+        self.v_offs = copy.copy(v_offs)
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
@@ -1510,7 +1511,7 @@ class MirroredCurve(TransformedCurve):
 
     def __init__(self, curve: Curve, plane_normal=RIGHT, center=ORIGIN):
         self.plane_normal = normalize_vector(plane_normal)
-        self.center = center
+        self.center = copy.copy(center)
         super().__init__(self.mirror_func, curve)
 
     def mirror_func(self, p):
@@ -1532,7 +1533,7 @@ class RotatedCurve(TransformedCurve):
     def __init__(self, curve: Curve, angle=0.0, axis=OUT, center=ORIGIN):
         self.axis = normalize_vector(axis)
         self.angle = angle
-        self.center = center
+        self.center = copy.copy(center)
         super().__init__(self.rotate_func, curve)
 
     def rotate_func(self, p):
@@ -1680,7 +1681,7 @@ class CycloidCurve(Curve):
         self.rb = rb
         self.rc = rc
         self.angle = angle
-        self.v_offs = v_offs
+        self.v_offs = copy.copy(v_offs)
         self.z_offs = z_offs
 
         super().__init__(
@@ -1721,7 +1722,7 @@ class CycloidConicCurve(Curve):
         self.rb = rb
         self.rc = rc
         self.angle = angle
-        self.v_offs = v_offs
+        self.v_offs = copy.copy(v_offs)
         self.z_offs = z_offs
         self.C = C
 
-- 
2.43.0


From 562b874bc76f7e5a946d2b90d4f0f27c78f80302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:45 +0000
Subject: [PATCH 18/19] fix: an error in a GUI action is reported instead of
 aborting the GUI

Without an exception hook PyQt calls qFatal() for an exception leaving a
slot, e.g. when two gear types cannot mesh; the viewer process then stayed
behind as well.
---
 gui/gggui.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gui/gggui.py b/gui/gggui.py
index a3cc0fa..1ada34f 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -37,6 +37,7 @@ import sys
 
 import subprocess
 import inspect
+import traceback
 from collections.abc import Iterable
 import copy
 
@@ -461,6 +462,13 @@ QComboBox QAbstractItemView {
 """
 
 
+def report_error(exc_type, exc, tb):
+    traceback.print_exception(exc_type, exc, tb)
+
+
+# PyQt aborts the application on an error in a slot unless there is a hook
+sys.excepthook = report_error
+
 ocp_view_process = subprocess.Popen(
     ["python", "-m", "ocp_vscode", "--port", "3838", "--theme", "dark"]
 )
-- 
2.43.0


From de0c8211e306a883fee12b9322ee01ab34a7bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:11 +0000
Subject: [PATCH 19/19] fix: a core gear owns the parameter objects it is built
 from

---
 src/gggears/gggears_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 66ad088..486a41d 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -908,6 +908,11 @@ class Gear:
         transform: GearTransform = None,
         cone: ConicData = None,
     ):
+        # the gear owns its parameters: objects passed in are copied, as they are adjusted
+        # below and may be used for other gears as well
+        tooth_param, tooth_generator, shape_recipe, transform, cone = copy.deepcopy(
+            (tooth_param, tooth_generator, shape_recipe, transform, cone)
+        )
         self.module = module
         self.z_vals = z_vals.astype(float)
         if tooth_generator is None:
-- 
2.43.0

