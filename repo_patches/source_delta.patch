From 82aeaa3875ed63d9970b9d9c338ba51ef800b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 01/25] fix: refract no longer normalizes the caller's
 direction array in place

---
 tinygfx/g3d/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..7b706c4 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -122,7 +122,8 @@ def refract(vectors, normals, n1, n2, n_global=1):
     :return: a 4xn array of homogeneous vectors representing the new transmission direction of the vectors after the
         medium
     """
-    vectors /= np.linalg.norm(vectors, axis=0)
+    # normalize a copy, so the array passed by the caller is left as it was
+    vectors = vectors / np.linalg.norm(vectors, axis=0)
     cos_theta1_p = element_wise_dot(
         vectors, normals, axis=0
     )  # the angle dotted with the normals
-- 
2.43.0


From ddee49ab0550b03b10393367c1af36c02151ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:25 +0000
Subject: [PATCH 02/25] fix: wavelength_to_rgb accepts a single float, as
 documented

---
 pyrayt/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..7dbbf4e 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,9 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    wavelength = np.atleast_1d(
+        wavelength
+    )  # convert the wavelength into a numpy array, a single float is an array of one
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
-- 
2.43.0


From b54cda27b1b10cb246bed9fa4ee868ea52c33057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:28 +0000
Subject: [PATCH 03/25] fix: smallest_positive_root picks the right root when
 the leading coefficient is negative

---
 tinygfx/g3d/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 7b706c4..dcde6bb 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -20,8 +20,10 @@ def smallest_positive_root(a, b, c):
         2 * a + np.isclose(a, 0)
     )  # the positive element of the polynomial root
 
-    # want to keep the smallest hit that is positive, so if hits[1]<0, just keep the positive hit
-    nearest_hit = np.where(polyroots[1] >= 0, np.amin(polyroots, axis=0), polyroots[0])
+    # want to keep the smallest hit that is positive, so if the smaller root is <0 keep the larger one. Which of the two
+    # roots is the smaller one depends on the sign of a
+    min_root = np.amin(polyroots, axis=0)
+    nearest_hit = np.where(min_root >= 0, min_root, np.amax(polyroots, axis=0))
     return np.where(np.logical_and(disc >= 0, nearest_hit >= 0), nearest_hit, np.inf)
 
 
-- 
2.43.0


From 958ffd25b00b710418876640c64287c47bb96aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 04/25] fix: Gooch shading with more than one light

---
 tinygfx/g3d/materials/gooch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..117ff9a 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,13 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
+            # each column of the array is the position of one light
+            light_vectors = light_positions[:3].T[..., np.newaxis] - np.tile(
                 rays[0, :3], (light_positions.shape[-1], 1, 1)
             )
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From ed95cd9809f0c07ee1e8ff5d6c939cfcc8489194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 05/25] fix: StaticLamp follows the lamp's placement and
 wavelength

---
 pyrayt/components.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..574a9bb 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -658,5 +658,11 @@ class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
     @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def _static_rays(self, n_rays: int) -> pyrayt.RaySet:
+        return super()._local_ray_generation(n_rays)
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        # the random samples are cached before the lamp's position and wavelength are applied, so both can still change
+        rayset = self._static_rays(n_rays).copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From de403c417cf612f4d7d5b761314c039fe838590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 06/25] fix: bounding box of a union covers both children when
 they are apart

---
 tinygfx/g3d/csg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..f7cb1ae 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -95,7 +95,15 @@ class CSGSurface(Intersectable):
         the bounding box is only updated for add and intersection operations
         :return:
         """
-        if self._operation != Operation.DIFFERENCE:
+        if self._operation == Operation.UNION:
+            # a union is bounded by the box around both children, whether or not the children overlap
+            l_spans = self._l_child.bounding_box.axis_spans.T
+            r_spans = self._r_child.bounding_box.axis_spans.T
+            local_aobb = primitives.Cube(
+                np.minimum(l_spans[0], r_spans[0]), np.maximum(l_spans[1], r_spans[1])
+            )
+
+        elif self._operation == Operation.INTERSECT:
             new_spans = array_csg(
                 self._l_child.bounding_box.axis_spans.T,
                 self._r_child.bounding_box.axis_spans.T,
-- 
2.43.0


From 4a31d8205d50a1874c3b72e1dc9abea29c4e4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 07/25] fix: bounding boxes of nested composites follow every
 move of their parts

---
 tinygfx/g3d/world_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..4a554bd 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -314,7 +314,8 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # look the parent's watch list up at the time of the change: the parent may be attached to another object later
+        self.var_watchlist.append(lambda: [fn() for fn in parent_object.var_watchlist])
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 5c460ab2228964a53ccda714ff453de49a0279be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 08/25] fix: inverting normals twice restores them, as nested
 differences need

---
 tinygfx/g3d/world_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 4a554bd..5b08439 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -318,7 +318,7 @@ class Intersectable(WorldObject, abc.ABC):
         self.var_watchlist.append(lambda: [fn() for fn in parent_object.var_watchlist])
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From 3d0d83d104908e688f99c627501c10d4db61a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 09/25] fix: resetting the normals of a difference keeps those
 of the part cut away inverted

---
 tinygfx/g3d/csg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index f7cb1ae..8f1fb3b 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -174,6 +174,9 @@ class CSGSurface(Intersectable):
     def reset_normals(self):
         self._l_child.reset_normals()
         self._r_child.reset_normals()
+        # the normals of the part cut away point inwards in a difference
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
 
     @property
     def surface_ids(self) -> tuple:
-- 
2.43.0


From 857c864e335f1a2811d1377583115d2f07f92a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 10/25] fix: parts of a copied composite notify the copy, not
 the original

---
 tinygfx/g3d/world_objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 5b08439..0137a5b 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -130,6 +130,9 @@ class WorldObject(CountedObject):
         # update the functions in the watch list
         [fn() for fn in self.var_watchlist]
 
+    def _notify_watchlist(self):
+        [fn() for fn in self.var_watchlist]
+
     def get_position(self):
         # check if the position is valid, if not update it and return
         if not self._pos_valid:
@@ -315,7 +318,7 @@ class Intersectable(WorldObject, abc.ABC):
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
         # look the parent's watch list up at the time of the change: the parent may be attached to another object later
-        self.var_watchlist.append(lambda: [fn() for fn in parent_object.var_watchlist])
+        self.var_watchlist.append(parent_object._notify_watchlist)
 
     def invert_normals(self):
         self._normal_scale = -self._normal_scale
-- 
2.43.0


From 917b6514c8ce9ca36e28ef58adc2b5923da8f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 11/25] fix: the tracer ends rays below the intensity
 threshold, as documented

---
 pyrayt/_pyrayt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..b37b45a 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,8 +414,9 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
+        # the third positional argument of a ufunc is its output array, so combine the masks pairwise
         dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
+            np.logical_or(absorbed_rays, self._hit_surfaces == -1), powerless_rays
         )
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
-- 
2.43.0


From ea396701fe01dc095a9724ed9a06d23ba2a5d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 12/25] fix: RayTracer.load_components makes the surfaces of
 the new components known to the tracer

---
 pyrayt/_pyrayt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index b37b45a..d0f82dd 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,6 +254,9 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
+        self._update_surface_lut()
+
+    def _update_surface_lut(self):
         # make a flattened list of all surface IDS
         self._surface_lut = tuple()
         for shape in self._components:
@@ -316,6 +319,8 @@ class RayTracer(object):
         else:
             self._components = components
 
+        self._update_surface_lut()
+
     def get_system(self):
         """
         Returns the list of current components. This is a view into the current components list, not a shallow copy.
-- 
2.43.0


From ccdd123e31c25dd97e6b1ce3d92ada6982810aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 13/25] fix: RayTracer.get_system returns the components

---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index d0f82dd..d06891b 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -329,7 +329,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From d00c2448a4d9f043dc745936aaf7e1fd2bf10dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 14/25] fix: the tracer looks surfaces up when a run starts, so
 edits of the component list count

---
 pyrayt/_pyrayt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index d06891b..3396ffe 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -319,8 +319,6 @@ class RayTracer(object):
         else:
             self._components = components
 
-        self._update_surface_lut()
-
     def get_system(self):
         """
         Returns the list of current components. This is a view into the current components list, not a shallow copy.
@@ -360,6 +358,7 @@ class RayTracer(object):
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
+        self._update_surface_lut()  # the components may have changed since the last run
 
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
-- 
2.43.0


From 65d170ad4e44af77c155382a9a255adcd1316b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 15/25] fix: elliptical apertures

---
 pyrayt/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 574a9bb..32919da 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,12 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        ellipse = cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
         )
-        aperture.scale_y(aperture[1] / aperture[0])
+        return ellipse.scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
@@ -372,7 +372,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From ea08d9d3b3d6eafe462b2370e99e8380a9a53bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 16/25] fix: convex lenses put each radius on its own side and
 accept negative and infinite radii, as documented

---
 pyrayt/components.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 32919da..0a8805c 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,18 +181,18 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
     """
 
     # create an aperture from the aperture arguments
-    aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # perform csg to get the final lens, the aperture is already planar where a radius is infinite
+    r1, r2 = np.abs(r1), np.abs(r2)
+    if np.isfinite(r2):
+        right_side = cg.Sphere(r2, material=material).move_z(-(r2 - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
+    if np.isfinite(r1):
+        left_side = cg.Sphere(r1, material=material).move_z(r1 - thickness / 2)
+        lens = cg.csg.intersect(left_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
@@ -214,16 +214,15 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
     """
 
     # create an aperture from the aperture arguments
-    aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture.material = material
-    right_side.material = material
-
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(right_side, aperture)
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
+
+    # perform csg to get the final lens, the aperture is already planar where the radius is infinite
+    r = np.abs(r)
+    if np.isfinite(r):
+        right_side = cg.Sphere(r, material=material).move_z(-(r - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From 94e6189bd827ad93175ff7d3882946261fd15414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 17/25] fix: plane_mirror extends from x=-thickness to x=0, as
 documented

---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 0a8805c..0b331ad 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -259,8 +259,8 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
-    )  # move the mirror to it's off axis pt
+        *off_axis, -thickness / 2
+    )  # move the mirror to it's off axis pt, its front at the origin
     mirror.material = kwargs.get("material")
     return mirror
 
-- 
2.43.0


From 471b72a96875819ea8a56de780cdeac8d1358ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 18/25] fix: rays hit cuboids of zero thickness, such as a 2D
 plane_mirror

---
 tinygfx/g3d/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..16c0590 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -575,7 +575,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From aa81a10ae8c962bad55c9c9e2702d07466694b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 19/25] fix: baffles follow the aperture specification: sides
 along y and z, circles and ellipses

---
 pyrayt/components.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 0b331ad..11f67f2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -444,7 +444,12 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    if hasattr(aperture, "__len__") and aperture[0] > 0 and aperture[1] > 0:
+        shape = cg.XYPlane(aperture[0], aperture[1])
+    else:
+        shape = _create_aperture(aperture, 0)
+    shape.material = matl.absorber
+    return shape.rotate_y(90).rotate_x(90)
 
 
 def aperture(
@@ -461,7 +466,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = baffle(size).rotate_x(-90).rotate_y(-90)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From dc663d6dce4a1e0cc0dea6e6de8eb537bedd0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 20/25] fix: spherical_mirror of infinite radius is a plane
 mirror, as documented

---
 pyrayt/components.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 11f67f2..0c34df4 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -298,6 +298,17 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
+    if np.isinf(radius):
+        # an infinite sphere is a plane at x=0, in front of which the aperture is cut off
+        aperture = _create_aperture(aperture, 2 * thickness).move(*off_axis, 0)
+        aperture.material = matl.absorber
+        mirror_surface = cg.Cuboid(
+            (-2 * (l + dl), -2 * (l + dl), 0),
+            (2 * (l + dl), 2 * (l + dl), 2 * thickness),
+            material=material,
+        )
+        return cg.csg.difference(aperture, mirror_surface)
+
     aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
     total_thickness = (
         aperture_front_thickness + thickness
-- 
2.43.0


From 0a610cc42ba254aa5e95401f4675044745227af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 21/25] fix: draw() places its camera in front of the objects
 it draws

---
 tinygfx/g3d/renderers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..6e8a594 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -284,7 +284,8 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    # the camera looks down -z, keep it clear of everything that gets drawn
+    camera_origin[2] = maxes[2] + 0.5 * (maxes[2] - mins[2]) + 1
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -318,7 +319,8 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    # the camera looks down +y, keep it clear of everything that gets drawn
+    camera_origin[1] = mins[1] - 0.5 * (maxes[1] - mins[1]) - 1
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From d887e5b39f419925f7c52f4a2cf5e5ac62eef6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 22/25] fix: renderers show only surfaces in front of the
 camera

---
 tinygfx/g3d/renderers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 6e8a594..8ee2876 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only hits in front of the camera can be seen
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only hits in front of the camera can be seen
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
-- 
2.43.0


From aba36a0f7b07692ee5097c1c08e024249e7272c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 23/25] fix: CSG hits keep their order when distances coincide,
 so rays cannot leak through apertures

---
 tinygfx/g3d/csg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 8f1fb3b..41fdddf 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -144,7 +144,7 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0, kind="stable")
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -152,7 +152,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From 8d41fcc843fb368d1c752b9809702fe3a060df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 24/25] fix: EdgeRender.get_results returns the rendered image

---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 8ee2876..c2a4489 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the rendered image, or None if nothing has been rendered
 
-        :return: pandas dataframe
+        :return: the image as an array of RGBA values
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From 9ac1db4fbe53ae1f2dd6d48de8ba296b3d00cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 25/25] fix: draw() frames scenes that are flat along an axis

---
 tinygfx/g3d/renderers.py     | 12 ++++++++++--
 tinygfx/g3d/world_objects.py |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c2a4489..6755d81 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -270,6 +270,12 @@ def draw(
         mins = np.min(bounding_box, axis=1)
         maxes = np.max(bounding_box, axis=1)
 
+    # a scene that is flat along an axis, such as a single baffle, still needs a frame
+    spans = maxes - mins
+    padding = np.where(spans < 1e-3 * np.max(spans), 5e-3 * np.max(spans), 0)
+    mins = mins - padding
+    maxes = maxes + padding
+
     if axis is None:
         axis = plt.gca()
 
@@ -287,7 +293,8 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     # the camera looks down -z, keep it clear of everything that gets drawn
     camera_origin[2] = maxes[2] + 0.5 * (maxes[2] - mins[2]) + 1
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    if h_span <= v_span:
+        resolution = max(1, int(resolution * h_span / v_span))
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_y(90).rotate_z(90).move(*camera_origin[:3])
@@ -322,7 +329,8 @@ def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     # the camera looks down +y, keep it clear of everything that gets drawn
     camera_origin[1] = mins[1] - 0.5 * (maxes[1] - mins[1]) - 1
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    if h_span <= v_span:
+        resolution = max(1, int(resolution * h_span / v_span))
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_z(90).move(*camera_origin[:3])
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 0137a5b..c8f961e 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -512,7 +512,7 @@ class OrthographicCamera(WorldObject):
         self._h_pixels = h_pixel_count
         self._h_width = h_width
         self._v_width = aspect_ratio * h_width
-        self._v_pixels = int(aspect_ratio * self._h_pixels)
+        self._v_pixels = max(1, int(aspect_ratio * self._h_pixels))
 
     def get_resolution(self):
         return (self._h_pixels, self._v_pixels)
-- 
2.43.0

