From 56d4edc3386606c813f47245192440369b415420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 01/70] fix: invert the lens distortion on its first increasing
 branch with a fine grid

A barrel lens is only invertible up to the radius where the polynomial turns
over. Keeping later increasing samples mixed branches and gave errors of
hundreds of pixels.
---
 cameratransform/lens_distortion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..cd6b371 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -25,9 +25,11 @@ def invert_function(x, func):
     from scipy import interpolate
     from scipy.interpolate import dfitpack
     y = func(x)
-    dy = np.concatenate(([0], np.diff(y)))
-    y = y[dy>=0]
-    x = x[dy>=0]
+    # only the first branch on which the function increases can be inverted
+    not_increasing = np.nonzero(np.diff(y) <= 0)[0]
+    if len(not_increasing):
+        x = x[:not_increasing[0] + 1]
+        y = y[:not_increasing[0] + 1]
     try:
         inter = interpolate.InterpolatedUnivariateSpline(y, x)
     # dfitpack.error
@@ -139,7 +141,7 @@ class BrownLensDistortion(LensDistortion):
         self._init_inverse()
 
     def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
         if self.projection is not None:
             self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
@@ -232,7 +234,7 @@ class ABCDistortion(LensDistortion):
 
     def _init_inverse(self):
         self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
         if self.projection is not None:
-- 
2.43.0


From 98386f12ecc2a967c1377cdf62e83bbc2473fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 02/70] fix: keep the principal point fixed under lens
 distortion instead of returning nan

---
 cameratransform/lens_distortion.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index cd6b371..3b38972 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -156,9 +156,8 @@ class BrownLensDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
-        # transform the points
-        with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+        # transform the points (the center stays where it is)
+        points = points * np.divide(self._convert_radius_inverse(r), r, out=np.ones_like(r), where=r != 0)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -168,9 +167,8 @@ class BrownLensDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
-        # transform the points
-        with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+        # transform the points (the center stays where it is)
+        points = points * np.divide(self._convert_radius(r), r, out=np.ones_like(r), where=r != 0)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -250,9 +248,8 @@ class ABCDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
-        # transform the points
-        with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+        # transform the points (the center stays where it is)
+        points = points * np.divide(self._convert_radius_inverse(r), r, out=np.ones_like(r), where=r != 0)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -262,8 +259,7 @@ class ABCDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
-        # transform the points
-        with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+        # transform the points (the center stays where it is)
+        points = points * np.divide(self._convert_radius(r), r, out=np.ones_like(r), where=r != 0)
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From 4a4b6ccb9fe3fe06ad785b0c82b37abbc7113fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 03/70] fix: lenses read scale and offset from their projection
 instead of caching them

Two lenses (cameras) sharing one projection replaced each other's parameter
callbacks, so that all but the last kept stale intrinsics.
---
 cameratransform/lens_distortion.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3b38972..953c7dc 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -39,9 +39,16 @@ def invert_function(x, func):
 
 
 class LensDistortion(ClassWithParameterSet):  # pragma: no cover
-    offset = np.array([0, 0])
+    projection = None
     scale = 1
 
+    @property
+    def offset(self):
+        # read from the projection on every use, as several lenses can share the same projection
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
+
     def __init__(self):
         self.parameters = ParameterSet()
 
@@ -136,16 +143,19 @@ class BrownLensDistortion(LensDistortion):
             center_x_px=self.projection.parameters.parameters["center_x_px"],
             center_y_px=self.projection.parameters.parameters["center_y_px"],
         )
-        for name in self.parameters.parameters:
+        for name in ["k1", "k2", "k3"]:
             self.parameters.parameters[name].callback = self._init_inverse
         self._init_inverse()
 
     def _init_inverse(self):
         r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -226,7 +236,7 @@ class ABCDistortion(LensDistortion):
             center_x_px=self.projection.parameters.parameters["center_x_px"],
             center_y_px=self.projection.parameters.parameters["center_y_px"],
         )
-        for name in self.parameters.parameters:
+        for name in ["a", "b", "c"]:
             self.parameters.parameters[name].callback = self._init_inverse
         self._init_inverse()
 
@@ -235,9 +245,11 @@ class ABCDistortion(LensDistortion):
         r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From 96abc3e274b724b88b4c52ac3b6d322fe6886bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 04/70] fix: spaceFromImage with a list of distances or a grid
 of points

A list as D was multiplied with the coordinates instead of the points and
points of dimensions (MxNx2) raised an error.
---
 cameratransform/camera.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..1d48bce 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1146,12 +1146,10 @@ class Camera(ClassWithParameterSet):
             # solve the line equation for the factor (how many times the direction vector needs to be added to the origin point)
             factor = (given[index] - offset[..., index]) / direction[..., index]
 
-        if not isinstance(factor, np.ndarray):
-            # if factor is not an array, we don't need to specify the broadcasting
-            points = direction * factor + offset
-        else:
-            # apply the factor to the direction vector plus the offset
-            points = direction * factor[:, None] + offset[None, :]
+        # the factor can be a number or an array with one entry for each point
+        factor = np.asarray(factor, dtype=float)
+        # apply the factor to the direction vector plus the offset
+        points = direction * factor[..., None] + offset
         # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
         points[factor < 0] = np.nan
         return points
-- 
2.43.0


From 97a075702480b057ecf91896fd571b21af786d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 05/70] fix: imageFromCamera no longer changes the points of
 the caller and images points at 90 degrees

The panoramic projections replaced all coordinates of a point at exactly 90
degrees to the optical axis with 0.
---
 cameratransform/projection.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..5894cc2 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,8 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        # use a copy, to not change the array of the caller
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -473,8 +474,6 @@ class CylindricalProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -551,8 +550,6 @@ class EquirectangularProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From bf3f364da739285a883723eff60de6c0e9b82552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 06/70] fix: accept the documented tuple of two focal lengths
 for focallength_px

---
 cameratransform/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 5894cc2..9826a74 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,11 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From 015cf6dcd8376a4be9829545f82fa63255b4f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 07/70] fix: image size of a projection initialized with a
 field of view follows later changes

The constructor left instance attributes behind that shadowed the parameters
image_width_px and image_height_px.
---
 cameratransform/projection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 9826a74..5349f8c 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -160,6 +160,8 @@ class CameraProjection(ClassWithParameterSet):
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
                 if not view_x_deg:
                     focallength_x_px = focallength_y_px
+            # from here on the values are provided by the parameters and must not be shadowed by these attributes
+            del self.image_width_px, self.image_height_px
 
         if focallength_x_px is None or focallength_y_px is None:
             raise ValueError("Either provide a focal length or a field of view angle.")
-- 
2.43.0


From bc30222481cf2c51166c3a23672c943b61366358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 08/70] fix: do not overwrite a given focal length when the
 other direction is given as field of view

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 5349f8c..8d50460 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -152,13 +152,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
             # from here on the values are provided by the parameters and must not be shadowed by these attributes
             del self.image_width_px, self.image_height_px
-- 
2.43.0


From cdc29ef257f383223b0048f3292b01cd1bd35ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 09/70] fix: accept arrays as center and sensor and detect a
 center given twice as 0

---
 cameratransform/projection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 8d50460..cf98cc4 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -106,7 +106,7 @@ class CameraProjection(ClassWithParameterSet):
 
         """ if the image center is specified """
         # if the center is specified
-        if center and (center_x_px or center_y_px):
+        if center is not None and (center_x_px is not None or center_y_px is not None):
             raise ValueError("cannot provide center tuple and center_x_px and center_y_px")
         if center is not None:
             center_x_px, center_y_px = center
@@ -130,9 +130,9 @@ class CameraProjection(ClassWithParameterSet):
                     focallength_x_px = focallength_px
                     focallength_y_px = focallength_px
 
-        if sensor and (sensor_width_mm or sensor_height_mm):
+        if sensor is not None and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-        if sensor:
+        if sensor is not None:
             sensor_width_mm, sensor_height_mm = sensor
         if sensor_width_mm and sensor_height_mm is None:
             sensor_height_mm = sensor_width_mm / image_width_px * image_height_px
-- 
2.43.0


From 4ce7cf03d7b33451fd954ec56a1d3fdbdc3e7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 10/70] fix: focallength_px always shows and keeps the current
 focal length

It had a value of its own, which went stale when the focal lengths in x and y
direction were set or loaded and overwrote them on set_to_mean and sample.
---
 cameratransform/projection.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index cf98cc4..59be73a 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -23,6 +23,28 @@ from cameratransform.parameter_set import ParameterSet, ClassWithParameterSet, P
 from cameratransform.utils import ensure_array_format
 
 
+class LinkedParameter(Parameter):
+    """
+    A parameter that does not store a value, but sets the values of other parameters and shows the value of the first
+    of them.
+    """
+    __slots__ = ["linked"]
+
+    def __init__(self, *linked):
+        self.linked = []
+        super().__init__(linked[0].value, type=linked[0].type)
+        self.linked = linked
+
+    @property
+    def value(self):
+        return self.linked[0].value
+
+    @value.setter
+    def value(self, value):
+        for parameter in self.linked:
+            parameter.value = value
+
+
 class CameraProjection(ClassWithParameterSet):
     """
     Defines a camera projection. The necessary parameters are:
@@ -181,13 +203,11 @@ class CameraProjection(ClassWithParameterSet):
         # add parameter focallength_px that sets x and y simultaneously
         fx = self.parameters.parameters["focallength_x_px"]
         fy = self.parameters.parameters["focallength_y_px"]
-        f = Parameter(focallength_x_px, type=TYPE_INTRINSIC)
+        f = LinkedParameter(fx, fy)
 
         def callback():
-            fx.value = f.value
             if fx.callback is not None:
                 fx.callback()
-            fy.value = f.value
             if fy.callback is not None:
                 fy.callback()
 
-- 
2.43.0


From e21a480a19082ad294d4941c6b74f2475b6fa97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 11/70] fix: wrapping a heading beyond a full turn keeps
 default, mean and fit state

Wrapping assigned the parameter like a user does, which turned a default into
a value, dropped the mean and marked a fitted parameter as set by the user.
---
 cameratransform/spatial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..f82ae95 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -105,8 +105,10 @@ class SpatialOrientation(ClassWithParameterSet):
         return string
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
-        if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
-            self.heading_deg = self.heading_deg % 360
+        heading_parameter = self.parameters.parameters["heading_deg"]
+        if heading_parameter.value is not None and abs(heading_parameter.value) > 360:  # pragma: no cover
+            # change only the value, not the state, default, or mean of the parameter
+            heading_parameter.value = heading_parameter.value % 360
         # convert the angle to radians
         tilt = np.deg2rad(self.parameters.tilt_deg)
         roll = np.deg2rad(self.parameters.roll_deg)
@@ -254,8 +256,10 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
         return string
 
     def _initCameraMatrix(self):
-        if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
-            self.pitch_deg = self.pitch_deg % 360
+        pitch_parameter = self.parameters.parameters["pitch_deg"]
+        if pitch_parameter.value is not None and abs(pitch_parameter.value) > 360:  # pragma: no cover
+            # change only the value, not the state, default, or mean of the parameter
+            pitch_parameter.value = pitch_parameter.value % 360
         # convert the angle to radians
         tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)
         roll = -np.deg2rad(self.parameters.roll_deg)
-- 
2.43.0


From cb83da2f5243b386433cf2f2e7b87e2e436db7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 12/70] fix: a failing save no longer truncates an existing
 file

---
 cameratransform/camera.py          | 4 +++-
 cameratransform/lens_distortion.py | 4 +++-
 cameratransform/projection.py      | 4 +++-
 cameratransform/spatial.py         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1d48bce..93742d1 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1544,8 +1544,10 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
+        # convert first, so that an error does not leave a truncated file behind
+        text = json.dumps(export_dict, indent=4)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+            fp.write(text)
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 953c7dc..6f11e24 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -73,8 +73,10 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert first, so that an error does not leave a truncated file behind
+        text = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 59be73a..cd8cfe5 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -235,8 +235,10 @@ class CameraProjection(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # convert first, so that an error does not leave a truncated file behind
+        text = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index f82ae95..f603711 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -207,8 +207,10 @@ class SpatialOrientation(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert first, so that an error does not leave a truncated file behind
+        text = json.dumps(export_dict)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From 830a58b4346233ba9615e91d904e97bcbf511c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 13/70] fix: cameras with numpy numbers as parameters, e.g. set
 by setGPSpos with an array, can be saved

---
 cameratransform/camera.py          | 4 ++--
 cameratransform/lens_distortion.py | 3 ++-
 cameratransform/projection.py      | 4 ++--
 cameratransform/spatial.py         | 3 ++-
 cameratransform/utils.py           | 7 +++++++
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 93742d1..923c3ba 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -30,7 +30,7 @@ from .spatial import SpatialOrientation
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
-from cameratransform.utils import ensure_array_format
+from cameratransform.utils import ensure_array_format, to_json
 
 try:
     from numpy.typing import ArrayLike
@@ -1545,7 +1545,7 @@ class Camera(ClassWithParameterSet):
             export_dict["lens"] = BROWNLENSDISTORTION
 
         # convert first, so that an error does not leave a truncated file behind
-        text = json.dumps(export_dict, indent=4)
+        text = json.dumps(export_dict, indent=4, default=to_json)
         with open(filename, "w") as fp:
             fp.write(text)
 
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 6f11e24..a27d94a 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ClassWithParameterSet, ParameterSet, Parameter, TYPE_DISTORTION
 import json
+from .utils import to_json
 
 def invert_function(x, func):
     from scipy import interpolate
@@ -74,7 +75,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert first, so that an error does not leave a truncated file behind
-        text = json.dumps(export_dict)
+        text = json.dumps(export_dict, default=to_json)
         with open(filename, "w") as fp:
             fp.write(text)
 
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index cd8cfe5..4b0ca41 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -20,7 +20,7 @@
 import json
 import numpy as np
 from cameratransform.parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_INTRINSIC
-from cameratransform.utils import ensure_array_format
+from cameratransform.utils import ensure_array_format, to_json
 
 
 class LinkedParameter(Parameter):
@@ -236,7 +236,7 @@ class CameraProjection(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
         # convert first, so that an error does not leave a truncated file behind
-        text = json.dumps(export_dict)
+        text = json.dumps(export_dict, default=to_json)
         with open(filename, "w") as fp:
             fp.write(text)
 
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index f603711..c5e5657 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ParameterSet, Parameter, ClassWithParameterSet, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2
 import json
+from .utils import to_json
 
 
 class SpatialOrientation(ClassWithParameterSet):
@@ -208,7 +209,7 @@ class SpatialOrientation(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         # convert first, so that an error does not leave a truncated file behind
-        text = json.dumps(export_dict)
+        text = json.dumps(export_dict, default=to_json)
         with open(filename, "w") as fp:
             fp.write(text)
 
diff --git a/cameratransform/utils.py b/cameratransform/utils.py
index 7841da9..4b6bc0f 100644
--- a/cameratransform/utils.py
+++ b/cameratransform/utils.py
@@ -36,6 +36,13 @@ def ensure_array_format(p, shape, *additional_arrays):
     return p
 
 
+def to_json(value):
+    """ convert numpy numbers (e.g. np.int64 or arrays with a single number) to python numbers for json.dumps """
+    if isinstance(value, (np.generic, np.ndarray)):
+        return value.item()
+    raise TypeError("Object of type %s is not JSON serializable" % type(value).__name__)
+
+
 if __name__ == '__main__':
     ensure_array_format(np.random.rand(3), "3")
     print("---")
-- 
2.43.0


From 637485da63af3c2dc0c02950455d73bac1b49142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 14/70] fix: cameras with a yaw-pitch-roll orientation keep it
 when saved and loaded

---
 cameratransform/camera.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 923c3ba..0c63061 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -51,6 +51,9 @@ NODISTORTION = 0
 ABCDDISTORTION = 1
 BROWNLENSDISTORTION = 2
 
+TILTROLLHEADING = 0
+YAWPITCHROLL = 1
+
 def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     """
     Get the sensor size from the given model from the database at: https://github.com/openMVG/CameraSensorSizeDatabase
@@ -1544,6 +1547,12 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
+        # check orientation and save
+        if isinstance(self.orientation, SpatialOrientationYawPitchRoll):
+            export_dict["orientation"] = YAWPITCHROLL
+        else:
+            export_dict["orientation"] = TILTROLLHEADING
+
         # convert first, so that an error does not leave a truncated file behind
         text = json.dumps(export_dict, indent=4, default=to_json)
         with open(filename, "w") as fp:
@@ -1582,7 +1591,12 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+
+        if variables.pop("orientation", TILTROLLHEADING) == YAWPITCHROLL:
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From 926a52b109dc82973b55be74b64def531986555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 15/70] fix: formatGPS accepts numpy numbers

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..7488b73 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -114,7 +114,7 @@ def formatGPS(lat, lon, format=None, asLatex=False):
     result = []
     for degs, letters in zip([lat, lon], ["NS", "EW"]):
         # split sign
-        neg = degs < 0
+        neg = bool(degs < 0)
         degs = abs(degs)
         # get minutes
         mins = (degs * 60) % 60
-- 
2.43.0


From b6784154813bc7d9e97f1a8121ecfa58fb74cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 16/70] fix: formatGPS keeps the sign of values between -1 and
 0 degrees without letter symbol

---
 cameratransform/gps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 7488b73..a852c3a 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -146,7 +146,12 @@ def formatGPS(lat, lon, format=None, asLatex=False):
             else:
                 fills.append(values.pop(0))
         # format the string
-        string = format % tuple(fills)
+        if not use_letter and neg and fmt_degs[-1] == "d" and int(degs) == 0:
+            # integer degrees of 0 would lose the negative sign
+            fills[0] = (fmt_degs % -1).replace("1", "0")
+            string = format.replace(fmt_degs, "%s", 1) % tuple(fills)
+        else:
+            string = format % tuple(fills)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 4015440114a610eb74c5293c05adcddd09ef914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 17/70] fix: gpsFromString reads the documented typographic
 minute and second glyphs

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index a852c3a..1b77560 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -257,8 +257,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″|’’|”)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 6735f08320b8d9a6a42b18d98b5001ea1d5104d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 18/70] fix: gpsFromString adds heights to a list of
 coordinates

---
 cameratransform/gps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 1b77560..0f95e2f 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -256,6 +256,9 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
         if height is None:
             return data
         else:
+            # a list of coordinates, with one height for all or one height for each of them
+            if data.ndim == 2:
+                return np.column_stack((data, np.broadcast_to(height, len(data))))
             return np.hstack((data, [height]))
     regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″|’’|”)\s*",
                   r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
-- 
2.43.0


From bb684ea2d5a6f71bcb8ab2d633a88c50a6afb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 19/70] fix: spaceFromGPS keeps the heights of exactly two
 points and accepts points without height

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 0f95e2f..3a76316 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -467,7 +467,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 6ce2f7556ee10d733bb5644369bd4cef86e60ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 20/70] fix: spaceFromGPS does not add the height difference to
 the horizontal distance

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 3a76316..870754c 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -471,7 +471,8 @@ def spaceFromGPS(gps, gps0):
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-    distance = getDistance(gps0, gps)
+    # the horizontal distance, without the height difference
+    distance = getDistance(np.array(gps0)[..., :2], gps[..., :2])
     bearing_rad = np.deg2rad(getBearing(gps0, gps))
     return np.array([distance * np.sin(bearing_rad), distance * np.cos(bearing_rad), height]).T
 
-- 
2.43.0


From 6067edbba61d28f835b38007d6962a89a496e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 21/70] fix: spaceFromGPS and gpsFromSpace accept lists of
 points like all other transforms

---
 cameratransform/gps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 870754c..d6c0bf8 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -467,6 +467,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
+    gps = np.array(gps)
     if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
@@ -478,6 +479,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
+    space = np.array(space)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From 7d90a31473fd6be7c9b46b332b6555b8a5abde3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 22/70] fix: a ray that misses all triangles returns nan
 instead of inf

---
 cameratransform/ray.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..bc7edbe 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -86,10 +86,7 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         rI[((ti < 0.0) + (si + ti > 1.0)).astype(bool)] = np.nan
 
     def nanargmin(a, axis):
-        mask = np.isnan(a)
-        a[mask] = np.inf
-        res = np.argmin(a, axis=axis)
-        return res
+        return np.argmin(np.where(np.isnan(a), np.inf, a), axis=axis)
 
     index = nanargmin(rI, axis=0)
     rI = rI[index, np.arange(len(index))]
-- 
2.43.0


From 0a7fe13826411ee04754702acb71b2d49814c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 23/70] fix: getClosestPointFromLine no longer changes the
 direction vector of the caller

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index bc7edbe..d67867a 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -320,7 +320,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From 699c27f720df5f14937f2d17e24a498fe00e009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 24/70] fix: intersectionOfTwoLines returns an array for
 batches with parallel lines

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index d67867a..c11d5e9 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -134,7 +134,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From 20d25532b4810becd1e0cd935650d143bd5b2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 25/70] fix: extrudeLine covers the whole wall

The two triangles of each segment overlapped and left a gap.
---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index c11d5e9..6672eec 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -294,7 +294,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From 4ea4a934ba05cb8e4ee6fe38226a19e51f66ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 26/70] fix: a camera group has as many cameras as its longest
 list

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 0c63061..8e56cde 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -191,7 +191,7 @@ class CameraGroup(ClassWithParameterSet):
                 setattr(self, parameter_name, [parameter])
             else:
                 setattr(self, parameter_name, list(parameter))
-                self.N = len(getattr(self, parameter_name))
+                self.N = max(self.N, len(getattr(self, parameter_name)))
 
         checkCount(projection, CameraProjection, "projection_list", RectilinearProjection)
         checkCount(orientation, SpatialOrientation, "orientation_list", SpatialOrientation)
-- 
2.43.0


From d2a932275d05d5d046a2c94b46cf913e7b8ec6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 27/70] fix: scaleSpace scales an orientation shared by
 multiple cameras only once

---
 cameratransform/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 8e56cde..69a2e01 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -424,8 +424,9 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
-            cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
+        # scale every orientation only once, also if it is shared by multiple cameras
+        for orientation in dict.fromkeys(self.orientation_list):
+            orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m = np.array([orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m]) * scale
 
 
 class Camera(ClassWithParameterSet):
-- 
2.43.0


From ad2bd84e045dd1aff53a19ae2cb3bf2926706ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 28/70] fix: cached maps of top views and undistorted images
 are only used for the same request and camera

The caches ignored the plane height, hide_backpoints and all changes of the
camera parameters, and compared the extent with a list the caller could change.
---
 cameratransform/camera.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 69a2e01..61741ee 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -437,11 +437,11 @@ class Camera(ClassWithParameterSet):
     """
     map = None
     last_extent = None
-    last_scaling = None
+    last_state = None
 
     map_undistort = None
     last_extent_undistort = None
-    last_scaling_undistort = None
+    last_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1279,6 +1279,11 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getMapState(self, *request):
+        # everything a cached map depends on: the requested view and the current parameters of the camera
+        parts = (self.projection, self.orientation, self.lens)
+        return request + parts + tuple(getattr(part, name) for part in parts for name in part.parameters.parameters)
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1289,9 +1294,8 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
-        if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+        state = self._getMapState(*extent, scaling)
+        if self.map_undistort is not None and self.last_state_undistort == state:
             return self.map_undistort
 
         # get a mesh grid
@@ -1307,8 +1311,8 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent_undistort = extent
-        self.last_scaling_undistort = scaling
+        self.last_extent_undistort = list(extent)
+        self.last_state_undistort = state
 
         # return the calculated map
         return self.map_undistort
@@ -1372,9 +1376,8 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
-        if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+        state = self._getMapState(*extent, scaling, Z, hide_backpoints)
+        if self.map is not None and self.last_state == state:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1396,8 +1399,8 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent = extent
-        self.last_scaling = scaling
+        self.last_extent = list(extent)
+        self.last_state = state
 
         # return the calculated map
         return self.map
-- 
2.43.0


From efe54be6d397fd40f11cde216e341a2e90560f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 29/70] fix: metropolis stays within the bounds when the step
 size has been adapted

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..4f97ee8 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scale = adaptive_scale_factor*step
+            next_pos = last_pos + scale*truncnorm((ranges[:,0]-last_pos)/scale, (ranges[:,1]-last_pos)/scale).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From 592d3f2b77ed72b53b8f4c783c13d225b85fce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 30/70] fix: metropolis uses the step sizes of additional
 parameters

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..abee3ee 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+list(self.additional_parameters)])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
@@ -308,7 +308,7 @@ class ClassWithParameterSet(object):
         trys = 0
         max_tries = 1000
         while np.isinf(getLogProb(start)) and trys < max_tries:
-            start = [param.random()[()] for param in parameter+self.additional_parameters]
+            start = [param.random()[()] for param in list(parameter)+list(self.additional_parameters)]
             trys += 1
         if trys >= max_tries:
             raise ValueError("Could not find a starting position with non-zero probability.")
-- 
2.43.0


From b1395b78f6d8444206ac42ba6b913bd4d6409ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 31/70] fix: sample and set_to_mean address the rows of a trace
 by position, as its index can be arbitrary

---
 cameratransform/parameter_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index abee3ee..131fa72 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -180,7 +180,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
@@ -198,8 +198,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = self.parameters.trace["probability"].argmax()
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 0392cb6299c9d122b8bb6f1591d7476aa8ec3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 32/70] fix: fit parameters with a custom distribution have no
 bounds instead of raising an error

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 4f97ee8..6dc0900 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -271,6 +271,7 @@ class FitParameter:
 
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
+        self.parents = dict()
         if distribution is not None:
             self.distribution = distribution
         elif lower is not None and upper is not None:
-- 
2.43.0


From 6a60df795bfa2873b23f3af8a6122059d3132e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 33/70] fix: accept the documented array as variation of object
 heights and lengths

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 61741ee..0a1f2f8 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -537,7 +537,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -605,7 +605,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From e3ac6cae6d1cf937e900061a1ed5f1b0efc232a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 34/70] fix: object heights at the center line of the image

The head was located by dividing through the x and the y component of the ray,
which is 0/0 for objects straight in front of (or beside) the camera.
---
 cameratransform/camera.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 0a1f2f8..58a588f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1245,10 +1245,12 @@ class Camera(ClassWithParameterSet):
         point_feet, point_heads = ensure_array_format(point_feet, "...x2", point_heads)
         # get the feet positions in the world
         point3D_feet = self.spaceFromImage(point_feet, Z=Z)
-        # get the head positions in the world
-        point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
-        point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
-        point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        # get the head positions in the world, where the rays to the heads pass the vertical lines above the feet
+        offset, direction = self.getRay(point_heads)
+        factor = np.sum(direction[..., :2] * (point3D_feet - offset)[..., :2], axis=-1) / np.sum(direction[..., :2] ** 2, axis=-1)
+        point3D_head = offset + direction * factor[..., None]
+        # ignore heads that are behind the camera
+        point3D_head[factor < 0] = np.nan
         # the z difference between these two points
         return point3D_head[..., 2] - point3D_feet[..., 2]
 
-- 
2.43.0


From d78ecca6feb201e340570df25a119166c8b68ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 35/70] fix: read exif numbers of current PIL versions

---
 cameratransform/camera.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 58a588f..1b12704 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -153,16 +153,23 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
 
     # read the exif information of the file
     exif = get_exif(filename)
+    def to_number(value):
+        # older versions of PIL provide a tuple of numerator and denominator
+        try:
+            return value[0] / value[1]
+        except TypeError:
+            return float(value)
+
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = to_number(exif["FocalLength"])
     # get the sensor size, either from a database
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From be62876cff60206097416db7431353848837bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 36/70] fix: getCameraParametersFromExif without the sensor
 database

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1b12704..f3a3ac6 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -163,6 +163,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = to_number(exif["FocalLength"])
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From c0bedf7e01850a523ed41b0601d5e0579566fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 37/70] fix: a failed download does not leave an empty or wrong
 sensor database behind

---
 cameratransform/camera.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f3a3ac6..6394a65 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -75,10 +75,13 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
-        with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
+        print("Downloading database from:", url)
+        r = requests.get(url)
+        r.raise_for_status()
+        # store the complete file at once, so that an interruption does not leave an incomplete database behind
+        with open(database_filename + ".part", "w") as fp:
             fp.write(r.text)
+        os.replace(database_filename + ".part", database_filename)
     # load the database
     with open(database_filename, "r") as fp:
         data = fp.readlines()
-- 
2.43.0


From 81d53482588d42934ef10245fd334302a9c4c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:23 +0000
Subject: [PATCH 38/70] fix: formatGPS carries values just below a full degree
 only once

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index d6c0bf8..9ed35c9 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -123,11 +123,11 @@ def formatGPS(lat, lon, format=None, asLatex=False):
 
         # if the seconds are rounded up to 60, increase mins
         if fmt_sec is not None and fmt_sec % secs == fmt_sec % 60:
-            mins += 1
+            mins = np.floor(mins) + 1
             secs = 0
         # if the mins are rounded up to 60 increase degs
         if fmt_mins is not None and fmt_mins % mins == fmt_mins % 60:
-            degs += 1
+            degs = np.floor(degs) + 1
             mins = 0
 
         # if no letter symbol is used, keep the sign
-- 
2.43.0


From ad09694cebcb1671ec561a1632ad9bd7184e93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 39/70] fix: distanceOfTwoLines does not depend on the length
 of the direction vectors

---
 cameratransform/ray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 6672eec..dfff1ea 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -197,6 +197,11 @@ def __distanceOfTwoLines(p1, v1, p2, v2):
     # Calculate the vector connecting points p1 and p2
     p1p2 = p2 - p1
 
+    # The distance does not depend on the length of the direction vectors, so work with unit vectors
+    norm_v1, norm_v2 = np.linalg.norm(v1), np.linalg.norm(v2)
+    v1 = v1 / norm_v1 if norm_v1 > 0 else v1
+    v2 = v2 / norm_v2 if norm_v2 > 0 else v2
+
     # Calculate the cross product of the direction vectors
     v1_cross_v2 = np.cross(v1, v2)
 
-- 
2.43.0


From dcf737db65df3aafbcbd4b4e159af834c8394858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 40/70] fix: areaOfTriangle handles batches and degenerate
 triangles

---
 cameratransform/ray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index dfff1ea..f3aa273 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -248,12 +248,12 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
-    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :])
-    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :])
-    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :])
+    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
+    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
+    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
     s = (a+b+c)/2
     # Herons formula
-    return np.sqrt(s*(s-a)*(s-b)*(s-c))
+    return np.sqrt(np.maximum(s*(s-a)*(s-b)*(s-c), 0))
 
 
 def areaOfQuadrilateral(rect):
-- 
2.43.0


From 14539a13d125b46aa3f438a89f107a188b4e7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 41/70] fix: intersectionOfTwoLines recognises parallel lines
 despite rounding

---
 cameratransform/ray.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index f3aa273..9407b0f 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -132,14 +132,22 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
         c2 = -np.einsum('ij,j->i', v2, p1 - p2)
         try:
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
-            return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
+            points = np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
+            points[__linesAreParallel(v1, v2)] = np.nan
+            return points
         except np.linalg.LinAlgError:
             return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
+def __linesAreParallel(v1, v2):
+    # rounding can hide that the equation system of two parallel lines is singular
+    return np.linalg.norm(np.cross(v1, v2), axis=-1) <= 1e-8 * np.linalg.norm(v1, axis=-1) * np.linalg.norm(v2, axis=-1)
+
 def __intersectionOfTwoLines(p1, v1, p2, v2):
     # the version for one point
+    if __linesAreParallel(v1, v2):
+        return np.ones(3) * np.nan
     a1 = np.dot(v1, v1)
     a2 = np.dot(v1, v2)
     b1 = -np.dot(v2, v1)
-- 
2.43.0


From 05b97b41d69c348354dc695a4ef7a1c6cab5f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:09 +0000
Subject: [PATCH 42/70] fix: a degenerate triangle is not hit at the origin of
 the ray

---
 cameratransform/ray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 9407b0f..15110cd 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -71,6 +71,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
     rI[(b == 0.0)*(a != 0.0)] = np.nan
     # ray is parallel and lies in the plane
     rI[(b == 0.0)*(a == 0.0)] = 0
+    # a triangle without area cannot be hit
+    rI[np.all(normal == 0.0, axis=-1)] = np.nan
 
     # check whether the intersection is behind the origin of the ray
     rI[rI < 0.0] = np.nan
-- 
2.43.0


From f564efd55a367b75a629e2bd521234882d27433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 43/70] fix: a lens shared by several cameras uses the
 projection of each of them

---
 cameratransform/camera.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 6394a65..4ca412b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -473,6 +473,12 @@ class Camera(ClassWithParameterSet):
         params.update(self.lens.parameters.parameters)
         self.parameters = ParameterSet(**params)
 
+    def _boundLens(self):
+        # several cameras (with different projections) can share the same lens
+        if self.lens.projection is not self.projection:
+            self.lens.setProjection(self.projection)
+        return self.lens
+
     def __str__(self):
         string = "CameraTransform(\n"
         string += str(self.lens)
@@ -1017,7 +1023,7 @@ class Camera(ClassWithParameterSet):
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
         # project the points from the space to the camera and from the camera to the image
-        return self.lens.distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
+        return self._boundLens().distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
 
     def getRay(self, points: Points2D, normed: bool = False) -> Tuple[Points3D, Points3D]:
         """
@@ -1066,7 +1072,7 @@ class Camera(ClassWithParameterSet):
         offset = self.orientation.spaceFromCamera([0, 0, 0])
         # get the direction fo the ray from the points
         # the projection provides the ray in camera coordinates, which we convert to the space coordinates
-        direction = self.orientation.spaceFromCamera(self.projection.getRay(self.lens.imageFromDistorted(points), normed=normed), direction=True)
+        direction = self.orientation.spaceFromCamera(self.projection.getRay(self._boundLens().imageFromDistorted(points), normed=normed), direction=True)
         # return the offset point and the direction of the ray
         return offset, direction
 
@@ -1319,7 +1325,7 @@ class Camera(ClassWithParameterSet):
         mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
 
         # transform the space points to the image
-        mesh_points_shape = self.lens.distortedFromImage(mesh_points)
+        mesh_points_shape = self._boundLens().distortedFromImage(mesh_points)
 
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
-- 
2.43.0


From 1e3c51bf224d26fbeaf0bdf16d44c2410d597c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 44/70] fix: respect the unit of the EXIF focal plane
 resolution

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4ca412b..c2249e0 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -171,9 +171,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the unit of the resolution in mm (2: inch, 3: cm, 4: mm, 5: µm), inch by default
+        unit = {3: 10, 4: 1, 5: 0.001}.get(exif.get("FocalPlaneResolutionUnit"), 25.4)
         sensor_size = (
-            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * 25.4,
-            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * 25.4)
+            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * unit,
+            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * unit)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From afa09ed5758964c17d12a23532d1155b02a4c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 45/70] fix: a model without maker is not found as any camera
 of a maker of that name

---
 cameratransform/camera.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index c2249e0..9d772e3 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -86,14 +86,13 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     with open(database_filename, "r") as fp:
         data = fp.readlines()
 
-    # format the name
-    model = model.replace(" ", ";", 1)
-    name = model + ";"
+    # split the name into the maker and the name of the camera
+    name = model.split(" ", 1)
     # try to find it
     for line in data:
-        if line.startswith(name):
+        line = line.split(";")
+        if line[:2] == name:
             # extract the sensor dimensions
-            line = line.split(";")
             sensor_size = (float(line[3]), float(line[4]))
             return sensor_size
     # no sensor size found
-- 
2.43.0


From 66fba83d1d722d2925522001b8a51a3f2f9ec9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 46/70] fix: rotateSpace also rotates cameras with a
 yaw-pitch-roll orientation

---
 cameratransform/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 9d772e3..453ceed 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1537,7 +1537,9 @@ class Camera(ClassWithParameterSet):
         delta_heading : number
             the number of degrees to rotate the camera clockwise.
         """
-        self.heading_deg += delta_heading
+        # the heading of a yaw-pitch-roll orientation is its yaw angle
+        heading = "heading_deg" if "heading_deg" in self.orientation.parameters.parameters else "yaw_deg"
+        setattr(self, heading, getattr(self, heading) + delta_heading)
         delta_heading_rad = np.deg2rad(delta_heading)
         pos = np.array([self.pos_x_m, self.pos_y_m])
         s, c = np.sin(delta_heading_rad), np.cos(delta_heading_rad)
-- 
2.43.0


From d30052292cf8bc2f73ba134eef2d02416960c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:55 +0000
Subject: [PATCH 47/70] fix: rendered scene images have the size of the current
 camera

---
 cameratransform/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 06a66ff..056f780 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -95,7 +95,8 @@ class Scene:  # pragma: no cover
         plt.xlim(0, self.camera.projection.parameters.image_width_px)
         plt.ylim(self.camera.projection.parameters.image_height_px, 0)
         plt.savefig(filename, dpi=100)
-        fig.clear()
+        # a figure that is kept open would not change its size for the next image
+        plt.close(fig)
 
     def addCube(self, pos, width):
         points = []
-- 
2.43.0


From d4b75bc46a4f6b3e147de44085befd10835d1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 48/70] fix: pose from point correspondences is converted to
 the camera axes and angles of this package

---
 cameratransform/camera.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 453ceed..7077288 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -324,11 +324,18 @@ class CameraGroup(ClassWithParameterSet):
         cam1.roll_deg = 0
 
         def rotationToEuler(R):
-            alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
-            beta = np.rad2deg(np.arccos(R[2, 2]))
-            gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
-
+            alpha = np.arctan2(R[0, 2], R[1, 2])
+            beta = np.arctan2(np.hypot(R[0, 2], R[1, 2]), R[2, 2])
+            # what remains without the roll, as the last row of R is not usable if the tilt is 0
+            c, s = np.cos(alpha), np.sin(alpha)
+            gamma = np.arctan2(s * R[1, 1] - c * R[0, 1], c * R[0, 0] - s * R[1, 0])
+            return np.rad2deg([alpha, beta, gamma])
+
+        # the camera axes of opencv point right, down and forward instead of right, up and backward
+        axes = np.diag([1, -1, -1])
+        rot = axes @ rot @ axes
+        # opencv gives the position of the first camera in the coordinates of the second camera
+        t = -rot.T @ axes @ t
         roll, tilt, heading = rotationToEuler(rot)
         data = dict(roll_deg=roll,
                     tilt_deg=tilt,
-- 
2.43.0


From ebd0fbda5284702af49535cf2f056af39827f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:10 +0000
Subject: [PATCH 49/70] fix: point correspondences in front of both cameras
 have a probability

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7077288..cf4ed9c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -270,8 +270,8 @@ class CameraGroup(ClassWithParameterSet):
                 # get the ray from the correspondences in the first camera's image
                 world_epipole, world_ray = self[i].getRay(corresponding[i])
                 # project them to the image of the second camera
-                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1)
-                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2)
+                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
+                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
                 # find the perpendicular point from the epipolar lines to the correspondes point
                 perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
                 # calculate the distances
-- 
2.43.0


From b10ace9176166b84659de9151602f00488343103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 50/70] fix: the sampler accounts for proposals truncated at
 the bounds

---
 cameratransform/statistic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6dc0900..c2e4a71 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -84,6 +84,11 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
         ranges[:,1][np.isnan(ranges[:,1])] = np.inf
     step = np.array(step)
 
+    def logProposalMass(pos, scale):
+        # the (logarithmic) part of the normal distribution around the position that is inside the ranges
+        pos = np.clip(pos, ranges[:,0], ranges[:,1])
+        return np.sum(np.log(stats.norm.cdf((ranges[:,1]-pos)/scale) - stats.norm.cdf((ranges[:,0]-pos)/scale)))
+
     adaptive_scale_factor = 1
     tuning = True
 
@@ -109,8 +114,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
             next_pos = last_pos + scale*truncnorm((ranges[:,0]-last_pos)/scale, (ranges[:,1]-last_pos)/scale).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
-            # calculate the acceptance ratio
-            ratio = next_prob - last_prob
+            # calculate the acceptance ratio, close to the bounds the truncated proposals are not symmetric
+            ratio = next_prob - last_prob + logProposalMass(last_pos, scale) - logProposalMass(next_pos, scale)
             if np.isinf(next_prob) and np.isinf(last_prob):
                 ratio = 0
             # accept depending on the ratio (>1 means accept always, 0 never)
-- 
2.43.0


From ef16a4929b7df2c497853484819bd7b2c4483bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 51/70] fix: bayesian fridge samples the log probability of the
 sampled values

---
 cameratransform/parameter_set.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 131fa72..6aa0a7c 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -324,6 +324,11 @@ class ClassWithParameterSet(object):
         return trace
 
     def fridge(self, parameter, iterations=10000, **kwargs):
+        def getLogProb():
+            # the log probability for the current values of the variables
+            self.parameters.set_fit_parameters([p.__name__ for p in parameter], [float(p.value) for p in parameter])
+            return self.getLogProbability()
+
         if 1:
             import mock
             import sys
@@ -332,7 +337,7 @@ class ClassWithParameterSet(object):
             from bayesianfridge import sample
 
             # we create our own model mimicking a pymc model
-            model = Model(parameter+self.additional_parameters, self.getLogProbability)
+            model = Model(parameter+self.additional_parameters, getLogProb)
 
         else:
             import pymc
@@ -356,9 +361,9 @@ class ClassWithParameterSet(object):
         probability = []
         import tqdm
         for values in tqdm.tqdm(data):
-            self.parameters.set_fit_parameters(columns, values)
-            logprob = self.getLogProbability()
-            probability.append(logprob)
+            for param, value in zip(parameter + self.additional_parameters, values):
+                param.set_value(value)
+            probability.append(getLogProb())
         trace = pd.DataFrame(np.hstack((data, np.array(probability)[:, None])), columns=columns + ["probability"])
 
         self.set_trace(trace)
-- 
2.43.0


From f98639ff5ce1a6eb4426515c68d40172840f90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 52/70] fix: views of a scene without a camera

---
 cameratransform/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 056f780..41c6dd6 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -35,7 +35,8 @@ class Scene:  # pragma: no cover
 
     def plotSceneViews(self, axes=None):
         import matplotlib.pyplot as plt
-        cone = self.camera.getCameraCone()
+        # a scene without a camera shows only its objects
+        cone = self.camera.getCameraCone() if self.camera is not None else np.zeros((0, 3))
 
         if axes is None:
             axes = [plt.subplot(221), plt.subplot(222), plt.subplot(223), plt.subplot(224)]
-- 
2.43.0


From 731b9150912262f742106552c890af7697492451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 53/70] fix: keep the values of the earlier trace that belong
 to the recorded log-probability in metropolis

---
 cameratransform/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index c2e4a71..a264c8c 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -99,7 +99,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
     # initialize the start position
     last_pos = start
-    last_prob = getLogProb(list(last_pos) + next_prior_trace)
+    last_prior_trace = next_prior_trace
+    last_prob = getLogProb(list(last_pos) + last_prior_trace)
     # iterate to sample
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
@@ -124,13 +125,13 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
                 # count accepted values
                 accepted += 1
                 # store position
-                last_pos, last_prob = next_pos, next_prob
+                last_pos, last_prior_trace, last_prob = next_pos, next_prior_trace, next_prob
             else:
                 rejected += 1
 
             # add to trace after skipping the first points
             if i > burn:
-                trace.append(list(last_pos) + next_prior_trace + [last_prob])
+                trace.append(list(last_pos) + last_prior_trace + [last_prob])
             else:
                 if i > 100 and i % 100 == 0 and tuning:
                     acc_rate = accepted / (accepted + rejected)
-- 
2.43.0


From a0b34b1ee5714941003a1375e71a66da6c13d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:15 +0000
Subject: [PATCH 54/70] fix: cache the maps of views in one step, so that
 interruptions and other threads do not mix them up

---
 cameratransform/camera.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index cf4ed9c..bac70e7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -454,13 +454,12 @@ class Camera(ClassWithParameterSet):
     (subclass of :py:class:`CameraProjection`), a spatial orientation (:py:class:`SpatialOrientation`) and optionally
     a lens distortion (subclass of :py:class:`LensDistortion`).
     """
+    # the cached maps, together with everything they depend on
     map = None
     last_extent = None
-    last_state = None
 
     map_undistort = None
     last_extent_undistort = None
-    last_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1320,10 +1319,13 @@ class Camera(ClassWithParameterSet):
         if scaling is None:
             scaling = 1
 
+        self.last_extent_undistort = list(extent)
+
         # if we have cached the map, use the cached map
         state = self._getMapState(*extent, scaling)
-        if self.map_undistort is not None and self.last_state_undistort == state:
-            return self.map_undistort
+        cached = self.map_undistort
+        if cached is not None and cached[0] == state:
+            return cached[1]
 
         # get a mesh grid
         mesh = np.array(np.meshgrid(np.arange(extent[0], extent[1], scaling),
@@ -1335,14 +1337,12 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self._boundLens().distortedFromImage(mesh_points)
 
-        # reshape the map and cache it
-        self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
-
-        self.last_extent_undistort = list(extent)
-        self.last_state_undistort = state
+        # reshape the map and cache it (in one step, so that an interruption or another thread does not mix up maps)
+        map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self.map_undistort = (state, map_undistort)
 
         # return the calculated map
-        return self.map_undistort
+        return map_undistort
 
     def undistortImage(self, image: Image, extent: List[Number] = None, scaling: Number=None,
                        do_plot: bool = False, alpha: Number = None, skip_size_check: bool = False) -> Image:
@@ -1402,10 +1402,13 @@ class Camera(ClassWithParameterSet):
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
+        self.last_extent = list(extent)
+
         # if we have cached the map, use the cached map
         state = self._getMapState(*extent, scaling, Z, hide_backpoints)
-        if self.map is not None and self.last_state == state:
-            return self.map
+        cached = self.map
+        if cached is not None and cached[0] == state:
+            return cached[1]
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
         if scaling is None:
@@ -1423,14 +1426,12 @@ class Camera(ClassWithParameterSet):
         # transform the space points to the image
         mesh_points_shape = self.imageFromSpace(mesh_points, hide_backpoints=hide_backpoints)
 
-        # reshape the map and cache it
-        self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
-
-        self.last_extent = list(extent)
-        self.last_state = state
+        # reshape the map and cache it (in one step, so that an interruption or another thread does not mix up maps)
+        map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self.map = (state, map)
 
         # return the calculated map
-        return self.map
+        return map
 
     def getTopViewOfImage(self, image: Image, extent: List[Number] = None, scaling: Number = None,
                           do_plot: bool = False, alpha: Number = None, Z: Number = 0., skip_size_check: bool = False,
-- 
2.43.0


From 7d175428a90134ee3e40aae7a1aa709a09b89d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 55/70] fix: print the summary of a trace without a spread (a
 single sample or a constant column)

---
 cameratransform/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a264c8c..c5c222f 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -25,6 +25,9 @@ import tqdm
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
+    # without a spread (e.g. only one sample) there is nothing to round to
+    if y == 0:
+        return str(x) + "±" + str(y)
     digits = -int(floor(log10(abs(y))))
     return str(round(x, digits)) + "±" + str(round(y, 1+digits))
 
-- 
2.43.0


From 01cf5e7ab348bf4f63af41dc90c36042ebdb18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 56/70] fix: guess the extent of a top view from the seen
 ground, not from the pixels of the image border

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index bac70e7..08db8d6 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1398,7 +1398,7 @@ class Camera(ClassWithParameterSet):
     def _getMap(self, extent=None, scaling=None, Z=0, hide_backpoints=True):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
-            border = self.getImageBorder()
+            border = self.spaceFromImage(self.getImageBorder(), Z=Z)
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-- 
2.43.0


From b311758903bd30eff4910ae37d718ac047f03c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 57/70] fix: focallength_px shares distribution and state with
 focallength_x_px and focallength_y_px

---
 cameratransform/projection.py | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 4b0ca41..a4b5125 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -28,10 +28,11 @@ class LinkedParameter(Parameter):
     A parameter that does not store a value, but sets the values of other parameters and shows the value of the first
     of them.
     """
-    __slots__ = ["linked"]
+    __slots__ = ["linked", "together"]
 
     def __init__(self, *linked):
         self.linked = []
+        self.together = None
         super().__init__(linked[0].value, type=linked[0].type)
         self.linked = linked
 
@@ -44,6 +45,40 @@ class LinkedParameter(Parameter):
         for parameter in self.linked:
             parameter.value = value
 
+    # the state and a distribution belong to the other parameters, so that assigning to them replaces it and vice versa
+    @property
+    def state(self):
+        return self.linked[0].state
+
+    @state.setter
+    def state(self, state):
+        for parameter in self.linked:
+            parameter.state = state
+
+    @property
+    def mean(self):
+        return self.linked[0].mean
+
+    @mean.setter
+    def mean(self, mean):
+        self.together = None
+        for parameter in self.linked:
+            parameter.mean = mean
+
+    def set_stats(self, mean, std):
+        for parameter in self.linked:
+            parameter.set_stats(mean, std)
+        self.together = (mean, std)
+
+    def set_to_mean(self):
+        for parameter in self.linked:
+            parameter.set_to_mean()
+
+    def sample(self):
+        # draw only one value if the parameters have (still) the common distribution
+        if self.together is not None and all(p.mean is not None and (p.mean, p.std) == self.together for p in self.linked):
+            self.value = np.random.normal(*self.together)
+
 
 class CameraProjection(ClassWithParameterSet):
     """
-- 
2.43.0


From ef6e07684c3c59f63476158b530cc3d5cfa78d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 58/70] fix: the sampler draws the rows of an earlier trace by
 position

---
 cameratransform/statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index c5c222f..6b968ea 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -96,7 +96,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     tuning = True
 
     if prior_trace is not None:
-        next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+        next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
     else:
         next_prior_trace = []
 
@@ -108,7 +108,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
             if prior_trace is not None:
-                next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+                next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
             else:
                 next_prior_trace = []
 
-- 
2.43.0


From 5365424a6170dd79131f939f445f96cb61ab30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 59/70] fix: small and unsigned integer points overflow in the
 camera transforms

---
 cameratransform/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/utils.py b/cameratransform/utils.py
index 4b6bc0f..db85c89 100644
--- a/cameratransform/utils.py
+++ b/cameratransform/utils.py
@@ -20,7 +20,8 @@ def ensure_array_format(p, shape, *additional_arrays):
         return [ensure_array_format(a, shape) for a in additional_arrays]
     if isinstance(shape, str):
         shape = string_to_shape(shape)
-    p = np.asarray(p)
+    # small or unsigned integer types would overflow in the calculations
+    p = np.asarray(p, dtype=float)
     number_lookup = {}
     if shape[0] != "..." and len(p.shape) != len(shape):
         raise ValueError("Expected array of shape %s, got array of shape %s" % (str(shape), str(p.shape)))
-- 
2.43.0


From b042bef0063372dbaabf4dd41a52d27625c82d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 60/70] fix: small and unsigned integer arguments overflow or
 lose precision in the ray functions

---
 cameratransform/ray.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 15110cd..b036feb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -46,14 +46,14 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         the intersection point(s) of the ray(s) with the triangle(s), dimensions: (3) or (R,3). Points have nan values
         when there is no intersection.
     """
-    origin = np.array(origin)
-    direction = np.array(direction)
+    origin = np.array(origin, dtype=float)
+    direction = np.array(direction, dtype=float)
     if len(direction.shape) == 1:
         direction = direction.reshape(1, *direction.shape)
         return_single = True
     else:
         return_single = False
-    triangle = np.array(triangle)
+    triangle = np.array(triangle, dtype=float)
     if len(triangle.shape) == 2:
         triangle = triangle.reshape(1, *triangle.shape)
 
@@ -100,6 +100,7 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
 
 def distanceLinePoint(p1, v1, p2):
+    p1, v1, p2 = (np.asarray(x, dtype=float) for x in (p1, v1, p2))
     return np.linalg.norm(np.cross(v1, p1-p2)) / np.linalg.norm(v1)
 
 
@@ -124,6 +125,8 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
     intersection : ndarray
         the intersection point(s), or the point closes to the two lines if they do no intersect, dimensions: (3), (Nx3)
     """
+    # small or unsigned integer types would overflow in the calculations
+    p1, v1, p2, v2 = (np.asarray(x, dtype=float) for x in (p1, v1, p2, v2))
     # if we transform multiple points in one go
     if len(v1.shape) == 2:
         a1 = np.einsum('ij,ij->i', v1, v1)
@@ -184,6 +187,8 @@ def distanceOfTwoLines(p1, v1, p2, v2):
     distance : float
         the closest distance between the two lines.
     """
+    # small or unsigned integer types would overflow in the calculations
+    p1, v1, p2, v2 = (np.asarray(x, dtype=float) for x in (p1, v1, p2, v2))
     # if we transform multiple points in one go
     if len(v1.shape) == 2:
         return np.array([__distanceOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(v1.shape[0])])
@@ -258,6 +263,7 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
+    triangle = np.asarray(triangle, dtype=float)
     a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
     b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
     c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
@@ -294,7 +300,7 @@ def areaOfQuadrilateral(rect):
     >>> ct.ray.areaOfQuadrilateral([[[0, 0], [1, 0], [1, 1], [0, 1]], [[10, 10], [30, 10], [30, 30], [10, 30]]])
     array([  1., 400.])
     """
-    rect = np.array(rect)
+    rect = np.array(rect, dtype=float)
     A = rect[..., 0, :]
     B = rect[..., 1, :]
     C = rect[..., 2, :]
@@ -332,6 +338,7 @@ def getClosestPointFromLine(origin, ray, point):
     point : ndarray
         the points projected on the line, dimenstions: (3), (Nx3)
     """
+    origin, ray, point = (np.asarray(x, dtype=float) for x in (origin, ray, point))
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-- 
2.43.0


From fa917b54046bb5e9122860195d5d0a64531ded5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 61/70] fix: small and unsigned integer coordinates overflow or
 lose precision in the gps functions

---
 cameratransform/gps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 9ed35c9..0e09d57 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -335,6 +335,8 @@ def getBearing(point1, point2):
 def splitGPS(x, keep_deg=False):
     x = np.array(x)
     if keep_deg is False:
+        # small or unsigned integer types would lose precision or overflow in the calculations
+        x = x.astype(float)
         lat1 = np.deg2rad(x[..., 0])
         lon1 = np.deg2rad(x[..., 1])
     else:
@@ -451,7 +453,7 @@ def moveDistance(start, distance, bearing):
     """
     start = np.array(start)
     distance = np.array(distance)
-    bearing = np.deg2rad(bearing)
+    bearing = np.deg2rad(bearing, dtype=float)
     lat1, lon1, h1 = splitGPS(start)
     R = 6371e3
     if start.shape[-1] == 3:
@@ -479,7 +481,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
-    space = np.array(space)
+    space = np.array(space, dtype=float)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From b03bec6c0c8c1ab64dd7a9b803cf9ceeec8f488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 62/70] fix: moving exactly to a pole gives nan

---
 cameratransform/gps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 0e09d57..f3ec336 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -458,8 +458,9 @@ def moveDistance(start, distance, bearing):
     R = 6371e3
     if start.shape[-1] == 3:
         R += start[..., 2]
-    lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
-                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
+    # at the poles rounding can exceed the range of the arcsin
+    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(distance / R) +
+                             np.cos(lat1) * np.sin(distance / R) * np.cos(bearing), -1, 1))
 
     lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),
                              np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))
-- 
2.43.0


From 1531dfe9e82ecd25f4dd905e3b49b22ba8eeefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 63/70] fix: heights of numpy number types are not accepted by
 gpsFromString

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index f3ec336..f3422d5 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -245,10 +245,10 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
     """
     if not isinstance(gps_string, str):
         # keep a number
-        if isinstance(gps_string, (float, int)):
+        if isinstance(gps_string, Number):
             return gps_string
         # if it is a string and a number, interpret it as coordinates and height
-        if len(gps_string) == 2 and isinstance(gps_string[0], str) and isinstance(gps_string[1], (float, int)):
+        if len(gps_string) == 2 and isinstance(gps_string[0], str) and isinstance(gps_string[1], Number):
             return gpsFromString(gps_string[0], gps_string[1])
         # recursively process it
         data = np.array([gpsFromString(data) for data in gps_string])
-- 
2.43.0


From 0cb477541299b074e1f58e808e6e60bbfec9c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 64/70] fix: plotting the fit information of objects with
 individual lengths fails or shows wrong positions

---
 cameratransform/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 08db8d6..24f8d8e 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -664,7 +664,8 @@ class Camera(ClassWithParameterSet):
             point3D_back = self.spaceFromImage(points_back, Z=Z)
             difference = point3D_back - point3D_front
             difference /= np.linalg.norm(difference, axis=-1)[..., None]
-            predicted_back = point3D_front + difference * length
+            # the length can be a number or an array with one entry for each object
+            predicted_back = point3D_front + (difference.T * np.transpose(length)).T
             projected_back = self.imageFromSpace(predicted_back)
 
             plt.scatter(projected_back[..., 0], projected_back[..., 1], label="back", facecolors='none',
-- 
2.43.0


From ba15b0ebeb8f464e27cf0a2adf64bb3165d13852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 65/70] fix: added information changes with the arrays of the
 caller and cannot be given as lists

---
 cameratransform/camera.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 24f8d8e..3dfd41f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -262,6 +262,9 @@ class CameraGroup(ClassWithParameterSet):
         self.log_prob.append(baselineInformation)
 
     def addPointCorrespondenceInformation(self, corresponding1, corresponding2, uncertainty=1):
+        # use copies, the caller may change his arrays later
+        corresponding1, corresponding2, uncertainty = np.array(corresponding1), np.array(corresponding2), np.array(uncertainty)
+
         def pointCorrespondenceInformation(corresponding1=corresponding1, corresponding2=corresponding2):
             sum = 0
             corresponding = [corresponding1, corresponding2]
@@ -560,6 +563,8 @@ class Camera(ClassWithParameterSet):
         only_plot : bool, optional
             when true, the information will be ignored for fitting and only be used to plot.
         """
+        # use copies, the caller may change his arrays later
+        points_feet, points_head, height = np.array(points_feet), np.array(points_head), np.array(height)
         if not only_plot:
             if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
@@ -574,7 +579,7 @@ class Camera(ClassWithParameterSet):
                     return np.sum(height_distribution.logpdf(heights))
 
             else:
-                height_distribution = stats.norm(loc=height, scale=variation)
+                height_distribution = stats.norm(loc=height, scale=np.array(variation))
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height_distribution=height_distribution):
                     # get the height of the penguins
                     heights = self.getObjectHeight(points_feet, points_head)
@@ -628,6 +633,8 @@ class Camera(ClassWithParameterSet):
         only_plot : bool, optional
             when true, the information will be ignored for fitting and only be used to plot.
         """
+        # use copies, the caller may change his arrays later
+        points_front, points_back, length = np.array(points_front), np.array(points_back), np.array(length)
         if not only_plot:
             if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
@@ -643,7 +650,7 @@ class Camera(ClassWithParameterSet):
                     return np.sum(length_distribution.logpdf(heights))
 
             else:
-                length_distribution = stats.norm(loc=length, scale=variation)
+                length_distribution = stats.norm(loc=length, scale=np.array(variation))
 
                 def lengthInformation(points_front=points_front, points_back=points_back,
                                       length_distribution=length_distribution, Z=Z):
@@ -700,6 +707,8 @@ class Camera(ClassWithParameterSet):
         only_plot : bool, optional
             when true, the information will be ignored for fitting and only be used to plot.
         """
+        # use copies, the caller may change his arrays later
+        lm_points_image, lm_points_space = np.array(lm_points_image), np.array(lm_points_space)
         uncertainties = np.array(uncertainties)
         offset = np.max(uncertainties)
         sampled_offsets = np.linspace(-2*offset, +2*offset, 1000)
@@ -761,6 +770,8 @@ class Camera(ClassWithParameterSet):
         only_plot : bool, optional
             when true, the information will be ignored for fitting and only be used to plot.
         """
+        # use copies, the caller may change his arrays later
+        lm_points_image, lm_points_geo = np.array(lm_points_image), np.array(lm_points_geo)
         uncertainties = np.array(uncertainties)
         offset = np.max(uncertainties)
         sampled_offsets = np.linspace(-2*offset, +2*offset, 1000)
@@ -822,7 +833,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         # ensure that input is an numpy array
-        horizon = np.array(horizon)
+        horizon, uncertainty = np.array(horizon), np.array(uncertainty)
 
         def horizonInformation(horizon=horizon, uncertainty=uncertainty):
             # evaluate the horizon at the provided x coordinates
-- 
2.43.0


From a3729f4019e21e6a9fe1a948d5958b8d39db4fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 66/70] fix: image sizes that are computed as floats fail in
 the cone on the ground, the look up table and rendered scenes

---
 cameratransform/camera.py | 6 +++---
 cameratransform/scene.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 3dfd41f..f910272 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -972,10 +972,10 @@ class Camera(ClassWithParameterSet):
         if project_to_ground:
             border = []
             corner_indices = [0]
-            for y in range(h):
+            for y in np.arange(0, h):
                 border.append([0, y])
             corner_indices.append(len(border))
-            for x in range(w):
+            for x in np.arange(0, w):
                 border.append([x, h])
             corner_indices.append(len(border))
             for y in np.arange(h, 0, -1):
@@ -1543,7 +1543,7 @@ class Camera(ClassWithParameterSet):
         A = ray.areaOfQuadrilateral(squares_space)
 
         if whole_image:
-            A = A.reshape(self.image_height_px, self.image_width_px)
+            A = A.reshape(xv.shape)
         A[np.isnan(A)] = undef_value
         return A
 
diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 41c6dd6..ff86ff4 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -88,7 +88,7 @@ class Scene:  # pragma: no cover
                              self.camera.projection.parameters.image_height_px / 100))
         ax = plt.axes([0, 0, 1, 1])
         im = np.zeros(
-            [self.camera.projection.parameters.image_height_px, self.camera.projection.parameters.image_width_px])
+            [int(self.camera.projection.parameters.image_height_px), int(self.camera.projection.parameters.image_width_px)])
         plt.imshow(im)
         for object in self.objects:
             object_im = self.camera.imageFromSpace(object)
-- 
2.43.0


From 562aaec052dca07239ce55a4a91ae789ccf762bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 67/70] fix: the pose from point correspondences ignores the
 vertical focal length

---
 cameratransform/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f910272..66a2fbe 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -317,10 +317,9 @@ class CameraGroup(ClassWithParameterSet):
         import cv2
         cam1 = self[0]
         cam2 = self[1]
-        f, cx, cy = cam1.focallength_x_px, cam1.center_x_px, cam1.center_y_px
-        K = np.array([[f, 0, cx], [0, f, cy], [0, 0, 1]])
-        mat, mask = cv2.findEssentialMat(corresponding1, corresponding2, cam1.focallength_x_px,
-                                         (cam1.center_x_px, cam1.center_y_px))
+        fx, fy, cx, cy = cam1.focallength_x_px, cam1.focallength_y_px, cam1.center_x_px, cam1.center_y_px
+        K = np.array([[fx, 0, cx], [0, fy, cy], [0, 0, 1]])
+        mat, mask = cv2.findEssentialMat(corresponding1, corresponding2, K)
         n, rot, t, mask = cv2.recoverPose(mat, corresponding1, corresponding2, K)
         cam1.heading_deg = 0
         cam1.tilt_deg = 0
-- 
2.43.0


From 9818a089a7c09fb87f6ac8100fe1669145f60404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 68/70] fix: plotEpilines fails for points whose epipolar line
 is outside the image

---
 cameratransform/camera.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 66a2fbe..871007a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -377,9 +377,8 @@ class CameraGroup(ClassWithParameterSet):
             if x_min < x_y_max < x_max:
                 points.append([x_y_max, y_max])
 
-            if len(points) == 0:
-                return
-            points = np.array(points)
+            # (no points if the line is outside the image)
+            points = np.array(points).reshape(-1, 2)
             p, = plt.plot(points[:, 0], points[:, 1], "-")
             return p
 
-- 
2.43.0


From 38ab3f3fc4bd8dd33248be105c42f054f2f7a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:07 +0000
Subject: [PATCH 69/70] fix: correspondence errors are nan if one camera is 1 m
 or 2 m ahead of the other

---
 cameratransform/camera.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 871007a..b487c03 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -261,6 +261,16 @@ class CameraGroup(ClassWithParameterSet):
             return np.sum(stats.norm(loc=target_baseline, scale=uncertainty).logpdf(self.getBaseline()))
         self.log_prob.append(baselineInformation)
 
+    def _getEpipolarPoints(self, i, points):
+        # get the rays of the points in the image of camera i
+        world_epipole, world_ray = self[i].getRay(points)
+        # project points on the rays to the image of the other camera
+        p1, p2, p3 = [self[1 - i].imageFromSpace(world_epipole + world_ray * distance, hide_backpoints=False) for distance in [1, 2, 3]]
+        # a point in the plane of the other camera has no image, replace it by another point on the same ray
+        p1 = np.where(np.isfinite(p1).all(axis=-1)[..., None], p1, p3)
+        p2 = np.where(np.isfinite(p2).all(axis=-1)[..., None], p2, p3)
+        return p1, p2
+
     def addPointCorrespondenceInformation(self, corresponding1, corresponding2, uncertainty=1):
         # use copies, the caller may change his arrays later
         corresponding1, corresponding2, uncertainty = np.array(corresponding1), np.array(corresponding2), np.array(uncertainty)
@@ -270,11 +280,8 @@ class CameraGroup(ClassWithParameterSet):
             corresponding = [corresponding1, corresponding2]
             # iterate over cam1 -> cam2 and cam2 -> cam1
             for i in [0, 1]:
-                # get the ray from the correspondences in the first camera's image
-                world_epipole, world_ray = self[i].getRay(corresponding[i])
-                # project them to the image of the second camera
-                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
-                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
+                # get two points of the epipolar lines in the second camera's image
+                p1, p2 = self._getEpipolarPoints(i, corresponding[i])
                 # find the perpendicular point from the epipolar lines to the correspondes point
                 perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
                 # calculate the distances
@@ -292,11 +299,8 @@ class CameraGroup(ClassWithParameterSet):
         distances_list = []
         # iterate over cam1 -> cam2 and cam2 -> cam1
         for i in [0, 1]:
-            # get the ray from the correspondences in the first camera's image
-            world_epipole, world_ray = self[i].getRay(corresponding[i])
-            # project them to the image of the second camera
-            p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
-            p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
+            # get two points of the epipolar lines in the second camera's image
+            p1, p2 = self._getEpipolarPoints(i, corresponding[i])
             # find the perpendicular point from the epipolar lines to the correspondes point
             perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
             # calculate the distances
-- 
2.43.0


From 229f9274a231dd3c363516f7fd3f1c065572e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 70/70] fix: an additional parameter shared by several terms
 was sampled several times

---
 cameratransform/camera.py        | 4 ++--
 cameratransform/parameter_set.py | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b487c03..c42c0dc 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -569,7 +569,7 @@ class Camera(ClassWithParameterSet):
         points_feet, points_head, height = np.array(points_feet), np.array(points_head), np.array(height)
         if not only_plot:
             if hasattr(variation, "value"):
-                self.additional_parameters += [variation]
+                self._addAdditionalParameters([variation])
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
                     height_distribution = stats.norm(loc=height, scale=variation.value)
@@ -639,7 +639,7 @@ class Camera(ClassWithParameterSet):
         points_front, points_back, length = np.array(points_front), np.array(points_back), np.array(length)
         if not only_plot:
             if hasattr(variation, "value"):
-                self.additional_parameters += [variation]
+                self._addAdditionalParameters([variation])
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
                                       variation=variation, Z=Z):
diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 6aa0a7c..d2bc284 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -227,7 +227,13 @@ class ClassWithParameterSet(object):
         """
         self.log_prob.append(logProbability)
         if additional_parameters is not None:
-            self.additional_parameters += list(additional_parameters)
+            self._addAdditionalParameters(additional_parameters)
+
+    def _addAdditionalParameters(self, parameters):
+        # several terms can share a parameter, which is sampled only once
+        for parameter in parameters:
+            if not any(parameter is other for other in self.additional_parameters):
+                self.additional_parameters += [parameter]
 
     def clearLogProbability(self):
         self.log_prob = []
-- 
2.43.0

