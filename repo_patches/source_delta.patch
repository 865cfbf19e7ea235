From 90988f4e200650d947bc79bb09b0a1c6700273bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:48 +0000
Subject: [PATCH 01/31] fix: scale a normalised focal length by the maximum
 image dimension

As documented, and as in OpenSfM and OpenDroneMap, 'focal_len' without 'sensor_size' is normalised by
the maximum of sensor width and height.  It was scaled by image width, which is wrong for portrait images.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..554bc41 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -675,10 +675,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "the maximum of sensor width and height.",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From 712d9b0b85db630aea26fa6bbbbc6cb4b3b64cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:14 +0000
Subject: [PATCH 02/31] fix: avoid NaN fisheye pixel coordinates on the optical
 axis

---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 554bc41..e32ebeb 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1475,7 +1475,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # (theta_d / r tends to 1 at the optical axis, where r == 0)
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0.0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 7c722c622aad93492c23e56348ade37909636a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:10 +0000
Subject: [PATCH 03/31] fix: allow a single z in an array with RPC and GCP
 camera pixel to world transforms

---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index e32ebeb..95da7f1 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -494,7 +494,7 @@ class RpcCamera(Camera):
 
         # project from pixel to geographic / RPC coordinates, removing and replacing nans around
         # the .xy call (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1]) if np.isscalar(z) or z.shape[0] == 1 else z.copy()
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
@@ -544,7 +544,7 @@ class GcpCamera(Camera):  # pragma: no cover
 
         # project from pixel to GCP coordinates, removing and replacing nans around the .xy call
         # (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1]) if np.isscalar(z) or z.shape[0] == 1 else z.copy()
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
-- 
2.43.0


From 9d2e3fc80be5777e1e199fdcb81656a462a76548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:44 +0000
Subject: [PATCH 04/31] fix: convert rotations with a +-90 deg phi to valid
 omega, phi and kappa

---
 orthority/param_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..08d83b2 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -730,8 +730,10 @@ def _rotation_to_opk(R: np.ndarray) -> tuple[float, float, float]:
     """Convert the given rotation matrix to the (omega, phi, kappa) angles in radians."""
     # see https://s3.amazonaws.com/mics.pix4d.com/KB/documents/Pix4D_Yaw_Pitch_Roll_Omega_to_Phi_Kappa_angles_and_conversion.pdf
     omega = float(np.arctan2(-R[1, 2], R[2, 2]))
-    phi = float(np.arcsin(R[0, 2]))
-    kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    phi = float(np.arctan2(R[0, 2], np.hypot(R[1, 2], R[2, 2])))
+    # find kappa from R with omega removed, so that it is also valid when phi is close to +-90 deg
+    R_y = np.cos(omega) * R[1] + np.sin(omega) * R[2]
+    kappa = float(np.arctan2(R_y[0], R_y[1]))
     return omega, phi, kappa
 
 
-- 
2.43.0


From 2c6cbfe87374353e49209c9360cd7a412e8ba211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:32 +0000
Subject: [PATCH 05/31] fix: read Orthority GCPs without the optional id and
 info properties

---
 orthority/param_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 08d83b2..859ba72 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -540,7 +540,7 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         features=[
             dict(
                 type='Feature',
-                properties=dict(ji=[(int, float)] * 2, filename=str, id=None, info=None),
+                properties=dict(ji=[(int, float)] * 2, filename=str),
                 geometry=dict(type='Point', coordinates=[(int, float)] * 3),
             )
         ],
@@ -557,7 +557,12 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         prop_dict = feat_dict['properties']
         filename = prop_dict['filename']
         xyz = tuple(feat_dict['geometry']['coordinates'])
-        gcp = dict(ji=tuple(prop_dict['ji']), xyz=xyz, id=prop_dict['id'], info=prop_dict['info'])
+        gcp = dict(
+            ji=tuple(prop_dict['ji']),
+            xyz=xyz,
+            id=prop_dict.get('id', None),
+            info=prop_dict.get('info', None),
+        )
 
         if filename not in gcp_dict:
             gcp_dict[filename] = [gcp]
-- 
2.43.0


From 93753c3e9fa169cc5880e33fd57f51d0f30d3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:57 +0000
Subject: [PATCH 06/31] fix: read cameras with a 'camera' ID from Orthority
 interior parameter files

---
 orthority/param_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 859ba72..7a7ac91 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -250,14 +250,15 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         int_param.update(**yaml_param)
         return int_param
 
-    # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    # warn if in original simple-ortho format (as distinct from a camera with a 'camera' ID)
+    legacy_dict = yaml_dict.get('camera', None) if isinstance(yaml_dict, dict) else None
+    if isinstance(legacy_dict, dict) and ('ortho' in yaml_dict or 'name' in legacy_dict):
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
             category=FutureWarning,
         )
-        yaml_dict = yaml_dict['camera']
+        yaml_dict = legacy_dict
 
     # convert to nested dict if in flat / simple-ortho format
     first_value = next(iter(yaml_dict.values()))
-- 
2.43.0


From 0043950cc19253129ff11bad7547609bc932fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 07/31] fix: raise ParamError for interior parameter files with
 invalid structure or value types

---
 orthority/param_io.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7a7ac91..7626f59 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -68,6 +68,17 @@ _default_lla_crs = CRS.from_epsg(4979)
 """Default CRS for geographic camera coordinates."""
 
 
+def _validate_frame_values(param: dict, cam_id: str) -> None:
+    """Validate the types of the given frame camera interior parameter values."""
+    for key, value in param.items():
+        is_pair = key in ['im_size', 'sensor_size'] or key == 'focal_len' and isinstance(value, list)
+        schema = [(int, float)] * 2 if is_pair else (int, float)
+        try:
+            common.validate_collection(schema, value)
+        except (TypeError, ValueError) as ex:
+            raise ParamError(f"Invalid '{key}' value for camera '{cam_id}': {ex!s}") from ex
+
+
 def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
     """Read interior parameters from the ``cameras`` section of an OpenDroneMap / OpenSfM JSON
     dictionary.
@@ -81,12 +92,13 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = json_param.pop('projection_type')
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
-        except ValueError:
+        except (ValueError, AttributeError):
             raise ParamError(f"Unsupported projection type '{proj_type}'.")
 
+        _validate_frame_values(json_param, cam_id)
         im_size = (json_param.pop('width'), json_param.pop('height'))
         int_param['im_size'] = im_size
 
@@ -227,16 +239,17 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # convert type -> cam_type
-        cam_type = yaml_param.pop('type').lower()
+        cam_type = str(yaml_param.pop('type')).lower()
         if cam_type not in CameraType.__members__ or cam_type == 'rpc':
             raise ParamError(f"Unsupported frame camera type '{cam_type}'.")
         int_param = dict(cam_type=CameraType(cam_type))
 
-        int_param['im_size'] = tuple(yaml_param.pop('im_size'))
-
         # pop known legacy keys not supported by Camera.__init__
         yaml_param.pop('name', None)
 
+        _validate_frame_values(yaml_param, cam_id)
+        int_param['im_size'] = tuple(yaml_param.pop('im_size'))
+
         # set focal_len & sensor_size
         focal_len = yaml_param.pop('focal_len')
         int_param['focal_len'] = tuple(focal_len) if isinstance(focal_len, list) else focal_len
@@ -261,6 +274,8 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         yaml_dict = legacy_dict
 
     # convert to nested dict if in flat / simple-ortho format
+    if not isinstance(yaml_dict, dict) or len(yaml_dict) == 0:
+        raise ParamError(f"Could not parse '{filename}': no camera parameters found.")
     first_value = next(iter(yaml_dict.values()))
     if not isinstance(first_value, dict):
         cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
-- 
2.43.0


From 3f7949f9e44dfedaa0096249cefba7992da59502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:01 +0000
Subject: [PATCH 08/31] fix: raise ParamError for OpenSfM interior parameter
 files without a cameras section

---
 orthority/param_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7626f59..a0b7f64 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -318,8 +318,8 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
-        json_dict = json_dict[0]['cameras']
+    if isinstance(json_dict, list) and len(json_dict) == 1 and isinstance(json_dict[0], dict):
+        json_dict = json_dict[0].get('cameras', None)
 
     try:
         int_param_dict = _read_osfm_int_param(json_dict)
-- 
2.43.0


From 2fd4b9981e3a44e3e525ab00a6ac2d92a97a8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:35 +0000
Subject: [PATCH 09/31] fix: raise ParamError for CSV files with missing or
 invalid values

---
 orthority/param_io.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index a0b7f64..28ef1cb 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -964,7 +964,7 @@ class CsvReader(FrameReader):
     """
 
     _type_schema = dict(
-        filename=str,
+        filename=lambda x: Path(x).name,
         x=float,
         y=float,
         z=float,
@@ -1065,12 +1065,15 @@ class CsvReader(FrameReader):
 
         # auto-detect dialect if not provided
         sniffer = Sniffer()
-        if not dialect:
-            dialect = sniffer.sniff(sample, delimiters=',;: \t')
-            dialect.skipinitialspace = True
-
-        # find field names and parse to determine format
-        has_header = sniffer.has_header(sample)
+        try:
+            if not dialect:
+                dialect = sniffer.sniff(sample, delimiters=',;: \t')
+                dialect.skipinitialspace = True
+
+            # find field names and parse to determine format
+            has_header = sniffer.has_header(sample)
+        except csv.Error as ex:
+            raise ParamError(str(ex)) from ex
         if not fieldnames:
             if has_header:  # read field names from header
                 fieldnames = next(iter(csv.reader(sample.splitlines(), dialect=dialect)))
@@ -1081,6 +1084,14 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
+    def _convert_types(self, row: dict[str, str]) -> dict[str, Any]:
+        """Return a dictionary of the recognised fields in ``row``, converted to their types."""
+        try:
+            return {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+        except (TypeError, ValueError) as ex:
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
+
     def _find_lla_rpy_crs(self) -> CRS:
         """Return a UTM CRS covering the mean of the camera positions in a
         :attr:`~CsvFormat.lla_rpy` format file.
@@ -1091,10 +1102,12 @@ class CsvReader(FrameReader):
         if self._has_header:
             _ = next(iter(reader))
         for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+            row = self._convert_types(row)
             latlon = (row['latitude'], row['longitude'])
             latlons.append(latlon)
 
+        if len(latlons) == 0:
+            raise ParamError(f"No positions found in '{common.get_filename(self._file)}'.")
         mean_latlon = np.array(latlons).mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
 
@@ -1172,8 +1185,8 @@ class CsvReader(FrameReader):
             _ = next(iter(reader))
 
         for row in reader:
-            filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+            row = self._convert_types(row)
+            filename = row['filename']
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From e9b110d746b5c03efb56e6727745b52b110cd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:04 +0000
Subject: [PATCH 10/31] fix: resolve the default nodata value in
 Camera.remap(), FrameCamera.remap() and FrameCamera.read()

---
 orthority/camera.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 95da7f1..9412fbe 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1097,6 +1097,8 @@ class FrameCamera(Camera):
               bands.  Same data type as ``im_array``.
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
+        if nodata is None and str(image.dtype) in common._nodata_vals:
+            nodata = common._nodata_vals[str(image.dtype)]
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
 
         # remove blurring with nodata pixels when necessary
@@ -1109,8 +1111,6 @@ class FrameCamera(Camera):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
 
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From d444288a87e080157c625f9f9fbd9cd15fd44238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:04 +0000
Subject: [PATCH 11/31] fix: resolve the default write_mask from the creation
 options when they are supplied

---
 orthority/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..045bc7d 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -488,7 +488,10 @@ def create_profile(
 
     # resolve auto write_mask (=None) to write masks for jpeg compression
     if write_mask is None:
-        write_mask = True if compress == Compress.jpeg else False
+        if len(creation_options) > 0:
+            # compress is ignored when there are creation options
+            compress = {k.lower(): v for k, v in creation_options.items()}.get('compress')
+        write_mask = str(compress).lower() == Compress.jpeg.value
 
     # set nodata to None when writing internal masks to force external tools to use mask,
     # otherwise set by dtype
-- 
2.43.0


From c9212a4c51b42819c4986aa6a552683258992491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:55 +0000
Subject: [PATCH 12/31] fix: avoid NaN pan-sharpened bands with duplicate
 multispectral indexes

---
 orthority/pan_sharp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..e2f1999 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -373,8 +373,9 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by zero with canonical weight vectors, and
+                    # linearly dependent (e.g. duplicate) bands
+                    coeffs[k][l] = num / den if den > 0 else 0
 
             return coeffs
 
-- 
2.43.0


From 1e959255c8e9ebdad6af980e3096e729cfd3fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:36 +0000
Subject: [PATCH 13/31] fix: raise an error when there are no positive
 multispectral to pan weights

---
 orthority/pan_sharp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index e2f1999..4f825cd 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -323,7 +323,7 @@ class PanSharpen:
             if weights is None:
                 # find the LS solution for the weights as described in section 2.2 & eq 6
                 weights = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:].reshape(-1, 1), rcond=None)[0]
-                weights = weights.squeeze()
+                weights = weights.flatten()
 
                 # redo the LS without negatively weighted bands if there are any
                 if np.any(weights < 0):
@@ -353,6 +353,8 @@ class PanSharpen:
                     category=OrthorityWarning,
                 )
                 weights = weights.clip(0, None)
+            if not weights.sum() > 0:
+                raise OrthorityError('Weights should contain at least one positive value.')
             return weights / weights.sum()
 
         def get_gs_coeffs(cov: np.ndarray, weights: np.ndarray) -> list[np.ndarray]:
-- 
2.43.0


From c1a2452ed6bb0872f79c57f496a394165a52d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:16 +0000
Subject: [PATCH 14/31] fix: keep pan-sharpening grids within the pan and
 multispectral images

---
 orthority/pan_sharp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 4f825cd..ab1aea3 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -133,12 +133,14 @@ class PanSharpen:
                     raise OrthorityError('Pan and multispectral bounds do not overlap.')
                 pan_win = ms_win_.intersection(pan_ds.window(*pan_ds.bounds))
                 pan_win = common.expand_window_to_grid(pan_win)
+                pan_win = pan_win.intersection(Window(0, 0, pan_ds.width, pan_ds.height))
 
                 # find shared bounds MS window
                 pan_bounds_ = transform_bounds(pan_ds.crs, ms_ds.crs, *pan_ds.bounds)
                 pan_win_ = ms_ds.window(*pan_bounds_)
                 ms_win = pan_win_.intersection(ms_ds.window(*ms_ds.bounds))
                 ms_win = common.expand_window_to_grid(ms_win)
+                ms_win = ms_win.intersection(Window(0, 0, ms_ds.width, ms_ds.height))
 
             # test resolutions
             pan_res = np.abs((pan_src_transform[0], pan_src_transform[4]))
-- 
2.43.0


From 3de72da85967aeca10bcff9572732c665b4610a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 15/31] fix: compare pan and multispectral resolutions in the
 same CRS

---
 orthority/pan_sharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index ab1aea3..e6aaf4b 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -145,6 +145,12 @@ class PanSharpen:
             # test resolutions
             pan_res = np.abs((pan_src_transform[0], pan_src_transform[4]))
             ms_res = np.abs((ms_src_transform[0], ms_src_transform[4]))
+            if pan_ds.crs and ms_ds.crs and pan_ds.crs != ms_ds.crs:
+                # find the approximate pan resolution in the MS CRS
+                pan_bounds_ = transform_bounds(pan_ds.crs, ms_ds.crs, *pan_ds.bounds)
+                pan_res = np.array(
+                    ((pan_bounds_[2] - pan_bounds_[0]), (pan_bounds_[3] - pan_bounds_[1]))
+                ) / (pan_ds.width, pan_ds.height)
             if np.any(pan_res > ms_res):
                 raise OrthorityError(
                     f'Pan resolution: {tuple(pan_res.tolist())} exceeds multispectral resolution: '
-- 
2.43.0


From 50ccecbba619736a04210a3b85fe920d14602721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 16/31] fix: do not modify the user's io_kwargs in
 FrameCameras.from_images()

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..029320d 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -131,7 +131,7 @@ class FrameCameras(Cameras):
             :class:`~orthority.camera.FrameCamera` class. Should exclude interior and exterior
             parameters which are passed internally.
         """
-        io_kwargs = io_kwargs or {}
+        io_kwargs = dict(io_kwargs or {})
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-- 
2.43.0


From a5aa0eb718ec5cbb818e32bbdb28e05a6f442808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 17/31] fix: recreate RPC cameras that were found by stem after
 refinement

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 029320d..1effc7a 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -354,7 +354,7 @@ class RpcCameras(Cameras):
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
+                self._cameras.clear()  # force camera recreation
                 rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
-- 
2.43.0


From 5feebd20d055dd68c76d07a5b7b683c2af19a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 18/31] fix: do not modify the user's RPC parameters when
 refining

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 1effc7a..c7eabed 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -269,7 +269,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy so that refine() does not modify the user's parameters
+            self._rpc_param_dict = {k: dict(v) for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From 87a6ea71bbddf4481e0d427ece65d8d642a19ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:52 +0000
Subject: [PATCH 19/31] fix: find the UTM zone of camera positions that span
 the antimeridian

---
 orthority/param_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 28ef1cb..acbfb2b 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1108,8 +1108,9 @@ class CsvReader(FrameReader):
 
         if len(latlons) == 0:
             raise ParamError(f"No positions found in '{common.get_filename(self._file)}'.")
-        mean_latlon = np.array(latlons).mean(axis=0)
-        return common.utm_crs_from_latlon(*mean_latlon)
+        # unwrap longitudes to get the correct mean when positions span the antimeridian
+        lats, lons = np.array(latlons).T
+        return common.utm_crs_from_latlon(lats.mean(), np.unwrap(lons, period=360).mean())
 
     def _get_crs(self) -> CRS:
         """Read / auto-determine and validate a CRS when no user CRS was supplied."""
@@ -1377,8 +1378,9 @@ class ExifReader(FrameReader):
                 raise ParamError(f"No latitude, longitude & altitude tags in '{e.filename}'.")
             llas.append(e.lla)
 
-        mean_latlon = np.array(llas)[:, :2].mean(axis=0)
-        return common.utm_crs_from_latlon(*mean_latlon)
+        # unwrap longitudes to get the correct mean when positions span the antimeridian
+        lats, lons = np.array(llas)[:, :2].T
+        return common.utm_crs_from_latlon(lats.mean(), np.unwrap(lons, period=360).mean())
         # return CRS.from_proj4(f'+proj=ortho +lat_0={mean_latlon[0]} +lon_0={mean_latlon[1]}'
 
     def read_int_param(self) -> dict[str, dict[str, Any]]:
-- 
2.43.0


From 322b69419f99892bb0716b829cf73c31a517e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:52 +0000
Subject: [PATCH 20/31] fix: find the .prj sidecar of CSV files without an
 extension

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index acbfb2b..8a4555f 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1119,7 +1119,7 @@ class CsvReader(FrameReader):
         if self._format is CsvFormat.xyz_opk or self._format is CsvFormat.xyz_rpy:
             if self._ofile:
                 # read CRS of xyz positions / opk orientations from .prj file, if it exists
-                prj_path = self._ofile.path[: self._ofile.path.rfind('.')] + '.prj'
+                prj_path = os.path.splitext(self._ofile.path)[0] + '.prj'
                 prj_name = Path(prj_path).name
                 try:
                     with self._ofile.fs.open(prj_path, 'rt') as f:
-- 
2.43.0


From b8b0cf25a6d2df49cf1d458339ac2bbf09267f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:34 +0000
Subject: [PATCH 21/31] fix: accept interpolation names in
 Camera.world_boundary()

---
 orthority/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 9412fbe..538b27d 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -153,7 +153,9 @@ class Camera(ABC):
             # nan outside its bounds and for already masked / nan pixels)
             zsurf_ji = np.array(inv_transform * ray_xyz[:2]).astype('float32', copy=False)
             zsurf_z = np.full((zsurf_ji.shape[1],), dtype=z.dtype, fill_value=float('nan'))
-            cv2.remap(z, *zsurf_ji, interp.to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
+            cv2.remap(
+                z, *zsurf_ji, Interp[interp].to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT
+            )
 
             # store the first ray-z intersection point if it exists, otherwise the z_min point
             zsurf_min_xyz = ray_xyz[:, -1]
-- 
2.43.0


From 9831d90f1212aa4f289ce09819d1bcfc969d3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:34 +0000
Subject: [PATCH 22/31] fix: include the minimum height in vertical rays

---
 orthority/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 538b27d..4473a13 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -141,9 +141,10 @@ class Camera(ABC):
             src_pt, start_xyz, stop_xyz = ji[:, pi], max_xyz[:, pi], min_xyz[:, pi]
 
             # create world points along the src_pt ray with (x, y) stepsize <= z resolution,
-            # if num points <= max_ray_steps, else max_ray_steps points
+            # if num points <= max_ray_steps, else max_ray_steps points (at least 2 so that vertical
+            # rays include min_z)
             ray_steps = np.abs((stop_xyz - start_xyz)[:2].squeeze() / (transform[0], transform[4]))
-            ray_steps = min(np.ceil(ray_steps.max()).astype('int') + 1, max_ray_steps)
+            ray_steps = min(max(np.ceil(ray_steps.max()).astype('int') + 1, 2), max_ray_steps)
             ray_z = np.linspace(max_z, min_z, ray_steps)
             # TODO: for frame cameras, linspace rather than pixel_to_world_z can be used to form
             #  the ray
-- 
2.43.0


From 9f998f327933c602276af1f7ce390d69085b4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:34 +0000
Subject: [PATCH 23/31] fix: do not intersect rays with height 0 outside of
 integer DEMs

---
 orthority/camera.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orthority/camera.py b/orthority/camera.py
index 4473a13..7cf5df0 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -117,6 +117,10 @@ class Camera(ABC):
         if np.any(np.array(z.shape[-2:]) > Camera._shrt_max):
             raise ValueError(f"'z' width and height should be less than {Camera._shrt_max} pixels.")
 
+        if not np.issubdtype(z.dtype, np.floating):
+            # convert to float so that nan can represent points outside z
+            z = z.astype('float32')
+
         # create a transform from world (x, y) to center (j, i) pixel coordinates
         # TODO: see if an opencv or numpy equiv affine transform is faster (here, and all places
         #  rio.Affine is used)
-- 
2.43.0


From 8005fe1accd1f01106e935613f01bf2e744de08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 24/31] fix: fit frame cameras to images with different numbers
 of GCPs

---
 orthority/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..df58f1d 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -200,7 +200,7 @@ def _fit_frame(
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
 
     # check if GCPs are co-planar (replicates OpenCV's test)
-    zs = np.vstack([xyz[:, 2] for xyz in xyzs])
+    zs = np.hstack([xyz[:, 2] for xyz in xyzs])
     z_mean, z_std = np.mean(zs), np.std(zs)
     if z_mean > 1e-5 or z_std > 1e-5:
         raise ValueError('GCPs should be co-planar to fit interior parameters.')
-- 
2.43.0


From b43c9a27c0538248261045d80a5039272963c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:52 +0000
Subject: [PATCH 25/31] fix: fit fisheye exterior parameters with the fisheye
 model

---
 orthority/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index df58f1d..f1c7cfe 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -346,6 +346,7 @@ def fit_frame_exterior(
     dist_names = _frame_dist_params[int_param['cam_type']]
     dist_param = [int_param.get(dn, 0.0) for dn in dist_names]
     dist_param = np.array(dist_param) if dist_param else None
+    cv_dist_param = dist_param if int_param['cam_type'] != CameraType.fisheye else None
 
     # convert GCPs to OpenCV compatible lists of arrays
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
@@ -353,7 +354,10 @@ def fit_frame_exterior(
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-        _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
+        if int_param['cam_type'] == CameraType.fisheye:
+            # cv2.solvePnP() does not support the fisheye model, so pass it undistorted pixels
+            ji = cv2.fisheye.undistortPoints(ji[:, None], K, dist_param, P=K)
+        _, r, t = cv2.solvePnP(xyz, ji, K, cv_dist_param, flags=cv2.SOLVEPNP_SQPNP)
         xyz_, opk = param_io._cv_ext_to_oty_ext(t, r, ref_xyz=ref_xyz)
         ext_param_dict[filename] = dict(xyz=xyz_, opk=opk, camera=cam_id)
 
-- 
2.43.0


From 08c137d7c0c296fc2c78756d3f9d8702be6827eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:56 +0000
Subject: [PATCH 26/31] fix: use each source image's own CRS when there is no
 other in oty commands

---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..529c36e 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                ortho_crs = crs or src_im.crs
+                if not ortho_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, ortho_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From b3886eb6da8449898127ef16478be641baabfcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:37 +0000
Subject: [PATCH 27/31] fix: write simple-ortho images to their own source
 directories by default

---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 529c36e..ab735f4 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1340,8 +1340,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                out_dir = src_filename.parent if not ortho_dir else ortho_dir
+                ortho_filename = Path(out_dir).joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0


From acada8847a38ae213bed1877bbf6c025adc63d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:28 +0000
Subject: [PATCH 28/31] fix: avoid garbage pan-sharpened bands with zero
 weights

---
 orthority/pan_sharp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index e6aaf4b..ea6ede5 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -383,9 +383,10 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors, and
-                    # linearly dependent (e.g. duplicate) bands
-                    coeffs[k][l] = num / den if den > 0 else 0
+                    # the 'if' below avoids dividing by zero, or by rounding error, with canonical
+                    # or zero weights, and linearly dependent (e.g. duplicate) bands
+                    min_den = 1e-10 * cov[l - 1, l - 1] if l > 0 else 0
+                    coeffs[k][l] = num / den if den > min_den else 0
 
             return coeffs
 
-- 
2.43.0


From 1c53812ebe0888bbcf78d496081f1c758c729ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 29/31] fix: keep world CRSs that only resemble an EPSG CRS in
 exterior parameter files

---
 orthority/param_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 8a4555f..07105f3 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -660,7 +660,11 @@ def write_ext_param(
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
         feat_list.append(feat_dict)
 
-    json_dict = dict(type='FeatureCollection', world_crs=crs.to_string(), features=feat_list)
+    # use WKT if rasterio's CRS string is for a similar, but different CRS
+    crs_str = crs.to_string()
+    if CRS.from_string(crs_str) != crs:
+        crs_str = crs.to_wkt()
+    json_dict = dict(type='FeatureCollection', world_crs=crs_str, features=feat_list)
 
     with common.Open(file, 'wt', overwrite=overwrite) as f:
         json.dump(json_dict, f, indent=4)
-- 
2.43.0


From 143dcb98e6cb2116e2a6d1ac71f8b2f11a70d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:43 +0000
Subject: [PATCH 30/31] fix: mask pan-sharpening pixels with nodata in some
 multispectral bands

---
 orthority/pan_sharp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index ea6ede5..92347ce 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -187,6 +187,9 @@ class PanSharpen:
                 profile.update(
                     dtype=PanSharpen._working_dtype,
                     nodata=PanSharpen._working_nodata,
+                    # mask each band by its own nodata (GDAL's default treats pixels with nodata in
+                    # some, but not all bands, as valid)
+                    UNIFIED_SRC_NODATA='NO',
                     num_threads=os.cpu_count(),
                 )
         return profiles
-- 
2.43.0


From 4d51b7c21ffb8eccf770f7609434d292627c0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:49 +0000
Subject: [PATCH 31/31] fix: include land below sea level in the DEM window of
 an ortho

---
 orthority/ortho.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..aa671dc 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -82,6 +82,9 @@ class Ortho:
     # Maximum possible ellipsoidal height i.e. approx. that of Everest (meters)
     _z_max = 8850.0
 
+    # Minimum possible land height i.e. approx. that of the Dead Sea shore (meters)
+    _z_min = -450.0
+
     def __init__(
         self,
         src_file: str | PathLike | OpenFile | rio.DatasetReader,
@@ -171,7 +174,10 @@ class Ortho:
                 return common.expand_window_to_grid(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
-            zs = np.array([self._egm_minmax[0], self._z_max + self._egm_minmax[1]]) * z_scale
+            zs = (
+                np.array([self._z_min + self._egm_minmax[0], self._z_max + self._egm_minmax[1]])
+                * z_scale
+            )
             dem_win = get_win_at_zs(zs)
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
-- 
2.43.0

