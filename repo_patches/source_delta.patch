From 6e76ee742ce96edeef0a535612c20ef6ca6ca49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 01/32] fix: round_significant uses the removed numpy alias
 np.int

Every comparison of compare_xml failed with numpy >= 1.24.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From f3765441874689beaef4f1e1e02cc53224407a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 02/32] fix: xml_to_dict cannot load the XML from a string

etree.ElementTree is a function in lxml and has no fromstring.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From 90ab91b2e1f3e2f7496bb4c761466adbd1de9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 03/32] fix: xml_to_dict fails on an empty data array

---
 src/emva1288/process/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..1c453f4 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -491,8 +491,8 @@ def xml_to_dict(xml):
             if 'data' in value:
                 for data in value['data']:
                     v = value['data'][data]
-                    v = v.strip()
-                    v = v.split()
+                    # the text of an empty array is None
+                    v = (v or '').split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
             else:
                 v = value['value']
-- 
2.43.0


From b94642db5d993a44c0782117f0c445854319f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 04/32] fix: Histogram1288 counts the masked pixels

---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 1c453f4..9c0ef0c 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -297,7 +297,8 @@ def Histogram1288(img, Qmax):
 #         H[q] += 1
 #############################################
 
-    H, _b = np.histogram(y, B, range=(ymin, ymax))
+    # np.histogram ignores the mask of a masked array
+    H, _b = np.histogram(np.ma.compressed(y), B, range=(ymin, ymax))
 
     return {'bins': np.asarray(B[:-1], dtype=np.float64), 'values': H, 'model': normal}
 
-- 
2.43.0


From e70e557cf7c8bc64c7f8da075bc2da5a2dda6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 05/32] fix: accumulated histograms are percentages of the
 valid pixels

The masked pixels are not in the histogram and must not be in the total.
---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..89bea86 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
-- 
2.43.0


From e71186f10f0cd59f0e5a0e16fb1f9d6cc0a56cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 06/32] fix: a forced saturation index of 0 is ignored

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 89bea86..a993c5b 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -91,7 +91,7 @@ class Results1288(object):
             :Short: Saturation index
         """
 
-        if self._index_u_ysat:
+        if self._index_u_ysat is not None:
             return self._index_u_ysat
 
         max_ = 0
-- 
2.43.0


From b2158500d674d7968ab6c411dacde2012bd66d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 07/32] fix: Plotting1288 plots only the last of its tests

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 6b4a332521544e892c6845633794336ba704b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 08/32] fix: DSNU spectrograms are scaled by the number of dark
 images

---
 src/emva1288/process/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..c58842b 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -416,7 +416,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -485,7 +485,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
-- 
2.43.0


From a3e606aee2dc7329f37113a1036b91a7893ad347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 09/32] fix: Qe raises TypeError instead of its dimensions
 mismatch error

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..bd09c57 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,8 +230,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             self._qe *= filter
-- 
2.43.0


From eac016db84788b4ba1e2c4f7984ba880e159e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 10/32] fix: Qe applies its filter in place to the array of the
 caller

---
 src/emva1288/camera/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index bd09c57..c427d03 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -234,7 +234,8 @@ class Qe(object):
                               (self._height, self._width, len(self._w))))
 
         if filter is not None:
-            self._qe *= filter
+            # do not alter the array of the caller
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From c6c1f3f81c0a72cd9bac45b2c249253790b3b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 11/32] fix: bayer filter is too small for odd image sizes

---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index c427d03..c2bd506 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,9 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    # one more repetition to cover sizes that are not a multiple of the pattern
+    tile = np.tile(array, (-(-height // h), -(-width // w), 1))
+    return tile[:height, :width]
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From 56d52afe7987d1595a59f84262e033d5fd0f30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 12/32] fix: get_radiance_for uses the thermal signal of
 another exposure time

The thermal signal must be the one at the exposure time that was asked for.
---
 src/emva1288/camera/camera.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..bd2cdac 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -346,11 +346,13 @@ class Camera(object):
         u_e *= self._prnu
         return u_e
 
-    def _u_therm(self, temperature=None):
+    def _u_therm(self, temperature=None, exposure=None):
         """
         Mean number of electrons due to temperature.
         """
-        u_d = self._u_i(temperature=temperature) * self.exposure / (10 ** 9)
+        if exposure is None:
+            exposure = self.exposure
+        u_d = self._u_i(temperature=temperature) * exposure / (10 ** 9)
         return u_d
 
     def _u_i(self, temperature=None):
@@ -390,7 +392,7 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_therm(exposure=exposure)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 368813b3a99b234accc985f821dce4b9c7d5485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 13/32] fix: PointsGenerator ignores radiance_min and
 radiance_max

---
 src/emva1288/camera/points_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..a936844 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -73,8 +73,10 @@ class PointsGenerator:
             self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From 1c1837c2cbdb77d98fdc92dd15d3eb9dba8b07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/32] fix: bad_pixel may select the same pixel more than once

---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..acada45 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From 0a36631e157d1e2c16b8c7eb2a5f063aad0afafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 15/32] fix: Report1288 modifies the dictionaries of the caller

A second report from the same dictionaries could not find its files.
---
 src/emva1288/report/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..2253950 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,8 +202,9 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
+        # copies, the paths are changed to those of the report's files
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
-- 
2.43.0


From 9845e983ee47f8f685d9ff58fa3f677badbeb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 16/32] fix: a descriptor that is not text raises TypeError

---
 src/emva1288/process/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..978e93d 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -235,7 +235,8 @@ class ParseEmvaDescriptorFile(object):
         try:
             self._lines = [x.strip() for x in f.readlines() if x.strip() and
                            not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
+            raise UnicodeDecodeError(e.encoding, e.object, e.start, e.end,
+                                     "File: '%s', has non-utf8 characters."
                                      "Find them and kill them!" % filename)
-- 
2.43.0


From 5cf3a5e4d62bcd6bc7a4b2ec79bef07f0cba8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 17/32] fix: a saturation at the second point is reported at
 the first

---
 src/emva1288/process/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index a993c5b..ec269fe 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -101,13 +101,13 @@ class Results1288(object):
         # noise pics that really bother the computation
         s2_y = self.temporal['s2_y']
         for i in range(len(s2_y) - 1, -1, -1):
-            # Check that is not a local max
+            # Check that is not a local max (the first point has no previous)
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (s2_y[max(i - 1, 0)] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-                 (s2_y[abs(i - 1)] < max_):
+                 (s2_y[max(i - 1, 0)] < max_):
                 break
 
         self._index_u_ysat = max_i
-- 
2.43.0


From 80ec9b17147fb2fd889833fa7ffca56e66ec3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 18/32] fix: Histogram1288 overflows for images of small
 integer types

---
 src/emva1288/process/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 9c0ef0c..7121026 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -252,8 +252,9 @@ def GetFrecs(fft):
 def Histogram1288(img, Qmax):
     y = np.ravel(img)
 
-    ymin = np.min(y)
-    ymax = np.max(y)
+    # as python numbers, those of small image types would overflow
+    ymin = np.min(y).item()
+    ymax = np.max(y).item()
 
     # Because we are working with integers, minimum binwidth is 1
     W = 1
-- 
2.43.0


From 2dfebe4164f766c67a2ae81b5f287db5fbe59dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 19/32] fix: dark profiles are divided by the number of bright
 images

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index c58842b..cbbc455 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -693,7 +693,7 @@ class ProfileBase(Emva1288Plot):
 
         L = test.spatial['L']
         bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From 39435e4fb3ae2cbfa1074734c0262f7d00edc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 20/32] fix: compare_xml takes a single value for equal to an
 array of it

---
 src/emva1288/process/routines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 7121026..3c905a4 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -595,8 +595,10 @@ def compare_xml(x1, x2, filename=None):
                     # loop throught the keys
                     for k in k1:
                         try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
+                            # arrays of other lengths would be broadcast
+                            r = (len(a1[k]) == len(a2[k]) and
+                                 np.max(np.abs(round_array(a1[k]) -
+                                               round_array(a2[k]))) == 0.0)
                         except:
                             r = False
 
-- 
2.43.0


From a3e1ff84524daf4c0382541d00297218ac34d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 21/32] fix: compare_xml fails for empty arrays

---
 src/emva1288/process/routines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 3c905a4..ae3c101 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -517,7 +517,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
-round_array = np.vectorize(round_significant)
+round_array = np.vectorize(round_significant, otypes=[float])
 
 
 def compare_xml(x1, x2, filename=None):
@@ -597,8 +597,8 @@ def compare_xml(x1, x2, filename=None):
                         try:
                             # arrays of other lengths would be broadcast
                             r = (len(a1[k]) == len(a2[k]) and
-                                 np.max(np.abs(round_array(a1[k]) -
-                                               round_array(a2[k]))) == 0.0)
+                                 np.all(np.abs(round_array(a1[k]) -
+                                               round_array(a2[k])) == 0.0))
                         except:
                             r = False
 
-- 
2.43.0


From 45d1826ff72089cde8d0710b1e232ffacf68519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 22/32] fix: nearest_value wraps around for unsigned integers
 and rejects lists

---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index c2bd506..2d5bdf4 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -16,7 +16,9 @@ def nearest_value(value, array):
     The nearest element of `array` to `value`.
     """
     # http://stackoverflow.com/questions/2566412/find-nearest-value-in-numpy-array
-    idx = (np.abs(array - value)).argmin()
+    array = np.asarray(array)
+    # as float, differences of unsigned integers would wrap around
+    idx = (np.abs(array.astype(float) - value)).argmin()
     return array[idx]
 
 
-- 
2.43.0


From f0817c56cb52db1109d6bd2515898cb8eeae2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 23/32] fix: Report1288.add modifies the operation point of the
 caller

An operation point dictionary used for a second point or report took the
name, id, results and plots of it in the first one too.
---
 src/emva1288/report/report.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 2253950..fa33649 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -1,3 +1,4 @@
+import copy
 import jinja2
 import os
 import shutil
@@ -374,6 +375,8 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        # a copy, the caller may use the dictionary for another point
+        op = copy.deepcopy(op)
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From bc44a739bc0c004bfc7dbe9585ef31511ea66293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 24/32] fix: missing values of a report are not shown as such

The filters took only the object np.nan itself for a missing number, not a
computed NaN, and not an entry that is not in the dictionary.
---
 src/emva1288/report/report.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index fa33649..7b5bdac 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -240,16 +240,21 @@ class Report1288(object):
             comment_end_string='%#}',
             loader=jinja2.FileSystemLoader(dirname))
 
+        def ismissing(value):
+            if value is None or isinstance(value, jinja2.Undefined):
+                return True
+            return isinstance(value, float) and np.isnan(value)
+
         def missingnumber(value, precision):
             # Filter for missing numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return '-'
             t = '{:.%df}' % precision
             return t.format(value)
 
         def missingfilter(value, default='-'):
             # General filter for missing objects that are not numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return default
             return value
 
-- 
2.43.0


From dc56e632acaf7ceead7d058a5355e40f395a85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 25/32] fix: the missing plot of the marketing information is
 never used

---
 src/emva1288/report/report.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 7b5bdac..b80962b 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -300,8 +300,12 @@ class Report1288(object):
             self.marketing['missingplot'],
             'missingplot.pdf')
 
-        self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
-                                              'missingplot.pdf')
+        if self.basic['qe_plot']:
+            self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
+                                                  'missingplot.pdf')
+        else:
+            # the template takes the missing plot
+            self.basic['qe_plot'] = None
 
     def _write_file(self, name, content):
         # write content into a file
-- 
2.43.0


From 36ea7034b7c512b3a13a9b8bc2dbe1b49b7d5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 26/32] fix: PRNU spectrograms are not in percent

The axis and the levels of PRNU and of the stack are percentages of the
mean, the spectrogram was the root of the power divided by the mean.
---
 src/emva1288/process/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index cbbc455..8651313 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -382,10 +382,10 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
         data = data / test.spatial['L']
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        spectrogram = routines.FFT1288(data)
 
         ax.plot(routines.GetFrecs(spectrogram),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
@@ -450,10 +450,10 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data = test.spatial['sum'] - test.spatial['sum_dark']
         data = data / test.spatial['L']
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        spectrogram = routines.FFT1288(data, rotate=True)
 
         ax.plot((routines.GetFrecs(spectrogram)),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
-- 
2.43.0


From 508dc3d4e7f8c62f5bde49483a8f68ac85d7d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 27/32] fix: profile plots fail for masked images without
 masked pixels

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 8651313..5ac7b9f 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -658,7 +658,7 @@ class ProfileBase(Emva1288Plot):
     def _get_x_y(self, profile):
         x = np.arange(len(profile))
         if isinstance(profile, np.ma.MaskedArray):
-            masks = profile.mask
+            masks = np.ma.getmaskarray(profile)
             # Index lists of where there is masked constants
             index = [i for i in range(len(masks)) if not masks[i]]
             # chop out masked values
-- 
2.43.0


From 8160ab98c3aff528f6e4dafe860b5ce2bd512bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 28/32] fix: simulated images had the quantization noise twice

Noise between -0.5 and 0.5 DN was added to the image before it was rounded to
whole numbers, so that the variance of the quantization was 1/6 instead of the
1/12 DN^2 of the standard, and sigma_d of a simulated camera came out too
large. The rounding alone is the quantization.
---
 src/emva1288/camera/camera.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index bd2cdac..3e768e5 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -324,13 +324,10 @@ class Camera(object):
         # Analog to Digital gain
         img = self.K * img_e
 
-        # Quantization noise image
-        img_q = self._rng.uniform(-0.5, 0.5, self._shape)
-        img += img_q
-
         # Offset on the dark_signal
         img += self.blackoffset
 
+        # Quantization, the rounding is the source of the quantization noise
         np.rint(img, img)
         np.clip(img, 0, clipping_point, img)
         return img.astype(self._img_type)
-- 
2.43.0


From edb6995d4d6b1c16d11ece72075584553d2371bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 29/32] fix: axes of the accumulated histograms have the wrong
 units

---
 src/emva1288/process/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5ac7b9f..58fbae2 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -560,7 +560,7 @@ class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
 
     name = 'Accumulated log histogram DSNU'
     xlabel = 'Minimal deviation from the mean [DN]'
-    ylabel = 'Number of pixels'
+    ylabel = 'Percentage of pixels [%]'
     yscale = 'log'
 
     def plot(self, test):
@@ -579,8 +579,8 @@ class PlotAccumulatedLogHistogramPRNU(Emva1288Plot):
     '''Create Accumulated log histogram PRNU plot'''
 
     name = 'Accumulated log histogram PRNU'
-    xlabel = 'Minimal deviation from the mean [%]'
-    ylabel = 'Number of pixels'
+    xlabel = 'Minimal deviation from the mean [DN]'
+    ylabel = 'Percentage of pixels [%]'
     yscale = 'log'
 
     def plot(self, test):
-- 
2.43.0


From 1f1f9307c348016da7b920dd3f57412626944dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 30/32] fix: histogram plots of several tests are cut off at
 the last one

---
 src/emva1288/process/plotting.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 58fbae2..38be95f 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -514,6 +514,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super().setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
 
@@ -529,7 +533,9 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        # with several tests, keep the highest of them in view
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=max(self.max_values) * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -540,6 +546,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super().setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
         hist = test.histogram_PRNU
@@ -552,7 +562,9 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        # with several tests, keep the highest of them in view
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=max(self.max_values) * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0


From b637abcd34794feaa05d5b284d7fe3b16176b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 31/32] fix: plots are drawn over figures that are already open

---
 src/emva1288/process/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 38be95f..159194c 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -875,8 +875,9 @@ class Plotting1288(object):
         if not plots:
             plots = EVMA1288plots
 
-        for i, plot_cls in enumerate(plots):
-            figure = plt.figure(i)
+        for plot_cls in plots:
+            # a new figure, not one that is already open
+            figure = plt.figure()
             plot = plot_cls(figure)
             for test in self.tests:
                 plot.plot(test)
-- 
2.43.0


From ac1bb71025c29f69f2ce4fa51a97f6ae49eeff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 32/32] fix: gain for a temporal noise of 0.5 DN takes the
 noise of a difference

---
 src/emva1288/camera/dataset_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/dataset_generator.py b/src/emva1288/camera/dataset_generator.py
index d1143be..8b5b435 100644
--- a/src/emva1288/camera/dataset_generator.py
+++ b/src/emva1288/camera/dataset_generator.py
@@ -20,7 +20,8 @@ def _get_emva_gain(cam):
         g = gain
         img1 = cam.grab(0).astype(np.int64)
         img2 = cam.grab(0).astype(np.int64)
-        if (img1 - img2).std() > 0.5:
+        # the variance of the difference is twice that of an image
+        if (img1 - img2).std() / np.sqrt(2) > 0.5:
             break
     cam.K = gini
     return g
-- 
2.43.0

