From e20333f92bb663dcf2e955e5bf4c3c2cc4aae58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 01/19] fix: discover reducer and fitter modules with importlib
 (find_module is gone in Python 3.12)

---
 CHECLabPy/spectrum_fitters/__init__.py  | 3 ++-
 CHECLabPy/waveform_reducers/__init__.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..d5ba34a 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -6,9 +6,10 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
 for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+    module = import_module("{}.{}".format(__name__, name))
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..9e5777c 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -13,12 +13,13 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
 for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+    module = import_module("{}.{}".format(__name__, name))
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From ad706c97e3cc897166f4d9a0b91321ccbd008b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 02/19] fix: use the builtin bool/int instead of the removed
 numpy aliases

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 CHECLabPy/core/io/simtel.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From 07d48e056ff0429b98abc9e32ca8c871322648b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 03/19] fix: obtain the DL1 generation date with
 pd.Timestamp.now (pd.datetime is gone)

---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..132641f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -138,7 +138,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=pd.Timestamp.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From 054d292b6f6e9edbb17286b4208a3383b2e56804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 04/19] fix: do not divide by zero in apply_t_cor when the
 correction is a whole number of samples

---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From baebed30d7be24ca4dab6635dc719272a37d6548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 05/19] fix: keep the peak neighbours of extract_pulse_time
 inside the waveform

---
 CHECLabPy/waveform_reducers/cross_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..88c3dce 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,9 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if not 0 < peak_index < n_samples - 1:
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From b01690425ca09605d9b84a000d4eb574ecb89aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 06/19] fix: apply loaded and updated initial parameters in the
 next spectrum fit

---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..3516c03 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -162,6 +162,7 @@ class SpectrumFitter:
                     param.limits = tuple(d['limits'].pop(param.name, param.limits))
                 if 'fixed' in d:
                     param.fixed = d['fixed'].pop(param.name, param.fixed)
+            self.parameters._prepare_parameters()
             if 'initial' in d and not d['initial']:
                 d.pop('initial')
             if 'limits' in d and not d['limits']:
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters._prepare_parameters()
 
     def apply(self, *charges):
         """
-- 
2.43.0


From dbfcb2abbb4df016b68152f3510cbb91aaa219a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 07/19] fix: reduce a per-pixel bad_hv mask to superpixels and
 always return the DACs in shape (32, 16)

---
 CHECLabPy/calib/amplitude_matcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..e927309 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            current_dac = self.current_dac.reshape((32, 16))
+            return current_dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From 92f08f9c3785db150faafc15395cf94ef937a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 08/19] fix: use the event index of the waveforms in
 obtain_dead_pixel_list_r1

---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..9baae33 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -169,7 +169,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From c74bb2440c095d7c2a257833c77ff44af7e563d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 09/19] fix: read the mapping metadata as the dict that it is

---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 CHECLabPy/utils/mapping.py      | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 69566e0d975f0a39495021f21cdb38cc59538140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 10/19] fix: set the is_r1 attribute of calibrated waveforms

---
 CHECLabPy/calib/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..8f07691 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -16,7 +16,7 @@ class WaveformCalibrator:
         fci = np.full(self.n_pixels, fci, dtype=np.uint16)
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
-        calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From 8e858b7119628f5e8ef95f4d171d6b33fb6f3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 11/19] fix: accept keys without metadata when reading a HDF5
 file

---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..facacb9 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (KeyError, AttributeError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From bc4f09c3dbbcd0c39485b761863b748bdba946ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 12/19] fix: discard the pending dataframes of a table that is
 overwritten by HDF5Writer.write

---
 CHECLabPy/core/io/hdf5_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 2383f28..287a187 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -125,6 +125,8 @@ class HDF5Writer:
         """
         for key, value in kwargs.items():
             self.keys.add(key)
+            self.df_list[key] = []
+            self.df_list_n_bytes[key] = 0
             self.store[key] = value
             self.n_bytes[key] = value.memory_usage(index=True, deep=True).sum()
 
-- 
2.43.0


From 5042176ccc4203319dbb62c024058483f209e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 13/19] fix: count the rows already in the file in the n_bytes
 written by HDF5Appender

---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From a8736c703ca31f208cb46ca3773901129bc47410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 14/19] fix: do not average unfilled entries in the
 BaselineSubtractor of short runs

---
 CHECLabPy/utils/waveform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 9baae33..e4518d4 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -18,11 +18,16 @@ class BaselineSubtractor:
         self.iev = 0
 
         self.baseline_waveforms = np.zeros((n_base, n_pixels, n_base_samples))
+        n_filled = 0
         for waveforms in source:
             iev = waveforms.iev
             if iev >= n_base:
                 break
             self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]
+            n_filled = iev + 1
+        if 0 < n_filled < n_base:  # Less events than requested
+            self.n_base = n_filled
+            self.baseline_waveforms = self.baseline_waveforms[:n_filled]
         self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))
 
     def update_baseline(self, waveforms):
-- 
2.43.0


From daac4b3ce946629fdc865588f15c339db3debc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 15/19] fix: store the extract_spe results in pixel order,
 whatever order the processes finish in

---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 95334970b190d7d70b7a0c5690e8abe23c35186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 16/19] fix: never overwrite the input waveform file with the
 DL1 file

---
 CHECLabPy/scripts/extract_dl1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 132641f..588eccc 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+import os
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -38,6 +39,9 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+        if os.path.realpath(output_path) == os.path.realpath(reader.path):
+            raise ValueError("The output path is the input file, please "
+                             "specify another: {}".format(output_path))
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0


From 0f4a0c45f2441a26365a555403f903741075f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 17/19] fix: do not divide by zero in obtain_pulse_timing for
 two equal samples at a threshold

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..ac638df 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -62,7 +62,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -71,13 +71,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi > yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi > yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From 41441ae650eb1fe1b43bc0318368b289cbe824d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 18/19] fix: keep the pulse position of obtain_pulse_timing
 inside the waveform

---
 CHECLabPy/waveform_reducers/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ac638df..fd46067 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -43,7 +43,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From 3f9bab428d54d092f74fa9b522fce04e0a594f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 19/19] fix: xlogy of zero and nan is nan (fastmath dropped the
 nan check)

---
 CHECLabPy/stats/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/stats/pdf.py b/CHECLabPy/stats/pdf.py
index dcb653c..9b1d4a7 100644
--- a/CHECLabPy/stats/pdf.py
+++ b/CHECLabPy/stats/pdf.py
@@ -46,7 +46,7 @@ def normal_pdf(x, mean, std_deviation):
     return exp(-0.5 * u ** 2) / (SQRT2PI * std_deviation)
 
 
-@vectorize([float64(float32, float64)], fastmath=True)
+@vectorize([float64(float32, float64)])  # fastmath would drop the nan check
 def xlogy(x, y):
     if x == 0 and not isnan(y):
         return 0
-- 
2.43.0

