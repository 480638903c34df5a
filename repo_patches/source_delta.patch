From c742ed480bf738e1116b940d51d99dd8aa53e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 01/32] fix: reslice_dataset ignored the first depth crop for
 hdf input

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..4b86ca1 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -713,7 +713,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -725,7 +725,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -749,7 +749,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -761,7 +761,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From b29e000b072b121745b2f87c3c7483255ee5a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 02/32] fix: dataset post-processing failed on data having a
 single slice

---
 algotom/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 4b86ca1..8626b0b 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
@@ -448,7 +448,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                 minmax = (0, 65535)
             else:
                 if skip is None:
-                    skip = int(np.clip(np.ceil(0.15 * depth1), 1, depth1 - 1))
+                    skip = int(np.clip(np.ceil(0.15 * depth1), 1, None))
                 if minmax is None:
                     f_alias = get_statistical_information_dataset
                     minmax = f_alias(input_, percentile=(0, 100), skip=skip,
@@ -603,7 +603,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -846,7 +846,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
@@ -865,7 +865,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 else:
                     if skip is None:
                         skip = min(20, int(0.02 * depth1))
-                    skip = int(np.clip(skip, 1, depth1 - 1))
+                    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
                     if minmax is None:
                         f_alias = get_statistical_information_dataset
                         minmax = f_alias(input_, percentile=(0, 100),
-- 
2.43.0


From 5b4bf364f4c7f2b30528a9e2895e8e57e30ee336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 03/32] fix: rescale_dataset wrote to another hdf file when
 overwrite=True

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 8626b0b..06806b9 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -558,7 +558,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=overwrite)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From 4c6a7e5a8314806474a8b9be1d5f6db4a3821ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 04/32] fix: dataset statistics swapped mean and median and
 denoised twice

---
 algotom/post/postprocessing.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 06806b9..b1bf3e6 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,28 +267,22 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From 5129be0b40e78d44ed31305ca991bc4ec58e5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 05/32] fix: reslice_dataset deleted existing folders and left
 temporary files

---
 algotom/post/postprocessing.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index b1bf3e6..df808d1 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -33,8 +33,9 @@ Module of methods in the postprocessing stage:
 
 import os
 import sys
-import shutil
+import tempfile
 import timeit
+from contextlib import ExitStack
 import glob
 import h5py
 import numpy as np
@@ -585,7 +586,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
     return data_res
 
 
-def __save_intermediate_data(input_, output, axis, crop, key_path=None,
+def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                              rotate=0.0, chunk=16, mode="constant",
                              ncore=None, show_progress=True):
     """
@@ -599,9 +600,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     (depth1, height1, width1) = results[1]
     chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
-    folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
-    losa.make_folder(folder_tmp)
     out_key = "entry/data"
     b_unit = 1024.0 * 1024.0
     with h5py.File(file_tmp, 'w') as ofile:
@@ -770,7 +769,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
         print("Finish saving intermediate file! File size: {0:0.2f}MB. Time: "
               "{1:0.2f}s. The file will be deleted at the end!"
               "".format(f_size, t1 - t0))
-    return file_tmp, out_key, folder_tmp
+    return file_tmp, out_key
 
 
 def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
@@ -833,11 +832,18 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     in_type = __get_input_type(input_)
     if in_type != "tif" and in_type != "hdf":
         raise ValueError("Wrong input type !!!")
-    results = __save_intermediate_data(input_, output, axis, crop, key_path,
-                                       rotate, chunk, mode, ncore,
-                                       show_progress)
-    file_tmp, key_tmp, folder_tmp = results
-    with h5py.File(file_tmp, 'r') as hdf_object:
+    folder_out = os.path.abspath(output)
+    if not os.path.isdir(folder_out):
+        folder_out = os.path.dirname(folder_out)
+        os.makedirs(folder_out, exist_ok=True)
+    with tempfile.TemporaryDirectory(prefix="tmp_",
+                                     dir=folder_out) as folder_tmp, \
+            ExitStack() as stack:
+        results = __save_intermediate_data(input_, folder_tmp, axis, crop,
+                                           key_path, rotate, chunk, mode,
+                                           ncore, show_progress)
+        file_tmp, key_tmp = results
+        hdf_object = stack.enter_context(h5py.File(file_tmp, 'r'))
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
         chunk = np.clip(chunk, 1, max(1, height1 - 1))
@@ -940,10 +946,6 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
                                          axis=1, ncore=ncore, prefer="threads")
-    if os.path.isdir(folder_tmp):
-        shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From efbb6b396cf12c5f503b8e1ebd3a4f626141ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/32] fix: write errors were lost when saving hdf files

---
 algotom/io/converter.py        | 2 ++
 algotom/post/postprocessing.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..1ab4296 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -81,6 +81,8 @@ def convert_tif_to_hdf(input_path, output_path, key_path="entry/data",
     for i, file_path in enumerate(list_file):
         data_out[i] = losa.load_image(file_path)[cr_top:cr_height + cr_top,
                       cr_left:cr_width + cr_left]
+    data_out.file.flush()
+    data_out.file.close()
     return output_path
 
 
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index df808d1..91305dd 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -495,6 +495,8 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             num += 1
     if out_type is None:
         data_dsp = np.asarray(data_dsp).astype(res_type)
+    elif out_type == "hdf":
+        data_dsp.file.flush()
     return data_dsp
 
 
@@ -583,6 +585,8 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
             losa.save_image(output + "/img_" + out_name[-5:] + ".tif", mat)
     if out_type is None:
         data_res = np.asarray(data_res)
+    elif out_type == "hdf":
+        data_res.file.flush()
     return data_res
 
 
@@ -914,6 +918,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 else:
                     mat_tmp = np.copy(np.moveaxis(mat_chunk, 1, 0))
                 data_slice[height1 - last_chunk: height1] = mat_tmp
+            data_slice.file.flush()
+            data_slice.file.close()
         else:
             list_file, len_msg = None, None
             for i in np.arange(0, height1 - last_chunk, chunk):
-- 
2.43.0


From 6cb1d4fd008c69cff16a73ce81d3628c7aa1b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 07/32] fix: HdfEmulatorFromTif could not open folders of *.TIF
 files

---
 algotom/io/converter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 1ab4296..1266efb 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -169,9 +169,10 @@ class HdfEmulatorFromTif:
     >>> image_stack = hdf_emulator[:, 0:4, :]
     """
     def __init__(self, folder_path, ncore=1):
-        self.files = losa.find_file(folder_path + "/*tif*")
-        if len(self.files) == 0:
-            files = losa.find_file(folder_path + "/*TIF*")
+        try:
+            self.files = losa.find_file(folder_path + "/*tif*")
+        except FileNotFoundError:
+            self.files = losa.find_file(folder_path + "/*TIF*")
         if len(self.files) == 0:
             raise ValueError(f"!!! No tif files found in: {folder_path}")
         self.n_jobs = ncore
-- 
2.43.0


From b3100936b324cfbd545fa65cb1edc4c703b4ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 08/32] fix: loading speckle stacks failed with a single image
 of one type

---
 algotom/io/loadersaver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..3f7fe9d 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -834,19 +834,17 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                                          "".format(num_img))
             list_tmp = np.where(int_keys == 0.0)[0]
             if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+                list_idx = np.sort(np.int32(list_tmp))
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
             list_num_proj.append(len(list_tmp))
             list_tmp = np.where(int_keys == 1.0)[0]
             if len(list_tmp) != 0:
-                list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_ref_idx.append(np.sort(np.int32(list_tmp)))
             list_tmp = np.where(int_keys == 2.0)[0]
             if len(list_tmp) != 0:
-                list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_dark_idx.append(np.sort(np.int32(list_tmp)))
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
-- 
2.43.0


From 5d17590a542f1551ab2fce49f23a8ab2783a333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 09/32] fix: flat/dark stacks were recognised by length instead
 of dimension

---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 3f7fe9d..0b21ae8 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -878,7 +878,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if len(flat_field.shape) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -887,7 +887,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if len(dark_field.shape) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From 546e6a1020698d9e5c3df11f1f4260b77694b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 10/32] fix: make_folder_name returned the name of an existing
 file

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 0b21ae8..91ac2ce 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -319,7 +319,7 @@ def make_folder_name(folder_path, name_prefix="Output", zero_prefix=5):
     num_folder_new = num_folder_exist + 1
     name_tmp = f"{num_folder_new:0{zero_prefix}}"
     scan_name = scan_name_prefix + name_tmp
-    while (folder_path / scan_name).is_dir():
+    while (folder_path / scan_name).exists():
         num_folder_new += 1
         name_tmp = f"{num_folder_new:0{zero_prefix}}"
         scan_name = scan_name_prefix + name_tmp
-- 
2.43.0


From ae4565be1a6354858cb2df599925920a82ec87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 11/32] fix: data race in the CPU back-projection kernel

---
 algotom/rec/reconstruction.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..b13996f 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,13 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    cos_list = np.cos(-angles)
+    sin_list = np.sin(-angles)
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            cos_theta = cos_list[i]
+            sin_theta = sin_list[i]
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From 9d8250ac7ecd38aa4c0c8c1aed98b1aca2456a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 12/32] fix: fbp_reconstruction truncated integer stacks when
 using one core

---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index b13996f..82da751 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -460,7 +460,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From db191e1f513afe242c2a3997174d0e3f08e751c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 13/32] fix: reconstruction methods modified the input sinogram
 in place

---
 algotom/rec/reconstruction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 82da751..a93927f 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -433,6 +433,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ratio is not None:
@@ -634,6 +635,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ratio is not None:
@@ -864,6 +866,7 @@ def dfi_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ncore is None:
@@ -963,6 +966,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ncore is None:
@@ -1138,6 +1142,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if filter_name is None:
@@ -1321,6 +1326,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
         apply_log = False
-- 
2.43.0


From 0d618dd2648a57878c97fb997baae5f059466e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 14/32] fix: vertical reconstruction changed its input and
 global warning filters

---
 algotom/rec/vertrec.py | 93 ++++++++++--------------------------------
 1 file changed, 21 insertions(+), 72 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..da9bf22 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -50,6 +50,19 @@ import algotom.io.loadersaver as losa
 import algotom.rec.reconstruction as rec
 
 
+def __apply_log(data):
+    """
+    Supplementary method to apply the logarithm function without changing
+    the input and the (global) warning filters.
+    """
+    if np.any(data <= 0.0):
+        warnings.warn("!!! Applying logarithm is enabled but "
+                      "there are values <= 0.0 in the data !!!")
+        data = np.copy(data)
+        data[data <= 0.0] = np.float32(1.0)
+    return -np.log(data)
+
+
 @jit(nopython=True, parallel=True, cache=True)
 def vertical_back_projection_cpu(projections, angles, xlist, ylist, center,
                                  edge_pad=False):
@@ -599,15 +612,7 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("!!! Applying logarithm is enabled but "
-                                  "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -640,15 +645,7 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("Applying logarithm is enabled but "
-                                  "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -870,15 +867,7 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("!!! Applying logarithm is enabled but "
-                                  "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -915,15 +904,7 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("Applying logarithm is enabled but "
-                                  "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -1145,15 +1126,7 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("!!! Applying logarithm is enabled but "
-                                  "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -1190,15 +1163,7 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('error', category=RuntimeWarning)
-                try:
-                    img_chunk = -np.log(img_chunk)
-                except RuntimeWarning:
-                    warnings.warn("Applying logarithm is enabled but "
-                                  "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
-                    img_chunk = -np.log(img_chunk)
+            img_chunk = __apply_log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
                                                      rec.apply_ramp_filter,
@@ -1343,15 +1308,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if sigma > 0:
         projections = ndi.gaussian_filter(projections, (0, sigma, sigma))
     if apply_log:
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error', category=RuntimeWarning)
-            try:
-                projections = -np.log(projections)
-            except RuntimeWarning:
-                warnings.warn("!!! Applying logarithm is enabled but "
-                              "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
-                projections = -np.log(projections)
+        projections = __apply_log(projections)
 
     if masking:
         rad = int(min(np.min(list_center), width - np.min(list_center)))
@@ -1491,15 +1448,7 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
     if angles is None:
         angles = np.deg2rad(np.linspace(0.0, 180.0, num_proj))
     if apply_log:
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error', category=RuntimeWarning)
-            try:
-                projections = -np.log(projections)
-            except RuntimeWarning:
-                warnings.warn("!!! Applying logarithm is enabled but "
-                              "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
-                projections = -np.log(projections)
+        projections = __apply_log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
     if masking:
-- 
2.43.0


From 05aae192ffdab7bbc2f748f631bc76ff93aeda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 15/32] fix: small chunk sizes made empty chunks when finding
 local shifts

---
 algotom/util/correlation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..37ee7f3 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,6 +1064,7 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = min(num_chunk, height - 2 * edge)
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -1345,6 +1346,7 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -1631,6 +1633,7 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = min(num_chunk, height - 2 * edge)
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -2026,6 +2029,7 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2221,6 +2225,7 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2451,6 +2456,7 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -3351,6 +3357,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
-- 
2.43.0


From d64d607e08a5637c7b7b59470d0fd25312537749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 16/32] fix: finding local shifts failed on hosts having a
 single CPU

---
 algotom/util/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 37ee7f3..ec29587 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -958,7 +958,7 @@ def _get_1d_shift_multi_rows_3d_input(ref_mat, mat, direction="x", win_size=7,
         raise ValueError("Only two options: 'x' or 'y''")
     (depth, height, width) = ref_mat.shape
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     f_alias = _get_1d_shift_single_row_2d_input
     if direction == "x":
         if ncore == 1:
@@ -2372,7 +2372,7 @@ def _get_2d_shift_multi_rows_3d_input_cpu_gpu(ref_mat, mat, win_size=7,
     f_alias[grid, block](coef_4d, ref_mat1, mat1, np.int32(height1),
                          np.int32(width1), np.int32(radi), np.int32(margin))
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     shifts = np.asarray(Parallel(n_jobs=ncore)(
         delayed(locate_peak)(coef_4d[i, j, :, :], True, method, 2, size)
         for i in range(height1) for j in range(width1)))
-- 
2.43.0


From a68b9b7a67f65bcc0a825d1f5c1bd36922ed2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 17/32] fix: search metrics lost precision when using a single
 core

---
 algotom/prep/calculation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..d6df938 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -183,7 +183,7 @@ def coarse_search_cor(sino_180, start, stop, ratio=0.5, denoise=True,
     sino_flip = np.fliplr(sino_180)
     sino_comp = np.flipud(sino_180)
     list_cor = np.arange(start_cor, stop_cor + 1)
-    list_metric = np.zeros(len(list_cor), dtype=np.float32)
+    list_metric = np.zeros(len(list_cor))
     num_metric = len(list_metric)
     mask = make_inverse_double_wedge_mask(2 * nrow, ncol, 0.5 * ratio * ncol,
                                           hor_drop, ver_drop)
@@ -248,7 +248,7 @@ def fine_search_cor(sino_180, start, radius, step, ratio=0.5, denoise=True,
     sino_comp = np.flipud(sino_180)
     list_cor = np.clip(
         start + np.arange(-radius, radius + step, step), 0.0, ncol - 1.0)
-    list_metric = np.zeros(len(list_cor), dtype=np.float32)
+    list_metric = np.zeros(len(list_cor))
     num_metric = len(list_metric)
     mask = make_inverse_double_wedge_mask(2 * nrow, ncol, 0.5 * ratio * ncol,
                                           hor_drop, ver_drop)
@@ -518,7 +518,7 @@ def search_overlap(mat1, mat2, win_width, side, denoise=True, norm=False,
     list_pos = np.arange(offset, ncol1 - offset)
     nump = len(list_pos)
     if ncore == 1:
-        list_metric = np.ones(nump, dtype=np.float32)
+        list_metric = np.ones(nump)
         for i, pos in enumerate(list_pos):
             list_metric[i] = __calc_overlap_metric(mat1, pos, offset,
                                                    use_overlap, side, norm,
-- 
2.43.0


From cbe5923006146ad3fcc186f86495c42127cd1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 18/32] fix: vertical-slice metrics were truncated for integer
 search ranges

---
 algotom/rec/vertrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index da9bf22..6bcca86 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -1300,7 +1300,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if ramp_filter is None:
         ramp_filter = "after"
     list_center = np.arange(start, stop + step, step)
-    list_metric = np.zeros_like(list_center)
+    list_metric = np.zeros(len(list_center))
     num_metric = len(list_metric)
     (num_proj, height, width) = projections.shape
     if angles is None:
-- 
2.43.0


From 0b1e6b629d7508e730845405d4b861a60bd81684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 19/32] fix: flat/dark images were averaged with the
 projections between them

---
 algotom/io/loadersaver.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 91ac2ce..00575ec 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -692,10 +692,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
@@ -703,10 +702,8 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
         if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right], axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
-- 
2.43.0


From 39d9aba7f0047a5b7f28d18c8cc605796aee4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 20/32] fix: save_image ignored incomplete writes of the image
 data

---
 algotom/io/loadersaver.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 00575ec..a5deb3e 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -34,6 +34,7 @@ Module for I/O tasks:
         be used by speckle-based phase contrast tomography.
 """
 
+import io
 import os
 import warnings
 import platform
@@ -411,9 +412,18 @@ def save_image(file_path, mat, overwrite=True):
     if not overwrite:
         file_path = make_file_name(file_path)
     make_folder(file_path)
+    is_new = not os.path.exists(file_path)
     try:
-        image.save(file_path)
+        # Encode to memory first. Pillow ignores incomplete writes (e.g. when
+        # the disk gets full) if it writes to a file directly.
+        buffer = io.BytesIO()
+        buffer.name = str(file_path)
+        image.save(buffer)
+        with open(file_path, "wb") as file:
+            file.write(buffer.getbuffer())
     except Exception as error:
+        if is_new and os.path.exists(file_path):
+            os.remove(file_path)
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
     return file_path
 
-- 
2.43.0


From 01a61e2fba06c8bd63c967770555e3dae3f14eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 21/32] fix: reading errors in hdf files were taken as broken
 links

---
 algotom/io/loadersaver.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index a5deb3e..6bbc8c9 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -114,6 +114,16 @@ def load_image(file_path):
     return mat
 
 
+def _is_link(hdf_object, key):
+    """
+    Supplementary method to check if an object in a hdf/nxs file, which can't
+    be opened, is given by an external or a soft link (may be broken). Other
+    objects always can be opened unless there is a reading error.
+    """
+    link = hdf_object.get(key, getlink=True)
+    return isinstance(link, (h5py.ExternalLink, h5py.SoftLink))
+
+
 def get_hdf_information(file_path, display=False):
     """
     Get information of datasets in a hdf/nxs file.
@@ -151,8 +161,9 @@ def get_hdf_information(file_path, display=False):
             else:
                 list_key.append(data.name)
         except KeyError:
+            if not _is_link(hdf_object, key):
+                raise
             list_key.append(key)
-            pass
     for i, key in enumerate(list_key):
         shape, dtype = None, None
         try:
@@ -162,9 +173,10 @@ def get_hdf_information(file_path, display=False):
             list_shape.append(shape)
             list_type.append(dtype)
         except KeyError:
+            if not _is_link(hdf_object, key):
+                raise
             list_shape.append(shape)
             list_type.append(dtype)
-            pass
     hdf_object.close()
     if display:
         if list_key:
@@ -214,7 +226,8 @@ def find_hdf_key(file_path, pattern, display=False):
             else:
                 list_key.append(data.name)
         except KeyError:
-            pass
+            if not _is_link(hdf_object, key):
+                raise
     list_dkey, list_dshape, list_dtype = [], [], []
     for _, key in enumerate(list_key):
         if pattern in key:
@@ -227,9 +240,10 @@ def find_hdf_key(file_path, pattern, display=False):
                 list_dtype.append(dtype)
                 list_dshape.append(shape)
             except KeyError:
+                if not _is_link(hdf_object, key):
+                    raise
                 list_dtype.append(dtype)
                 list_dshape.append(shape)
-                pass
     hdf_object.close()
     if display:
         if list_dkey:
@@ -574,7 +588,8 @@ def _get_subgroups(hdf_object, key=None):
                     for group in hdf_object[key].keys():
                         list_group.append(group)
             except KeyError:
-                pass
+                if not _is_link(hdf_object, key):
+                    raise
     if len(list_group) > 0:
         list_group = sorted(list_group)
     return list_group, key
@@ -595,6 +610,8 @@ def _add_branches(tree, hdf_object, key, key1, index, last_index, prefix,
                 if isinstance(obj, h5py.Dataset):
                     shape = str(obj.shape)
             except KeyError:
+                if not _is_link(hdf_object, key_comb):
+                    raise
                 shape = str("-> ???External-link???")
     if shape is not None:
         tree.append(f"{prefix}{connector} {key1} {shape}")
-- 
2.43.0


From f675ebb09e321e0ec593e9e840f5fd9b67f0d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 22/32] fix: progress display of reslice_dataset opened images
 of the output folder

---
 algotom/post/postprocessing.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 91305dd..42818b7 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -164,11 +164,7 @@ def __get_dataset_size(input_):
         size_in_MB = os.path.getsize(input_) / b_unit
     else:
         list_file = losa.find_file(input_ + "/*.tif*")
-        if list_file:
-            size_1_file = np.asarray(Image.open(list_file[0])).nbytes / b_unit
-        else:
-            size_1_file = 0.0
-        size_in_MB = len(list_file) * size_1_file
+        size_in_MB = sum(os.path.getsize(file) for file in list_file) / b_unit
     return size_in_MB
 
 
@@ -925,7 +921,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
             for i in np.arange(0, height1 - last_chunk, chunk):
                 if show_progress:
                     t1 = timeit.default_timer()
-                    list_file = glob.glob(output + "/*tif*")
+                    list_file = glob.glob(output + "/*.tif*")
                     if list_file:
                         f_size = __get_dataset_size(output)
                         msg = "Save resliced data to file: {0:0.2f}MB." \
-- 
2.43.0


From 60f16ec8fa5e57a2497fbf09c937583b52507647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 23/32] fix: apply_wavelet_reconstruction changed the caller's
 list of coefficients

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..279b371 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -529,6 +529,7 @@ def apply_wavelet_reconstruction(data, wavelet_name, ignore_level=None):
     if ignore_level is not None:
         level = len(data[1:])
         if level >= ignore_level > 0:
+            data = list(data)
             data[-ignore_level] = tuple(
                 [np.zeros_like(v) for v in data[-ignore_level]])
     return pywt.waverec2(data, wavelet_name)
-- 
2.43.0


From 2ae23d2744529925da9ef9945f9b61b4c895a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 24/32] fix: blob removal changed the caller's mask

---
 algotom/prep/removal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..97b17c5 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,6 +971,7 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
@@ -1003,7 +1004,7 @@ def remove_blob(mat, mask):
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
         array_1d = mat[i]
-        mask_1d = mask[i]
+        mask_1d = np.copy(mask[i])
         mask_1d[:2] = 0.0
         mask_1d[-2:] = 0.0
         xlist = np.where(mask_1d < 1.0)[0]
-- 
2.43.0


From 11ad80d61224504e39f9d52b45db37f5dbe8c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 25/32] fix: vertical reconstruction failed on a host without a
 GPU by default

The functions of vertrec use gpu=True by default but, unlike the other
reconstruction functions, did not fall back to the CPU when there is no GPU.
---
 algotom/rec/vertrec.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 6bcca86..3863a37 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -532,6 +532,10 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True:
+        if cuda.is_available() is False:
+            warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+            gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
@@ -781,6 +785,10 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True:
+        if cuda.is_available() is False:
+            warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+            gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
@@ -1044,6 +1052,10 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True:
+        if cuda.is_available() is False:
+            warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+            gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
-- 
2.43.0


From 558854a50f3ab3692fbdc1f93842fdc82c7cbf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 26/32] fix: back-projection of unsigned-integer data on the
 CPU wrapped around

The difference between two neighbouring pixels was computed in the unsigned
integer type of the data.
---
 algotom/rec/reconstruction.py | 4 ++--
 algotom/rec/vertrec.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index a93927f..f45a5de 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -344,8 +344,8 @@ def back_projection_cpu(sinogram, angles, center,
                     d_pos = np.int32(np.floor(f_pos))
                     u_pos = np.int32(np.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = sinogram[i, d_pos]
-                        yu = sinogram[i, u_pos]
+                        yd = float(sinogram[i, d_pos])
+                        yu = float(sinogram[i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = sinogram[i, d_pos]
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 3863a37..f055f10 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -106,8 +106,8 @@ def vertical_back_projection_cpu(projections, angles, xlist, ylist, center,
                     d_pos = int(math.floor(f_pos))
                     u_pos = int(math.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = projections[n, i, d_pos]
-                        yu = projections[n, i, u_pos]
+                        yd = float(projections[n, i, d_pos])
+                        yu = float(projections[n, i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = projections[n, i, d_pos]
@@ -169,8 +169,8 @@ def vertical_back_projection_cpu_chunk(projections, angles, x_mat, y_mat,
                 for i in range(height):
                     if 0 <= f_pos <= width1:
                         if u_pos != d_pos:
-                            yd = projections[n, i, d_pos]
-                            yu = projections[n, i, u_pos]
+                            yd = float(projections[n, i, d_pos])
+                            yu = float(projections[n, i, u_pos])
                             val = yd + (yu - yd) * (f_pos - d_pos)
                         else:
                             val = projections[n, i, d_pos]
-- 
2.43.0


From 4ca1677d6a000674a485130ad219bbfaa5cce6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 27/32] fix: find_local_shifts_umpa failed with hdf datasets
 and wrapped around with integer data

---
 algotom/util/correlation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index ec29587..000b2d1 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -3343,12 +3343,18 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     win_1d = make_smoothing_window(filter_name, win_size)
     window = np.multiply.outer(win_1d, win_1d)
     window = window / np.sum(window)
-    S2 = np.sum(mat ** 2, axis=0)
-    R2 = np.sum(ref_mat ** 2, axis=0)
+    # Image by image, inputs may be hdf objects. Integers are converted to
+    # avoid overflow.
+    dtype = np.result_type(mat.dtype, ref_mat.dtype, np.float32)
+    S1, S2, R1, R2 = np.zeros((4, height, width), dtype=dtype)
+    for i in range(depth):
+        img, ref_img = np.asarray(mat[i], dtype), np.asarray(ref_mat[i], dtype)
+        S1 += img
+        S2 += img ** 2
+        R1 += ref_img
+        R2 += ref_img ** 2
     L1 = correlate(S2, window, mode="same")
     L3 = correlate(R2, window, mode="same")
-    S1 = np.sum(mat, axis=0)
-    R1 = np.sum(ref_mat, axis=0)
     Im = np.mean(R1) / depth
     L2 = (Im ** 2) * depth
     L4 = Im * correlate(S1, window, mode="same")
-- 
2.43.0


From 6bec4589598dd6a71cf9ffb3052d1b0413b6afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 28/32] fix: automatic margin of
 get_transmission_dark_field_signal was too small for fractional shifts

---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..a6a9416 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -793,7 +793,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.ceil(max(np.max(np.abs(x_shifts)),
+                                 np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From b2949119fbd4f862ed1a42809af89714feb7c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 29/32] fix: file names of saved images wrapped around after
 index 99999

---
 algotom/io/loadersaver.py      |  2 +-
 algotom/post/postprocessing.py | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 6bbc8c9..e258226 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1296,7 +1296,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [list_path + f"/img_{i:05}.tif"
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 42818b7..ea25fb3 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -485,8 +485,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             elif out_type == "hdf":
                 data_dsp[num] = mat_dsp.astype(res_type)
             else:
-                out_name = "0000" + str(num)
-                losa.save_image(output + "/img_" + out_name[-5:] + ".tif",
+                losa.save_image(output + f"/img_{num:05}.tif",
                                 mat_dsp.astype(res_type))
             num += 1
     if out_type is None:
@@ -577,8 +576,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         elif out_type == "hdf":
             data_res[i - d1] = mat
         else:
-            out_name = "0000" + str(i)
-            losa.save_image(output + "/img_" + out_name[-5:] + ".tif", mat)
+            losa.save_image(output + f"/img_{i:05}.tif", mat)
     if out_type is None:
         data_res = np.asarray(data_res)
     elif out_type == "hdf":
@@ -930,8 +928,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                         sys.stdout.write(msg)
                         sys.stdout.flush()
                 mat_chunk = data[:, i: i + chunk, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    i + j))[-5:] + ".tif" for j in range(chunk)]
+                out_files = [output + f"/img_{i + j:05}.tif"
+                             for j in range(chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
@@ -942,8 +940,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
             if last_chunk != 0:
                 idx = height1 - last_chunk
                 mat_chunk = data[:, idx: height1, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    idx + j))[-5:] + ".tif" for j in range(last_chunk)]
+                out_files = [output + f"/img_{idx + j:05}.tif"
+                             for j in range(last_chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
-- 
2.43.0


From ec1faaca986aab4808bc6c88955aee37cc930363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 30/32] fix: choose a new file name again if the same file
 appears meanwhile

With overwrite=False the name of a new file was chosen first and the file
opened for (over)writing later. If several workers or callers came to the same
name (e.g. save_image_multiple given the paths x.tif and x_0000.tif while x.tif
exists), one image was overwritten by another.
---
 algotom/io/loadersaver.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index e258226..6c1e71d 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -373,6 +373,21 @@ def make_file_name(file_path):
     return str(file_path)
 
 
+def _make_new_file(file_path):
+    """
+    Supplementary method to create an empty file under a new name. The name is
+    chosen again if another thread or process has taken it meanwhile.
+    """
+    while True:
+        new_path = make_file_name(file_path)
+        try:
+            open(new_path, "x").close()
+            return new_path
+        except FileExistsError:
+            if not os.path.exists(new_path):
+                raise
+
+
 def find_file(path):
     """
     Search file
@@ -423,11 +438,12 @@ def save_image(file_path, mat, overwrite=True):
         if "complex" in data_type:
             raise ValueError(f"Can't save to tiff with format: {data_type}")
     image = Image.fromarray(mat)
-    if not overwrite:
-        file_path = make_file_name(file_path)
     make_folder(file_path)
-    is_new = not os.path.exists(file_path)
+    is_new = overwrite and not os.path.exists(file_path)
     try:
+        if not overwrite:
+            file_path = _make_new_file(file_path)
+            is_new = True
         # Encode to memory first. Pillow ignores incomplete writes (e.g. when
         # the disk gets full) if it writes to a file directly.
         buffer = io.BytesIO()
@@ -473,7 +489,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
         file_path = file_path.with_suffix('.hdf')
     file_path.parent.mkdir(parents=True, exist_ok=True)
     if not overwrite:
-        file_path = Path(make_file_name(file_path))
+        file_path = Path(_make_new_file(file_path))
     try:
         ofile = h5py.File(file_path, 'w')
     except Exception as error:
@@ -553,7 +569,7 @@ def save_distortion_coefficient(file_path, xcenter, ycenter, list_fact,
         file_path = file_path.with_suffix('.txt')
     file_path.parent.mkdir(parents=True, exist_ok=True)
     if not overwrite:
-        file_path = Path(make_file_name(file_path))
+        file_path = Path(_make_new_file(file_path))
     metadata = OrderedDict()
     metadata['xcenter'] = xcenter
     metadata['ycenter'] = ycenter
-- 
2.43.0


From ccbc88405ddddfedfa9a1b161b38c326e9c05193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 31/32] fix: sub-pixel position of a peak at the border in the
 GPU kernel

The 1D terms along the border were computed but never used, so the GPU
returned the integer position where the CPU (locate_peak) returns the
sub-pixel one.
---
 algotom/util/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 000b2d1..00f2c6a 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1836,9 +1836,13 @@ def __locate_2d_peak_kernel(mat, x0, y0):  # pragma: no cover
     if (x0 == 0 or x0 == width1) and (height1 > y0 > 0):
         d1fy = (mat[y0 + 1, x0] - mat[y0 - 1, x0]) / 2.0
         d2fy = (mat[y0 + 1, x0] + mat[y0 - 1, x0] - 2 * mat[y0, x0])
+        if d2fy != 0.0:
+            y_pos = y0 - d1fy / d2fy
     if (y0 == 0 or y0 == height1) and (width1 > x0 > 0):
         d1fx = (mat[y0, x0 + 1] - mat[y0, x0 - 1]) / 2.0
         d2fx = (mat[y0, x0 + 1] + mat[y0, x0 - 1] - 2 * mat[y0, x0])
+        if d2fx != 0.0:
+            x_pos = x0 - d1fx / d2fx
     if (height1 > y0 > 0) and (width1 > x0 > 0):
         d1fx = 0.5 * (mat[y0, x0 + 1] - mat[y0, x0 - 1])
         d1fy = 0.5 * (mat[y0 + 1, x0] - mat[y0 - 1, x0])
-- 
2.43.0


From a14514a11239c89613a96222adfc384924bca540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:03 +0000
Subject: [PATCH 32/32] fix: release the objects of the Astra toolbox after an
 error, and projectors

Projectors were never deleted, and no object was deleted if a call of the
toolbox failed, so memory was lost with every slice.
---
 algotom/rec/reconstruction.py | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index f45a5de..8542ef3 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -1025,27 +1025,35 @@ def __astra_recon_single(sinogram, center, angles, pad, method, filter_name,
     cen_col = (ncol - 1.0) / 2.0
     sinogram = ndi.shift(sinogram, (0, cen_col - (center + pad)),
                          mode='nearest')
-    sino_id = astra.data2d.create('-sino', proj_geom, sinogram)
-    rec_id = astra.data2d.create('-vol', vol_geom)
-    proj_id = None
-    if "CUDA" not in method:
-        proj_id = astra.create_projector('line', proj_geom, vol_geom)
-    cfg = astra.astra_dict(method)
-    cfg['ProjectionDataId'] = sino_id
-    cfg['ReconstructionDataId'] = rec_id
-    if "CUDA" not in method:
-        cfg['ProjectorId'] = proj_id
-    if (method == "FBP_CUDA") or (method == "FBP"):
-        cfg["FilterType"] = filter_name
+    sino_id = rec_id = proj_id = alg_id = None
     try:
-        alg_id = astra.algorithm.create(cfg)
-    except Exception:
-        raise ValueError("Invalid selection of method!!!")
-    astra.algorithm.run(alg_id, num_iter)
-    recon = astra.data2d.get(rec_id)
-    astra.algorithm.delete(alg_id)
-    astra.data2d.delete(sino_id)
-    astra.data2d.delete(rec_id)
+        sino_id = astra.data2d.create('-sino', proj_geom, sinogram)
+        rec_id = astra.data2d.create('-vol', vol_geom)
+        if "CUDA" not in method:
+            proj_id = astra.create_projector('line', proj_geom, vol_geom)
+        cfg = astra.astra_dict(method)
+        cfg['ProjectionDataId'] = sino_id
+        cfg['ReconstructionDataId'] = rec_id
+        if "CUDA" not in method:
+            cfg['ProjectorId'] = proj_id
+        if (method == "FBP_CUDA") or (method == "FBP"):
+            cfg["FilterType"] = filter_name
+        try:
+            alg_id = astra.algorithm.create(cfg)
+        except Exception:
+            raise ValueError("Invalid selection of method!!!")
+        astra.algorithm.run(alg_id, num_iter)
+        recon = astra.data2d.get(rec_id)
+    finally:
+        # Objects of the toolbox are not garbage-collected
+        if alg_id is not None:
+            astra.algorithm.delete(alg_id)
+        if proj_id is not None:
+            astra.projector.delete(proj_id)
+        if rec_id is not None:
+            astra.data2d.delete(rec_id)
+        if sino_id is not None:
+            astra.data2d.delete(sino_id)
     return recon[pad:ncol - pad, pad:ncol - pad]
 
 
-- 
2.43.0

