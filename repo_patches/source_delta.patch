From 4531d40355fa1b8a9dc81942067e74d1f2c55cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 01/79] fix: store and restore a hit's coarse channel number in
 capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..88d6eeb 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -13,6 +13,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setDriftRate(this_hit.drift_rate_Hz_per_sec);
     signal_builder.setDriftIndex(this_hit.rate_index);
     signal_builder.setSnr(this_hit.snr);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     signal_builder.setNumTimesteps(this_hit.time_span_steps); // for us, redundant with driftSteps
     // the power and incoherentpower are redundant in bliss, but were not in seticore
     // the seticore power was normalized for computing an SNR, the incoherentpower was just the integrated power
@@ -38,6 +39,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     // rounded up power-of-2 value
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
 
     this_hit.start_time_sec = signal_reader.getStartTime();
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
-- 
2.43.0


From 9301e8a9df51d4bc08332ab88f3e25bd63cf3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 02/79] fix: restore telescope id, channel and time step counts
 of a scan read from a capnp file

---
 bliss/core/include/core/scan.hpp             | 1 +
 bliss/core/scan.cpp                          | 4 ++++
 bliss/file_types/detail/cpnp_hit_builder.cpp | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..982903c 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -124,6 +124,7 @@ class scan {
     void    set_za_start(double);
 
     int64_t ntsteps() const;
+    void    set_ntsteps(int64_t);
 
     double tduration_secs() const;
 
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..809de10 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -488,6 +488,10 @@ void bliss::scan::set_za_start(double za_start) {
 int64_t bliss::scan::ntsteps() const {
     return _ntsteps;
 }
+void bliss::scan::set_ntsteps(int64_t ntsteps) {
+    _ntsteps        = ntsteps;
+    _tduration_secs = _ntsteps * _tsamp;
+}
 
 double bliss::scan::tduration_secs() const {
     return _tduration_secs;
diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 88d6eeb..3c5d91a 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -167,6 +167,9 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
     scan_with_hits.set_foff(md.getFoff());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
+    scan_with_hits.set_nchans(md.getNumChannels());
+    scan_with_hits.set_ntsteps(md.getNumTimesteps());
 
     return scan_with_hits;
 }
-- 
2.43.0


From 4844213f86cc73e0bbcfda719d77420ac0623b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 03/79] fix: name the SEFD column in the DAT table header

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..b9cb1f6 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -119,7 +119,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From 2bb7aa650b8d2bc0bbab914bf7e16fe2d9e0ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 04/79] fix: reject masks of any type but uint8 in masked
 reductions

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..1e0544c 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -147,7 +147,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -378,7 +378,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -634,7 +634,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
-- 
2.43.0


From d0b9bcd212710a0a46e81f8e725980f8cde4c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 05/79] fix: mean_stddev and masked_mean_stddev reject arrays
 that are not float32

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 1e0544c..b4bbc80 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -497,6 +497,11 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     using in_datatype  = float;
     using out_datatype = float;
 
+    if (a.dtype() != ndarray::datatype::float32 || out_mean.dtype() != ndarray::datatype::float32 ||
+        out_stddev.dtype() != ndarray::datatype::float32) {
+        throw std::runtime_error("mean_stddev: only float32 is supported");
+    }
+
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -609,6 +614,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
     using in_datatype = float;
     using out_datatype = float;
 
+        if (a.dtype() != ndarray::datatype::float32 || out_mean.dtype() != ndarray::datatype::float32 ||
+            out_stddev.dtype() != ndarray::datatype::float32) {
+            throw std::runtime_error("masked_mean_stddev: only float32 is supported");
+        }
+
         if (reduced_axes.empty()) {
             for (int axis = 0; axis < a.ndim(); ++axis) {
                 reduced_axes.push_back(axis);
-- 
2.43.0


From be7b06b3285fa02622db0dfb3c9548d2a407049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 06/79] fix: median rejects arrays that are not float32

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index b4bbc80..5a7169a 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -899,6 +899,9 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 // median
 // TODO: generalize this to an ndarray op
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
+    if (x.dtype() != ndarray::datatype::float32) {
+        throw std::runtime_error("median: only float32 is supported");
+    }
     const size_t size = x.numel();
 
     auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
-- 
2.43.0


From 13f10eaeb94a55ab8d04832ac4591e525a29ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 07/79] fix: write_to_file writes elements with the array's own
 data type

---
 bland/bland/ops/cpu/ops_cpu.cpp | 47 ++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..4deaaa0 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -16,16 +16,10 @@
 using namespace bland;
 using namespace bland::cpu;
 
-void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    using file_dtype = float;
-    
-    std::ofstream out_file(file_path.data(), std::ios::binary);
-    if (!out_file) {
-        throw std::runtime_error("Unable to open file for writing.");
-    }
-
-    // do a typed dispatch :shrug:
-    auto x_data = x.data_ptr<file_dtype>(); // TODO: templatize and dispatch
+namespace {
+template <typename file_dtype>
+void write_elements(ndarray x, std::ofstream &out_file) {
+    auto x_data = x.data_ptr<file_dtype>();
     auto x_shape = x.shape();
     auto x_strides = x.strides();
     auto x_offset = x.offsets();
@@ -51,6 +45,39 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
             }
         }
     }
+}
+} // namespace
+
+void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
+    std::ofstream out_file(file_path.data(), std::ios::binary);
+    if (!out_file) {
+        throw std::runtime_error("Unable to open file for writing.");
+    }
+
+    auto dtype = x.dtype();
+    if (dtype == ndarray::datatype::float32) {
+        write_elements<float>(x, out_file);
+    } else if (dtype == ndarray::datatype::float64) {
+        write_elements<double>(x, out_file);
+    } else if (dtype == ndarray::datatype::int8) {
+        write_elements<int8_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::int16) {
+        write_elements<int16_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::int32) {
+        write_elements<int32_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::int64) {
+        write_elements<int64_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::uint8) {
+        write_elements<uint8_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::uint16) {
+        write_elements<uint16_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::uint32) {
+        write_elements<uint32_t>(x, out_file);
+    } else if (dtype == ndarray::datatype::uint64) {
+        write_elements<uint64_t>(x, out_file);
+    } else {
+        throw std::runtime_error("Unsupported datatype for writing to file");
+    }
     out_file.close();
 }
 
-- 
2.43.0


From ef95bfa6fa44e30a5d366d28adeabd8b4bb6fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 08/79] fix: read_from_file reads only as many bytes as its
 array holds

---
 bland/bland/ops/cpu/ops_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 4deaaa0..284bc81 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -93,7 +93,7 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     int64_t numel = file_length_bytes / (dtype.bits/8);
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
-    in_file.read(x_ptr, file_length_bytes);
+    in_file.read(x_ptr, numel * (dtype.bits / 8));
 
     return x;
 }
-- 
2.43.0


From 6182f6346694d6e63565a7f89fe6c058d60dcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 09/79] fix: masked reductions address the mask with its own
 strides and offsets

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 5a7169a..dc35a31 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -177,11 +177,13 @@ struct masked_mean_impl {
             int64_t          elements_in_mean = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -421,11 +423,13 @@ struct masked_stddev_impl {
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -687,11 +691,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From 9a049a56423cbfb19f011c2b9eeb84f18cf8ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 10/79] fix: mean_stddev writes the standard deviations at
 their own array's positions

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index dc35a31..cd7587f 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -580,10 +580,15 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
             out_linear_index +=
                     out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
         }
+        int64_t out_stddev_linear_index = 0;
+        for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+            out_stddev_linear_index +=
+                    out_stddev_offset[axis] + (out_stddev_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+        }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
         out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -595,6 +600,15 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
                 out_mean_index[axis] = 0;
             }
         }
+        for (int axis = out_stddev_shape.size() - 1; axis >= 0; --axis) {
+            // If we're not at the end of this dim, keep going
+            if (++out_stddev_index[axis] != out_stddev_shape[axis]) {
+                break;
+            } else {
+                // Otherwise, set it to 0 and move down to the next dim
+                out_stddev_index[axis] = 0;
+            }
+        }
         // Increment the multi-dimensional input index
         // TODO: I think I can dedupe this with above by checking if axis is in reduce axis but that may actually be
         // less efficient
@@ -721,13 +735,17 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
                 out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
             }
+            int64_t out_stddev_linear_index = 0;
+            for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_stddev_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+            }
 
             if (elements_in_dev == 0) {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -739,6 +757,15 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                     out_mean_index[axis] = 0;
                 }
             }
+            for (int axis = out_stddev_shape.size() - 1; axis >= 0; --axis) {
+                // If we're not at the end of this dim, keep going
+                if (++out_stddev_index[axis] != out_stddev_shape[axis]) {
+                    break;
+                } else {
+                    // Otherwise, set it to 0 and move down to the next dim
+                    out_stddev_index[axis] = 0;
+                }
+            }
 
             // Increment the multi-dimensional input index
             // TODO: I think I can dedupe this with above by checking if axis is in reduce axis but that may actually be
-- 
2.43.0


From 7891637ff5e50c7184cb2ec168b1e1818a9f1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 11/79] fix: count elements, offsets and loop iterations of
 arrays in 64 bits

---
 bland/bland/ndarray.cpp                       |  8 ++--
 bland/bland/ops/cpu/assignment_op.hpp         |  2 +-
 bland/bland/ops/cpu/elementwise_binary_op.hpp |  6 +--
 bland/bland/ops/cpu/elementwise_scalar_op.hpp |  8 ++--
 bland/bland/ops/cpu/elementwise_unary_op.hpp  |  4 +-
 bland/bland/ops/cpu/ops_cpu.cpp               |  2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp       | 40 +++++++++----------
 bland/bland/ops/creators.cpp                  |  2 +-
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..5431d26 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -142,7 +142,7 @@ bland::ndarray::ndarray(std::vector<int64_t> dims, datatype dtype, DLDevice devi
 template <typename T>
 void initialize_memory(T *data, int64_t numel, T value) {
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = value;
     }
 }
@@ -205,7 +205,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
@@ -585,7 +585,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
@@ -602,7 +602,7 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         int64_t new_ndim = new_shape.size();
         // We can collapse all offsets to the last dimension
         auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
+        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
         _tensor._offsets   = new_offsets;
 
         // Number of dims changing means we need to update strides
diff --git a/bland/bland/ops/cpu/assignment_op.hpp b/bland/bland/ops/cpu/assignment_op.hpp
index 4a693ac..42b1dd3 100644
--- a/bland/bland/ops/cpu/assignment_op.hpp
+++ b/bland/bland/ops/cpu/assignment_op.hpp
@@ -22,7 +22,7 @@ ndarray assignment_op(ndarray &out, const S &a) {
     // Current (multi-dimensional) index to read into out
     auto ndim = out_shape.size();
     std::vector<int64_t> nd_index(ndim, 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 1550818..11fbfea 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -40,9 +40,9 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     constexpr int64_t    LAST_DIM_UNROLL_FACTOR = 8;
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_scalar_op.hpp b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
index f1296da..ae511d3 100644
--- a/bland/bland/ops/cpu/elementwise_scalar_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
@@ -32,8 +32,8 @@ ndarray elementwise_scalar_op(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
@@ -76,8 +76,8 @@ ndarray elementwise_scalar_op_fast(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..1828a62 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -49,8 +49,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 284bc81..2c2ef7c 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -27,7 +27,7 @@ void write_elements(ndarray x, std::ofstream &out_file) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(x.ndim(), 0);
 
-    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), 0);
+    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), int64_t{0});
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index cd7587f..1366033 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -57,12 +57,12 @@ struct mean_impl {
 
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
             accumulator_type mean            = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -169,13 +169,13 @@ struct masked_mean_impl {
         using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index  = input_index;
             accumulator_type mean             = 0;
             int64_t          elements_in_mean = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -285,7 +285,7 @@ struct stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -293,7 +293,7 @@ struct stddev_impl {
             accumulator_type accum_x2        = 0;
 
             // auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -411,7 +411,7 @@ struct masked_stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -421,7 +421,7 @@ struct masked_stddev_impl {
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -544,7 +544,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
     auto numel = out_mean.numel();
-    for (int i = 0; i < numel; ++i) {
+    for (int64_t i = 0; i < numel; ++i) {
         // Make a copy of the current input index, we'll fix the non-summed dims
         // and iterate over the reduced dims accumulating the total
         auto             reduce_nd_index = input_index;
@@ -552,7 +552,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         accumulator_type accum_x2        = 0;
 
         // auto this_reduction_mean = mean_data[mean_linear_index];
-        for (int jj = 0; jj < reduced_elements; ++jj) {
+        for (int64_t jj = 0; jj < reduced_elements; ++jj) {
             int64_t input_linear_index = 0;
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
             for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -693,7 +693,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out_mean.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -703,7 +703,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -841,7 +841,7 @@ struct standardized_moment_impl {
         double scale = 1.0 / static_cast<double>(reduced_elements - 1);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto   reduce_nd_index = input_index;
@@ -855,7 +855,7 @@ struct standardized_moment_impl {
             }
 
             auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -994,12 +994,12 @@ struct sum_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             in_datatype total           = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
@@ -1070,11 +1070,11 @@ struct count_impl {
         auto a_offset  = a.offsets();
 
         std::vector<int64_t> input_index(a_shape.size(), 0);
-        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
 
         int64_t count = 0;
         auto    numel = a.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             if (a_data[a_linear_index]) {
@@ -1139,12 +1139,12 @@ struct max_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             datatype max = std::numeric_limits<datatype>::lowest();
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..8608abe 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -421,7 +421,7 @@ void initialize_randn(T *data, int64_t numel, D distribution) {
     std::random_device rd{};
     std::mt19937       gen{rd()};
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = distribution(gen);
     }
 }
-- 
2.43.0


From 7ceffcad08c97cb01d2f99d3cd32218f7d3d6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 12/79] fix: masked standard deviations clamp a negative
 rounding residue to zero

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 1366033..d4608b4 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -458,7 +458,7 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type)0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -745,7 +745,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type)0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 9bdf696bc053c9c77ce55fec99978fb2f6a389c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 13/79] fix: broadcast strides from the array's own shape,
 aligned from the right

---
 .../internal/include/internal/shape_helpers.cpp  | 16 +++++++---------
 bland/bland/ops/cpu/elementwise_unary_op.hpp     |  2 +-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..3c918cc 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -48,7 +48,7 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 
     int offset = out_shape.size() - shape.size();
     for (int i = 0; i < shape.size(); ++i) {
-        if (shape[i] != 1) {
+        if (i + offset >= 0 && shape[i] != 1) {
             broadcast_strides[i + offset] = strides[i];
         }
     }
@@ -56,15 +56,13 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    // Dimensions are aligned from the right: missing leading dimensions and those of size 1 take the extent of out_shape
+    std::vector<int64_t> broadcast_shape(out_shape);
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+    int64_t offset = static_cast<int64_t>(out_shape.size()) - static_cast<int64_t>(shape.size());
+    for (int64_t i = 0; i < static_cast<int64_t>(shape.size()); ++i) {
+        if (i + offset >= 0 && shape[i] != 1) {
+            broadcast_shape[i + offset] = shape[i];
         }
     }
 
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index 1828a62..6e77fde 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
     a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape = compute_broadcast_shape(a_shape, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
-- 
2.43.0


From 6fa1d96c030406bf0908e648c079d0d654790d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 14/79] fix: broadcasting an empty dimension with one of size 1
 gives an empty dimension

---
 bland/bland/internal/include/internal/shape_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 3c918cc..1e3b43d 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -21,7 +21,7 @@ std::vector<int64_t> bland::expand_shapes_to_broadcast(std::vector<int64_t> a_sh
             throw std::invalid_argument(error_message);
         }
 
-        out_shape[ndim - i - 1] = std::max(a_dim, b_dim);
+        out_shape[ndim - i - 1] = a_dim == 1 ? b_dim : a_dim;
     }
 
     return out_shape;
-- 
2.43.0


From 8dd49dac75a74726a5d32467f37527be5b9dcc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 15/79] fix: results of binary operations have the broadcast
 shape of both operands

---
 bland/bland/ops/cpu/arithmetic_cpu.cpp |  6 ++++--
 bland/bland/ops/cpu/comparison_cpu.cpp | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..922e546 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray_slice.hpp"
 
 #include "internal/dispatcher.hpp"
+#include "internal/shape_helpers.hpp"
 #include "elementwise_binary_op.hpp"
 #include "elementwise_scalar_op.hpp"
 
@@ -25,7 +26,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +74,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +119,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +164,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +209,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +257,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From f7123df391971e5e5f4b1e0fe83f0732283b9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 16/79] fix: comparisons with the scalar on the left compare
 the scalar with the elements

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 922e546..693ee0f 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -20,7 +20,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -68,7 +68,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -113,7 +113,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -158,7 +158,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From a192d46e1df62eb5d8bb042750ad0198214863d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 17/79] fix: scalar minus array and scalar divided by array
 compute what they say

---
 .../include/bland/ops/ops_arithmetic.hpp      |  8 +++++++
 bland/bland/ndarray.cpp                       |  4 ++--
 bland/bland/ops/arithmetic.cpp                | 21 ++++++++++++++++++
 bland/bland/ops/cpu/arithmetic_cpu.hpp        |  7 ++++++
 bland/bland/ops/cpu/arithmetic_cpu_impl.hpp   | 17 ++++++++++++++
 bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp | 22 +++++++++++++++++++
 6 files changed, 77 insertions(+), 2 deletions(-)

diff --git a/bland/bland/include/bland/ops/ops_arithmetic.hpp b/bland/bland/include/bland/ops/ops_arithmetic.hpp
index f1cccfa..726960b 100644
--- a/bland/bland/include/bland/ops/ops_arithmetic.hpp
+++ b/bland/bland/include/bland/ops/ops_arithmetic.hpp
@@ -19,5 +19,13 @@ ndarray multiply(ndarray a, T b);
 template <typename T>
 ndarray divide(ndarray a, T b);
 
+/// scalar `b` minus each element of `a`
+template <typename T>
+ndarray subtract_from(ndarray a, T b);
+
+/// scalar `b` divided by each element of `a`
+template <typename T>
+ndarray divide_into(ndarray a, T b);
+
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 5431d26..ec64bce 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -479,7 +479,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return bland::subtract_from(rhs, lhs);
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +569,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return bland::divide_into(rhs, lhs);
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
diff --git a/bland/bland/ops/arithmetic.cpp b/bland/bland/ops/arithmetic.cpp
index 8f79ca6..437db20 100644
--- a/bland/bland/ops/arithmetic.cpp
+++ b/bland/bland/ops/arithmetic.cpp
@@ -125,3 +125,24 @@ template ndarray bland::divide<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::divide<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::divide<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::divide<uint64_t>(ndarray a, uint64_t b);
+
+// Subtracts from a scalar...
+template <typename T>
+ndarray bland::subtract_from(ndarray a, T b) {
+    return device_dispatch(cpu::subtract_from_cpu<T>, nullptr, a, b);
+}
+template ndarray bland::subtract_from<float>(ndarray a, float b);
+template ndarray bland::subtract_from<int32_t>(ndarray a, int32_t b);
+template ndarray bland::subtract_from<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::subtract_from<uint32_t>(ndarray a, uint32_t b);
+
+
+// Divides a scalar by...
+template <typename T>
+ndarray bland::divide_into(ndarray a, T b) {
+    return device_dispatch(cpu::divide_into_cpu<T>, nullptr, a, b);
+}
+template ndarray bland::divide_into<float>(ndarray a, float b);
+template ndarray bland::divide_into<int32_t>(ndarray a, int32_t b);
+template ndarray bland::divide_into<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::divide_into<uint32_t>(ndarray a, uint32_t b);
diff --git a/bland/bland/ops/cpu/arithmetic_cpu.hpp b/bland/bland/ops/cpu/arithmetic_cpu.hpp
index a2a999f..25444a7 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.hpp
@@ -21,6 +21,13 @@ ndarray multiply_cpu(ndarray a, T b);
 template <typename T>
 ndarray divide_cpu(ndarray a, T b);
 
+// scalar `b` minus / divided by each element of `a`
+template <typename T>
+ndarray subtract_from_cpu(ndarray a, T b);
+
+template <typename T>
+ndarray divide_into_cpu(ndarray a, T b);
+
 } // namespace cpu
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
index 9bf25a9..524b954 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
@@ -50,6 +50,23 @@ template <typename Out, typename A, typename B>
 };
 
 
+/**
+ * Template struct to allow passing an elementwise subtraction of the element from the (scalar) second operand
+*/
+struct elementwise_subtract_from_op_ts {
+    template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b - a); }
+};
+
+/**
+ * Template struct to allow passing an elementwise division of the (scalar) second operand by the element
+*/
+struct elementwise_divide_into_op_ts {
+    template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b / a); }
+};
+
+
 template <typename Out, typename A>
 struct elementwise_copy_op {
     static inline Out call(const A &a) { return static_cast<Out>(a); }
diff --git a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
index baa8213..45e563d 100644
--- a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
@@ -85,3 +85,25 @@ template ndarray bland::cpu::divide_cpu<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::cpu::divide_cpu<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::cpu::divide_cpu<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::cpu::divide_cpu<uint64_t>(ndarray a, uint64_t b);
+
+// Subtracts from a scalar...
+template <typename T>
+ndarray bland::cpu::subtract_from_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_subtract_from_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::subtract_from_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::subtract_from_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::subtract_from_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::subtract_from_cpu<uint32_t>(ndarray a, uint32_t b);
+
+// Divides a scalar by...
+template <typename T>
+ndarray bland::cpu::divide_into_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_divide_into_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::divide_into_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::divide_into_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::divide_into_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::divide_into_cpu<uint32_t>(ndarray a, uint32_t b);
-- 
2.43.0


From fb5276ac30db1608d0e9c0dd8e695aaee38712d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 18/79] fix: var and masked_var leave the variance in the
 output array they are given

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From c78da885d20ff7245b32e9d4aafc7342e374405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 19/79] fix: reading a coarse channel one past the last is out
 of range

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 809de10..8e1fca5 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,7 +212,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -272,7 +272,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From df7a922d2b17370c63595464a76baae94c4e2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 20/79] fix: inferring coarse channels of a small file does not
 divide by zero

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 8e1fca5..9c53cc9 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -69,7 +69,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
@@ -83,7 +83,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
-- 
2.43.0


From 91a73532bb608fae9200fe0533be8fdb534d80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 21/79] fix: scans with equal frequencies are consistent and
 scans with different ones are not

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..c7cc5e6 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -146,7 +146,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 043b93f150c3c745b7da0e8e30855dd859d0f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 22/79] fix: an observation target without scans reports it has
 no channels to index

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index c7cc5e6..0cb541f 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -70,7 +70,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -79,7 +79,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
-- 
2.43.0


From 6da7ec33e9d73721b9de9e32ae55217501eab398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 23/79] fix: channel slices of targets and cadences keep the
 target name and device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 0cb541f..f43a732 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -91,6 +91,8 @@ bliss::observation_target bliss::observation_target::slice_observation_channels(
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     return target_coarse_channel;
 }
 
@@ -184,6 +186,7 @@ bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
+    cadence_coarse_channel._device = _device;
     return cadence_coarse_channel;
 }
 
-- 
2.43.0


From 690c5479d0a6b804194fcfa14e7cff9a7ba26b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 24/79] fix: a scan keeps its device when the device it is
 given is invalid

---
 bliss/core/scan.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 9c53cc9..a2ef5c7 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -336,14 +336,13 @@ bland::ndarray::dev bliss::scan::device() {
 }
 
 void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
-    _device = device;
-
     if (device.device_type == bland::ndarray::dev::cuda.device_type ||
         device.device_type == bland::ndarray::dev::cuda_managed.device_type) {
         if (!bland::g_config.check_is_valid_cuda_device(device.device_id, verbose)) {
             throw std::runtime_error("set_device received invalid cuda device");
         }
     }
+    _device = device;
 
     for (auto &[channel_index, cc] : _coarse_channels) {
         cc->set_device(device);
-- 
2.43.0


From 07de2ba79a953885da4cd841503513270a036d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 25/79] fix: a scan made of coarse channels takes over all of
 their metadata

---
 bliss/core/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index a2ef5c7..6566da7 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -113,6 +113,16 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _source_name = first_cc->source_name();
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
+    _fine_channels_per_coarse = first_cc->nchans();
+    _machine_id = first_cc->_machine_id;
+    _nbits = first_cc->_nbits.value_or(0);
+    _nifs = first_cc->nifs();
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
+    _data_type = first_cc->data_type();
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
 }
 
 scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
-- 
2.43.0


From 4d584eddb6f4d171abd8c128c81ab4c4c8acd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 26/79] fix: scan metadata that a file does not give is zero
 and not indeterminate

---
 bliss/core/include/core/scan.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index 982903c..f835a28 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -140,33 +140,33 @@ class scan {
     std::vector<std::function<coarse_channel(coarse_channel)>> _coarse_channel_pipeline;
 
     // Read from h5 file
-    double      _fch1;
-    double      _foff;
+    double      _fch1 = 0;
+    double      _foff = 0;
     std::optional<int64_t>     _machine_id;
-    int64_t     _nbits;
-    int64_t     _nchans;
-    int64_t     _nifs;
+    int64_t     _nbits = 0;
+    int64_t     _nchans = 0;
+    int64_t     _nifs = 0;
     std::string _source_name;
     std::optional<double>      _src_dej;
     std::optional<double>      _src_raj;
     std::optional<int64_t>     _telescope_id;
-    double      _tsamp;
-    double      _tstart;
+    double      _tsamp = 0;
+    double      _tstart = 0;
 
-    int64_t _data_type;
+    int64_t _data_type = 0;
     std::optional<double>  _az_start;
     std::optional<double>  _za_start;
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int _fine_channels_per_coarse = 0;
     // Derived values at read-time
-    int64_t _num_coarse_channels;
+    int64_t _num_coarse_channels = 0;
     int64_t _coarse_channel_offset = 0;
 
     // slow time is number of spectra
-    int64_t _ntsteps;
-    double  _tduration_secs;
+    int64_t _ntsteps = 0;
+    double  _tduration_secs = 0;
 
     bland::ndarray::dev _device = bland::ndarray::dev::cpu;
 
-- 
2.43.0


From b4f6214fc818c563b4cd9907b323ed0a13575aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 27/79] fix: h5 files with an unknown dimension are accepted
 when its size is 1 and rejected otherwise

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..3026a18 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -257,7 +257,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
-- 
2.43.0


From 48ae61a782d0067eaf65c9df9aebef45b38586d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 28/79] fix: asking for a non-string h5 attribute as a string
 names the attribute

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 3026a18..7f983c1 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -134,7 +134,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
-- 
2.43.0


From 16fe401d91ed781687fae7b9590ea7395d2c1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 29/79] fix: fixed-length h5 strings are read without their
 null padding

---
 bliss/file_types/h5_filterbank_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 7f983c1..a8f708d 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,6 +5,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <bland/bland.hpp>
+#include <algorithm> // find
 #include <iostream> // cerr
 #include <vector>
 
@@ -116,7 +117,8 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
             attr.read(dtype, val.data());
 
             // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            // null padded strings end at the padding
+            return std::string(val.begin(), std::find(val.begin(), val.end(), 0));
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
             char* val;
-- 
2.43.0


From 4d5e122c7876db05de2334026b1bd201710151a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 30/79] fix: h5 files with fewer dimension labels than
 dimensions are rejected

---
 bliss/file_types/h5_filterbank_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index a8f708d..0894905 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -244,6 +244,10 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     // fit our expectations:
     // * there are 3 dimensions with unique labels of time, feed_id, frequency
     // and fix any known issues (like labels swapped)
+    if (dim_labels.size() < dims.size()) {
+        throw std::invalid_argument("Not every dimension has a label");
+    }
+
     std::tuple<int64_t, bool, int> time_steps = {0, false, -1};
     std::tuple<int64_t, bool, int> feed_id = {0, false, -1};
     std::tuple<int64_t, bool, int> freq_bins  = {0, false, -1};
-- 
2.43.0


From 43bd3891c1d25ea36ab85db0fcd30b29b9ee6437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 31/79] fix: h5 attributes of other integer and float types are
 converted and not copied as raw bytes

---
 bliss/file_types/h5_filterbank_file.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 0894905..7455479 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -78,10 +78,17 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            // any other width or byte order, hdf5 converts
+            int64_t val;
+            attr.read(H5::PredType::NATIVE_INT64, &val);
+            return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            throw std::invalid_argument(fmt::format("H5 attribute {} is not a number", key));
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From d6df9464546cd0e1ec5ebfa86ea19c45c076ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 32/79] fix: reading the mask without a count gives the data's
 extents

---
 bliss/file_types/h5_filterbank_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 7455479..cc81174 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -380,6 +380,12 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     return mask_grid;
     // } else {
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
+        if (count.empty()) {
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size() && dim < count.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
         return mask_grid;
-- 
2.43.0


From 30caf2916c78879261400f10e3fb1dede6745f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 33/79] fix: negative slice bounds count from the end and a
 last partial stride is kept

---
 bland/bland/ops/ops.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..02a1234 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -167,13 +167,13 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
+        start = a.size(dim) + start;
     } else if (start > a.size(dim)) {
         throw std::out_of_range("Invalid start for stride (begins beyond the end)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
@@ -188,7 +188,7 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    sliced._tensor.shape[dim] = (end - start + stride - 1) / stride; // a last partial stride counts
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From c555fdc1d015faf2d9f8cd9071d1d3ad3c188ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 34/79] fix: equalizing the passband of a scan applies to the
 scan and not to a temporary

---
 bliss/preprocess/passband_static_equalize.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..40e9be5 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,9 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) {
+        return equalize_passband_filter(cc, h);
+    });
     return sc;
 }
 
-- 
2.43.0


From d66166f3ad5acfcbbacf3c9997ae184dd0496fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 35/79] fix: flagging magnitude of a scan applies to the scan
 and not to a temporary

---
 bliss/flaggers/magnitude.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..a83f624 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,16 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) {
+        return flag_magnitude(cc, threshold);
+    });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) {
+        return flag_magnitude(cc);
+    });
     return fil_data;
 }
 
-- 
2.43.0


From 6bc1b946d1125d0477f570c1ff78857fecc7b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 36/79] fix: sigma clipping starts from a uint8 mask, as masked
 statistics require

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From 0be6d70044424db69d56c0560b4ea6d27625f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 37/79] fix: rolloff flagging leaves a shared mask alone, flags
 as many channels on both edges and none for width 0

---
 bliss/flaggers/filter_rolloff.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..c6aa235 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -12,12 +12,18 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        // the mask may be shared, leave it as it is
+        bland::ndarray rfi_flags = bland::copy(mask);
+
+        constexpr auto flag = static_cast<uint8_t>(flag_values::filter_rolloff);
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
+        // clearing the flag before adding it is an or, so other flags stay as they are
+        auto lower_edge = bland::slice(rfi_flags, {1, 0, one_sided_channels});
+        lower_edge = lower_edge - bland::logical_and(lower_edge, flag) + flag;
+        auto upper_edge = bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans});
+        upper_edge = upper_edge - bland::logical_and(upper_edge, flag) + flag;
         return rfi_flags;
     });
     
-- 
2.43.0


From 2eee62357ee9abdbb62585ad48a780290cd7c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 38/79] fix: setting a flag that is already set does not carry
 into other flags

---
 bliss/flaggers/magnitude.cpp         | 3 ++-
 bliss/flaggers/sigmaclip.cpp         | 3 ++-
 bliss/flaggers/spectral_kurtosis.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index a83f624..d8e4941 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -20,7 +20,8 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    // adding only the flags which are not set yet is an or
+    mask = mask + (magnitude_mask - bland::logical_and(mask, magnitude_mask));
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 9e58dbb..c77bd40 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -39,7 +39,8 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    // adding only the flags which are not set yet is an or
+    auto accumulated_rfi = rfi_flags + (rfi - bland::logical_and(rfi_flags, rfi));
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..2a7c66f 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -36,7 +36,8 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    // adding only the flags which are not set yet is an or
+    auto accumulated_rfi = rfi_flags + (rfi - bland::logical_and(rfi_flags, rfi));
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
-- 
2.43.0


From 7d48bf4491cc9a3e9d02bc9d6c09ca13e1fa2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 39/79] fix: hit_search leaves time_span_steps of every hit
 uninitialised

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..a8d8f7c 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -48,6 +48,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
 
         freq_offset             = dedrifted_scan.foff() * c.index_center.frequency_channel;
         this_hit.start_freq_MHz = dedrifted_scan.fch1() + freq_offset;
+        this_hit.time_span_steps = integration_length;
         this_hit.start_time_sec = dedrifted_scan.tstart() * 24 * 60 * 60; // convert MJD to seconds since MJ
         this_hit.duration_sec   = dedrifted_scan.tsamp() * integration_length;
         this_hit.coarse_channel_number = dedrifted_scan._coarse_channel_number;
-- 
2.43.0


From 418889a9e236ccdbedb7ab0fe6b640fce05f5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 40/79] fix: cpu drift integration runs out of bounds for
 drifts spanning more than all channels

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..c5ea728 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -80,7 +80,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
@@ -129,7 +129,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
-- 
2.43.0


From 49b87f34be9a96bfc75c1bc457d9bc62ed6f1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 41/79] fix: 8 bit counts of flagged samples along a drift wrap
 around

---
 .../kernels/drift_integration_cpu.cpp            | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index c5ea728..f9bf975 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -9,6 +9,7 @@
 #include <fmt/format.h>
 
 #include <cmath> // std::round, std::abs
+#include <limits>
 
 using namespace bliss;
 
@@ -45,6 +46,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     auto drift_plane_strides = drift_plane.strides();
     auto drift_plane_shape   = drift_plane.shape();
 
+    // Flag counts are 8 bit and must not wrap around to 0
+    constexpr uint8_t max_rfi_count = std::numeric_limits<uint8_t>::max();
+
     auto first_channel = 0; // This needs to be incrememnted by the offset from the most negative drift
     // We use all time available inside this function
     for (int drift_index = 0; drift_index < number_drifts; ++drift_index) {
@@ -85,15 +89,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) && lowsk_rfi_ptr[lowsk_index] < max_rfi_count) {
                                 lowsk_rfi_ptr[lowsk_index] += 1;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) && highsk_rfi_ptr[highsk_index] < max_rfi_count) {
                                 highsk_rfi_ptr[highsk_index] += 1;
                             }
                             highsk_index += highsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) && rolloff_rfi_ptr[filtrolloff_index] < max_rfi_count) {
                                 rolloff_rfi_ptr[filtrolloff_index] += 1;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
@@ -134,15 +138,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) && lowsk_rfi_ptr[lowsk_index] < max_rfi_count) {
                                 lowsk_rfi_ptr[lowsk_index] += 1;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) && highsk_rfi_ptr[highsk_index] < max_rfi_count) {
                                 highsk_rfi_ptr[highsk_index] += 1;
                             }
                             highsk_index += highsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) && rolloff_rfi_ptr[filtrolloff_index] < max_rfi_count) {
                                 rolloff_rfi_ptr[filtrolloff_index] += 1;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
-- 
2.43.0


From ea424723ac05602e53cd497cd6eaec91e71baf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 42/79] fix: rfi counts of a component are those of its first
 cell instead of its maximum

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From 924be47e9c42ffd736b46bd34c4de8dfc2a93422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 43/79] fix: local maxima search compares a candidate with
 itself and never finds any

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..de9980a 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // a candidate is not its own neighbor
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 298f39be63ce3799d41efcfde032bd9aa6f9e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 44/79] fix: neighborhoods of the hit search leave out the far
 end of the L1 distance

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 4 ++--
 bliss/drift_search/kernels/connected_components_cuda.cu | 8 ++++----
 bliss/drift_search/kernels/local_maxima_cpu.cpp         | 4 ++--
 bliss/drift_search/kernels/local_maxima_cuda.cu         | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 62653bf..223e01c 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -168,8 +168,8 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                         this_component.locations.push_back(idx);
 
                         // Then add all of the neighbors as candidates
-                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                                 auto neighbor_coord = idx;
 
                                 neighbor_coord.drift_index += drift_neighbor_offset;
diff --git a/bliss/drift_search/kernels/connected_components_cuda.cu b/bliss/drift_search/kernels/connected_components_cuda.cu
index 8d6774f..56d6b81 100644
--- a/bliss/drift_search/kernels/connected_components_cuda.cu
+++ b/bliss/drift_search/kernels/connected_components_cuda.cu
@@ -50,8 +50,8 @@ __global__ void initialize_components_kernel(float* doppler_spectrum_data,
         if (candidate_snr > snr_threshold/2) {
             // Look at the entire neighborhood
             bool is_neighborhood_max = true;
-            for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+            for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                     auto neighbor_coord = freq_drift_coord{.drift_index=candidate_drift_index, .frequency_channel=candidate_frequency_channel};
 
                     neighbor_coord.drift_index += drift_neighbor_offset;
@@ -182,14 +182,14 @@ __global__ void merge_labels(
 
             auto central_coord = freq_drift_coord{.drift_index=candidate_drift_index, .frequency_channel=candidate_frequency_channel};
             // Look in our neighborhood for the protohit_id with the highest snr, and track its id
-            for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
+            for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
                 auto neighbor_coord_freq = central_coord;
                 neighbor_coord_freq.frequency_channel += freq_neighbor_offset;
                 if (neighbor_coord_freq.frequency_channel < 0 || neighbor_coord_freq.frequency_channel >= number_channels) {
                     // a neighbor is out of bounds, don't pay attention to this (shouldn't even get here)
                     break;
                 }
-                for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                     auto neighbor_coord_drift = neighbor_coord_freq;
                     neighbor_coord_drift.drift_index += drift_neighbor_offset;
 
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index de9980a..1a8946b 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -53,8 +53,8 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
             if (candidate_snr > snr_threshold) {
                 // 4. Check if it is greater than surrounding neighborhood
                 bool neighborhood_max = true;
-                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                         if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
                             continue; // a candidate is not its own neighbor
                         }
diff --git a/bliss/drift_search/kernels/local_maxima_cuda.cu b/bliss/drift_search/kernels/local_maxima_cuda.cu
index 03a5a8e..28e9092 100644
--- a/bliss/drift_search/kernels/local_maxima_cuda.cu
+++ b/bliss/drift_search/kernels/local_maxima_cuda.cu
@@ -38,8 +38,8 @@ __global__ void local_maxima_kernel(float* doppler_spectrum_data,
         if (candidate_snr > snr_threshold) {
             // 4. Check if it is greater than surrounding neighborhood
             bool neighborhood_max = true;
-            for (int freq_neighbor_offset = -neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                for (int drift_neighbor_offset = -neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist - abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+            for (int freq_neighbor_offset = -neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                for (int drift_neighbor_offset = -neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist - abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                     auto neighbor_coord = freq_drift_coord{.drift_index=central_drift_index, .frequency_channel=central_frequency_channel};
 
                     neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 1844f0dcbdc00440e54bfbee78054da855e01e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 45/79] fix: arrays borrowed through dlpack keep pointers into
 the lender's shape and strides

---
 bland/bland/bland_tensor_internals.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..f7dd3cc 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,9 +30,17 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
-    DLTensor::strides  = _strides_ownership.data();
+    if (other_tensor.dl_tensor.strides != nullptr) {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    } else {
+        // dlpack has no strides for compact row-major tensors
+        _strides_ownership = std::vector<int64_t>(DLTensor::ndim, 1);
+        for (int dim = DLTensor::ndim - 1; dim > 0; --dim) {
+            _strides_ownership[dim - 1] = _strides_ownership[dim] * _shape_ownership[dim];
+        }
+    }
+    DLTensor::strides = _strides_ownership.data();
 
     // dlpack can't support offsets, so they must be 0
     blandDLTensor::_offsets = std::vector<int64_t>(DLTensor::ndim, 0);
@@ -40,8 +48,6 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
     DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From 84854f4853d65020137702fe68c5c7a8c07924c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 46/79] fix: assigning a borrowed array drops its data

---
 bland/bland/bland_tensor_internals.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index f7dd3cc..0d067ab 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -179,7 +179,7 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        this->data            = other.data; // not owned if this is a view from another framework
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0


From 5eea051717a34c94d04d3362586d588d843eb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 47/79] fix: size of a negative axis is read before the shape

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index ec64bce..3125f9e 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -181,7 +181,7 @@ std::vector<int64_t> bland::ndarray::shape() const {
 }
 
 int64_t bland::ndarray::size(int64_t axis) const {
-    if (axis < _tensor.ndim) {
+    if (axis >= 0 && axis < _tensor.ndim) {
         return _tensor.shape[axis];
     } else {
         throw std::invalid_argument("bad axis for ndim");
-- 
2.43.0


From 5838d52fced7c25f8058ee043da74ab05d50d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 48/79] fix: scalarize ignores the offsets of a slice

---
 bland/bland/ndarray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 3125f9e..2366357 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -221,7 +221,11 @@ T bland::ndarray::scalarize() const {
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    int64_t linear_offset = 0;
+    for (auto offset : cpu_copy.offsets()) {
+        linear_offset += offset;
+    }
+    return cpu_copy.data_ptr<T>()[linear_offset];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From bde79bc4929fe593f250de587b5de1ac1238e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 49/79] fix: scalarize overflows at an index in a large array

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 2366357..b58df8a 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -246,7 +246,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
-- 
2.43.0


From 11ba3ec5124cedc49452123133fc3057de6a6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 50/79] fix: squeeze drops the offset of the squeezed axis

---
 bland/bland/ndarray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index b58df8a..6f43410 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -674,6 +674,12 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    if (!new_offsets.empty()) {
+        // The array may be a slice along the axis that goes away
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    } else if (_tensor._offsets[squeeze_axis] != 0) {
+        throw std::runtime_error("ndarray::squeeze of a slice to a scalar would require a copy which isn't yet implemented");
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From e7a7da3727ab815a64d4dd1a54df3917ad23c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 51/79] fix: unsqueeze at an axis out of range reads past the
 shape

---
 bland/bland/ndarray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 6f43410..e0dd2ea 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -690,6 +690,11 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
 }
 
 ndarray bland::ndarray::unsqueeze(const int64_t unsqueeze_axis) {
+    if (unsqueeze_axis < 0 || unsqueeze_axis > ndim()) {
+        throw std::runtime_error(
+                fmt::format("ndarray::unsqueeze({}) is not an axis for a tensor with {} dims", unsqueeze_axis, ndim()));
+    }
+
     auto    new_shape      = std::vector<int64_t>();
     auto    new_strides    = std::vector<int64_t>();
     auto    new_offsets    = std::vector<int64_t>();
-- 
2.43.0


From cd75228aa36648663e33d29f8d23600d2f3ba27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 52/79] fix: slice accepts strides below 1 and starts before
 the array

---
 bland/bland/ops/ops.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 02a1234..e7523e1 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -165,9 +165,16 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     ndarray_slice sliced(a);
 
+    if (stride < 1) {
+        throw std::invalid_argument("slice: stride has to be positive");
+    }
+
     if (start < 0) {
         // Negative is an offset from the end
         start = a.size(dim) + start;
+        if (start < 0) {
+            throw std::out_of_range("Invalid start for slice (begins before the array)");
+        }
     } else if (start > a.size(dim)) {
         throw std::out_of_range("Invalid start for stride (begins beyond the end)");
     }
-- 
2.43.0


From 481286cf1245d28739532a20391b7a0a29598a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 53/79] fix: reshape computes strides that skip or repeat
 elements

---
 bland/bland/ndarray.cpp | 58 +++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index e0dd2ea..bd335ba 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -600,35 +600,41 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         throw std::runtime_error(error_message);
     }
 
-    if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
-        int64_t new_ndim = new_shape.size();
-        // We can collapse all offsets to the last dimension
-        auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
-        _tensor._offsets   = new_offsets;
-
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
+    // Elements that are not evenly spaced in row-major order require a copy. That's what pytorch does if the new
+    // shape isn't compatible due to strides
+    int64_t element_stride = 1;
+    int64_t next_stride    = 0; // distance between elements of the next (slower) axis, 0 until known
+    for (int64_t axis = _tensor.ndim - 1; axis >= 0; --axis) {
+        if (_tensor.shape[axis] == 1) {
+            continue;
         }
-        _tensor._strides_ownership = new_strides;
-        _tensor.strides            = _tensor._strides_ownership.data();
-        _tensor.ndim               = new_ndim;
-    } else {
+        if (next_stride == 0) {
+            element_stride = _tensor.strides[axis];
+        } else if (_tensor.strides[axis] != next_stride) {
+            throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+        }
+        next_stride = _tensor.strides[axis] * _tensor.shape[axis];
+    }
+
+    int64_t new_ndim = new_shape.size();
+    // We can collapse all offsets to the last dimension
+    auto total_offset = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
+    auto new_offsets  = std::vector<int64_t>(new_ndim, 0);
+    if (new_ndim > 0) {
+        new_offsets.back() = total_offset;
+    } else if (total_offset != 0) {
         throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
     }
+    _tensor._offsets = new_offsets;
+
+    auto new_strides = std::vector<int64_t>(new_ndim, 0);
+    for (int64_t axis = new_ndim - 1; axis >= 0; --axis) {
+        new_strides[axis] = element_stride;
+        element_stride *= new_shape[axis];
+    }
+    _tensor._strides_ownership = new_strides;
+    _tensor.strides            = _tensor._strides_ownership.data();
+    _tensor.ndim               = new_ndim;
 
     _tensor._shape_ownership = new_shape;
     _tensor.shape            = _tensor._shape_ownership.data();
-- 
2.43.0


From 2a20b26c7eea79c159eeaf47adf6121255d561fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 54/79] fix: arrays borrowed through dlpack ignore the byte
 offset and leave their own undefined

---
 bland/bland/bland_tensor_internals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 0d067ab..c588dfc 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -47,7 +47,8 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
+    DLTensor::data    = static_cast<char *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
+    DLTensor::byte_offset = 0;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From 9021b98d7696bd0e164f6e40c2c12b7c8ecd0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 55/79] fix: exported slices start at the first element of the
 whole array

---
 bland/bland/bland_tensor_internals.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index c588dfc..493a571 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -201,21 +201,8 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
+    // dlpack has no offsets per dim, but the elements of a slice start at their sum
+    int64_t total_offset = std::accumulate(_offsets.begin(), _offsets.end(), int64_t{0});
 
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
@@ -226,6 +213,7 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
     // Dynamically allocate a new blandDLTensor to co-own underlying data
     auto context_owner  = new blandDLTensor(*this);
     tensor->dl_tensor   = *context_owner;
+    tensor->dl_tensor.byte_offset += total_offset * (DLTensor::dtype.bits / 8);
     tensor->manager_ctx = context_owner;
 
     tensor->deleter = [](DLManagedTensor *self) {
-- 
2.43.0


From 7578963a5e8ae6f3eb6acbbbd047eec559e6eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 56/79] fix: the tensor of an empty array is partly undefined

---
 bland/bland/bland_tensor_internals.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 493a571..8a3ffef 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -21,6 +21,9 @@ blandDLTensor::blandDLTensor() {
     DLTensor::shape = nullptr; // Should we actually make this valid but 0?
     DLTensor::ndim = 0;
     DLTensor::strides = nullptr;
+    DLTensor::byte_offset = 0;
+    DLTensor::device  = DLDevice{.device_type = kDLCPU, .device_id = 0};
+    DLTensor::dtype   = DLDataType{.code = kDLFloat, .bits = 32, .lanes = 1};
 }
 
 // Effectively a from_dlpack method...
-- 
2.43.0


From 4ec9de2f39a424ec8d18ee9ed0bcf3b3a2c0da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 57/79] fix: the distance of two hits takes the end of one from
 the other's duration

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From f4ac2cced4681a01e90d4853152ad7b4e077faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 58/79] fix: the hit pair comparator is not a strict weak
 ordering

---
 bliss/drift_search/event_search.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index dfc1878..481a33e 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -4,6 +4,7 @@
 #include <core/cadence.hpp>
 
 #include <fmt/format.h>
+#include <algorithm>
 #include <cstdint>
 
 using namespace bliss;
@@ -48,13 +49,8 @@ float distance_func(const hit &a, const hit &b) {
 struct hit_distance {
     struct hit_pair_comparator {
         bool operator()(const std::pair<hit, hit> &p1, const std::pair<hit, hit> &p2) const {
-            if (p1.first == p2.first && p1.second == p2.second) {
-                return false;
-            }
-            if (p1.first == p2.second && p1.second == p2.first) {
-                return false;
-            }
-            return p1 < p2;
+            // the order of the two hits in a pair does not matter
+            return std::minmax(p1.first, p1.second) < std::minmax(p2.first, p2.second);
         }
     };
 
-- 
2.43.0


From f57aa0b73fed082b60c152f9ed75c2a491f4e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 59/79] fix: searching a cadence without targets reads past the
 target list

---
 bliss/drift_search/event_search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 481a33e..05a3547 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -73,6 +73,10 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
     hit_distance       distance;
     std::vector<event> detected_events;
 
+    if (cadence_with_hits._observations.empty()) {
+        return detected_events;
+    }
+
     // TODO: should we find "matches" between same-scan as part of filtering
 
     // assume the on_target is the 0-indexed target inside the cadence. This can be adjusted
-- 
2.43.0


From 5b6d78b430b5ecdb6105300931db30e92a022927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 60/79] fix: the state of a hit drops its time span, flags and
 channel and narrows its frequency

---
 bliss/core/hit.cpp              | 15 ++++++++++++---
 bliss/core/include/core/hit.hpp | 17 ++++++++++-------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..74b6256 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -20,9 +20,11 @@ hit::state_tuple bliss::hit::get_state() const {
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
-                           // rfi_counts,
-    );
+                           binwidth,
+                           start_time_sec,
+                           duration_sec,
+                           std::map<int, uint8_t>(rfi_counts.begin(), rfi_counts.end()),
+                           coarse_channel_number);
 }
 
 void bliss::hit::set_state(state_tuple state) {
@@ -35,4 +37,11 @@ void bliss::hit::set_state(state_tuple state) {
     snr                   = std::get<6>(state);
     bandwidth             = std::get<7>(state);
     binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<9>(state);
+    duration_sec          = std::get<10>(state);
+    rfi_counts.clear();
+    for (const auto &[flag, count] : std::get<11>(state)) {
+        rfi_counts[static_cast<flag_values>(flag)] = count;
+    }
+    coarse_channel_number = std::get<12>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..32c9db2 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,15 +81,18 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
-                                   // rfi /*rfi_counts*/,
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
+                                   std::map<int, uint8_t> /*rfi_counts*/,
+                                   int64_t /*coarse_channel_number*/
                                    >;
 
     state_tuple get_state() const;
-- 
2.43.0


From 15d52aaed3aafe87bd3c6ff3581cade99e6603c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 61/79] fix: a noise estimate by MAD returned statistics
 without values, which crash when read

---
 bliss/estimators/noise_estimate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/estimators/noise_estimate.cpp b/bliss/estimators/noise_estimate.cpp
index 55dc1e0..6e147bb 100644
--- a/bliss/estimators/noise_estimate.cpp
+++ b/bliss/estimators/noise_estimate.cpp
@@ -42,6 +42,8 @@ noise_stats noise_power_estimate_stddev(bland::ndarray x, bland::ndarray mask) {
  * Compute noise power using the Median Absolute Deviation (MAD) over the population
  */
 noise_stats noise_power_estimate_mad(const bland::ndarray &x) {
+
+    throw std::runtime_error("noise power estimation with mad is not implemented yet");
     noise_stats estimated_stats;
 
     // TODO: do medians right (TM)
-- 
2.43.0


From 1d38b5cc6b749a8b2a6753b92e09e8513b9fea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 62/79] fix: without an output path the hits of every scan were
 written over those of the first

---
 bliss/bliss_find_hits.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..e4ca1da 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,22 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            auto scan_output_path   = output_path;
+            auto scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From f32ef8388fa91241af836f38a004e5e0dd20b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 63/79] fix: find_hits reported success after a fatal exception

---
 bliss/bliss_find_hits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index e4ca1da..0905c37 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -163,6 +163,7 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
 }
-- 
2.43.0


From bfe29560e25b23f8cd518feecb850e8bb2bb0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 64/79] fix: the power spectrum of an even number of samples
 was written one past its end

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..0b50faa 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -38,7 +38,9 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        if (shift_index < N) { // for an even N the last bin is at the negative end only
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-- 
2.43.0


From 8c3b5f3d7fd1dfdcb580ccecc41418ae97d68fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 65/79] fix: the length of the full band response overflowed an
 int

---
 bliss/preprocess/passband_static_equalize.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 40e9be5..507a1fa 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -72,9 +72,7 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
     auto h = firdes(num_taps, 1.0f/static_cast<float>(num_coarse_channels), window);
 
     // Zero-pad to full rate (need to know the number of coarse channels in original recording)
-    int total_fine_channels = num_coarse_channels * fine_per_coarse;
-
-    int64_t full_res_length = static_cast<int64_t>(num_coarse_channels * fine_per_coarse);
+    int64_t full_res_length = static_cast<int64_t>(num_coarse_channels) * fine_per_coarse;
     auto h_padded = bland::zeros({full_res_length});
 
     h_padded.slice(bland::slice_spec{0, 0, h.size(0)}) = h;
-- 
2.43.0


From 0c982e181202e6b32b2e7b87b9427232629071a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 66/79] fix: the passband response for an odd number of
 channels was rotated by half a channel

---
 bliss/preprocess/passband_static_equalize.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 507a1fa..6a30718 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -84,8 +84,10 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
 
     // bland::write_to_file(H, "H_full_magsquare.cuda_f32");
 
-    auto number_coarse_channels_contributing = H.size(0)/fine_per_coarse - 1;
-    auto slice_dims = bland::slice_spec{0, fine_per_coarse/2, full_res_length-fine_per_coarse/2};
+    // fold whole channels, aligned so that DC (at full_res_length/2) falls on the middle of its channel
+    auto fold_start = (full_res_length/2 - fine_per_coarse/2) % fine_per_coarse;
+    auto number_coarse_channels_contributing = (H.size(0) - fold_start)/fine_per_coarse;
+    auto slice_dims = bland::slice_spec{0, fold_start, fold_start + number_coarse_channels_contributing*fine_per_coarse};
     auto H_slice = H.slice(slice_dims);
     H = H_slice;
 
-- 
2.43.0


From b04eb0065d7c23c1fd23b74d87183734227e4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 67/79] fix: reading hits in an unknown format failed to format
 its error message instead of reporting it

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From b6640c326b28c805efba8044ddeca266ef99b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 68/79] fix: braces in a file's VERSION attribute made a
 warning fail

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index cc81174..4c4f928 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -230,7 +230,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
                         "versions list {}. Trying to read it anyway!\n",
                         filterbank_version,
                         supported_filterbank_versions);
-            fmt::print(warning);
+            fmt::print("{}", warning);
         }
     } catch (std::invalid_argument &e) {
         fmt::print("WARN: the h5 file does not have a 'VERSION' attribute to indicate what version of FILTERBANK this is. Will assume it is compatible and resume.\n");
-- 
2.43.0


From 818af617f8022fcd01b3c799c37c0dc000752c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 69/79] fix: two messages left out a value they were given

---
 bland/bland/ndarray.cpp | 2 +-
 bliss/core/scan.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index bd335ba..77cc215 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -650,7 +650,7 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
 
     if (squeeze_axis < 0) {
         auto error_message =
-                fmt::format("ndarray::squeeze({}) cannot squeeze negative axis", original_squeeze, squeeze_axis);
+                fmt::format("ndarray::squeeze({}) cannot squeeze negative axis {}", original_squeeze, squeeze_axis);
         throw std::runtime_error(error_message);
     }
 
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 6566da7..a4d903f 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -373,7 +373,7 @@ void bliss::scan::push_device() {
 
 bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t count) {
     if (count == -1) {
-        fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({})\n", get_number_coarse_channels(), get_number_coarse_channels() - start_channel);
+        fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({}), that is {} channels\n", get_number_coarse_channels(), get_number_coarse_channels() - start_channel);
         count = get_number_coarse_channels() - start_channel;
     }
 
-- 
2.43.0


From 8089f78738e6b79e3b99eb7553d0186c6c558a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 70/79] fix: a damaged or truncated hits or events file was
 read as if it ended there

---
 bliss/file_types/cpnp_files.cpp  | 21 ++++++++++----------
 bliss/file_types/events_file.cpp | 34 +++++++++++++++-----------------
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..dca4aec 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -13,6 +13,7 @@
 #include <capnp/message.h>
 #include <capnp/serialize.h>
 #include <kj/exception.h>
+#include <kj/io.h>
 
 #include <fmt/core.h>
 #include <fmt/format.h>
@@ -43,19 +44,17 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
     std::list<hit> hits;
 
-    while (true) {
-        try {
-            capnp::StreamFdMessageReader message(in_file._fd);
-            auto                         hit_reader    = message.getRoot<Hit>();
-            auto                         signal_reader = hit_reader.getSignal();
+    kj::FdInputStream             in_fd(in_file._fd);
+    kj::BufferedInputStreamWrapper in_stream(in_fd);
+    // Only running out of bytes between messages is the end of the file: a partial or damaged message throws
+    while (in_stream.tryGetReadBuffer().size() > 0) {
+        capnp::InputStreamMessageReader message(in_stream);
+        auto                            hit_reader    = message.getRoot<Hit>();
+        auto                            signal_reader = hit_reader.getSignal();
 
-            auto this_hit = detail::capnp_signal_message_to_bliss_hit(signal_reader);
+        auto this_hit = detail::capnp_signal_message_to_bliss_hit(signal_reader);
 
-            hits.push_back(this_hit);
-        } catch (kj::Exception &e) {
-            // We've reached the end of the file.
-            break;
-        }
+        hits.push_back(this_hit);
     }
 
     return hits;
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..23f819c 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -14,6 +14,7 @@
 #include <capnp/message.h>
 #include <capnp/serialize.h>
 #include <kj/exception.h>
+#include <kj/io.h>
 
 #include <fmt/core.h>
 #include <fmt/format.h>
@@ -47,25 +48,22 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    while (true) {
-
-        try {
-            capnp::StreamFdMessageReader message(in_file._fd);
-
-            auto event_reader      = message.getRoot<Event>();
-            auto deserialized_hits = event_reader.getHits();
-            // deserialized_event
-            event new_event;
-            for (auto deser_hit = deserialized_hits.begin(); deser_hit != deserialized_hits.end(); ++deser_hit) {
-                auto signal_reader = deser_hit->getSignal();
-                hit  new_hit       = detail::capnp_signal_message_to_bliss_hit(signal_reader);
-                new_event.hits.push_back(new_hit);
-            }
-            events.push_back(new_event);
-        } catch (kj::Exception &e) {
-            // We've reached the end of the file.
-            break;
+    kj::FdInputStream             in_fd(in_file._fd);
+    kj::BufferedInputStreamWrapper in_stream(in_fd);
+    // Only running out of bytes between messages is the end of the file: a partial or damaged message throws
+    while (in_stream.tryGetReadBuffer().size() > 0) {
+        capnp::InputStreamMessageReader message(in_stream);
+
+        auto event_reader      = message.getRoot<Event>();
+        auto deserialized_hits = event_reader.getHits();
+        // deserialized_event
+        event new_event;
+        for (auto deser_hit = deserialized_hits.begin(); deser_hit != deserialized_hits.end(); ++deser_hit) {
+            auto signal_reader = deser_hit->getSignal();
+            hit  new_hit       = detail::capnp_signal_message_to_bliss_hit(signal_reader);
+            new_event.hits.push_back(new_hit);
         }
+        events.push_back(new_event);
     }
 
     return events;
-- 
2.43.0


From d196aa509c7d8b8c91b8e6b94e2fb2d34eaa0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 71/79] fix: a failed or partial write of a dat file went
 unreported

---
 bliss/file_types/dat_file.cpp                 |  6 +++---
 bliss/file_types/detail/raii_file_helpers.cpp | 13 +++++++++++++
 bliss/file_types/detail/raii_file_helpers.hpp |  3 +++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index b9cb1f6..beecf0b 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -76,7 +76,7 @@ std::string format_hits_to_dat_list(Container hits) {
 //     auto output_file = detail::raii_file_for_write(file_path);
 
 //     auto table_contents = format_hits_to_dat_list(hits);
-//     write(output_file._fd, table_contents.c_str(), table_contents.size());
+//     output_file.write_all(table_contents);
 // }
 
 // std::list<hit> bliss::read_hits_from_dat_file(std::string_view file_path) {
@@ -130,9 +130,9 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
+    output_file.write_all(header);
     auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    output_file.write_all(table_contents);
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..9a2dea0 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -21,6 +21,19 @@ bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_pa
     }
 }
 
+void bliss::detail::raii_file_for_write::write_all(std::string_view contents) {
+    while (!contents.empty()) {
+        auto written = write(_fd, contents.data(), contents.size());
+        if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw std::runtime_error(fmt::format("raii_file_for_write: could not write to file (error={})", strerror(errno)));
+        }
+        contents.remove_prefix(written);
+    }
+}
+
 bliss::detail::raii_file_for_write::~raii_file_for_write() {
     close(_fd);
 }
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..76d1832 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -16,6 +16,9 @@ struct raii_file_for_write {
     int _fd;
     raii_file_for_write(std::string_view file_path);
 
+    // write all of contents, or throw
+    void write_all(std::string_view contents);
+
     ~raii_file_for_write();
 };
 struct raii_file_for_read {
-- 
2.43.0


From cc947b676b10a672528fe79778ef8f4da5413eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 72/79] fix: a failure while writing or reading a raw array
 file went unreported

---
 bland/bland/ops/cpu/ops_cpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 2c2ef7c..199e071 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -79,6 +79,9 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         throw std::runtime_error("Unsupported datatype for writing to file");
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("Could not write all of the array to the file.");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
@@ -94,6 +97,9 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
     in_file.read(x_ptr, numel * (dtype.bits / 8));
+    if (!in_file) {
+        throw std::runtime_error("Could not read all of the file.");
+    }
 
     return x;
 }
-- 
2.43.0


From 8e1d5894829335322a6ca6dae1742b2a219d65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 73/79] fix: cudamanaged and cudahost named cuda devices, and
 an unknown type name left the type undefined

---
 bland/bland/ndarray.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 77cc215..ac81716 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -60,6 +60,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::runtime_error("Unknown datatype name");
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
@@ -100,12 +102,6 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
-        device_type = DLDeviceType::kDLCUDA;
-        device_id   = 0;
-        if (dev_str.size() > 4 && dev_str[4] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(5)));
-        }
     } else if (dev_str.substr(0, 11) == "cudamanaged") {
         device_type = DLDeviceType::kDLCUDAManaged;
         device_id   = 0;
@@ -118,6 +114,12 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
         if (dev_str.size() > 8 && dev_str[8] == ':') {
             device_id = std::stoi(std::string(dev_str.substr(9)));
         }
+    } else if (dev_str.substr(0, 4) == "cuda") {
+        device_type = DLDeviceType::kDLCUDA;
+        device_id   = 0;
+        if (dev_str.size() > 4 && dev_str[4] == ':') {
+            device_id = std::stoi(std::string(dev_str.substr(5)));
+        }
     } else {
         throw std::runtime_error("Device type not supported in bland yet");
 	}
-- 
2.43.0


From 61e2d3858bcc8e3b7ff39041e8ab57af7557669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 74/79] fix: moving a view to another cpu device copied its
 memory instead of its elements

---
 bland/bland/ops/ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index e7523e1..7efbed0 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -108,7 +108,7 @@ ndarray bland::to(ndarray src, DLDevice dest_dev) {
         } else if (dest_dev.device_type == ndarray::dev::cpu.device_type) {
             if (source_dev.device_id != dest_dev.device_id) {
                 // cpu -> cpu, but different device_id, probably a numa thing
-                memcpy(dst_ptr, src_ptr, copy_size);
+                return cpu::copy(src, dst);
             } else {
                 // should not get here (should have returned the src as our result since no copy is required)
                 throw std::runtime_error("bland to: cpu->cpu reached unexpected code path");
-- 
2.43.0


From 3d675a7d00f513704d09a23569025d33e47297df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 75/79] fix: abs, median and standardized_moment read arrays of
 any device as if they were on the cpu

---
 bland/bland/ops/ops.cpp         |  2 +-
 bland/bland/ops/statistical.cpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7efbed0..379d044 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -339,5 +339,5 @@ ndarray bland::abs(ndarray a, ndarray out) {
 
 ndarray bland::abs(ndarray a) {
     auto out = ndarray(a.shape(), a.dtype(), a.device());
-    return cpu::abs(a, out);
+    return abs(a, out);
 }
diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 77eeca6..8c5c9ec 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -342,7 +342,16 @@ ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int
 }
 
 ndarray bland::standardized_moment(const ndarray &a, int degree, ndarray &out, std::vector<int64_t> reduced_axes) {
-    return cpu::standardized_moment(a, degree, out, reduced_axes);
+    auto compute_device = a.device();
+
+    if (out.device() != compute_device) {
+        throw std::runtime_error("out array is not on same device as input");
+    }
+    if (compute_device.device_type == ndarray::dev::cpu.device_type) {
+        return cpu::standardized_moment(a, degree, out, reduced_axes);
+    } else {
+        throw std::runtime_error("unsupported device for standardized_moment");
+    }
 }
 ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int64_t> reduced_axes) {
     auto out_shape = std::vector<int64_t>();
@@ -363,7 +372,7 @@ ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int
 }
 
 float bland::median(const ndarray &x, std::vector<int64_t> reduced_axes) {
-    return cpu::median(x, reduced_axes);
+    return cpu::median(to(x, ndarray::dev::cpu), reduced_axes);
 }
 
 ndarray bland::sum(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
-- 
2.43.0


From 63fe5e8d8473d81c6f78bbbd9ca651843ebf5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 76/79] fix: arange dropped the last value of a range that is
 no multiple of the step

---
 bland/bland/ops/creators.cpp | 44 +++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 8608abe..e5650ff 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -4,15 +4,37 @@
 #include "bland/ndarray.hpp"
 #include "bland/ndarray_slice.hpp"
 
+#include <cmath> // std::ceil
 #include <random>
 #include <stdexcept>
 #include <type_traits>
 
 using namespace bland;
 
+/**
+ * The number of values start, start + step, ... that lie in [start, end)
+ */
+template <typename START_TYPE, typename END_TYPE, typename STEP_TYPE>
+int64_t number_of_steps(START_TYPE start, END_TYPE end, STEP_TYPE step) {
+    if (step == 0) {
+        throw std::invalid_argument("arange: step must not be 0");
+    }
+    int64_t number_steps;
+    if constexpr (std::is_integral<START_TYPE>::value && std::is_integral<END_TYPE>::value &&
+                  std::is_integral<STEP_TYPE>::value) {
+        auto range       = static_cast<int64_t>(end) - static_cast<int64_t>(start);
+        auto signed_step = static_cast<int64_t>(step);
+        // a last partial step counts
+        number_steps = range / signed_step + (range % signed_step != 0 && (range > 0) == (signed_step > 0));
+    } else {
+        number_steps = static_cast<int64_t>(std::ceil((end - start) / step));
+    }
+    return number_steps > 0 ? number_steps : 0;
+}
+
 template <typename START_TYPE, typename END_TYPE, typename STEP_TYPE>
 ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType dtype, DLDevice device) {
-    auto number_steps  = static_cast<int64_t>((end - start) / step);
+    auto number_steps  = number_of_steps(start, end, step);
     auto aranged_array = ndarray({number_steps}, dtype, device);
 
     switch (dtype.code) {
@@ -20,13 +42,13 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -38,25 +60,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -68,25 +90,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
-- 
2.43.0


From 502b927fb5c3ea88e76d6d16744169b7b51278cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 77/79] fix: linspace between descending integers wrapped,
 between others it rounded the step down

---
 bland/bland/ops/creators.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index e5650ff..7dc1d8d 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -241,20 +241,22 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    // integers are spaced in double: dividing them by the (unsigned) number of steps would wrap a negative step
+    using step_type    = std::conditional_t<std::is_floating_point<T>::value, T, double>;
+    auto step          = (static_cast<step_type>(end) - static_cast<step_type>(start)) / number_steps;
 
     switch (dtype.code) {
     case kDLFloat: {
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -266,25 +268,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -296,25 +298,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
-- 
2.43.0


From cb04e6d5a4e01eeef4e49e1a9f7d9ac7b6a17113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 78/79] fix: rand_uniform handed out uninitialised memory for a
 type it cannot sample

---
 bland/bland/ops/creators.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7dc1d8d..f89e66a 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -486,6 +486,8 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_real_distribution<double> d{static_cast<double>(low), static_cast<double>(high)};
             initialize_randn(new_array.data_ptr<double>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported bit width");
         }
     } else if (dtype.code == DLDataTypeCode::kDLInt) {
         if (dtype.bits == 8) {
@@ -500,6 +502,8 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_int_distribution<int64_t> d{static_cast<int64_t>(low), static_cast<int64_t>(high)};
             initialize_randn(new_array.data_ptr<int64_t>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported bit width");
         }
     } else if (dtype.code == DLDataTypeCode::kDLUInt) {
         if (dtype.bits == 8) {
@@ -514,7 +518,11 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_int_distribution<uint64_t> d{static_cast<uint64_t>(low), static_cast<uint64_t>(high)};
             initialize_randn(new_array.data_ptr<uint64_t>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported bit width");
         }
+    } else {
+        throw std::runtime_error("rand_uniform: unsupported datatype");
     }
 
     return new_array;
-- 
2.43.0


From edfb07e4aaaf56ab564bb94b8c31030ba003bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:11 +0000
Subject: [PATCH 79/79] fix: scans with 2^31 or more channels were cut into
 channels with a wrapped count and called inconsistent

---
 bliss/core/cadence.cpp           | 4 ++--
 bliss/core/include/core/scan.hpp | 2 +-
 bliss/core/scan.cpp              | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index f43a732..5bf679e 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -51,7 +51,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
     if (!_scans.empty()) {
         fch1 = _scans[0].fch1();
         foff = _scans[0].foff();
@@ -135,7 +135,7 @@ bool bliss::cadence::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
     bool found_valid_scan = false;
     for (auto &obs: _observations) {
         if (!obs._scans.empty()) {
diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index f835a28..04d7335 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -159,7 +159,7 @@ class scan {
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse = 0;
+    int64_t _fine_channels_per_coarse = 0;
     // Derived values at read-time
     int64_t _num_coarse_channels = 0;
     int64_t _coarse_channel_offset = 0;
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index a4d903f..52b9b4d 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -45,8 +45,8 @@ constexpr std::array<std::tuple<int, double, double, const char*>, 9> known_chan
 /**
  * returned tuple is {number of coarse channels, number of fine channels per coarse}
 */
-std::tuple<int, int>
-infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp) {
+std::tuple<int64_t, int64_t>
+infer_number_coarse_channels(int64_t number_fine_channels, double foff, double tsamp) {
     for (const auto &channelization : known_channelizations) {
         auto [fine_channels_per_coarse, freq_res, time_res, version] = channelization;
 
-- 
2.43.0

