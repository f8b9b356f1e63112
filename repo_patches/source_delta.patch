From 4db0792250c3fa2c3e8e6e62ef50d2922c3efcf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 01/22] fix: variance of noise downsampled by a near-integer
 factor

For an integer factor f the variance of a sum of f unit variance samples is
f, but the formula gave (f-1)^2 + 1, which biased the S/N of every
periodogram trial of such a stage low for f >= 3.
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..541aa53 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From ce0483b84123cd4660c9562d1f6eb7c55be2e6ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 02/22] fix: apply the documented fpmin cap on period_max in
 ffa_search

fpmin was accepted and ignored, although both the docstring and the pipeline
configuration promise that period_max is capped to DATA_LENGTH / fpmin.
---
 riptide/search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/search.py b/riptide/search.py
index c6d00ef..318d319 100644
--- a/riptide/search.py
+++ b/riptide/search.py
@@ -73,6 +73,9 @@ def ffa_search(tseries, period_min=1.0, period_max=30.0, fpmin=8, bins_min=240,
     if not already_normalised:
         tseries = tseries.normalise()
 
+    # At least 'fpmin' signal periods must fit in the data
+    period_max = min(period_max, tseries.length / fpmin)
+
     widths = generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)
     periods, foldbins, snrs = libcpp.periodogram(
         tseries.data, tseries.tsamp, widths, 
-- 
2.43.0


From 8b19115c25a235d21ab1b6f2d2effe8892bc0ead Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 03/22] fix: keep float32 data when normalising in place

With NumPy 2 the float64 mean and norm promote the result to float64, while
the out-of-place version casts it back to float32.
---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From fb3394934b3e780b937189c85731987b0249c11a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 04/22] fix: update tobs in the metadata when downsampling in
 place

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 530e5e00cfcfcb15bf38f7ab0826dd0529d7b354 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 05/22] fix: return writable arrays when loading from JSON

The read-only arrays made in-place operations fail on loaded objects.
---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..b8128f0 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: copy() because frombuffer() returns a read-only array
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From e2e067e413a4206d7b9d24cadf198097f8de8ff0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 06/22] fix: allocate nsum elements for the output of
 circular_prefix_sum

The output had the size of the input: out of bounds write for nsum > size,
uninitialised values for nsum < size.
---
 riptide/cpp/python_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..b8d161f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From 1fc00fc4447d2186a961bc202f730a22a45b3a36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 07/22] fix: parse --rmed_minpts of rseek as an integer

Any value given on the command line made the running median fail with a
TypeError.
---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From bda9ae704e4170f6866944c4c6ba013a69c56743 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 08/22] fix: plot candidates that have a single sub-integration

---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..bc2987e 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # There can be only one sub-integration, in which case X is one-dimensional
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From 450b92d1d9e0732b182217ae024b9ce6574ecd23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 09/22] fix: skip search ranges that the fpmin cap leaves empty

Now that ffa_search caps period_max to DATA_LENGTH / fpmin, a range whose
period_min is beyond the cap has no trial to search, which must not abort the
whole pipeline.
---
 riptide/pipeline/worker_pool.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/riptide/pipeline/worker_pool.py b/riptide/pipeline/worker_pool.py
index 575d535..73ff462 100644
--- a/riptide/pipeline/worker_pool.py
+++ b/riptide/pipeline/worker_pool.py
@@ -59,6 +59,15 @@ class WorkerPool(object):
 
         for conf in self.range_confs:
             kw_search = dict(conf['ffa_search'])
+
+            # The cap on period_max set by 'fpmin' may leave nothing to search
+            fpmin = kw_search.setdefault('fpmin', 8)
+            if not ts.length / fpmin > kw_search['period_min']:
+                log.warning(
+                    f"DM = {dm:.3f}: skipping search range {conf['name']!r}, "
+                    f"less than {fpmin:d} of its shortest periods fit in the data")
+                continue
+
             kw_search.update({
                 'deredden': False,
                 'already_normalised': True
-- 
2.43.0


From b87d778a0e5013bfa8d8238015295af066cfd77b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 10/22] fix: accept candidates.subints = null, as documented in
 the example config

It means: use the number of full periods that fit in the data. Folding and
candidate building already support it, only the validation refused it.
---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From 9608e19817e0c2f019588f10d3129ba87c64dbdd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 11/22] fix: accept a blank find_peaks section, as documented
 in the example config

---
 riptide/pipeline/config_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 6f79692..c08a8b1 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -31,7 +31,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             float, lambda x: 0 < x < 1, error='ducy_max must be strictly between 0 and 1'),
         },
 
-    'find_peaks': {
+    # A blank section is allowed, it means: use all the default values
+    'find_peaks': And(Use(lambda x: {} if x is None else x), {
         Optional('smin'): And(
             Use(float), strictly_positive, error="smin must be a number > 0"),
         Optional('segwidth'): And(
@@ -44,7 +45,7 @@ SEARCH_RANGE_SCHEMA = Schema({
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
         Optional('clrad'): Or(
             And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
-        },
+        }),
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-- 
2.43.0


From 8e9f7f9762f681fb269c4b4cc2f34a80d07d837e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 12/22] fix: forget the results of the previous run when
 preparing a pipeline

Running a Pipeline object twice saved the candidates of the first run again,
and its clusters too if the second run had no peaks.
---
 riptide/pipeline/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..64626ac 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -143,6 +143,12 @@ class Pipeline(object):
         log.debug("Input files: {}".format(len(files)))
         conf = self.config
 
+        # Forget the results of any previous run
+        self.peaks = []
+        self.clusters = []
+        self.clusters_filtered = []
+        self.candidates = []
+
         # The DM iterator is in charge of:
         # - checking the time series
         # - selecting the DM trials in the right range with the right dynamic step
-- 
2.43.0


From 198c56e6dc95676d08b6e23361a524f641aee540 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 13/22] fix: refuse a pipeline config without any search range

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index c08a8b1..cc8c4c7 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -87,7 +87,9 @@ PIPELINE_CONFIG_SCHEMA = Schema({
         'rmed_minpts': Schema(strictly_positive, error="rmed_minpts must be a number > 0")
         },
 
-    'ranges': [SEARCH_RANGE_SCHEMA],
+    'ranges': And(
+        [SEARCH_RANGE_SCHEMA],
+        Schema(len, error="ranges must contain at least one search range")),
 
     'clustering': {
         'radius': Schema(strictly_positive, error="clustering radius must be a number > 0"),
-- 
2.43.0


From bc7b48fd570dd5c7f31077b72c84f0c6153a79a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 14/22] fix: fold all full periods into the requested number of
 subints

Rounding errors on the downsampling factors could drop the last sub-integration
(e.g. 9 periods in 7 subints returned 6 rows) or the last full period of the
data, in which case a valid number of subints could be refused.
---
 riptide/folding.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..03fedc8 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -3,6 +3,16 @@ import numpy as np
 from riptide.libffa import downsample
 
 
+def round_down_factor(size, factor, num_outputs):
+    """
+    Downsampling factor equal to 'factor' within rounding errors, such that
+    downsampling 'size' samples yields at least 'num_outputs' samples
+    """
+    while int(size / factor) < num_outputs:
+        factor = np.nextafter(factor, 0.0)
+    return factor
+
+
 def downsample_vertical(X, factor):
     m, __ = X.shape
 
@@ -61,7 +71,10 @@ def fold(ts, period, bins, subints=None):
         if subints > full_periods:
             raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
 
-    factor = tbin / ts.tsamp
+    # NOTE: if the data contain an integer number of periods, rounding errors
+    # must not lead to dropping the last one
+    full_periods = int(ts.length / period)
+    factor = round_down_factor(ts.nsamp, tbin / ts.tsamp, full_periods * bins)
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
     nsamp_eff = m * bins
@@ -77,5 +90,5 @@ def fold(ts, period, bins, subints=None):
         return folded
     else:
         # vertical downsampling factor
-        vf = m / subints
+        vf = round_down_factor(m, m / subints, subints)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From 79262006aa3e9906eb7978e386fbda1ed52b29a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 15/22] fix: stack overflow when computing the S/N of profiles
 with many phase bins

---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..41b6e5e 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <vector>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: not on the stack, which large profiles would overflow
+    std::vector<float> cpfsum_mem(size + wmax);
+    float* cpfsum = cpfsum_mem.data();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From c02602b0e81b38a43fbe1de96e6c974ad6fc2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 16/22] fix: refuse pulse width trials that exceed the number
 of phase bins in periodogram

---
 riptide/cpp/python_bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index b8d161f..ced1805 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -194,6 +194,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     size_t num_widths = widths.size();
 
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
 
     auto periods = new_cstyle_array<double>({length});
     auto foldbins = new_cstyle_array<uint32_t>({length});
-- 
2.43.0


From c988fea19b009383218d3addf43bb4960c11fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 17/22] fix: variance of noise downsampled by a factor that
 rounds just below an integer

---
 riptide/cpp/downsample.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index 541aa53..6ef69bd 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -28,8 +28,10 @@ Variance of background Gaussian noise after downsampling a time series with 'num
 */
 double downsampled_variance(size_t num_samples, double f)
     {
-    const double k = floor(f);
-    const double r = f - k;
+    // NOTE: nearest integer, so that a factor that falls just below an integer
+    // due to rounding errors is not mistaken for a fractional one
+    const double k = round(f);
+    const double r = fabs(f - k);
     const double x = downsampled_size(num_samples, f) * r;
     if (x > 1)
         return f - 1.0 / 3.0;
-- 
2.43.0


From 106f0ba3ab77c018ba65fe4c79e5ac9e6ebf1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 18/22] fix: find_peaks on a periodogram with a single trial

---
 riptide/peak_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index 1949504..2d76c30 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -68,7 +68,8 @@ def segment_stats(f, s, T, segwidth=5.0):
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
     # NOTE: the spacing of frequency trials is almost constant
-    m = ceil(abs(f[-1] - f[0]) / w) # number of segments
+    # (a periodogram with a single trial has no frequency span)
+    m = max(1, ceil(abs(f[-1] - f[0]) / w)) # number of segments
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
-- 
2.43.0


From adf3dee478c60022a57b9483867976dc56aa4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 19/22] fix: refuse Metadata items whose key is not a string,
 they were kept without any validation

---
 riptide/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/metadata.py b/riptide/metadata.py
index 80353eb..f17ab99 100644
--- a/riptide/metadata.py
+++ b/riptide/metadata.py
@@ -20,7 +20,7 @@ SCHEMA_ITEMS = {
     Optional(str): json.dumps
     }
 
-SCHEMA = Schema(SCHEMA_ITEMS, ignore_extra_keys=True)
+SCHEMA = Schema(SCHEMA_ITEMS)
 
 
 class Metadata(dict):
-- 
2.43.0


From 17000751e24dd605b3ac1a0e9e6cdbe62168f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 20/22] fix: running median of half precision data no longer
 rounds averages to half precision

---
 riptide/running_medians.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/running_medians.py b/riptide/running_medians.py
index 97af9f6..0984061 100644
--- a/riptide/running_medians.py
+++ b/riptide/running_medians.py
@@ -43,7 +43,9 @@ def scrunch(data, factor):
     """
     factor = int(factor)
     N = (data.size // factor) * factor
-    return data[:N].reshape(-1, factor).mean(axis=1)
+    # NOTE: averages of half precision data must not be rounded to half precision
+    dtype = np.result_type(data, np.float32)
+    return data[:N].reshape(-1, factor).mean(axis=1, dtype=dtype)
 
 
 def fast_running_median(data, width_samples, min_points=101):
-- 
2.43.0


From 816485bf26ce3f1f82b9abf6397b7bce04a30ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 21/22] fix: plot candidates whose metadata lack a source name,
 sky position or MJD

---
 riptide/candidate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index bc2987e..9400455 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -168,14 +168,20 @@ def plot_table(params, tsmeta):
     """
     """
     plt.axis('off')
+    # NOTE: any of the items below can be None, in which case the corresponding
+    # entries are left blank
+    source_name = tsmeta['source_name'] or ''
     coord = tsmeta['skycoord']
-    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True) if coord is not None else ''
+    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True) if coord is not None else ''
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
     # date/time standard
-    obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+    mjd, utc = '', ''
+    if tsmeta['mjd'] is not None:
+        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+        mjd, utc = f"{obsdate.mjd:.6f}", obsdate.iso
 
     blank = TableEntry(name='', value='', formatter='s', unit='')
 
@@ -186,11 +192,11 @@ def plot_table(params, tsmeta):
         TableEntry(name='Duty cycle', value=params['ducy'] * 100.0, formatter='.2f', unit='%'),
         TableEntry(name='S/N', value=params['snr'], formatter='.1f', unit=''),
         blank,
-        TableEntry(name='Source', value=tsmeta['source_name'], formatter='s', unit=''),
+        TableEntry(name='Source', value=source_name, formatter='s', unit=''),
         TableEntry(name='RA', value=ra_hms, formatter='s', unit=''),
         TableEntry(name='Dec', value=dec_hms, formatter='s', unit=''),
-        TableEntry(name='MJD', value=obsdate.mjd, formatter='.6f', unit=''),
-        TableEntry(name='UTC', value=obsdate.iso, formatter='s', unit=''),
+        TableEntry(name='MJD', value=mjd, formatter='s', unit=''),
+        TableEntry(name='UTC', value=utc, formatter='s', unit=''),
     ]
 
     y0 = 0.94  # Y coordinate of first line
-- 
2.43.0


From a662aa37dceb1a3a45fe1931bc5f5ba362ef749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 22/22] fix: clusters of integers whose differences overflow or
 wrap around

---
 riptide/clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/clustering.py b/riptide/clustering.py
index c48df00..d42eb31 100644
--- a/riptide/clustering.py
+++ b/riptide/clustering.py
@@ -25,6 +25,12 @@ def cluster1d(x, r, already_sorted=False):
     if not len(x):
         return []
 
+    # NOTE: differences of integers can overflow, and those of unsigned integers
+    # wrap around if they are sorted in decreasing order
+    x = np.asarray(x)
+    if np.issubdtype(x.dtype, np.integer):
+        x = x.astype(float)
+
     if not already_sorted:
         indices = x.argsort()
         diff = np.diff(x[indices])
-- 
2.43.0

