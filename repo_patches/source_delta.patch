From 79706cf9c81f05425b6c9f48d9bd87aefe09834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 01/12] fix: a frequency without result has the shape of the
 other frequencies (Ne, Nb)

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..eced593 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From 00c53a201d46d9ef175a6a54287448e68f3c2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 02/12] fix: Tags.filter() returns names in a reproducible
 order

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..65251e5 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -137,7 +137,7 @@ class Tags(TagsBase):
 
     # filter = fnmatch.filter
     def filter(self, *patterns):
-        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))
+        return tuple(sorted(set().union(*(fnmatch.filter(self, p) for p in patterns))))
 
     def filter_get(self, *patterns):
         return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))
-- 
2.43.0


From 933c61504919a2c56738b9b0c3aec629d238b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 03/12] fix: load_ats_from() orders the channels by file name

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..1f86ce4 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(path, '*.ats'))
+    filenames = sorted(glob.glob(os.path.join(path, '*.ats')))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From a5ed9d10227799652a7713a92a45d12c3261ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 04/12] fix: reading an array proxy with a negative step

---
 src/razorback/io/binary_file_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..4d2f86d 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -84,7 +84,7 @@ class BaseArrayProxy(object):
                 return slice(*index.indices(dim)), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
-- 
2.43.0


From 9886c264181ae78a377171902fc9159e5cf09bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 05/12] fix: reading an empty slice of a binary file array

---
 src/razorback/io/binary_file_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index 4d2f86d..9b75efb 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -147,7 +147,7 @@ class BinaryFileArray_1D(FileArrayProxy):
 
         with open(filename, 'rb') as f:
             f.seek(offset + self.dtype.itemsize * idx.start)
-            length = idx.stop - idx.start
+            length = max(idx.stop - idx.start, 0)
             arr = np.fromfile(f, dtype=self.dtype, count=length)
             if len(arr) != length:
                 # warnings.warn(f"while reading file {str(self.source)!r} : get {len(arr)} values but header indicates {length}")
-- 
2.43.0


From 2edc8df254c3a09d580fac6e1fc9dd046abb6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 06/12] fix: merging with a signal set without run gives a
 signal set without run

---
 src/razorback/signalset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 65251e5..7aaa3ad 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -512,8 +512,10 @@ class SignalSet(object):
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
-        start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
-        intervals = list(rec(start, stop, seq_intervals))
+        intervals = []
+        if all(map(len, seq_intervals)):
+            start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
+            intervals = list(rec(start, stop, seq_intervals))
 
         signals = []
         for start, stop in intervals:
-- 
2.43.0


From 0a0fc23363c5345fc34b9bfa1a4999b1a8e65df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 07/12] fix: SignalSet objects can be copied and pickled

---
 src/razorback/signalset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 7aaa3ad..446e854 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -291,6 +291,9 @@ class SignalSet(object):
         return res
 
     def __getattr__(self, name):
+        if name.startswith('_'):
+            # not a tag: avoid infinite recursion when not initialised (copy, pickle)
+            return super(SignalSet, self).__getattribute__(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From c4e46c96d69549b80423465e0aa9d358eb25956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 08/12] fix: SignalSet.extract_t(exclude=True) on a signal set
 without run

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 446e854..44fd860 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -551,7 +551,7 @@ class SignalSet(object):
         If exclude=True, all times inside the given interval are skipped.
 
         """
-        if exclude:
+        if exclude and self.signals:
             left = self.extract_t(self.starts.min(), start)
             right = self.extract_t(stop, self.stops.max())
             return left.join(right)
-- 
2.43.0


From 02c994aabcf474aed278b477f1205db9c9f9518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 09/12] fix: error message of calibrations.phoenix()

---
 src/razorback/calibrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index eac41cf..9fffbb7 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -139,7 +139,7 @@ def phoenix(cts_file, level):
     except Exception:
         data = np.loadtxt(cts_file, delimiter=',', skiprows=2, usecols=cols)
     data = data[data[:, 1] == level]
-    assert data.size, f"no level {level} in {cts_file:r}"
+    assert data.size, f"no level {level} in {cts_file!r}"
     freq = data[:, 0]
     values = data[:, 2::2] + 1j * data[:, 3::2]
     calibs = [
-- 
2.43.0


From ab052aeb264e45373cd5bd8897eff6d16c735586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 10/12] fix: error message when a binary file is missing

---
 src/razorback/io/binary_file_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index 9b75efb..2966260 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -115,7 +115,7 @@ class FileArrayProxy(BaseArrayProxy):
     def __init__(self, filename, offset, shape, dtype, **kwds):
         filename = os.path.abspath(filename)
         if not os.path.isfile(filename):
-            raise ValueError("no such file: {filename:r}")
+            raise ValueError(f"no such file: {filename!r}")
         source = FileSource(path=filename, offset=offset)
         super().__init__(source=source, shape=shape, dtype=dtype)
 
-- 
2.43.0


From 63dcd774cd7677cad42e8ebf85a6d40691d699dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 11/12] fix: prefilter_values_mass_proc() leaves the given data
 unchanged

---
 src/razorback/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index eced593..78f9958 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -355,7 +355,6 @@ def prefilter_values_mass_proc(
         options = dict()
         if Bremote:
             options['remote'] = 'Bremote'
-            data.tags['Bremote'] = Bremote
 
         tl_values = []
         tl_times = []
@@ -363,6 +362,8 @@ def prefilter_values_mass_proc(
             n, m = map(len, [remote_combination, l_interval])
             print('%.1f%%' % ((100. * (k*m+i) / (n*m))))
             rdata = data.extract_t(*interval)
+            if Bremote:
+                rdata.tags['Bremote'] = Bremote
             l_values, l_times = prefilter_values(rdata, l_freq, prefilter, **options)
             tl_values.append(l_values)
             tl_times.append(l_times)
-- 
2.43.0


From 5123d8b6b010dbcb43419b7aed0f78f2d92a7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 12/12] fix: impedance(real_pb=True) passes weights and
 rejected windows to the real problem

---
 src/razorback/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 78f9958..e0b85a8 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -393,9 +393,15 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=None, **kwargs):
     q, n = np.shape(inputs)
 
+    if invalid_idx is not None:
+        # window i is split in two real observations: 2*i and 2*i+1
+        invalid_idx = [np.repeat(2 * np.asarray(ii, dtype=int), 2) for ii in invalid_idx]
+        for ii in invalid_idx:
+            ii[1::2] += 1
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -411,7 +417,10 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(
+        new_out, new_in, weights, invalid_idx=invalid_idx, **kwargs
+    )
+    ivid = [np.unique(ii // 2) for ii in ivid]
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
 
-- 
2.43.0

