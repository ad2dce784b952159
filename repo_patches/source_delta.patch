From 3411735a0c3734c64ee8b168ab631aec58b1c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:33 +0000
Subject: [PATCH 01/16] fix: IBMFloat equality compares exact values

Signed zeros and differently scaled subnormal representations compared
wrongly: equal values could be unequal and distinct ones equal.
---
 segpy/ibm_float.py | 37 ++-----------------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..52ac3c0 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -321,41 +321,8 @@ class IBMFloat(Real):
         if not isinstance(rhs, IBMFloat):
             return NotImplemented
 
-        if lhs._data == rhs._data:
-            return True
-
-        lhs_sign = lhs.signbit
-        rhs_sign = rhs.signbit
-
-        if lhs_sign != rhs_sign:
-            return False
-
-        nlhs = lhs.try_normalize()
-        nrhs = rhs.try_normalize()
-
-        if not (nlhs.is_subnormal() or nrhs.is_subnormal()):
-            # Both of the numbers are normalised
-            return nlhs._data == nrhs._data
-
-        # Either or both of the numbers are subnormal
-        lhs_exp16 = nlhs.exp16
-        rhs_exp16 = nrhs.exp16
-
-        lhs_mantissa = nlhs.int_mantissa
-        rhs_mantissa = nrhs.int_mantissa
-
-        if lhs_exp16 < rhs_exp16:
-            delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
-
-        if lhs_exp16 > rhs_exp16:
-            delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
-
-        assert lhs_exp16 == rhs_exp16
-        return lhs_mantissa == rhs_mantissa
+        # Every IBM float is exactly representable as an IEEE double
+        return float(lhs) == float(rhs)
 
     @property
     def exp16(self):
-- 
2.43.0


From e58ea2794c0cd144baea1be9bde1d64c6e31e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 02/16] fix: headers whose fields are declared out of offset
 order unpack correctly

---
 segpy/packer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..8c47d18 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -131,7 +131,8 @@ def make_header_packer(header_format_class, endian='>'):
         endian)
     structure = Struct(cformat)
 
-    one_to_one = all(len(fields) == 1 for fields in field_name_allocations)
+    # The bijective packer relies on the fields being declared in order of their offsets
+    one_to_one = field_name_allocations == [[name] for name in header_format_class.ordered_field_names()]
 
     if one_to_one:
         return BijectiveHeaderPacker(header_format_class, structure, field_name_allocations)
-- 
2.43.0


From 09c531fec387b587b42fdcd00f1e6f6bd62e50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 03/16] fix: headers can be pickled before their field order
 has been asked for

__getstate__ used the lazily built field order directly
---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From 6658a69c6c6c7090fed4221e3fc498760cbd1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 04/16] fix: pairwise of an empty series is empty

next() on an exhausted iterator raised RuntimeError inside the generator
---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From 338ed06674936bd75c1a2443b8ee29cd882e5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 05/16] fix: extended textual headers keep the blank lines of
 their text

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..267bf3d 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -723,7 +723,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From 617d90026df09bb2babe5ffb704a245acd11f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 06/16] fix: sequences made from one-shot iterables keep their
 items

---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From b2e3bce18ef41da4e5fa6f51e0030f76946f1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 07/16] fix: sortedness by a key looks at the key for ranges
 and sorted sets

---
 segpy/util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..c659199 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -324,20 +324,21 @@ def four_bytes(byte_str):
 
 
 def is_sorted(iterable, key=None, reverse=False, distinct=False):
-    if key is None:
+    natural_order = key is None
+    if natural_order:
         key = identity
     if reverse:
         if distinct:
-            if isinstance(iterable, range) and iterable.step < 0:
+            if natural_order and isinstance(iterable, range) and iterable.step < 0:
                 return True
             op = operator.gt
         else:
             op = operator.ge
     else:
         if distinct:
-            if isinstance(iterable, range) and iterable.step > 0:
+            if natural_order and isinstance(iterable, range) and iterable.step > 0:
                 return True
-            if isinstance(iterable, SortedFrozenSet):
+            if natural_order and isinstance(iterable, SortedFrozenSet):
                 return True
             op = operator.lt
         else:
-- 
2.43.0


From 021a8d75af35e254ebfe7e8ab7d32f31ada4a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 08/16] fix: traces with revision 0 headers can be scanned

---
 segpy/toolkit.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 267bf3d..93e86e0 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -365,15 +365,15 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    field_names = ['file_sequence_num', 'ensemble_num', 'num_samples']
+    line_field_names = ['inline_number', 'crossline_number']  # Not in revision 0 trace headers
+    has_line_fields = set(line_field_names).issubset(trace_header_format.ordered_field_names())
+    if has_line_fields:
+        field_names.extend(line_field_names)
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
-                           parent_field_names=(
-                               'file_sequence_num',
-                               'ensemble_num',
-                               'num_samples',
-                               'inline_number',
-                               'crossline_number',
-                           )):
+                           parent_field_names=field_names):
         pass
 
     trace_header_packer = make_header_packer(CatalogSubFormat, endian)
@@ -400,9 +400,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
+        if has_line_fields:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
         cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
@@ -418,7 +419,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog = cdp_catalog_builder.create()
     progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_line_fields else None
 
     progress_callback(1)
 
-- 
2.43.0


From 927b9d9d7d03a9f0786b55720602ee3a8b400d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:03 +0000
Subject: [PATCH 09/16] fix: scan progress stays between zero and one and does
 not decrease

---
 segpy/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 93e86e0..0cf3cbb 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / max(length, 1))
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -411,13 +411,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 4)
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
     line_catalog = line_catalog_builder.create() if has_line_fields else None
 
-- 
2.43.0


From 717440d6dbe53e0a4ba7809678b6cbe3ca30bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 10/16] fix: treat file handles without a name in text form as
 unnamed or decode it

filename_from_handle() is documented to return a string, but returned
file descriptor numbers and bytes as they are. create_reader() then failed
with TypeError for files opened by descriptor, such as those of
tempfile.TemporaryFile(), or by a path given as bytes.
---
 segpy/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index c659199..fef1bab 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -264,10 +264,10 @@ def filename_from_handle(fh):
         A string containing the file name, or UNKNOWN_FILENAME if it could not
         be determined.
     """
-    try:
-        return fh.name
-    except AttributeError:
+    name = getattr(fh, 'name', UNKNOWN_FILENAME)
+    if isinstance(name, int):
         return UNKNOWN_FILENAME
+    return os.fsdecode(name)
 
 
 def now_millis():
-- 
2.43.0


From 49042e761e7127f812d659c67ed12c314081380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 11/16] fix: read SEG Y files even where the cache cannot be
 used

A cache directory which cannot be created, or a cache entry which cannot
be opened, made create_reader() fail with OSError.
---
 segpy/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..4125808 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -196,8 +196,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
@@ -229,7 +229,13 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
     if not (cache_file_path.exists() and cache_file_path.is_file()):
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    try:
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.warn("Could not read cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
+        return None
+
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From ec413cc221d9d006e5c5a4c2ccd7b987cc89aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 12/16] fix: do not reuse a cached reader for another file of
 the same content

A cached reader opens the file it was made from again. Looked up for another
file, which then had the same content, it gave the traces of the former file,
whatever had become of that since. The name of the file was saved as given,
so that after a change of the working directory another file could be opened.
---
 segpy/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 4125808..c19588e 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,8 +142,9 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
         seg_y_path = filename_from_handle(fh)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             os.path.abspath(seg_y_path))
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
             reader = _load_reader_from_cache(cache_file_path, seg_y_path)
@@ -390,7 +391,7 @@ class SegYReader(Dataset):
 
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_file_name'] = filename
+        state['_file_name'] = os.path.abspath(filename)
         state['_file_pos'] = file_pos
         state['_file_mode'] = file_mode
         del state['_fh']
-- 
2.43.0


From 7694ef7ecdb93fe75394ce1c92568615c653256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 13/16] fix: array types for non-negative header fields

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..2bd71c2 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,9 +4,12 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('i4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('i1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From 4fe015bacd499f583081cc10e604d464bc423ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 14/16] fix: a single number, or none, is a subset of an evenly
 spaced sequence

---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..e34189d 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,11 +4,11 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
-    if subset_range.start not in superset_range:
+    if len(subset_range) == 0:
+        return True
+    if subset_range[0] not in superset_range or subset_range[-1] not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
-        return False
-    if subset_range[-1] > superset_range[-1]:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
     assert set(subset_range).issubset(set(superset_range))
     return True
-- 
2.43.0


From 2f6174d0d4a7ff6effc213e788adfc9c35f63d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 15/16] fix: extract_trace takes a trace index, and the samples
 that trace has

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..436fbcc 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -165,15 +165,13 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if trace_index not in reader.trace_indexes():
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
-    trace_sample_start = sample_numbers[0]
-    trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-    trace_samples = reader.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
-    arr = np.fromiter((trace_samples[sample_number - trace_sample_start] for sample_number in sample_numbers),
+    trace_samples = reader.trace_samples(trace_index)
+    arr = np.fromiter((trace_samples[sample_number] for sample_number in sample_numbers),
                       make_dtype(reader.data_sample_format))
     return arr
 
-- 
2.43.0


From eca945d736f1457f5f3b89e676898c2b6b8ee80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 16/16] fix: array extraction from traces of different lengths

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 42 ++++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 436fbcc..e14cbdd 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -232,7 +232,7 @@ def extract_inline_3d(reader_3d, inline_number, xline_numbers=None, sample_numbe
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0 and len(sample_numbers) > 0:
         _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array)
     else:
         _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numbers, sample_numbers, array)
@@ -245,12 +245,10 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < len(trace_samples):
+                    array[xline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -258,11 +256,10 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
-            source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            source_slice = slice(sample_numbers.start, sample_numbers.stop, sample_numbers.step)
+            selected_samples = trace_samples[source_slice]
+            array[xline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -321,7 +318,7 @@ def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_number
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0 and len(sample_numbers) > 0:
         _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array)
     else:
         _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbers, sample_numbers, array)
@@ -334,12 +331,10 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < len(trace_samples):
+                    array[inline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -347,11 +342,10 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
-            num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
-            source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            source_slice = slice(sample_numbers.start, sample_numbers.stop, sample_numbers.step)
+            selected_samples = trace_samples[source_slice]
+            array[inline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
@@ -405,6 +399,9 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
         AttributeError: If the the named fields do not exist in the trace header definition.
     """
 
+    if not (0 <= sample_number < reader_3d.max_num_trace_samples()):
+        raise ValueError("Sample number {} not present in {}".format(sample_number, reader_3d))
+
     inline_numbers = ensure_superset(reader_3d.inline_numbers(), inline_numbers)
     xline_numbers = ensure_superset(reader_3d.xline_numbers(), xline_numbers)
     shape = (len(inline_numbers), len(xline_numbers))
@@ -417,8 +414,9 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
-                trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                if sample_number < reader_3d.num_trace_samples(trace_index):
+                    trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
+                    array[inline_index, xline_index] = trace_samples[0]
     return array
 
 
-- 
2.43.0

