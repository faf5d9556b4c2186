From 5d1c4254ea68f44b34cc2b42e3d575c89c680442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 001/101] fix: TimeFrame truth value under Python 3

__nonzero__ is never called by Python 3, so every TimeFrame was truthy
and the callers which test 'if section' / 'if not timeframe' never saw
an empty or unbounded TimeFrame.
---
 nilmtk/timeframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..40bdd0d 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -218,6 +218,9 @@ class TimeFrame(object):
         else:
             return (self.start is not None) or (self.end is not None)
 
+    # Python 3 only consults __bool__ for truth testing
+    __bool__ = __nonzero__
+
     def __repr__(self):
         return ("TimeFrame(start='{}', end='{}', empty={})"
                 .format(self.start, self.end, self.empty))
-- 
2.43.0


From 29bd2ba31ecf421a288476c7dac2d1b909f96e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 002/101] fix: ordering of two TimeFrames which are both open
 at the start

Comparing them raised TypeError ('<' between None and None).
---
 nilmtk/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 40bdd0d..2847a63 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -235,6 +235,8 @@ class TimeFrame(object):
             return True
         if other.start is None and self.start is not None:
             return False
+        if self.start is None and other.start is None:
+            return False
         return self.start < other.start
 
     def __hash__(self):
-- 
2.43.0


From 6952d663209d1e8e1c9d442cedd42b1c691d17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:46 +0000
Subject: [PATCH 003/101] fix: TimeFrame.slice on empty and open-ended
 TimeFrames

An empty TimeFrame raised UnboundLocalError and an open-ended one
TypeError; now the former selects no rows and a missing bound does not
restrict the selection.
---
 nilmtk/timeframe.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 2847a63..cefd215 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -202,13 +202,19 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame.iloc[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None:
+                if self.include_end:
+                    sliced = sliced[sliced.index <= self.end]
+                else:
+                    sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame[:]
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From 3f2c5b74160c9a8d9b5a12ce6eb0ea19abfafd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:19 +0000
Subject: [PATCH 004/101] fix: CSVDataStore.load honours include_end of a
 section

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..c2cb0b2 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -78,7 +78,11 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
+                    if window_intersect.include_end:
+                        before_end = (chunk.index<=window_intersect.end)
+                    else:
+                        before_end = (chunk.index<window_intersect.end)
+                    subchunk_idx = np.logical_and(subchunk_idx, before_end)
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
                 subchunk = chunk[subchunk_idx]
-- 
2.43.0


From a06014e432c9e0c5e5f2d18cbb7522d5f75b6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 005/101] fix: HDFDataStore.load of a bounded section under
 Python >= 3.12

---
 nilmtk/datastore/hdfdatastore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..0b5c401 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,11 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    # One expression rather than a list of terms: pandas looks
+                    # up `window_intersect` at the wrong stack level for the
+                    # items of a list under Python >= 3.12.
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +296,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(
+                key, ' & '.join(terms))
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From 6406fdd1bdebdb2ee7e3e7b61c9ad4cf65f40372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 006/101] fix: HDFDataStore.load when one row is left over for
 the last chunk

---
 nilmtk/datastore/hdfdatastore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 0b5c401..1c77d76 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,9 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                # index of the last row, as for `coords[-1]` below
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i <= 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From 7fc4c44d831e8242dbcc852b2e93bf2f3bd491dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 007/101] fix: TmpDataStore leaked the descriptor of its
 temporary file

---
 nilmtk/datastore/tmpdatastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/tmpdatastore.py b/nilmtk/datastore/tmpdatastore.py
index cddf721..c536fa6 100644
--- a/nilmtk/datastore/tmpdatastore.py
+++ b/nilmtk/datastore/tmpdatastore.py
@@ -10,7 +10,8 @@ class TmpDataStore(HDFDataStore):
         """ Create a `HDFDataStore` in the OS temporary directory in append mode.
             The created HDF file will remain on the disk until a call to the `close()` method.
         """
-        _, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        fd, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        os.close(fd)
         self.full_path = tmp_path
         super().__init__(filename=self.full_path, mode="a")
 
-- 
2.43.0


From d87af51a4d7001b327a62a5df04b91eecd1f383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 008/101] fix: write_yaml_to_file left the file open when
 dumping fails

---
 nilmtk/datastore/datastore.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..0f88021 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -182,9 +182,8 @@ class DataStore(object):
 
 
 def write_yaml_to_file(metadata_filename, metadata):
-    metadata_file = open(metadata_filename, 'w')
-    yaml.dump(metadata, metadata_file)
-    metadata_file.close()
+    with open(metadata_filename, 'w') as metadata_file:
+        yaml.dump(metadata, metadata_file)
 
 
 def join_key(*args):
-- 
2.43.0


From f283a513df33fe7104d9a767f925a1b9e7739e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 009/101] fix: HDFDataStore.remove did not flush the removal to
 disk

---
 nilmtk/datastore/hdfdatastore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 1c77d76..1896b74 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -180,6 +180,7 @@ class HDFDataStore(DataStore):
     @doc_inherit
     def remove(self, key):
         self.store.remove(key)
+        self.store.flush()
 
     @doc_inherit
     def load_metadata(self, key='/'):
-- 
2.43.0


From 926c6e992423e9897aee1f660db68ca010a2b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 010/101] fix: CSVDataStore.append repeated the header inside
 an existing table

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index c2cb0b2..558d49a 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -117,7 +117,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From 23c8f5b2bf8baca33106ef6d6b3ba94e9f811ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 011/101] fix: CSVDataStore.elements_below_key below the root

---
 nilmtk/datastore/csvdatastore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 558d49a..4398473 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -198,11 +198,14 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    # tables are stored as '<element>.csv'
+                    if element.endswith('.csv'):
+                        element = element[:-len('.csv')]
+                    elements += [element]
 
         return elements
 
-- 
2.43.0


From 908c4fedfb4097a9afdec2a9831f1dda8129918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 012/101] fix: CSVDataStore.load raises KeyError for an unknown
 key

---
 nilmtk/datastore/csvdatastore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4398473..bbbcd67 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -48,6 +48,8 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
+        if not isfile(file_path):
+            raise KeyError("key '{}' not found".format(key))
         
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
-- 
2.43.0


From 5d83a194645905f9c9f4b8a3cfac52259569c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 013/101] fix: get_datastore reports a missing filename

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..b08159c 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -312,7 +312,7 @@ def get_datastore(filename, format=None, mode='r'):
     -------
     metadata : dict
     """
-    if not format:
+    if not format and filename is not None:
         if filename.endswith(".h5"):
             format = "HDF"
         elif filename.endswith(".csv"):
@@ -326,7 +326,7 @@ def get_datastore(filename, format=None, mode='r'):
         else:
             raise ValueError('format not recognised')
     else:
-        ValueError('filename is None')
+        raise ValueError('filename is None')
 
 
 def normalise_timestamp(timestamp, freq):
-- 
2.43.0


From 8de9a971aa0382e340bb42adfc70a35961b8df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 014/101] fix: convert_combed closes its store before adding
 the metadata

---
 nilmtk/dataset_converters/combed/convert_combed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..63dd5e3 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -86,6 +86,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
+    store.close()
     convert_yaml_to_hdf5(
         join(get_module_directory(), 'dataset_converters', 'combed', 'metadata'),
         output_filename
-- 
2.43.0


From 017e2ee60017186d858d18a7bd20bd0f57db98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 015/101] fix: convert_greend closes its store before adding
 the metadata

---
 nilmtk/dataset_converters/greend/convert_greend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..82cec86 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -173,12 +173,12 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
             
         h += 1
 
+    # close h5
+    store.close()
+
 	# retrieve the dataset metadata in the metadata subfolder
     metadata_dir = join(get_module_directory(), 'dataset_converters', 'greend', 'metadata')
     convert_yaml_to_hdf5(metadata_dir, hdf_filename)
-    
-    # close h5
-    store.close()
 
 #is only called when this file is the main file... only test purpose
 if __name__ == '__main__':
-- 
2.43.0


From fc92ddf9a471a0f04d7078a62debfb22b4601b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 016/101] fix: convert_deddiag closes the store it wrote

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index a42020a..e724494 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -62,6 +62,7 @@ def convert_deddiag(connection,
 
     # Add metadata
     save_yaml_to_datastore(path_to_metadata, dest_file)
+    dest_file.close()
 
     print("Done converting DEDDIAG to HDF5!")
 
-- 
2.43.0


From 5a68b71f5d82c6e64f7dc75b3530ecae4f44ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 017/101] fix: Hart85.import_model reads its pickle in binary
 mode and closes it

---
 nilmtk/disaggregate/hart_85.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..dbabd93 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -583,8 +583,8 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, "rb") as pickle_in:
+            self.model = pickle.load(pickle_in)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
-- 
2.43.0


From ed73b998796c3062864883ed52fff5be9287536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:35 +0000
Subject: [PATCH 018/101] fix: GoodSectionsResults.combined altered the stored
 sections

---
 nilmtk/stats/goodsectionsresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..d01b2a3 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,3 +1,4 @@
+import copy
 import pandas as pd
 from datetime import timedelta
 import matplotlib.pyplot as plt
@@ -46,7 +47,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # copy, so that `self._data` is not altered by the merging below
+            row_sections = copy.deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
-- 
2.43.0


From 14f1f23ae1cfb4cdab4e91ea5e980b8a291f683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:50 +0000
Subject: [PATCH 019/101] fix: np.NaN no longer exists in NumPy 2

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index b08159c..34a152c 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From d6dcdc17705405d4e5a2c45f4540553f548e0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:46 +0000
Subject: [PATCH 020/101] fix: ElecMeter.dropout_rate(full_results=True) raised
 TypeError

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..b45ca52 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -610,7 +610,9 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            # we want the good sections themselves, not the Results object
+            good_sections_kwargs = dict(loader_kwargs, full_results=False)
+            loader_kwargs['sections'] = self.good_sections(**good_sections_kwargs)
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
-- 
2.43.0


From 7ebb995e848c5b640e3ed6bb0c2dfdcee54882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 021/101] fix: GoodSections lost track of an open section in a
 chunk with fewer than two readings

---
 nilmtk/stats/goodsections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..48b045e 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -96,8 +96,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
     index = df.dropna().sort_index().index
     del df
 
-    if len(index) < 2:
-        return []
+    if len(index) == 0:
+        # If the previous chunk saw that its good section carries on after
+        # this chunk then the whole of this chunk belongs to that section.
+        return ([TimeFrame(None, None)]
+                if previous_chunk_ended_with_open_ended_good_section else [])
 
     timedeltas_sec = timedelta64_to_secs(diff(index.values))
     timedeltas_check = timedeltas_sec <= max_sample_period
-- 
2.43.0


From 595e9236767e32045f22099176dd2a0b205390b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 022/101] fix: get_good_sections raised IndexError when every
 look-ahead reading is missing

---
 nilmtk/stats/goodsections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 48b045e..df4dd43 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -129,9 +129,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From e9cfdd63ef2ffdeca38c72466842b70428d7ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 023/101] fix: ElecMeter.load altered its caller's
 resample_kwargs and preprocessing

---
 nilmtk/elecmeter.py | 3 ++-
 nilmtk/electric.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index b45ca52..1451118 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -420,7 +420,8 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..2912b0e 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -142,8 +142,8 @@ class Electric(object):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            kwargs['preprocessing'] = (list(kwargs.get('preprocessing', [])) +
+                                       [Apply(func=resample_func)])
 
         return kwargs
 
-- 
2.43.0


From bd2a73ec48a644b9a44691b86a7655ca0a28e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 024/101] fix: ElecMeter.load(sample_period=None) resampled or
 raised TypeError

---
 nilmtk/elecmeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1451118..1b84d43 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -415,7 +415,7 @@ class ElecMeter(Hashable, Electric):
             print("ElecMeter.load")
             print(self)
 
-        if 'sample_period' in kwargs:
+        if kwargs.get('sample_period') is not None:
             kwargs.setdefault('resample', True)
 
         if kwargs.get('resample'):
@@ -426,7 +426,9 @@ class ElecMeter(Hashable, Electric):
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
                 default_sample_period = self.sample_period()
-                sample_period = kwargs.get('sample_period', default_sample_period)
+                sample_period = kwargs.get('sample_period')
+                if sample_period is None:
+                    sample_period = default_sample_period
                 
                 if default_sample_period is not None and sample_period < default_sample_period:
                     warn("The provided sample_period ({}) is shorter than the meter's sample_period ({})".format(
-- 
2.43.0


From 17b3bc36a4c9a842892a2eb8e9586894a53fcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 025/101] fix: MeterGroup.load and safe_resample raised
 AttributeError on UTC data

datetime.timezone.utc has no `zone` attribute; localising naive bounds also
raised when a bound fell in an ambiguous hour.
---
 nilmtk/metergroup.py | 4 +---
 nilmtk/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..eefcfa1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 34a152c..014c15b 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -513,7 +513,7 @@ def safe_resample(data, **resample_kwargs):
     except pytz.AmbiguousTimeError:
         # Work-around for
         # https://github.com/pydata/pandas/issues/10117
-        tz = data.index.tz.zone
+        tz = data.index.tz
         data = data.tz_convert('UTC')
         data = _resample_chain(data, resample_kwargs)
         
-- 
2.43.0


From 37584fc16464046b03499ca6bb692181b121c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 026/101] fix: MeterGroup.load could not average voltage across
 meters

Building the counter raised TypeError (a set is no valid `columns`), the
division aligned rows with columns, a missing reading still counted as one,
and 'phase angle' was misspelt so it was added up.
---
 nilmtk/measurement.py |  2 +-
 nilmtk/metergroup.py  | 32 +++++++++++---------------------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..a94e40f 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index eefcfa1..cdda98e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1774,7 +1774,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
     # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
+    # `n_readings` array
     # which tells us what to divide by in order to compute the 
     # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    n_readings = np.zeros(cumulator.shape, dtype=np.uint16)
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1826,34 +1826,24 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            # Count readings - this is necessary so we do not
+            # add up columns like 'voltage' which should be averaged.
+            n_readings[:,i] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
-    del cumulator_arr
-    gc.collect()
-
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for i, (physical_quantity, ac_type) in enumerate(columns):
+        if physical_quantity in PHYSICAL_QUANTITIES_TO_AVERAGE:
+            has_readings = n_readings[:,i] > 0
+            cumulator_arr[has_readings,i] /= n_readings[has_readings,i]
 
-    del columns_to_average_counter
+    del cumulator_arr
+    del n_readings
     gc.collect()
     print()
     print("Done loading data all meters for this chunk.")
-- 
2.43.0


From 4d111a3913ef05c152b277ec0f7d62dc49d9f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 027/101] fix: MeterGroup.total_energy lost AC types which not
 every meter has

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index cdda98e..3b9474e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -867,7 +867,8 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From cd77fdc49867843108148a541f85b69b257bbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 028/101] fix: equal MeterGroups had different hashes

---
 nilmtk/metergroup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 3b9474e..e855a42 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,9 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
+        Provide a hash based on the set of meters, consistent with `__eq__`
         """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From fde9ddc8bc4978142ea8f5263a6f49ba34bb313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 029/101] fix: MeterGroup.select returned a meter twice when it
 matched two values

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index e855a42..9c157a0 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -364,8 +364,9 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
                         no_match = False
+                        if not any(meter is m for m in selected_meters):
+                            selected_meters.append(meter)
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
             if exception_raised_every_time and exception is not None:
-- 
2.43.0


From 662509bead79ad2570410c22c1bcb60cc92abb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:00 +0000
Subject: [PATCH 030/101] fix: full_results of a MeterGroup raised
 AttributeError on a nested group

---
 nilmtk/metergroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9c157a0..a39b179 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -879,6 +879,7 @@ class MeterGroup(Electric):
                                                **load_kwargs)
             collected_stats.append(single_stat)
             if (full_results and len(self.meters) > 1 and
+                    isinstance(meter, ElecMeter) and
                     not meter.store.all_sections_smaller_than_chunksize):
                 warnings.warn("at least one section requested from '{}' required"
                      " multiple chunks to be loaded into memory. This may cause"
-- 
2.43.0


From 1cec4b29b0c3b18f1a2c83d802276a3f1f6af401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 031/101] fix: energy_per_meter(mains=...) and the energy bar
 plot raised AttributeError

Series.sort is gone, and most_common was given the meters instead of the
AC types with which they were measured.
---
 nilmtk/metergroup.py | 5 +++--
 nilmtk/utils.py      | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index a39b179..63bdbee 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1179,7 +1179,8 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        # AC type with which the energy of each meter was measured
+        ac_types = energy_per_meter.apply(pd.Series.first_valid_index).dropna()
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
@@ -1590,7 +1591,7 @@ class MeterGroup(Electric):
         energy = self.energy_per_meter(mains=mains, per_period='D',
                                         use_meter_labels=True)
 
-        energy.sort(ascending=False)
+        energy.sort_values(ascending=False, inplace=True)
 
         # Plot
         ax = pd.DataFrame(energy).T.plot(kind='bar', stacked=True, grid=True,
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 014c15b..602eaeb 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,8 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
-    most_common = counts.index[-1]
+    most_common = counts.idxmax()
     return most_common
 
 
-- 
2.43.0


From a0c561b01aabef37c05aeb5f6b57897a3b807048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 032/101] fix: entropy and mutual_information raised TypeError
 under Python 3

---
 nilmtk/electric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 2912b0e..e50120c 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -515,7 +515,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean([log(n) for n in nn]))/log(base)
 
         out = []
         for power in self.power_series():
@@ -524,7 +524,7 @@ class Electric(object):
             x = x.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
 
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 y = np.array_split(x, splits)
                 for z in y:            
                     out.append(kdtree_entropy(z))                    
@@ -580,7 +580,7 @@ class Electric(object):
             power_x_val = power_x_val.reshape((num_elements, 1))
             power_y_val = power_y_val.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 x_split = np.array_split(power_x_val, splits)
                 y_split = np.array_split(power_y_val, splits)
                 for x, y  in zip(x_split, y_split):
-- 
2.43.0


From 397a63869bd1cdd0f42635584d34a5bba1e18d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 033/101] fix: plot_spectrum raised TypeError (scipy.fft is a
 module)

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index e50120c..d2dc382 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -3,7 +3,7 @@ import numpy as np
 from collections import Counter
 from warnings import warn
 import scipy.spatial as ss
-from scipy import fft
+from scipy.fft import fft
 from pandas.plotting import lag_plot, autocorrelation_plot
 from scipy.special import digamma,gamma
 from math import log,pi
-- 
2.43.0


From ffbe0642d4e7c61f27159fd9aa89458a13f3075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 034/101] fix: activity_histogram raised TypeError
 (pd.date_range has no `closed`)

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d2dc382..53a22d7 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -696,7 +696,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From 2355c13f90708551a1803993a804f4e6cc583ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 035/101] fix: get_module_directory raised NameError when its
 first guess fails

---
 nilmtk/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 602eaeb..6b8ea2a 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -204,8 +204,7 @@ def get_module_directory():
     # Taken from http://stackoverflow.com/a/6098238/732596
     path_to_this_file = dirname(getfile(currentframe()))
     if not isdir(path_to_this_file):
-        encoding = getfilesystemencoding()
-        path_to_this_file = dirname(unicode(__file__, encoding))
+        path_to_this_file = dirname(__file__)
     if not isdir(path_to_this_file):
         abspath(getsourcefile(lambda _: None))
     if not isdir(path_to_this_file):
-- 
2.43.0


From 31961f298e5c0c59291daa5f73ead583b3497794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 036/101] fix: an appliance or meter without a key hid others
 which match it

elec[{'type': 'kettle', 'room': 'hall'}] raised KeyError as soon as another
appliance had no room, and select_using_appliances(room='hall') missed meters
whose first appliance had none.
---
 nilmtk/electric.py   | 13 +++++++++++--
 nilmtk/metergroup.py | 21 +++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 53a22d7..a779e97 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -95,9 +95,18 @@ class Electric(object):
         True if all key:value pairs in `key` match any appliance
         in `self.appliances`.
         """
+        exception = None
+        n_exceptions = 0
         for appliance in self.appliances:
-            if appliance.matches(key):
-                return True
+            try:
+                if appliance.matches(key):
+                    return True
+            except KeyError as e:
+                # this appliance does not have all the keys; others may
+                exception = e
+                n_exceptions += 1
+        if exception is not None and n_exceptions == len(self.appliances):
+            raise exception
         return False
 
     def power_series_all_data(self, **kwargs):
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 63bdbee..2d855dd 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -259,8 +259,12 @@ class MeterGroup(Electric):
         elif isinstance(key, dict):
             meters = []
             for meter in self.meters:
-                if meter.matches_appliances(key):
-                    meters.append(meter)
+                try:
+                    if meter.matches_appliances(key):
+                        meters.append(meter)
+                except KeyError:
+                    # the appliances of this meter do not have all the keys
+                    pass
             if len(meters) == 1:
                 return meters[0]
             elif len(meters) > 1:
@@ -295,9 +299,18 @@ class MeterGroup(Electric):
             raise TypeError()
 
     def matches(self, key):
+        exception = None
+        n_exceptions = 0
         for meter in self.meters:
-            if meter.matches(key):
-                return True
+            try:
+                if meter.matches(key):
+                    return True
+            except KeyError as e:
+                # this meter does not have all the keys; others may
+                exception = e
+                n_exceptions += 1
+        if exception is not None and n_exceptions == len(self.meters):
+            raise exception
         return False
 
     def select(self, **kwargs):
-- 
2.43.0


From f12e40e150567d4f4625bdd2e66bd9b61b6e4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:26 +0000
Subject: [PATCH 037/101] fix: MeterGroup.from_other_metergroup looked in an
 empty group

It raised KeyError for every meter, and dropped what from_list returned.
---
 nilmtk/metergroup.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 2d855dd..533c61d 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -31,6 +31,7 @@ from .timeframe import TimeFrame, split_timeframes
 from .preprocessing import Apply
 from .datastore import MAX_MEM_ALLOWANCE_IN_BYTES
 from nilmtk.timeframegroup import TimeFrameGroup
+import nilmtk
 
 # MeterGroupID.meters is a tuple of ElecMeterIDs.  Order doesn't matter.
 # (we can't use a set because sets aren't hashable so we can't use 
@@ -474,8 +475,10 @@ class MeterGroup(Electric):
         other_identifiers = other.identifier.meters
         new_identifiers = []
         for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
+            new_id = replace_dataset(other_id, dataset)
+            if isinstance(new_id, MeterGroupID):
+                new_identifiers.append(new_id)
+            elif isinstance(new_id.instance, tuple):
                 nested = []
                 for instance in new_id.instance:
                     new_nested_id = new_id._replace(instance=instance)
@@ -483,9 +486,7 @@ class MeterGroup(Electric):
                 new_identifiers.append(tuple(nested))
             else:
                 new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        return nilmtk.global_meter_group.from_list(new_identifiers)
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From ba41be31e97d5bfb5cda28305a784241e33d2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:55 +0000
Subject: [PATCH 038/101] fix: dataframe_of_meters stopped at the first section
 without readings

---
 nilmtk/metergroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 533c61d..6b986f8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -983,12 +983,14 @@ class MeterGroup(Electric):
         while True:
             chunks = []
             ids = []
+            n_chunks = 0
             for meter_id, generator in zip(identifiers, generators):
                 try:
                     chunk_from_next_meter = next(generator)
                 except StopIteration:
                     continue
 
+                n_chunks += 1
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
                     chunks.append(chunk_from_next_meter.sum(axis=1))
@@ -997,7 +999,8 @@ class MeterGroup(Electric):
                 df = pd.concat(chunks, axis=1)
                 df.columns = ids
                 segments.append(df)
-            else:
+            elif n_chunks == 0:
+                # every generator is exhausted
                 break
 
         if segments:
-- 
2.43.0


From 23d5350c9f57ec98bfdd69ea6013b02ae6ea6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 039/101] fix: MeterGroup.get_timeframe raised TypeError when
 its first meter has no data in the window

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 6b986f8..c239176 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1399,7 +1399,7 @@ class MeterGroup(Electric):
         """
         timeframe = None
         for meter in self.meters:
-            if timeframe is None:
+            if timeframe is None or timeframe.empty:
                 timeframe = meter.get_timeframe()
             elif meter.get_timeframe().empty:
                 pass
-- 
2.43.0


From 804085e45cc350640cf2824d95f804911275c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 040/101] fix: load_series yielded an empty DataFrame, not a
 Series, for an empty chunk

---
 nilmtk/electric.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index a779e97..604698e 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -634,11 +634,11 @@ class Electric(object):
         generator = self.load(**kwargs)
         for chunk in generator:
             if chunk.empty:
-                yield chunk
-                continue
-            chunk_to_yield = chunk[physical_quantity].sum(axis=1, skipna=False)
-            ac_types = '+'.join(chunk[physical_quantity].columns)
-            chunk_to_yield.name = (physical_quantity, ac_types)
+                chunk_to_yield = pd.Series(index=chunk.index, dtype=np.float64)
+            else:
+                chunk_to_yield = chunk[physical_quantity].sum(axis=1, skipna=False)
+                ac_types = '+'.join(chunk[physical_quantity].columns)
+                chunk_to_yield.name = (physical_quantity, ac_types)
             chunk_to_yield.timeframe = getattr(chunk, 'timeframe', None)
             chunk_to_yield.look_ahead = getattr(chunk, 'look_ahead', None)
             yield chunk_to_yield
-- 
2.43.0


From e72ab11cfec11ff2fcfa928d9c84735e75fc25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 041/101] fix: align_two_meters stopped at the first good
 section with fewer than two readings

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 604698e..30c33d7 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -852,7 +852,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From a4d72f93547dd7207222e676cb8710bff77eea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 042/101] fix: switch_times returned integers instead of time
 stamps

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 30c33d7..1369984 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -499,7 +499,7 @@ class Electric(object):
         for power in self.power_series():
             delta_power = power.diff()
             delta_power_absolute = delta_power.abs()
-            datetime_switches.append(delta_power_absolute[(delta_power_absolute>threshold)].index.values.tolist())
+            datetime_switches.append(delta_power_absolute[(delta_power_absolute>threshold)].index.tolist())
         return flatten_2d_list(datetime_switches)
 
     def entropy(self, k=3, base=2):
-- 
2.43.0


From 2f53ecac53930d817854762bd5c2ca7657d2f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 043/101] fix: correlation counted missing readings when it
 computed means and deviations

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1369984..4ae104d 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -339,7 +339,7 @@ class Electric(object):
             n = 0
             cumulator = 0.0
             for power in electric.power_series(**load_kwargs):
-                n += len(power.index)
+                n += power.count()
                 cumulator += power.sum()
             return n, cumulator
 
-- 
2.43.0


From 3037f66a4be26e67cef9a0c2bf5e40a46754f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 044/101] fix: plotting a short timeframe asked for a sample
 period of zero

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 4ae104d..4dadbe2 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -209,7 +209,7 @@ class Electric(object):
     def _set_sample_period(self, timeframe, width=800, **kwargs):
         # Calculate the resolution for the x axis
         duration = timeframe.timedelta.total_seconds()
-        secs_per_pixel = int(round(duration / width))
+        secs_per_pixel = max(1, int(round(duration / width)))
         kwargs.update({'sample_period': secs_per_pixel, 'resample': True})
         return kwargs
 
-- 
2.43.0


From 3cfe510cc45b9fa104bb38a13a32f3f01523c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 045/101] fix: proportion_of_upstream was NaN when the upstream
 meter also measures a better AC type

---
 nilmtk/electric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 4dadbe2..6cc8387 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -222,6 +222,10 @@ class Electric(object):
         proportion_of_energy = (self.total_energy(sections=upstream_good_sects) /
                                 upstream.total_energy(sections=upstream_good_sects))
         if isinstance(proportion_of_energy, pd.Series):
+            # only AC types which both meters measure have a proportion
+            proportion_of_energy = proportion_of_energy.dropna()
+            if proportion_of_energy.empty:
+                return np.nan
             best_ac_type = select_best_ac_type(proportion_of_energy.keys())
             return proportion_of_energy[best_ac_type]
         else:
-- 
2.43.0


From ed7c2ba5334ed900f756694c9aea6dae557ac5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 046/101] fix: vampire_power raised AttributeError for a meter
 without readings

---
 nilmtk/electric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 6cc8387..555b8f6 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -234,6 +234,8 @@ class Electric(object):
     def vampire_power(self, **load_kwargs):
         # TODO: this might be a naive approach to calculating vampire power.
         power_series = self.power_series_all_data(**load_kwargs)
+        if power_series is None:
+            return np.nan
         return get_vampire_power(power_series)
 
     def uptime(self, **load_kwargs):
-- 
2.43.0


From 19317b512efc85ec755ddcc30ca69b4df8edd129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 047/101] fix: combed download uses raw_input, which Python 3
 does not have

---
 nilmtk/dataset_converters/combed/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/combed/download.py b/nilmtk/dataset_converters/combed/download.py
index 953df75..8d915e3 100644
--- a/nilmtk/dataset_converters/combed/download.py
+++ b/nilmtk/dataset_converters/combed/download.py
@@ -13,7 +13,7 @@ def download():
     START_TIME = int(time.mktime(time.strptime(START_TIME_STR, pattern)))*1000
     END_TIME = int(time.mktime(time.strptime(END_TIME_STR, pattern)))*1000
 
-    SMAP_URL = raw_input("Enter SMAP URL")
+    SMAP_URL = input("Enter SMAP URL")
     UUID_URL = join(SMAP_URL, "backend/api/query")
 
     MEASUREMENTS = ["Power", "Energy", "Current"]
-- 
2.43.0


From f955346bd6c208ad75fb75edb1e5d2627499a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 048/101] fix: NameError in the dataport CSV converter when its
 metadata holds a building file

---
 nilmtk/dataset_converters/dataport/csv_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..db800e7 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -158,7 +158,7 @@ def create_tmp_metadata_dir():
     # Clear dynamic metadata (if any)
     for f in os.listdir(metadata_dir):
         if re.search('^building', f):
-            os.remove(join(metadata_dir, f))
+            os.remove(os.path.join(metadata_dir, f))
 
     return metadata_dir
 
-- 
2.43.0


From c85ca682f4991a0e870dc6741ea9342f4b07ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 049/101] fix: MLE uses sklearn.mixture.GMM, which no longer
 exists

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index f062483..1ac5428 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -80,8 +80,8 @@ class MLE(Disaggregator):
         self.sample_period = None
         self.sampling_method = None
         # FEATURES:
-        self.onpower = {'name': 'gmm', 'model': mixture.GMM(n_components=1)}
-        self.offpower = {'name': 'gmm', 'model': mixture.GMM(n_components=1)}
+        self.onpower = {'name': 'gmm', 'model': mixture.GaussianMixture(n_components=1)}
+        self.offpower = {'name': 'gmm', 'model': mixture.GaussianMixture(n_components=1)}
         self.duration = {'name': 'poisson', 'model': poisson(0)}
 
         # Trainings:
-- 
2.43.0


From eefa80ada0ca47cc9ed76aaec2fcf164ced1e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:21 +0000
Subject: [PATCH 050/101] fix: HES converter passes squeeze to read_csv, which
 no longer takes it

---
 nilmtk/dataset_converters/hes/convert_hes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index eaf2c72..c9af60a 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -56,8 +56,8 @@ CIRCUIT_CODES = list(range(208, 218)) + [222]
 def load_list_of_house_ids(data_dir):
     """Returns a list of house IDs in HES (ints)."""
     filename = join(data_dir, 'anonhes', 'ipsos-anonymised-corrected_310713.csv')
-    series = pd.read_csv(filename, usecols=[0], index_col=False, squeeze=True)
-    return series.tolist()
+    df = pd.read_csv(filename, usecols=[0], index_col=False)
+    return df.iloc[:, 0].tolist()
 
 
     """Load data from UK Government's Household Electricity Survey 
-- 
2.43.0


From 474092d5ed4a17e3980dd49ffb8ca04c263a3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:21 +0000
Subject: [PATCH 051/101] fix: DEDDIAG converter passes freq to Timestamp,
 which no longer takes it

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index e724494..d047360 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -21,8 +21,8 @@ measurements_conf = [['power'], ['active']]
 DEFAULT_TZ = 'Europe/Berlin'
 
 # Analyzed time period
-DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00', freq='MS')
-DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59', freq='MS')
+DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00')
+DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59')
 
 # channels
 channels = [24, 26, 27, 28, 35, 51, 52, 53, 59]
-- 
2.43.0


From 00e98f30141754f508b42152a7cd984091bb4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 052/101] fix: converters pass the axis of drop positionally,
 which pandas no longer takes

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py     | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..ca5be74 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..9cf963d 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 63dd5e3..1c97266 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop("timestamp", axis=1)
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..145555e 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 9b780e7ce36ead98f5377b299e09e5ae94cc228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 053/101] fix: MLE uses DataFrame.ix and DataFrame.sort, which
 no longer exist

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index 1ac5428..e1f2ad7 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -247,9 +247,9 @@ class MLE(Disaggregator):
         thDelta = getattr(self, 'thDelta')
         chunk.index.name = 'date_time'
         # To prevent learning many samples at the middle of a edge:
-        chunk.ix[:, 0][chunk.ix[:, 0] < thDelta] = 0
+        chunk.iloc[:, 0][chunk.iloc[:, 0] < thDelta] = 0
         # Learning edges
-        chunk['delta'] = chunk.ix[:, 0].diff()
+        chunk['delta'] = chunk.iloc[:, 0].diff()
         chunk.delta.fillna(0, inplace=True)
         edges = chunk[np.abs(chunk['delta']) > thDelta].delta
         # Pairing on/off events
@@ -543,7 +543,7 @@ class MLE(Disaggregator):
         dis_chunk.fillna(0, inplace=True)
 
         # Ruling out overlapped detecttions ordering by likelihood value.
-        detections = detections.sort('likelihood', ascending=False)
+        detections = detections.sort_values('likelihood', ascending=False)
         for row in detections.iterrows():
             # onTime = row[1][0] offTime = row[1][1] deltaOn = row[1][3]
             #import ipdb
-- 
2.43.0


From b17dd29cb2a6378bfa9320ce92fd99937d5b43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 054/101] fix: Appliance.matches takes the metadata keys count
 and index for tuple methods

---
 nilmtk/appliance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..4b0f53d 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -116,7 +116,7 @@ class Appliance(Hashable):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in self.identifier._fields:
                 if Appliance.allow_synonyms and k == 'type':
                     synonyms = self.type.get('synonyms', [])
                     synonyms.append(self.identifier.type)
-- 
2.43.0


From 3919a5b443ea47abd9287d08eb8b6f580d91d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 055/101] fix: compute_rmse labels appliances of one type with
 bound methods

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 6b8ea2a..37e3372 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -452,8 +452,8 @@ def compute_rmse(ground_truth, predictions, pretty=True):
                 app = app_data[0]
                 app_data[1] = '{} ({}, {})'.format(
                     current_label,
-                    app.building,
-                    app.instance
+                    app.building(),
+                    app.instance()
                 )
             
     return pd.Series(dict(
-- 
2.43.0


From 71512ea93c601735aece5c1dba43e3a5a20b208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 056/101] fix: f1_score raised ValueError for a chunk without
 common readings

---
 nilmtk/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..b1c4ed0 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -219,6 +219,8 @@ def f1_score(predictions, ground_truth):
             pred_meter, ground_truth_meter, 'when_on')
         for aligned_states_chunk in aligned_meters:
             aligned_states_chunk.dropna(inplace=True)
+            if aligned_states_chunk.empty:
+                continue
             aligned_states_chunk = aligned_states_chunk.astype(int)
             score = sklearn_f1_score(aligned_states_chunk.iloc[:, 0],
                                      aligned_states_chunk.iloc[:, 1])
-- 
2.43.0


From 8497c6f3d4b7b5285930de50b559ca86854f5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 057/101] fix: power errors of meters that share no chunk
 raised ZeroDivisionError

---
 nilmtk/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b1c4ed0..7cce7a0 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -146,7 +146,8 @@ def mean_normalized_error_power(predictions, ground_truth):
             total_abs_diff += sum(abs(diff.dropna()))
             sum_of_ground_truth_power += aligned_meters_chunk.iloc[:, 1].sum()
 
-        mne[pred_meter.instance()] = total_abs_diff / sum_of_ground_truth_power
+        mne[pred_meter.instance()] = np.divide(
+            total_abs_diff, sum_of_ground_truth_power)
 
     return pd.Series(mne)
 
@@ -182,7 +183,8 @@ def rms_error_power(predictions, ground_truth):
             sum_of_squared_diff += (diff ** 2).sum()
             n_samples += len(diff)
 
-        error[pred_meter.instance()] = math.sqrt(sum_of_squared_diff / n_samples)
+        error[pred_meter.instance()] = np.sqrt(
+            np.divide(sum_of_squared_diff, n_samples))
 
     return pd.Series(error)
 
-- 
2.43.0


From 77e3aa46b3e5a4ea6626385fccd23c252eb2b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 058/101] fix: fraction_energy_assigned_correctly raised
 AttributeError for nested meter groups

---
 nilmtk/metrics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 7cce7a0..3052c11 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -104,13 +104,15 @@ def fraction_energy_assigned_correctly(predictions, ground_truth):
     fraction_per_meter_predictions = predictions_submeters.fraction_per_meter()
     fraction_per_meter_ground_truth = ground_truth_submeters.fraction_per_meter()
 
-    fraction_per_meter_ground_truth.index = fraction_per_meter_ground_truth.index.map(lambda meter: meter.instance)
-    fraction_per_meter_predictions.index = fraction_per_meter_predictions.index.map(lambda meter: meter.instance)
+    # MeterGroupIDs have no `instance`, so pair the meters by identifier.
+    both_sets_of_meters = iterate_through_submeters_of_two_metergroups(
+        predictions, ground_truth)
 
     fraction = 0
-    for meter_instance in predictions_submeters.instance():
-        fraction += min(fraction_per_meter_ground_truth[meter_instance],
-                        fraction_per_meter_predictions[meter_instance])
+    for pred_meter, ground_truth_meter in both_sets_of_meters:
+        fraction += min(
+            fraction_per_meter_ground_truth[ground_truth_meter.identifier],
+            fraction_per_meter_predictions[pred_meter.identifier])
     return fraction
 
 
-- 
2.43.0


From 0b4d5c7ac433c86eefb3ef6c22b4b8ac394a8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 059/101] fix: chunk-wise training passed the epoch
 positionally, which Mean and FHMM reject

---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..dd183b1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From 269690593f6b46ce8074bb72bc2c46053bc1ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 060/101] fix: find_steady_states raised IndexError when no
 transition exceeds the noise level

---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..b838924 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if len(steady_states) > 0 and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From 45d47ac66747141d0d0c36fbae8e977bfe8b230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:52 +0000
Subject: [PATCH 061/101] fix: Hart85 predicted only the last chunk and failed
 for chunks without transients

---
 nilmtk/disaggregate/hart_85.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index dbabd93..8900406 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -315,7 +315,7 @@ class Hart85(Disaggregator):
         self.chunk_index = chunk.index
         # Check whether 1d data or 2d data and converting dict to dataframe
         #print('LEN of Transient Tuple',len(transient_tuple))
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
             
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
         else:
@@ -405,7 +405,7 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -456,7 +456,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
@@ -480,13 +480,13 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
+            temp_df=temp_df.fillna(0)
  
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)    
           
         
         return test_predictions_list
-- 
2.43.0


From 37227bef0130b4f9177358f37255a1ebbba7e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 062/101] fix: Hart85 could not store a centroid as power
 (one-element array into a scalar cell)

---
 nilmtk/disaggregate/hart_85.py        | 10 ++++++----
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 8900406..1ebc01b 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -514,7 +514,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            centroid = self.centroids.loc[appliance].values
             if ndim == 1:
+                centroid = centroid[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -525,10 +527,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = centroid
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -561,10 +563,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = centroid
                             i = i + 1
 
             di[appliance] = power
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..d2dbfa7 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -362,7 +362,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            centroid = self.centroids.loc[appliance].values
             if ndim == 1:
+                centroid = centroid[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -373,10 +375,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = centroid
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -409,10 +411,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = centroid
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From e6b0dbd3d9e71b59f6a1919e3ccb7cbc9c8cd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:46 +0000
Subject: [PATCH 063/101] fix: Hart85 took an appliance that turns on at the
 end of a chunk for on since its start

---
 nilmtk/disaggregate/hart_85.py        | 2 --
 nilmtk/legacy/disaggregate/hart_85.py | 1 -
 2 files changed, 3 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 1ebc01b..a8b1fa8 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -309,7 +309,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
@@ -451,7 +450,6 @@ class Hart85(Disaggregator):
                     else:
                         # Turned off
                         states.loc[transient_tuple[0]][index_least_delta] = 0
-            prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index d2dbfa7..ef63238 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -325,7 +325,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
-- 
2.43.0


From 6376a1995611a6c325e75dbc397e01f375859775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:15 +0000
Subject: [PATCH 064/101] fix: PairBuffer.add_transition raised
 UnboundLocalError for a list, which it accepts

---
 nilmtk/disaggregate/hart_85.py        | 3 +--
 nilmtk/legacy/disaggregate/hart_85.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index a8b1fa8..16afd3e 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -79,8 +79,7 @@ class PairBuffer(object):
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
         # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index ef63238..4f4f54c 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -79,8 +79,7 @@ class PairBuffer(object):
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
         # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
-- 
2.43.0


From 29dcd054a7dfa03115ed7f3dc9f586ba137ebc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:15 +0000
Subject: [PATCH 065/101] fix: PairBuffer rejected reactive power alone, a
 documented choice of columns

---
 nilmtk/disaggregate/hart_85.py        | 3 +++
 nilmtk/legacy/disaggregate/hart_85.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 16afd3e..04f7510 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -60,6 +60,9 @@ class PairBuffer(object):
             elif columns[0][1]=='apparent':
                 self.pair_columns = ['T1 Time', 'T1 Apparent',
                                     'T2 Time', 'T2 Apparent']
+            elif columns[0][1]=='reactive':
+                self.pair_columns = ['T1 Time', 'T1 Reactive',
+                                    'T2 Time', 'T2 Reactive']
         self.matched_pairs = pd.DataFrame(columns=self.pair_columns)
 
     def clean_buffer(self):
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 4f4f54c..0fb2235 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -60,6 +60,9 @@ class PairBuffer(object):
             elif columns[0][1] == 'apparent':
                 self.pair_columns = ['T1 Time', 'T1 Apparent',
                                      'T2 Time', 'T2 Apparent']
+            elif columns[0][1] == 'reactive':
+                self.pair_columns = ['T1 Time', 'T1 Reactive',
+                                     'T2 Time', 'T2 Reactive']
         self.matched_pairs = pd.DataFrame(columns=self.pair_columns)
 
     def clean_buffer(self):
-- 
2.43.0


From 5f8e7a6a80b11dc8b2bcf101e7a5fd8483ac1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:23 +0000
Subject: [PATCH 066/101] fix: Mean counted missing training readings in the
 average

---
 nilmtk/disaggregate/mean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..4f41a45 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -22,7 +22,7 @@ class Mean(Disaggregator):
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
             app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['n_elem'] += int(np.count_nonzero(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
@@ -33,7 +33,7 @@ class Mean(Disaggregator):
             appliance_powers = pd.DataFrame()
             for i, app_name in enumerate(self.model):
                 app_model = self.model[app_name]
-                predicted_power = [app_model['sum'] / app_model['n_elem']] * test_df.shape[0]
+                predicted_power = [app_model['sum'] / max(app_model['n_elem'], 1)] * test_df.shape[0]
                 appliance_powers[app_name] = pd.Series(predicted_power, index=test_df.index, name=i)
             test_predictions_list.append(appliance_powers)
         return test_predictions_list
-- 
2.43.0


From 85c10dea23dc32ef7d896eb0a7c2e12f1852cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 067/101] fix: FHMM state sorting was not a permutation when
 two states share a mean

---
 nilmtk/disaggregate/fhmm_exact.py        | 11 +++--------
 nilmtk/legacy/disaggregate/fhmm_exact.py | 11 +++--------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..d554296 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,14 +128,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # Finding mapping; a stable sort, so that equal means stay distinct states
+    order = np.argsort(np.asarray(means).flatten(), kind='mergesort')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index fd82e0c..173cfce 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -126,14 +126,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # Finding mapping; a stable sort, so that equal means stay distinct states
+    order = np.argsort(np.asarray(means).flatten(), kind='mergesort')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From 7cba9b46b0bacabfb66fa3580de43ac3387de3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 068/101] fix: find_steady_states and Hart85 raised IndexError
 for a chunk without readings

---
 nilmtk/feature_detectors/steady_states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index b838924..c1c6987 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -52,6 +52,10 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     -------
     steady_states, transitions
     """
+    if len(dataframe) == 0:
+        # No readings, hence no events
+        return pd.DataFrame(), pd.DataFrame()
+
     # Tells whether we have both real and reactive power or only real power
     num_measurements = len(dataframe.columns)
     estimated_steady_power = np.array([0] * num_measurements)
-- 
2.43.0


From b6a762c3b450b4f20e4e387384e1bc36e8ee34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:24 +0000
Subject: [PATCH 069/101] fix: Hart85.import_model did not restore the
 appliances, so an imported model could not disaggregate

---
 nilmtk/disaggregate/hart_85.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 04f7510..4006d3a 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -594,6 +594,8 @@ class Hart85(Disaggregator):
         self.transients = self.model['transients']
         # pair_df=self.pair_df,
         self.centroids = self.model['centroids']
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
     
     def best_matched_appliance(self,submeters, pred_df):
         
-- 
2.43.0


From 91d2b78489fda2204bed010bda040915c7f80de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 070/101] fix: MLE could not be trained (mean of a table of
 resamplers, time deltas compared with a number)

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index e1f2ad7..d074c54 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -215,7 +215,7 @@ class MLE(Disaggregator):
                     else:
                         how = lambda df: df.mean()
                         
-                    self.train_on_chunk(how(pd.DataFrame(chunk.resample(
+                    self.train_on_chunk(pd.DataFrame(how(chunk.resample(
                         self.sample_period))),
                         meter
                     )
@@ -259,7 +259,7 @@ class MLE(Disaggregator):
             onpower = edges[edges.apply(np.sign).diff(-1) == 2]
             duration = offpower.reset_index().date_time - \
                 onpower.reset_index().date_time
-            duration = duration.astype('timedelta64[s]')
+            duration = duration.dt.total_seconds()
 
             # Set consistent index for concatenation:
             onpower = pd.DataFrame(onpower).reset_index(drop=True)
-- 
2.43.0


From 2bc65d095400a863e5beeb4e8efc6e6d1edff773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 071/101] fix: MLE.disaggregate passes how to resample, which
 no longer takes it

---
 .../legacy/disaggregate/maximum_likelihood_estimation.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index d074c54..a939337 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -343,8 +343,13 @@ class MLE(Disaggregator):
             measurement = chunk.name
             cols = pd.MultiIndex.from_tuples([chunk.name])
             
+            if self.sampling_method is not None:
+                how = lambda df: getattr(df, self.sampling_method)()
+            else:
+                how = lambda df: df.mean()
+
             dis_chunk = self.disaggregate_chunk(
-                pd.DataFrame(chunk.resample(self.sample_period, how=self.sampling_method)))
+                pd.DataFrame(how(chunk.resample(self.sample_period))))
             #dis_main = pd.concat([dis_main, dis_chunk])
             chunk_number += 1
             print(str(chunk_number) + " chunks disaggregated")
-- 
2.43.0


From e6cd1a97b2a8a516c3bb73604e6a2da9275897b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 072/101] fix: MLE labelled every appliance it disaggregates a
 kettle

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index a939337..8f925b3 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -431,7 +431,7 @@ class MLE(Disaggregator):
         appliances = []
         appliance = {
             'meters': [meter_instance],
-            'type': 'kettle',
+            'type': self.appliance,
             'instance': 1
             # TODO this `instance` will only be correct when the
             # model is trained on the same house as it is tested on.
@@ -451,7 +451,7 @@ class MLE(Disaggregator):
                 }
             }
         })
-        elec_meters[meter_instance]['name'] = 'kettle'
+        elec_meters[meter_instance]['name'] = self.appliance
 
         building_metadata = {
             'instance': mains.building(),
-- 
2.43.0


From e9c783897af7edd0a050c668363362080dbfcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 073/101] fix: MLE raised UnboundLocalError, not ValueError,
 when the units do not match

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index 8f925b3..4e8e4cf 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -125,7 +125,7 @@ class MLE(Disaggregator):
                 stringError = self.appliance + " cannot be disaggregated. " + self.appliance + \
                     " is a non-resistive element and  units mismatches: disaggregated data is in " + \
                     str(self.units) + \
-                    " and aggregated data is " + str(units)
+                    " and aggregated data is " + str(list(chunk.columns))
                 raise ValueError(stringError)
         else:
             units = chunk.columns[0]
-- 
2.43.0


From 457827cbdf11dc3f76680a5f2502d2ffe46f9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 074/101] fix: Hart85.disaggregate stored only the last chunk
 of the mains, at another sample period

---
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 0fb2235..e9c6760 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -492,14 +492,12 @@ class Hart85(Disaggregator):
 
         print('Appending mains data to datastore')
 
-        for chunk_mains in mains.load(ac_type=ac_type):
-            chunk_df = chunk_mains
-
-        chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+        for chunk_mains in mains.load(**dict(load_kwargs, ac_type=ac_type)):
+            chunk_df = chunk_mains.apply(pd.to_numeric).astype('float32')
+            output_datastore.append(key=mains_data_location,
+                                    value=chunk_df)
         print('Done')
 
-        output_datastore.append(key=mains_data_location,
-                                value=chunk_df)
         # save metadata
         if data_is_available:
             self._save_metadata_for_disaggregation(
-- 
2.43.0


From 475f79c3b47cbe22a5a31aef07c8a2d5f8093834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 075/101] fix: Hart85.disaggregate raised UnboundLocalError for
 mains without transients

---
 nilmtk/legacy/disaggregate/hart_85.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e9c6760..b6eaf62 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -332,7 +332,7 @@ class Hart85(Disaggregator):
         self.chunk_index = chunk.index
 
         # Check whether 1d data or 2d data and converting dict to dataframe
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
 
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)
             return temp_df, 2
-- 
2.43.0


From 1047ad70b33a6f2bb6142ad66471c23fa0b41290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 076/101] fix: FHMM.disaggregate_across_buildings used the good
 sections of the first building for all

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index 173cfce..ef03e17 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -483,7 +483,9 @@ class FHMM(Disaggregator):
             load_kwargs = self._pre_disaggregation_checks(load_kwargs)
 
             load_kwargs.setdefault('sample_period', 60)
-            load_kwargs.setdefault('sections', mains.good_sections())
+            # The default sections are those of this building only
+            mains_kwargs = dict(load_kwargs)
+            mains_kwargs.setdefault('sections', mains.good_sections())
 
             timeframes = []
             building_path = '/building{}'.format(mains.building())
@@ -499,7 +501,7 @@ class FHMM(Disaggregator):
                 else:
                     pass
 
-            for chunk in mains.power_series(**load_kwargs):
+            for chunk in mains.power_series(**mains_kwargs):
                 # Check that chunk is sensible size before resampling
                 if len(chunk) < self.MIN_CHUNK_LENGTH:
                     continue
-- 
2.43.0


From f8fe9aa3bd60ab39dc365156cd510a5af14bd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 077/101] fix: FHMM.train_across_buildings uses an interface of
 hmmlearn which no longer exists

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index ef03e17..c630b7f 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -241,9 +241,8 @@ class FHMM(Disaggregator):
                     pass
 
             if len(o) > 1:
-                o = np.array(o)
                 mod = hmm.GaussianHMM(2, "full")
-                mod.fit(o)
+                mod.fit(np.concatenate(o), lengths=[len(x) for x in o])
                 models[appliance] = mod
                 print("Means for %s are" % appliance)
                 print(mod.means_)
@@ -256,7 +255,9 @@ class FHMM(Disaggregator):
                 appliance_model.startprob_, appliance_model.means_,
                 appliance_model.covars_, appliance_model.transmat_)
             new_learnt_models[appliance] = hmm.GaussianHMM(
-                startprob.size, "full", startprob, transmat)
+                startprob.size, "full")
+            new_learnt_models[appliance].startprob_ = startprob
+            new_learnt_models[appliance].transmat_ = transmat
             new_learnt_models[appliance].means_ = means
             new_learnt_models[appliance].covars_ = covars
 
-- 
2.43.0


From 6348e47c28023ceb5afef60caf390b3f722c7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 078/101] fix: Hart85.best_matched_appliance returned nothing
 instead of the matched pairs

---
 nilmtk/legacy/disaggregate/hart_85.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index b6eaf62..32dda4b 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -563,3 +563,5 @@ class Hart85(Disaggregator):
         for i in range(len(rmse_all)):
             key_min = min(rmse_all[i].keys(), key=(lambda k: rmse_all[i][k]))
             print('Best Matched Pair is', (i, key_min))
+            match.append((i, key_min))
+        return match
-- 
2.43.0


From 14fc9899026cbfbacb19c95fc25cd73f56bf2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:53 +0000
Subject: [PATCH 079/101] fix: MLE could not be trained when its first chunk
 holds no paired events

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index 4e8e4cf..cc0adf1 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -96,6 +96,10 @@ class MLE(Disaggregator):
 
     def __retrain(self, feature, feature_train):
 
+        if feature_train.empty:
+            # No paired events so far
+            return
+
         print("Training " + feature_train.columns[0])
         mu, std = norm.fit(feature_train)
         feature['model'] = norm(loc=mu, scale=std)
-- 
2.43.0


From 6b80afad9d1b4150d6edc919137b0b17e6ad441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 080/101] fix: a Dataport meter keeps its instance when the
 columns of the CSV files differ

---
 .../dataport/csv_converter.py                 | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index db800e7..bd95a2e 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -334,8 +334,19 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         nilmtk_b_id = tuple(nilmtk_metadata).index(b_id) + 1
         nilmtk_metadata[b_id]["instance"] = nilmtk_b_id
 
-    for m_id, meter in enumerate(b_data.columns):
-        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id + 1)
+    elec_meters = nilmtk_metadata[b_id]["elec_meters"]
+    appliances = nilmtk_metadata[b_id]["appliances"]
+    # The columns vary from one CSV file to another: the meters already known
+    # from the previous files of this building keep their instance.
+    known_meters = { app["original_name"]: app["meters"][0] for app in appliances }
+    for instance, known_metadata in elec_meters.items():
+        if known_metadata.get("site_meter"):
+            known_meters["use"] = instance
+
+    for meter in b_data.columns:
+        meter_isnew = meter not in known_meters
+        m_instance = known_meters.setdefault(meter, len(known_meters) + 1)
+        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_instance)
         msg = "\tWriting {}".format(str(key))
         print(msg, end='\r')
         # Meter data.
@@ -345,22 +356,26 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         hdf_store.put(str(key), m_data, format="table", append=True)
         hdf_store.flush()
         # Meter & appliance metadata
+        if not meter_isnew:
+            print("\t" + " " * len(msg), end='\r')
+            continue
+
         if meter == 'use':
             meter_metadata = { "device_model": "eGauge", "site_meter": True }
         else:
             meter_metadata = { "device_model": "eGauge", "submeter_of": 0 }
-            app_metadata = { "original_name": meter, "meters": [ m_id + 1, ] }
+            app_metadata = { "original_name": meter, "meters": [ m_instance, ] }
             app_metadata.update(COL_MAPPING[meter])
             app_id = 1
             app_type = app_metadata["type"]
-            for other in nilmtk_metadata[b_id]["appliances"]:
+            for other in appliances:
                 if other["type"] == app_type:
                     app_id += 1
 
             app_metadata["instance"] = app_id
-            nilmtk_metadata[b_id]["appliances"].append(app_metadata)
+            appliances.append(app_metadata)
 
-        nilmtk_metadata[b_id]["elec_meters"][m_id + 1] = meter_metadata
+        elec_meters[m_instance] = meter_metadata
         print("\t" + " " * len(msg), end='\r')
 
     print("\tWriting done.")
-- 
2.43.0


From 4e21e454674d63d09aa6510ff25557ee8100fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 081/101] fix: each HES meter gets the readings of its own
 appliance

---
 nilmtk/dataset_converters/hes/convert_hes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index c9af60a..c369844 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -163,11 +163,11 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
                 nilmtk_house_id = house_codes.index(hes_house_id)+1
                 
                 # Iterate over appliances in house
-                for appliance_code, appliance_df in chunk.groupby('appliance code'):
+                for appliance_code, appliance_df in hes_house_id_df.groupby('appliance code'):
                     if appliance_code not in house_appliance_codes[hes_house_id]:
                         house_appliance_codes[hes_house_id].append(appliance_code)
                     nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
-                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, hes_house_id_df, store, appliance_code)
+                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, appliance_df, store, appliance_code)
                     
             chunk_i += 1
             
-- 
2.43.0


From 9464cb57d5025b9e8794e402e3c9ba33e428abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 082/101] fix: HES appliances listed after a mains, circuit or
 temperature channel are described too

---
 nilmtk/dataset_converters/hes/convert_hes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index c369844..cb1b67e 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -194,12 +194,12 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
             if appliance_code in MAINS_CODES:
                 meter_metadata = {'device_model': 'multivoies',
                                   'site_meter': True}
-                break
+                continue
             elif appliance_code in CIRCUIT_CODES:
                 meter_metadata = {'device_model': 'multivoies'}
-                break
+                continue
             elif appliance_code in TEMPERATURE_CODES:
-                break
+                continue
             else: # is appliance
                 meter_metadata = {'device_model': 'wattmeter'}
                 
-- 
2.43.0


From 97d2761640056b29fc26c3b1c574a164c4a07215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 083/101] fix: the GREEND converter does not pass read_csv an
 option pandas has removed

---
 nilmtk/dataset_converters/greend/convert_greend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index 82cec86..bc1b479 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,11 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
-                ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
+            ignore_bad_lines = (
+                'building5' in filename and 'dataset_2014-02-04.csv' in filename
             )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes,
+                             on_bad_lines='warn' if ignore_bad_lines else 'error')
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From cb6e7d35cc647f6cf24dfd924afa1d6bef373f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 084/101] fix: without multiprocessing too, GREEND meters are
 numbered from the files in date order

---
 nilmtk/dataset_converters/greend/convert_greend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index bc1b479..21cdabc 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -143,7 +143,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
                 house_data_dfs.extend(data)
         else:
             house_data_dfs = []
-            for fn in target_filenames:
+            for fn in sorted(target_filenames):
                 house_data_dfs.extend(_get_blocks(fn)[1])
             
         overall_df = pd.concat(house_data_dfs, sort=False).sort_index()
-- 
2.43.0


From 389c30d79a17af0b97531c711a0c48f6a830db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 085/101] fix: the HIPE metadata are found whatever the working
 directory is

---
 nilmtk/dataset_converters/hipe/convert_hipe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hipe/convert_hipe.py b/nilmtk/dataset_converters/hipe/convert_hipe.py
index 541bf35..0faec3d 100644
--- a/nilmtk/dataset_converters/hipe/convert_hipe.py
+++ b/nilmtk/dataset_converters/hipe/convert_hipe.py
@@ -35,7 +35,10 @@ def convert_hipe(hipe_path, output_filename, format="HDF"):
     _convert(hipe_path, datastore,
              _hipe_measurement_mapping_func, "Europe/Berlin")
 
-    metadata_path = "metadata"
+    metadata_path = join(get_module_directory(),
+                         "dataset_converters",
+                         "hipe",
+                         "metadata")
 
     save_yaml_to_datastore(metadata_path, datastore)
 
-- 
2.43.0


From fab59396e2cdda81a741691110dcd121a603da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 086/101] fix: converting SMART* does not change the working
 directory

---
 nilmtk/dataset_converters/smart/convert_smart.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index cede480..be99c6d 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -222,7 +222,6 @@ def _find_all_csv_paths(input_path, house_id, year):
     """
     house_year_path = (input_path + '/' + 'Home' + house_id + '/' + year)
     extension = 'csv'
-    os.chdir(house_year_path)
     csv_names = glob.glob(house_year_path + '/*.csv')
 
     txt_paths = glob.glob(house_year_path + '/*.txt')
-- 
2.43.0


From 237aec3b385b8299fc1f52bf35934f1f6d8afd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 087/101] fix: SMART* years and meters are taken in order,
 whatever the listing order is

---
 nilmtk/dataset_converters/smart/convert_smart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index be99c6d..181dc67 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -211,7 +211,7 @@ def _find_year(input_path, house_id):
                 'Home' +
                 house_id,
                 p))]
-    return year_names
+    return sorted(year_names)
 
 
 def _find_all_csv_paths(input_path, house_id, year):
@@ -224,7 +224,7 @@ def _find_all_csv_paths(input_path, house_id, year):
     extension = 'csv'
     csv_names = glob.glob(house_year_path + '/*.csv')
 
-    txt_paths = glob.glob(house_year_path + '/*.txt')
+    txt_paths = sorted(glob.glob(house_year_path + '/*.txt'))
 
     paths = []
     # Take only those csv files which have 30 minutes as sample period
-- 
2.43.0


From b29590b7fd468bfb9f7d44c38990013ada807e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 088/101] fix: SMART* readings, which are in kW, are stored in
 W

---
 nilmtk/dataset_converters/smart/convert_smart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index 181dc67..4db33d6 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -145,7 +145,7 @@ def _convert(input_path, store, measurement_mapping_func, tz, sort_index=True):
             print(chan_id, end=' ')
             stdout.flush()
             key = Key(building=b_cnt, meter=chan_id)
-            chan_df = pd.DataFrame(df_all_years[col])
+            chan_df = pd.DataFrame(df_all_years[col]) * 1000 # kW to W
             chan_df.columns = pd.MultiIndex.from_tuples([('power', 'active')])
             chan_df.columns.set_names(LEVEL_NAMES, inplace=True)
 
-- 
2.43.0


From c95ca9deea6a5e3f39946c64028897db08957d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 089/101] fix: iAWE power factors are stored under the name its
 metadata give

---
 nilmtk/dataset_converters/iawe/convert_iawe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 145555e..c92da58 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -31,9 +31,9 @@ column_mapping = {
     'A': ('current', ''),
     'reactive_power': ('power', 'reactive'),
     'apparent_power': ('power', 'apparent'),
-    'power_factor': ('pf', ''),
-    'PF': ('pf', ''),
-    'phase_angle': ('phi', ''),
+    'power_factor': ('power factor', ''),
+    'PF': ('power factor', ''),
+    'phase_angle': ('phase angle', ''),
     'VA': ('power', 'apparent'),
     'VAR': ('power', 'reactive'),
     'VLN': ('voltage', ""),
-- 
2.43.0


From 148b87ecd38e0769ea9d785ebedc74e390a3ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 090/101] fix: AMPds energy counters are stored as cumulative
 energy, as its metadata say

---
 nilmtk/dataset_converters/ampds/convert_ampds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index ca5be74..973b8b6 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -16,11 +16,11 @@ columnNameMapping = {'V': ('voltage', ''),
                      'DPF': ('power factor', 'real'),
                      'APF': ('power factor', 'apparent'),
                      'P': ('power', 'active'),
-                     'Pt': ('energy', 'active'),
+                     'Pt': ('cumulative energy', 'active'),
                      'Q': ('power', 'reactive'),
-                     'Qt': ('energy', 'reactive'),
+                     'Qt': ('cumulative energy', 'reactive'),
                      'S': ('power', 'apparent'),
-                     'St': ('energy', 'apparent')}
+                     'St': ('cumulative energy', 'apparent')}
 
 TIMESTAMP_COLUMN_NAME = "TS"
 TIMEZONE = "America/Vancouver"
-- 
2.43.0


From 3751da22fb60c9d57da48b94b547880c0d7ee829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 091/101] fix: ECO phase angles are a physical quantity NILMTK
 knows

---
 nilmtk/dataset_converters/eco/convert_eco.py              | 2 +-
 nilmtk/dataset_converters/eco/metadata/meter_devices.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/eco/convert_eco.py b/nilmtk/dataset_converters/eco/convert_eco.py
index 5b27584..745ebed 100644
--- a/nilmtk/dataset_converters/eco/convert_eco.py
+++ b/nilmtk/dataset_converters/eco/convert_eco.py
@@ -116,7 +116,7 @@ def convert_eco(dataset_loc, hdf_filename, timezone):
                             1+phase:('power', 'active'),
                             5+phase:('current', ''),
                             8+phase:('voltage', ''),
-                            13+phase:('phase_angle', ''),
+                            13+phase:('phase angle', ''),
                             'Q': ('power', 'reactive'),
                         }
                         df_phase.columns = pd.MultiIndex.from_tuples([
diff --git a/nilmtk/dataset_converters/eco/metadata/meter_devices.yaml b/nilmtk/dataset_converters/eco/metadata/meter_devices.yaml
index 90118bb..8100f3b 100644
--- a/nilmtk/dataset_converters/eco/metadata/meter_devices.yaml
+++ b/nilmtk/dataset_converters/eco/metadata/meter_devices.yaml
@@ -18,7 +18,7 @@ smart_meter:
   - physical_quantity: voltage
     upper_limit: 400
     lower_limit: 0
-  - physical_quantity: phase_angle
+  - physical_quantity: phase angle
     upper_limit: 360
     lower_limit: 0
   - physical_quantity: power
-- 
2.43.0


From 9f2bd40ae1655834ec40e6c28ec9336cc1229dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 092/101] fix: CSVDataStore reads back untyped columns, time
 stamps with several offsets and whole tables as they were written

---
 nilmtk/datastore/csvdatastore.py | 38 ++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index bbbcd67..e40fe60 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -18,6 +18,9 @@ from nilmtk.datastore.key import Key
 from nilmtk.datastore.datastore import write_yaml_to_file, join_key
 from nilmtk.docinherit import doc_inherit
 
+# How the tables are laid out in the files.
+READ_OPTIONS = {'index_col': 0, 'header': [0, 1], 'parse_dates': True}
+
 class CSVDataStore(DataStore):
 
     @doc_inherit
@@ -39,10 +42,26 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return self._restore(pd.read_csv(file_path, **READ_OPTIONS))
         else:
             raise KeyError('{} not found'.format(key))
 
+    def _restore(self, table):
+        """Returns a table read from a file as it was before it was written."""
+        # pandas gives names to the columns which have an empty type
+        table = table.rename(columns=lambda name: '' if str(name).startswith(
+            'Unnamed: ') else name)
+        # pandas does not parse time stamps with more than one offset
+        if not isinstance(table.index, pd.DatetimeIndex) or table.index.tz:
+            table.index = pd.to_datetime(table.index, utc=True)
+        return table
+
+    def _read_chunks(self, file_path, chunksize):
+        with pd.read_csv(file_path, chunksize=chunksize,
+                         **READ_OPTIONS) as reader:
+            for chunk in reader:
+                yield self._restore(chunk)
+
     @doc_inherit
     def load(self, key, columns=None, sections=None, n_look_ahead_rows=0,
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
@@ -62,14 +81,10 @@ class CSVDataStore(DataStore):
         for section in sections:
             window_intersect = self.window.intersection(section)
             header_rows = [0,1]
-            text_file_reader = pd.read_csv(file_path, 
-                                            index_col=0, 
-                                            header=header_rows, 
-                                            parse_dates=True,
-                                            chunksize=chunksize)
-                                            
+            
             # iterate through all chunks in file
-            for chunk_idx, chunk in enumerate(text_file_reader):
+            for chunk_idx, chunk in enumerate(
+                    self._read_chunks(file_path, chunksize)):
                 
                 # filter dataframe by specified columns
                 if columns:
@@ -225,14 +240,9 @@ class CSVDataStore(DataStore):
     def get_timeframe(self, key):
     
         file_path = self._key_to_abs_path(key)
-        text_file_reader = pd.read_csv(file_path, 
-                                        index_col=0, 
-                                        header=[0,1], 
-                                        parse_dates=True,
-                                        chunksize=MAX_MEM_ALLOWANCE_IN_BYTES)
         start = None
         end = None
-        for df in text_file_reader:
+        for df in self._read_chunks(file_path, MAX_MEM_ALLOWANCE_IN_BYTES):
             if start is None:
                 start = df.index[0]
             end = df.index[-1]
-- 
2.43.0


From dee621b370406f3d88de1cf3e412afbc0f88fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 093/101] fix: CSVDataStore.load took the look-ahead from the
 wrong row and from all columns

---
 nilmtk/datastore/csvdatastore.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index e40fe60..378c2ae 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -62,6 +62,16 @@ class CSVDataStore(DataStore):
             for chunk in reader:
                 yield self._restore(chunk)
 
+    def _read_rows(self, file_path, start, n_rows, chunksize):
+        """Returns `n_rows` rows (or as many as there are) from row `start`."""
+        rows = []
+        for chunk in self._read_chunks(file_path, chunksize):
+            rows.append(chunk.iloc[max(start, 0):max(start + n_rows, 0)])
+            start -= len(chunk)
+            if start + n_rows <= 0:
+                break
+        return pd.concat(rows)
+
     @doc_inherit
     def load(self, key, columns=None, sections=None, n_look_ahead_rows=0,
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
@@ -80,7 +90,6 @@ class CSVDataStore(DataStore):
         # requires 1 pass through file for each section
         for section in sections:
             window_intersect = self.window.intersection(section)
-            header_rows = [0,1]
             
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(
@@ -109,19 +118,12 @@ class CSVDataStore(DataStore):
                     subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
-                        if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
-                            try:
-                                subchunk.look_ahead = pd.read_csv(file_path, 
-                                                index_col=0, 
-                                                header=None, 
-                                                parse_dates=True,
-                                                skiprows=rows_to_skip,
-                                                nrows=n_look_ahead_rows)
-                            except ValueError:
-                                subchunk.look_ahead = pd.DataFrame()
-                        else:
-                            subchunk.look_ahead = pd.DataFrame()
+                        look_ahead = self._read_rows(
+                            file_path, chunk_idx*chunksize + subchunk_end + 1,
+                            n_look_ahead_rows, chunksize)
+                        if columns:
+                            look_ahead = look_ahead[columns]
+                        subchunk.look_ahead = look_ahead
                     
                     yield subchunk
 
-- 
2.43.0


From 1905d7d02ef1db435dd3e63fbbe5f9868ba13616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 094/101] fix: CSVDataStore.load never told that a section took
 several chunks

---
 nilmtk/datastore/csvdatastore.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 378c2ae..144ad41 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -91,6 +91,8 @@ class CSVDataStore(DataStore):
         for section in sections:
             window_intersect = self.window.intersection(section)
             
+            n_chunks = 0
+
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(
                     self._read_chunks(file_path, chunksize)):
@@ -125,6 +127,10 @@ class CSVDataStore(DataStore):
                             look_ahead = look_ahead[columns]
                         subchunk.look_ahead = look_ahead
                     
+                    n_chunks += 1
+                    if n_chunks > 1:
+                        self.all_sections_smaller_than_chunksize = False
+
                     yield subchunk
 
     @doc_inherit
-- 
2.43.0


From 114f1362e510c46f4efa332dee7a7d21ab41e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 095/101] fix: CSVDataStore reads back time stamps written with
 unequal precision

---
 nilmtk/datastore/csvdatastore.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 144ad41..64e269e 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -51,9 +51,14 @@ class CSVDataStore(DataStore):
         # pandas gives names to the columns which have an empty type
         table = table.rename(columns=lambda name: '' if str(name).startswith(
             'Unnamed: ') else name)
-        # pandas does not parse time stamps with more than one offset
-        if not isinstance(table.index, pd.DatetimeIndex) or table.index.tz:
-            table.index = pd.to_datetime(table.index, utc=True)
+        # pandas does not parse time stamps which are not all written the
+        # same way: with more than one offset, or some with fractions
+        if not isinstance(table.index, pd.DatetimeIndex):
+            stamps = [pd.Timestamp(stamp) for stamp in table.index]
+            aware = any(stamp.tz is not None for stamp in stamps)
+            table.index = pd.to_datetime(stamps, utc=aware)
+        elif table.index.tz is not None:
+            table.index = table.index.tz_convert('UTC')
         return table
 
     def _read_chunks(self, file_path, chunksize):
-- 
2.43.0


From 8350d8c2c2ee4170530145bf5e01da6865082901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:41 +0000
Subject: [PATCH 096/101] fix: safe_resample failed (KeyError 'rule') where a
 time zone's midnight is ambiguous

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 37e3372..632f907 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -468,7 +468,7 @@ def safe_resample(data, **resample_kwargs):
     def _resample_chain(data, all_resample_kwargs):
         """_resample_chain provides a compatibility function for 
         deprecated/removed DataFrame.resample kwargs"""
-        
+        all_resample_kwargs = dict(all_resample_kwargs)
 
         rule = all_resample_kwargs.pop('rule')
         axis = all_resample_kwargs.pop('axis', None)
-- 
2.43.0


From 7b1ed167524418059616a9e7bc074c8154f7cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 097/101] fix: convert_caxe keeps the time zone of the readings

The index was rebuilt from its plain values after it had been converted
to Asia/Kolkata, which stored naive UTC times.
---
 nilmtk/dataset_converters/caxe/convert_caxe.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index 9cf963d..95c4e7b 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -38,7 +38,6 @@ def convert_caxe(file_path):
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
     df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
-    df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
                 names=LEVEL_NAMES
-- 
2.43.0


From c2a5570947c92cb958193526ae335e9878f60156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 098/101] fix: convert_caxe takes the metadata from its own
 folder

'./metadata' is looked up in the directory the caller happens to be in.
---
 nilmtk/dataset_converters/caxe/convert_caxe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index 95c4e7b..2e2a038 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -1,3 +1,4 @@
+from os.path import join
 import pandas as pd
 import numpy as np
 from nilmtk.datastore import Key
@@ -50,7 +51,8 @@ def convert_caxe(file_path):
     assert df.isnull().sum().sum() == 0
     store.put(str(key), df)
     store.close()
-    convert_yaml_to_hdf5('./metadata', output_filename)
+    metadata_dir = join(get_module_directory(), 'dataset_converters', 'caxe', 'metadata')
+    convert_yaml_to_hdf5(metadata_dir, output_filename)
 
     print("Done converting test data to HDF5!")
 
-- 
2.43.0


From edb6338312d657fd41e3eedc80400afd8c9d3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 099/101] fix: a missing reading at either end of cumulative
 energy lost the energy of the chunk

---
 nilmtk/stats/totalenergy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..108097b 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -70,7 +70,10 @@ def get_total_energy(df, max_sample_period):
         if physical_quantity == 'power':
             energy[ac_type] = _energy_for_power_series(series, max_sample_period)
         elif physical_quantity == 'cumulative energy':
-            energy[ac_type] = series.iloc[-1] - series.iloc[0]
+            # a missing reading at either end must not lose the energy
+            readings = series.dropna()
+            energy[ac_type] = (readings.iloc[-1] - readings.iloc[0]
+                               if len(readings) else np.nan)
         elif physical_quantity == 'energy':
             energy[ac_type] = series.sum()
 
-- 
2.43.0


From 6081e3ea754d056ce10eb9a1e5148e69687d8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:06 +0000
Subject: [PATCH 100/101] fix: MLE described every disaggregated meter as
 sampled each 10 seconds, whatever its sample period

---
 nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
index cc0adf1..60c12c4 100644
--- a/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
+++ b/nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py
@@ -2,6 +2,7 @@ from datetime import datetime
 import pandas as pd
 import numpy as np
 from ...timeframe import merge_timeframes, TimeFrame
+from ...utils import offset_alias_to_seconds
 from .disaggregator import Disaggregator
 from matplotlib import pyplot as plt
 from datetime import timedelta
@@ -382,7 +383,7 @@ class MLE(Disaggregator):
         
         date_now = datetime.now().isoformat().split('.')[0]
         output_name = 'NILMTK_MLE_' + date_now
-        resample_seconds = 10
+        resample_seconds = int(offset_alias_to_seconds(self.sample_period))
         mains_data_location = '{}/elec/meter1'.format(building_path)
 
         # DataSet and MeterDevice metadata:
-- 
2.43.0


From b79c19a9b363c70675838ae3c281b13fdb05d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 101/101] fix: convert_combed left out every meter which does
 not record the current

---
 nilmtk/dataset_converters/combed/convert_combed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 1c97266..36f96df 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -65,16 +65,13 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         filename_attribute = join(combed_path, 'iiitd', building_name, load_name, load_mapping_path, "%s.csv" %attribute)
                     
                     if os.path.isfile(filename_attribute):
-                        exists = True
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
                         df = df.drop("timestamp", axis=1)
                         dfs.append(df)
-                    else:
-                        exists = False
                         
-                if exists:
+                if dfs:
                     total = pd.concat(dfs, axis=1)
                     total = total.tz_localize('UTC').tz_convert('Asia/Kolkata')
                     total.columns = pd.MultiIndex.from_tuples([column_mapping[x] for x in total.columns])
-- 
2.43.0

