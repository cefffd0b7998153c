From 6b5743d88312a85823efc619984c5ba96ae13120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 01/46] fix: get_array with a ROI that selects no data

HDF5 (h5py) raises ZeroDivisionError for an empty selection, so an empty ROI
failed as soon as the data had any rows. Return an empty array instead.
---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..ca241bd 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -698,6 +698,9 @@ class DataCollection:
                 self._expand_trainids(chunk.counts, chunk.train_ids)
             )
 
+            if res.size == 0:
+                continue  # The ROI selects no data: HDF5 can't read 0 elements
+
             slices = (chunk.slice,) + roi
             chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
 
-- 
2.43.0


From a4198c13f62ac119cd4e04926b55ce6b729b63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 02/46] fix: trains() gave empty arrays for keys without data
 in a train

train_from_id() leaves such keys out; do the same when iterating.
---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index ca241bd..1f1155a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1285,6 +1285,8 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From 7a08b7d1e7ba0a21d1a1c0f9c2fb301cf3e6f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 03/46] fix: selecting with a dict and an empty set of keys
 raised TypeError

An empty set is documented to mean all keys of that source.
---
 karabo_data/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1f1155a..b68f506 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -790,7 +790,7 @@ class DataCollection:
         return DataCollection(files, selection=selection, train_ids=train_ids)
 
     def _expand_selection(self, selection):
-        res = defaultdict(set)
+        res = {}
         if isinstance(selection, dict):
             # {source: {key1, key2}}
             # {source: {}} -> all keys for this source
@@ -798,7 +798,7 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                res[source] = set(keys) if keys else None
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -809,7 +809,7 @@ class DataCollection:
         else:
             TypeError("Unknown selection type: {}".format(type(selection)))
 
-        return dict(res)
+        return res
 
     def _select_glob(self, source_glob, key_glob):
         source_re = re.compile(fnmatch.translate(source_glob))
-- 
2.43.0


From 31448b97573d3887e73066fb671e9f6f1e179101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 04/46] fix: reading data failed if one file has no trains

contiguous_regions() could not handle an empty array.
---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..67c2618 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -124,6 +124,9 @@ def contiguous_regions(condition):
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
 
+    if condition.size == 0:
+        return np.zeros((0, 2), dtype=np.intp)
+
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
     idx, = d.nonzero()
-- 
2.43.0


From d4a5f7c1a7cc9e5f4d80ab4c5e746b217a96859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 05/46] fix: get_dask_array failed if selected trains of a file
 have no data

---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index b68f506..24dc6ac 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -746,6 +746,8 @@ class DataCollection:
         chunks_darrs = []
         for chunk in chunks:
             chunk_dim0 = int(np.sum(chunk.counts))
+            # Dask can't make chunks of length 0 from a dataset with entries
+            chunk_dim0 = max(chunk_dim0, 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From c2e6f3cce33e8e27bdea035c940abac57048163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 06/46] fix: get_dask_array did not check the source and key

Like get_array, it should refuse fields which are not selected.
---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 24dc6ac..eac115b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -738,6 +738,9 @@ class DataCollection:
             Key of parameter within that device, e.g. "image.data".
         """
         import dask.array as da
+
+        self._check_field(source, key)
+
         chunks = sorted(
             self._find_data_chunks(source, key),
             key=lambda x: x.train_ids[0] if x.train_ids.size else 0,
-- 
2.43.0


From d2f45e2a37b9c0f787c57b509c18f4dcd861a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 07/46] fix: get_data_counts failed for control sources

It made an array shaped by the train IDs rather than the number of trains.
---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index eac115b..95bff5f 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,7 +498,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                counts = np.ones(len(f.train_ids), dtype=np.uint64)
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
-- 
2.43.0


From a64e1a03de3faa0ea0fcb97d5698cbbd5105b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 08/46] fix: get_series & get_data_counts failed if a file has
 no entries

---
 karabo_data/reader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 95bff5f..5510773 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -504,7 +504,11 @@ class DataCollection:
                 _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files with no entries don't have a first train ID to sort by
+        non_empty = [s for s in seq_series if len(s) > 0]
+        ser = pd.concat(
+            sorted(non_empty, key=lambda s: s.index[0]) or seq_series
+        )
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
@@ -569,7 +573,11 @@ class DataCollection:
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files with no entries don't have a first train ID to sort by
+        non_empty = [s for s in seq_series if len(s) > 0]
+        ser = pd.concat(
+            sorted(non_empty, key=lambda s: s.index[0]) or seq_series
+        )
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From 98f13debf2a4cf42900da5d2382c8161d340da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 09/46] fix: get_series failed for pulse data with one entry
 per train

Whether data has an extra dimension does not depend on how many entries a
train has, and files with & without several entries per train could not be
joined together.
---
 karabo_data/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 5510773..dfed1c9 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -551,14 +551,19 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+            # All files need the same kind of index, to be joined together
+            several_per_train = any(
+                (f.get_index(source, group)[1] > 1).any()
+                for f in self._source_index[source]
+            )
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
                 trainids = self._expand_trainids(counts, f.train_ids)
 
                 index = pd.Index(trainids, name='trainId')
                 data = f.file[data_path][:]
-                if not index.is_unique:
+                if several_per_train:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
                     pulse_id = pulse_id[: len(index), 0]
                     index = pd.MultiIndex.from_arrays(
@@ -566,6 +571,7 @@ class DataCollection:
                     )
                     # Does pulse-oriented data always have an extra dimension?
                     assert data.shape[1] == 1
+                if data.ndim == 2 and data.shape[1] == 1:
                     data = data[:, 0]
                 data = data[: len(index)]
 
-- 
2.43.0


From 632aedf2f1ec370a4e8ab8c40e8ccaa00365161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 10/46] fix: select_trains(by_id[a:b]) raised TypeError for IDs
 in a gap of the data

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 67c2618..a9b1cf8 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -84,7 +84,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return (np.asarray(train_ids) > tid).nonzero()[0][0]
 
 
 class DataChunk:
-- 
2.43.0


From e6ed4ba217f22263f834695fb8d4df6c3b72ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 11/46] fix: select_trains(by_index[[...]]) kept repeated
 trains twice

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index dfed1c9..6f11ada 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -989,7 +989,7 @@ class DataCollection:
                 )
         elif isinstance(tr, by_index) and isinstance(tr.value, (list, np.ndarray)):
             # Select a list of trains by index in this collection
-            new_train_ids = sorted([self.train_ids[i] for i in tr.value])
+            new_train_ids = sorted({self.train_ids[i] for i in tr.value})
         else:
             raise TypeError(type(train_range))
 
-- 
2.43.0


From d8e6a24e6bb9b83a773d7d70bb674331726f6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:57 +0000
Subject: [PATCH 12/46] fix: selecting again could add keys to a selection

Selecting all keys of a source ('*' or an empty set in a dict) undid an
earlier selection of keys, and dicts could add keys which are not in the
data or not selected. Deselecting all keys of a source drops the source.
---
 karabo_data/reader.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6f11ada..dcf811a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -817,7 +817,14 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source] = set(keys) if keys else None
+                if keys:
+                    for key in keys:
+                        if key not in self.keys_for_source(source):
+                            raise PropertyNameError(key, source)
+                    res[source] = set(keys)
+                else:
+                    # All keys, or those which were already selected
+                    res[source] = self.selection[source]
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -847,7 +854,8 @@ class DataCollection:
                 continue
 
             if key_glob == '*':
-                matched[source] = None
+                # All keys (None), or those which were already selected
+                matched[source] = self.selection[source]
             else:
                 r = ctrl_key_re if source in self.control_sources else key_re
                 keys = set(filter(r.match, self.keys_for_source(source)))
@@ -939,7 +947,9 @@ class DataCollection:
             if keys is None:
                 keys = self.keys_for_source(source)
 
-            selection[source] = keys - desel_keys
+            remaining_keys = keys - desel_keys
+            if remaining_keys:
+                selection[source] = remaining_keys
 
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
-- 
2.43.0


From aba0fce21f278156f69c757def2a7f34bd64c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:57 +0000
Subject: [PATCH 13/46] fix: unknown types of selection were not refused

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index dcf811a..73c2b9e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -833,7 +833,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return res
 
-- 
2.43.0


From d895c9d7fffc2b74a03d71fb791741bdc97bda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 14/46] fix: control data was read by train position, ignoring
 its index

---
 karabo_data/reader.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 73c2b9e..188f26b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -498,10 +506,10 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(len(f.train_ids), dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
         # Files with no entries don't have a first train ID to sort by
@@ -544,8 +552,11 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                # Usually 1 entry per train, but copies may lack some trains
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1298,10 +1309,13 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if not counts[pos]:
+                    continue
+                source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From f28f8e94fe66d9eb9fe0527025c6e8011ba68daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 15/46] fix: write() failed if a source has no data in some
 trains

---
 karabo_data/writer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..8a0c5b9 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,10 +17,16 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
-        self._make_control_index(source, a.coords['trainId'].values)
+        self._make_control_index(source, self._array_train_ids(a))
+
+    @staticmethod
+    def _array_train_ids(a):
+        # Arrays without any entries have no train ID coordinates
+        if 'trainId' not in a.coords:
+            return np.zeros(0, dtype=np.uint64)
+        return a.coords['trainId'].values
 
     def _make_control_index(self, source, data_tids):
         # Original files contain exactly 1 entry per train for control data,
@@ -40,7 +46,7 @@ class FileWriter:
         a = self.data.get_array(source, key)
         path = 'INSTRUMENT/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
-        self._make_instrument_index(source, key, a.coords['trainId'].values)
+        self._make_instrument_index(source, key, self._array_train_ids(a))
 
     def _make_instrument_index(self, source, key, data_tids):
         index_path = source + '/' + key.partition('.')[0]
-- 
2.43.0


From 0cbea01c9493247ebdde9d151992ba456ab310df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 16/46] fix: writing didn't refuse data which is not in train
 order

---
 karabo_data/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 8a0c5b9..51d46ea 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -36,6 +36,8 @@ class FileWriter:
         if source not in self.indexes:
             assert len(np.unique(data_tids)) == len(data_tids),\
                 "Duplicate train IDs in control data!"
+            assert (data_tids[1:] >= data_tids[:-1]).all(), \
+                "Out-of-order train IDs"
             counts = np.isin(self.data.train_ids, data_tids).astype(np.uint64)
             firsts = np.zeros_like(counts)
             firsts[1:] = np.cumsum(counts)[:-1]  # firsts[0] is always 0
@@ -56,7 +58,8 @@ class FileWriter:
 
     def _generate_index(self, data_tids):
         """Convert an array of train IDs to first/count for each train"""
-        assert (np.diff(data_tids) >= 0).all(), "Out-of-order train IDs"
+        # (np.diff would wrap around for unsigned integers)
+        assert (data_tids[1:] >= data_tids[:-1]).all(), "Out-of-order train IDs"
         counts = np.array([np.count_nonzero(t == data_tids)
                           for t in self.data.train_ids], dtype=np.uint64)
         firsts = np.zeros_like(counts)
-- 
2.43.0


From 2b2542603a2f76dc7db6dc6df68e68625c4b7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 17/46] fix: data was out of train order if trains of several
 files alternate

---
 karabo_data/reader.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 188f26b..bd0e79a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1051,21 +1051,31 @@ class DataCollection:
         else:
             key_group = ''
 
-        for file in self._source_index[source]:
+        files = self._source_index[source]
+        source_tids = np.unique(np.concatenate([f.train_ids for f in files]))
+
+        for file in files:
             file_has_data = False
             firsts, counts = file.get_index(source, key_group)
 
             # Of trains in this file, which are in selection
             selected = np.isin(file.train_ids, self.train_ids)
 
+            # If there are trains from other files in between, split the data
+            # so that the chunks can be arranged in train order.
+            positions = np.searchsorted(source_tids, file.train_ids)
+
             # Assemble contiguous chunks of data from this file
-            for _from, _to in contiguous_regions(selected):
-                file_has_data = True
-                yield DataChunk(file, source, key,
-                                first=firsts[_from],
-                                train_ids=file.train_ids[_from:_to],
-                                counts=counts[_from:_to],
-                                )
+            for _start, _stop in contiguous_regions(selected):
+                gaps, = (np.diff(positions[_start:_stop]) != 1).nonzero()
+                edges = [_start] + [_start + 1 + i for i in gaps] + [_stop]
+                for _from, _to in zip(edges[:-1], edges[1:]):
+                    file_has_data = True
+                    yield DataChunk(file, source, key,
+                                    first=firsts[_from],
+                                    train_ids=file.train_ids[_from:_to],
+                                    counts=counts[_from:_to],
+                                    )
 
             if not file_has_data:
                 # Make an empty chunk to let e.g. get_array find the shape
-- 
2.43.0


From 6fd4ea32b3ba641fee4dd78b67a52d50b641f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 18/46] fix: series & counts were out of train order if files
 alternate

---
 karabo_data/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index bd0e79a..4ee8d4a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -518,7 +518,7 @@ class DataCollection:
             sorted(non_empty, key=lambda s: s.index[0]) or seq_series
         )
         # Select out only the train IDs of interest
-        train_ids = ser.index.intersection(self.train_ids)
+        train_ids = ser.index.intersection(self.train_ids).sort_values()
         return ser.loc[train_ids]
 
     def get_series(self, source, key):
@@ -602,7 +602,7 @@ class DataCollection:
             # A numpy array works for selecting, but a pandas index doesn't
             train_ids = np.asarray(train_ids)
         else:
-            train_ids = ser.index.intersection(self.train_ids)
+            train_ids = ser.index.intersection(self.train_ids).sort_values()
 
         return ser.loc[train_ids]
 
-- 
2.43.0


From ba7912ba0eefdceab815b1c37ce9a7b8a020712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 19/46] fix: validating a file crashed on or missed
 inconsistent indexes

---
 karabo_data/validation.py | 95 ++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 36 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..9a9cd2d 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -72,54 +72,77 @@ class FileValidator:
 
     def check_indices(self):
         for src in self.file.instrument_sources:
-            src_groups = set()
+            group_keys = {}
             for key in self.file.get_keys(src):
-                ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
                 group = key.split('.', 1)[0]
-                src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
-                data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
-                    self.record(
-                        'Index referring to data ({}) outside dataset ({})'.format(
-                            max_end, data_dim0
-                        ),
-                        dataset=ds_path,
-                    )
-
-            for src, group in src_groups:
+                group_keys.setdefault(group, []).append(key)
+
+            for group, keys in group_keys.items():
                 record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
+                if not self.check_index_shapes(src, group, record):
+                    continue  # Not possible to interpret this index
+
                 first, count = self.file.get_index(src, group)
 
-                if (first.ndim != 1) or (count.ndim != 1):
-                    record(
-                        "Index first / count are not 1D",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-                    continue
-
-                if first.shape != count.shape:
-                    record(
-                        "Index first & count have different number of entries",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-
-                if first.shape != self.file.train_ids.shape:
-                    record(
-                        "Index has wrong number of entries",
-                        index_shape=first.shape,
-                        trainids_shape=self.file.train_ids.shape,
-                    )
+                for key in keys:
+                    ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
+                    data_dim0 = self.file.file[ds_path].shape[0]
+                    # first + count can overflow if these are out of range
+                    if np.any(
+                        (first > data_dim0)
+                        | (count > data_dim0)
+                        | ((first + count) > data_dim0)
+                    ):
+                        max_end = max(int(f) + int(c) for f, c in zip(first, count))
+                        self.record(
+                            'Index referring to data ({}) outside dataset ({})'.format(
+                                max_end, data_dim0
+                            ),
+                            dataset=ds_path,
+                        )
 
                 check_index_contiguous(first, count, record)
 
+    def check_index_shapes(self, src, group, record):
+        """Check the index datasets match each other & the train IDs"""
+        ntrains = len(self.file.train_ids)
+        ix_group = self.file.file['/INDEX/{}/{}'.format(src, group)]
+        names = ['first'] + (['count'] if 'count' in ix_group else ['last', 'status'])
+        shapes = {name: ix_group[name].shape for name in names}
+
+        if any(len(shape) != 1 for shape in shapes.values()):
+            record(
+                "Index {} are not 1D".format(' / '.join(names)),
+                **{name + '_shape': shape for name, shape in shapes.items()}
+            )
+            return False
+
+        # Extra entries at the end are ignored as padding
+        lengths = {name: min(n, ntrains) for name, (n,) in shapes.items()}
+        if len(set(lengths.values())) > 1:
+            record(
+                "Index {} have different number of entries".format(' & '.join(names)),
+                **{name + '_shape': shape for name, shape in shapes.items()}
+            )
+            return False
+
+        if lengths['first'] != ntrains:
+            record(
+                "Index has wrong number of entries",
+                index_shape=shapes['first'],
+                trainids_shape=self.file.train_ids.shape,
+            )
+            return False
+
+        return True
+
 
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
+    if firsts.size == 0:
+        return probs  # No trains
+
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-- 
2.43.0


From 16d278a242c55d0dd25253ab3657f07e9d1bbb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 20/46] fix: validating a run failed without a cached map of
 its files

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 9a9cd2d..010143e 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -214,6 +214,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # Not in the cache
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From 8f6b73044258d3cf4e38eac655babcd654965818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 21/46] fix: a temporary file was left behind if the cache
 could not be replaced

---
 karabo_data/run_files_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..d68857e 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
-- 
2.43.0


From e58ab672288b893b09a849182e7d3508f10074d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 22/46] fix: opening a run failed if the cached map could not
 be read

---
 karabo_data/run_files_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index d68857e..bc80124 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -88,7 +88,7 @@ class RunFilesMap:
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (OSError, ValueError):  # Missing, unreadable, or not JSON
                 pass
 
         for info in loaded_data:
-- 
2.43.0


From cf4a1927cef7ce4129b122d3333309c2ebf99c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 23/46] fix: opening a run failed if the cached map could not
 be written

---
 karabo_data/run_files_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index bc80124..50d45f2 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -127,8 +127,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors from writing the cache
+        file, e.g. for lack of permission.
         """
         need_save = False
 
@@ -167,7 +167,7 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:  # e.g. no permission, or read-only filesystem
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From e0e9b3b5ddc44dd3c6c58ccea1002a42acabd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 24/46] fix: detector data couldn't be read if a module lacks
 some trains

Reading the array failed, or could mislabel trains, if a file of one module
didn't contain all the trains which other modules have.
---
 karabo_data/components.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..3a51fe9 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -229,21 +229,21 @@ class MPxDetectorBase:
             group = key.partition('.')[0]
             firsts, counts = f.get_index(source, group)
 
-            for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
-                    # No overlap
+            # Find the selected trains in this file, and read together those
+            # which are next to one another. A module may lack some trains.
+            train_ixs = np.nonzero(np.isin(f.train_ids, self.data.train_ids))[0]
+            breaks = np.nonzero(np.diff(train_ixs) != 1)[0] + 1
+
+            for chunk_ixs in np.split(train_ixs, breaks):
+                if chunk_ixs.size == 0:
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
-                chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
-                chunk_counts = counts[first_train_idx : last_train_idx + 1]
+                chunk_firsts = firsts[chunk_ixs]
+                chunk_counts = counts[chunk_ixs]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
+                    f.train_ids[chunk_ixs],
                     chunk_counts.astype(np.intp),
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
-- 
2.43.0


From f8b792488730ac789b2a957d0278a353c21335c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 25/46] fix: detector data couldn't be read if a module has no
 file in the selected trains

---
 karabo_data/components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 3a51fe9..2e3bc2e 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -115,6 +115,12 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Modules may not be in any file for the trains selected
+        self.source_to_modno = source_to_modno = {
+            s: m for (s, m) in source_to_modno.items()
+            if s in self.data.instrument_sources
+        }
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From 95cb887e6376ff96119830b2dd5b77cfa779d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 26/46] fix: negative pulse numbers were not refused, but
 selected nothing

---
 karabo_data/components.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 2e3bc2e..d058e0b 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -64,17 +64,18 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
+    # Check this before converting to an unsigned type
     if (val < 0).any():
         if isinstance(pulses, by_id):
             raise ValueError("Pulse IDs cannot be negative")
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 6e246ff00e380261fbdb77ba8db9740fde18fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 27/46] fix: stack_detector_data filled missing modules of
 integer data with arbitrary numbers

---
 karabo_data/stacking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..ce831e4 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -117,6 +117,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if dtype.kind in 'iub' and np.isnan(fillvalue):
+        fillvalue = 0  # Integers can't represent nan
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From da199c4578fa5454f537a7ca2f3170c040f00c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 28/46] fix: slicing stacked data without copying lost the
 stacking axis

---
 karabo_data/stacking.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index ce831e4..28cc5fa 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -174,7 +174,12 @@ class StackView:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
         elif modno == slice(None, None):
-            return self._get_all_mods(mod_slices)
+            # Integer indices remove dimensions before the stacking axis
+            new_stack_axis = sum(
+                not isinstance(s, (int, np.integer))
+                for s in slices[:self._stack_axis]
+            )
+            return self._get_all_mods(mod_slices, new_stack_axis)
         else:
             raise Exception(
                 "VirtualStack can only slice a single module or all modules"
@@ -192,12 +197,12 @@ class StackView:
         # Now slice the module data as requested
         return mod_data[mod_slices]
 
-    def _get_all_mods(self, mod_slices):
+    def _get_all_mods(self, mod_slices, stack_axis):
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=stack_axis)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From 4ade421e02ae673f198b3178c1f33c8b2cb5c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 29/46] fix: stacked data accepted negative module numbers
 which are out of range

---
 karabo_data/stacking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 28cc5fa..e7183b8 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -172,6 +172,8 @@ class StackView:
         if isinstance(modno, int):
             if modno < 0:
                 modno += self._nmodules
+            if not 0 <= modno < self._nmodules:
+                raise IndexError("Module number out of range")
             return self._get_single_mod(modno, mod_slices)
         elif modno == slice(None, None):
             # Integer indices remove dimensions before the stacking axis
@@ -189,8 +191,6 @@ class StackView:
         try:
             mod_data = self._data[modno]
         except KeyError:
-            if modno >= self._nmodules:
-                raise IndexError(modno)
             mod_data = np.full(self._mod_shape, self._fillvalue, self.dtype)
             self._data[modno] = mod_data
 
-- 
2.43.0


From 52df393f33fbc0e2553ed7d214ea478da7623f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 30/46] fix: serve_files lost trains left in the queue when all
 were fed

---
 karabo_data/export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..c131cd6 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -38,13 +38,15 @@ class REPInterface(Thread):
         try:
             interface.bind('tcp://*:{}'.format(self.port))
 
-            while not self.stopped():
+            # When asked to stop, still serve what was already fed
+            while not (self.stopped() and self.buffer.empty()):
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
                 interface.send_multipart(self.buffer.get())
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
+            # Allow some time for the last reply to be sent
+            interface.setsockopt(zmq.LINGER, 5000)
             interface.close()
 
     def stop(self):
-- 
2.43.0


From 89ff3e126d322f1ca2ad598a170e13d391fa3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 31/46] fix: karabo-bridge-serve-files ignored --source and
 --key

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index c131cd6..ddf8597 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -262,4 +262,4 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source, key_glob=args.key)
-- 
2.43.0


From 22e52239fa7ee7a53aacdc1da8b4a6ac0d4b8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 32/46] fix: CrystFEL geometry files with step components below
 1e-4 pixels could not be read

---
 karabo_data/geometry2/crystfel_fmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..09f547d 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,11 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # No exponents (like 1e-05): the format splits this at + and - signs.
+    x, y, z = [np.format_float_positional(n, trim='0', sign=True) for n in vec]
+    s = '{}x {}y'.format(x, y)
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(z)
     return s
 
 
-- 
2.43.0


From dffd0583f667db1aaad16703aacbd15e2962ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 33/46] fix: AGIPD geometry from quadrant positions used the
 unit as the pixel size

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..167f215 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From 9252847f2e018f2570ef7fdf199acb01da39d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 34/46] fix: older LPD geometry read tile offsets in
 millimetres whatever the unit given

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..8ce32e6 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From 20e1fe282cbede63ad2e02fad64c2c588dfb8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 35/46] fix: QuickView could not be given data, set its
 position or stay in the stack

The constructor tested the truth of an array, setting the position called a
method which doesn't exist, and next() could move past the last image.
---
 karabo_data/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..b091821 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
@@ -63,7 +63,7 @@ class QuickView:
         if self._data is not None:
             if 0 <= pos < len(self):
                 self._current_index = pos
-                self.show()
+                self.display()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From 7c68c0463151dd4293f05ceaeb8fc140bd8f1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 36/46] fix: description of files with an unknown data source
 was a tuple

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index a9b1cf8..6fb8091 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -192,7 +192,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From 09cc55e21f45d0720e96843fc285d6950dbce106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 37/46] fix: DataCollection.info() failed for selections
 without trains

---
 karabo_data/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 4ee8d4a..e24e943 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1097,11 +1097,14 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
-        span_txt = str(datetime.timedelta(seconds=span_sec))
+        if train_count == 0:
+            first_train = last_train = span_txt = '-'
+        else:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
+            span_txt = str(datetime.timedelta(seconds=span_sec))
 
         detector_modules = {}
         for source in self.detector_sources:
-- 
2.43.0


From 6ab70af5cbd2aea22a6360c8633c88c86179c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 38/46] fix: lsxfel failed for several files if one was not
 from a detector

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From 17e372495b42a649e94730d205cf2ebf3f499296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 39/46] fix: lsxfel did not show the name of a run given with a
 trailing slash

---
 karabo_data/lsxfel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..521afbc 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -59,7 +59,7 @@ def summarise_file(path):
 
 
 def describe_run(path):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
     print(basename, ": Run directory")
     print()
 
@@ -68,7 +68,7 @@ def describe_run(path):
 
 
 def summarise_run(path, indent=''):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
 
     # Accessing all the files in a run can be slow. To get the number of trains,
     # pick one set of segments (time slices of data from the same source).
-- 
2.43.0


From 63d20f545cccecfe91ee16ebf0b409550c08f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 40/46] fix: validate runs in folders whose names are special
 in glob patterns

---
 karabo_data/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 010143e..88ba487 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -1,6 +1,6 @@
 from argparse import ArgumentParser
 from functools import partial
-from glob import glob
+from glob import escape, glob
 import h5py
 import numpy as np
 import os
@@ -171,7 +171,7 @@ class RunValidator:
         self.files_excluded = []
         self.run_dir = run_dir
 
-        for path in glob(os.path.join(run_dir, '*.h5')):
+        for path in glob(os.path.join(escape(run_dir), '*.h5')):
             try:
                 fa = FileAccess(path)
             except Exception as e:
-- 
2.43.0


From 4b1d72d1027ccf105be3433f1654a9edd7720a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 41/46] fix: pulse positions given out of order or twice
 mislabelled the pulses

---
 karabo_data/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index d058e0b..629d11d 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -66,7 +66,8 @@ def _check_pulse_selection(pulses):
     elif isinstance(pulses.value, int):
         val = np.array([val])
     else:
-        val = np.asarray(val)
+        # HDF5 reads the pulses in increasing order
+        val = np.unique(val)
 
     # Check this before converting to an unsigned type
     if (val < 0).any():
-- 
2.43.0


From 95552efb7598b23c368a0251c5fd0b2bd8fce52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 42/46] fix: position_modules_interpolate gave an image without
 data

The tile vectors are in metres, affine_transform needs pixels, and the
offset has to be transformed as well.
---
 karabo_data/geometry2/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 167f215..04d417e 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -800,21 +800,22 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         for i, (module, mod_data) in enumerate(zip(self.modules, data)):
             tiles_data = np.split(mod_data, 8)
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
-                # We store (x, y, z), but numpy indexing, and hence affine_transform,
-                # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # We store (x, y, z) in metres, but numpy indexing, and hence
+                # affine_transform, work like [y, x] in pixels.
+                fs_vec_yx = (tile.fs_vec[:2] / self._pixel_shape)[::-1]
+                ss_vec_yx = (tile.ss_vec[:2] / self._pixel_shape)[::-1]
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = (tile.corner_pos[:2] / self._pixel_shape)[::-1] + centre
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
 
                 # affine_transform takes a mapping from *output* to *input*.
-                # So we reverse the forward transformation.
+                # So we reverse the forward transformation. Index n refers to
+                # the centre of a pixel, at n+0.5.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                offset = np.dot(transform, 0.5 - corner_pos_yx) - 0.5
 
                 affine_transform(
                     tile_data,
-- 
2.43.0


From 3cc55f8f19d8d6fd9f16d2c7e1a63c5c16ebc64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 43/46] fix: DSSC images with axes in metres were drawn with
 the wrong extent

The pixels of DSSC are not square.
---
 karabo_data/geometry2/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 04d417e..58a737e 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -983,7 +983,7 @@ class SnappedGeometry:
         _extent = np.array((min_x - 0.5, max_x + 0.5, min_y - 0.5, max_y + 0.5))
         cross_size = 20
         if axis_units == 'm':
-            _extent *= self.geom.pixel_size
+            _extent *= np.repeat(self.geom._pixel_shape, 2)
             cross_size *= self.geom.pixel_size
 
         # Use a dark grey for missing data
@@ -1465,9 +1465,10 @@ class DSSC_1MGeometry(DetectorGeometryBase):
                                     figsize=figsize,
                                     colorbar=colorbar,
                                     **kwargs)
-        # Squash image to physically equal aspect ratio, so a circle projected
-        # on the detector looks like a circle on screen.
-        ax.set_aspect(204/236.)
+        if axis_units == 'px':
+            # Squash image to physically equal aspect ratio, so a circle
+            # projected on the detector looks like a circle on screen.
+            ax.set_aspect(204/236.)
         return ax
 
     @classmethod
-- 
2.43.0


From 2b403056180569ee3188340514c0d09cdcb592d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 44/46] fix: AGIPD compare() drew in metres with limits and
 arrows for pixels

---
 karabo_data/geometry2/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 58a737e..b145607 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -717,27 +717,29 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         fig = plt.figure(figsize=(10, 10))
         ax = fig.add_subplot(1, 1, 1)
 
+        px = 1 / self.pixel_size  # Draw in pixels, as inspect() does
+
         rects = []
         arrows = []
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                corners = fragment.corners()[:, :2] * px  # Drop the Z dimension
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] * px
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From a7e070ebb51b00dc49dced4bf6cefad8cd4a2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 45/46] fix: hdf5_to_cbf ignored the header

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index b091821..9271b4a 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -138,6 +138,6 @@ def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     paths = list(tmpf["METADATA/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From 0f52f29e00c0b6d9fea971e0e68f14fc55a9576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:37 +0000
Subject: [PATCH 46/46] fix: write an empty dataset for fields without data in
 virtual files

get_virtual_dataset() failed with a TypeError for a field which has no data
in the selected trains, and write_virtual() left the field out.
---
 karabo_data/writer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 51d46ea..6039fca 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -139,7 +139,7 @@ class VirtualFileWriter(FileWriter):
                   if (c.counts > 0).any()]
         chunks.sort(key = lambda c: c.train_ids[0])
         if not chunks:
-            return None, None
+            return None, np.zeros(0, dtype=np.uint64)
 
         # Create the layout, which will describe what data is where
         n_total = np.sum([c.counts.sum() for c in chunks])
@@ -164,24 +164,28 @@ class VirtualFileWriter(FileWriter):
         ])
         return layout, train_ids
 
+    def _create_dataset(self, path, layout, source, key):
+        if layout:
+            self.file.create_virtual_dataset(path, layout)
+        else:
+            # No data to refer to: make an empty dataset of the same type
+            ds = next(self.data._find_data_chunks(source, key)).dataset
+            self.file.create_dataset(
+                path, shape=(0,) + ds.shape[1:], dtype=ds.dtype
+            )
+
     def add_control_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
-        if not layout:
-            return  # No data
-
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-        self.file.create_virtual_dataset(path, layout)
+        self._create_dataset(path, layout, source, key)
 
         self._make_control_index(source, train_ids)
         return path
 
     def add_instrument_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
-        if not layout:
-            return  # No data
-
         path = 'INSTRUMENT/{}/{}'.format(source, key.replace('.', '/'))
-        self.file.create_virtual_dataset(path, layout)
+        self._create_dataset(path, layout, source, key)
 
         self._make_instrument_index(source, key, train_ids)
         return path
-- 
2.43.0

