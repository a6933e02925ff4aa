From 3bd06cb65cfc8f85f3e5520ce953ca754b8ae371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 01/62] fix: read object IDs as text so their spelling does not
 depend on the rows read together

---
 src/sorcha/readers/CSVReader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..b3a0cf3 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -12,6 +12,10 @@ class CSVDataReader(ObjectDataReader):
     Requires that the file's first column is ObjID.
     """
 
+    # Object IDs are text, however they are spelled. Without this pandas infers the type of the
+    # column from whichever rows it happens to read, and e.g. "007" becomes "7" in some blocks only.
+    _ID_DTYPE = {"ObjID": str}
+
     def __init__(self, filename, sep="csv", header=-1, **kwargs):
         """A class for reading the object data from a CSV file.
 
@@ -201,6 +205,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype=self._ID_DTYPE,
             )
         else:
             res_df = pd.read_csv(
@@ -208,6 +213,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype=self._ID_DTYPE,
             )
 
         return res_df
@@ -223,6 +229,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype=self._ID_DTYPE,
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -230,6 +237,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype=self._ID_DTYPE,
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
@@ -264,12 +272,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype=self._ID_DTYPE,
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype=self._ID_DTYPE,
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From 9c48ce797c3df93eb9d804bce159d9ddce481845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 02/62] fix: keep object IDs as text in the generated ephemeris

---
 src/sorcha/ephemeris/simulation_driver.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..ba0d2e4 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,6 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
@@ -222,7 +220,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
     verboselog("Ephemeris generated.")
     # reset to the beginning of the in-memory CSV
     output.seek(0)
-    ephemeris_df = pd.read_csv(output, dtype=column_types)
+    ephemeris_df = pd.read_csv(output, dtype={"ObjID": str})
 
     # if the user has defined an output file name for the ephemeris results, write out to that file
     if ephemeris_csv_filename:
-- 
2.43.0


From ab2bfb95a10ea228d985b9552c158d4d25d3c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 03/62] fix: return designations in a reproducible order

---
 src/sorcha/ephemeris/pixel_dict.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..cb1a8b3 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -375,8 +375,10 @@ class PixelDict:
 
         pixels = get_hp_neighbors(ra, dec, ang_fov, nside=self.nside, nested=self.nested)
 
-        desigs = set()
+        # A dictionary rather than a set, to keep the order of the objects (and with it the order of the
+        # rows and of the random draws that follow) the same in every process.
+        desigs = {}
         for pix in pixels:
-            desigs.update(self.pixel_dict[pix])
+            desigs.update(dict.fromkeys(self.pixel_dict[pix]))
 
-        return desigs
+        return list(desigs)
-- 
2.43.0


From 4953ac1e7e5ab1a00606cd25c8ea3ab3d232b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 04/62] fix: return empty tables instead of crashing when no
 detection survives and return_only is set

---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..c1ede87 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..9415155 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From abfa350c87c7ab62f4dcd8943fad6f97d0ce720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 05/62] fix: select HDF5 rows by position, labels repeat in
 appended files

---
 src/sorcha/readers/HDF5Reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..324662f 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -93,9 +94,11 @@ class HDF5DataReader(ObjectDataReader):
             The dataframe for the object data.
         """
         self._build_id_map()
-        row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        # Select by position and not by index label: in a file that was appended to, labels repeat.
+        match_rows = np.flatnonzero(self.obj_id_table["ObjID"].isin(obj_ids))
+        if len(match_rows) == 0:  # pandas takes an empty selection for no selection
+            return pd.read_hdf(self.filename, start=0, stop=0)
+        res_df = pd.read_hdf(self.filename, where=match_rows)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From 4d3c0333e9419a9cbd0b19f8b075b8f6c1c2f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 06/62] fix: allow longer text in later chunks of an HDF5
 output file

---
 src/sorcha/modules/PPOutput.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..2f1e450 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -67,9 +67,17 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            # PyTables fixes the width of the text columns when the table is created. If the new rows
+            # have longer text (e.g. longer ObjIDs) the table has to be written again with wider columns.
+            if keyname not in store or list(store[keyname].columns) != list(pp_results.columns):
+                raise
+            pp_results = pd.concat([store[keyname], pp_results])
+            store.remove(keyname)
+            store.append(keyname, pp_results, format="t", data_columns=True)
 
     return
 
-- 
2.43.0


From 8c48e34d2d11dcfc61a0a8f7f83009923552b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 07/62] fix: link objects whose identifiers are not ASCII

---
 src/sorcha/modules/PPLinkingFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPLinkingFilter.py b/src/sorcha/modules/PPLinkingFilter.py
index d84f2d3..14a3708 100755
--- a/src/sorcha/modules/PPLinkingFilter.py
+++ b/src/sorcha/modules/PPLinkingFilter.py
@@ -67,7 +67,7 @@ def PPLinkingFilter(
 
     obsv = pd.DataFrame(
         {
-            "ssObjectId": observations["ObjID"],
+            "ssObjectId": observations["ObjID"].str.encode("utf-8"),
             "diaSourceId": observations["FieldID"],
             "midPointTai": observations["fieldMJD_TAI"],
             "ra": observations["RA_deg"],
-- 
2.43.0


From 02adfa94a6d83f37e4cf4672490e0d01832f8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 08/62] fix: find the ID column in files with blank lines
 before the header

---
 src/sorcha/readers/CSVReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index b3a0cf3..0d0bbc2 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -228,7 +228,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 sep="\\s+",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 dtype=self._ID_DTYPE,
             )
         else:
@@ -236,7 +236,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 delimiter=",",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 dtype=self._ID_DTYPE,
             )
 
-- 
2.43.0


From d4938dd17eca27de8f49314c5e2138ce671eeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 09/62] fix: do not read rows twice when a file has blank lines
 among its rows

---
 src/sorcha/readers/CSVReader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 0d0bbc2..fe585b3 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -1,3 +1,4 @@
+import itertools
 import pandas as pd
 import logging
 import sys
@@ -196,7 +197,10 @@ class CSVDataReader(ObjectDataReader):
         if self.header_row > 0:
             skip_rows = [i for i in range(0, self.header_row)]
         if block_start > 0:
-            skip_rows.extend([i for i in range(self.header_row + 1, self.header_row + 1 + block_start)])
+            # pandas numbers blank lines when it skips lines, but they do not hold a row.
+            with open(self.filename) as fh:
+                data_lines = (i for i, line in enumerate(fh) if i > self.header_row and not line.isspace())
+                skip_rows.extend(itertools.islice(data_lines, block_start))
 
         # Read the rows.
         if self.sep == "whitespace":
-- 
2.43.0


From f721dcb0e8a895dc6372ee72feceec52a899b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 10/62] fix: refuse mixed orbit formats also when they are read
 in different chunks

---
 src/sorcha/readers/OrbitAuxReader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..d7298a9 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -29,6 +29,9 @@ class OrbitAuxReader(CSVDataReader):
         """
         super().__init__(filename, sep, header, **kwargs)
 
+        # The orbit format of the file, known once the first rows were read.
+        self.orb_format = None
+
     def get_reader_info(self):
         """Return a string identifying the current reader name
         and input information (for logging and output).
@@ -80,7 +83,9 @@ class OrbitAuxReader(CSVDataReader):
             sys.exit("ERROR: Please only provide the required columns in your orbits file.")
 
         orb_format = input_table["FORMAT"].iloc[0]
-        if len(input_table["FORMAT"].unique()) != 1:
+        if self.orb_format is None:
+            self.orb_format = orb_format
+        if len(input_table["FORMAT"].unique()) != 1 or orb_format != self.orb_format:
             pplogger.error("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
             sys.exit("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
 
-- 
2.43.0


From 9dd449d8dfc25a624bc7cf07f81f6eee0ceb5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 11/62] fix: find the main filter in parameter files with
 comment lines before the header

---
 src/sorcha/modules/PPGetMainFilterAndColourOffsets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
index fbec9a3..029ca62 100644
--- a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
+++ b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
@@ -40,7 +40,9 @@ def PPGetMainFilterAndColourOffsets(filename, observing_filters, filesep):
     pplogger = logging.getLogger(__name__)
 
     with open(filename) as f:
-        first_line = f.readline()
+        # comment lines may precede the header, whose first column is ObjID
+        lines = f.readlines(100_000)
+    first_line = next((line for line in lines if line.startswith("ObjID")), lines[0] if lines else "")
 
     H_loc = first_line.find("H_")
 
-- 
2.43.0


From c5a58d541832b9eecc795d85b292720018efdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 12/62] fix: compare ephemeris and visit times with an absolute
 tolerance, half a day of mismatch passed

---
 src/sorcha/modules/PPMatchPointingToObservations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPMatchPointingToObservations.py b/src/sorcha/modules/PPMatchPointingToObservations.py
index 347b744..0f1612a 100644
--- a/src/sorcha/modules/PPMatchPointingToObservations.py
+++ b/src/sorcha/modules/PPMatchPointingToObservations.py
@@ -59,7 +59,9 @@ def PPMatchPointingToObservations(padain, pointfildb):
 
     resdf = resdf.dropna(subset=["optFilter"]).reset_index(drop=True)
 
-    chktruemjd = np.isclose(resdf["observationStartMJD_TAI"], resdf["fieldMJD_TAI"])
+    # the ephemeris time may be the start or the middle of the exposure, hence the tolerance of 0.01 days.
+    # (a relative tolerance would let half a day pass)
+    chktruemjd = np.isclose(resdf["observationStartMJD_TAI"], resdf["fieldMJD_TAI"], rtol=0, atol=0.01)
 
     if not chktruemjd.all():
         logging.error(
-- 
2.43.0


From a6f833bfd6d5a79d4cd6c4fcfd0bd4a22aa20a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 13/62] fix: DES discovery finds any triplet within the window,
 not only the first candidate

---
 src/sorcha/modules/DESDiscoveryFilter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..f14695b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -154,14 +152,10 @@ def compute_triplet(times, thresh):
 
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 2b65d76f90f73f580f483f4f67e475f351e9db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 14/62] fix: the built-in DES footprint is in degrees, convert
 it to radians

---
 src/sorcha/modules/PPFootprintFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..c32043f 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -561,6 +561,9 @@ class Footprint:
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
                 logger.info(f"Using built-in CCD Detector file: {default_camera_config_file}")
                 allcornersdf = pd.read_csv(stream)
+                if surveyname.lower() == "des":
+                    # the corners in this file are in degrees
+                    allcornersdf[["x", "y"]] = np.radians(allcornersdf[["x", "y"]])
             except IOError:
                 logger.error(f"Error loading default camera footprint, exiting ...")
                 sys.exit(1)
-- 
2.43.0


From 7566044447a9896fc4f610248fa68d5762054a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 15/62] fix: report the identifier of the detector given in the
 footprint file, not its position in the file

---
 src/sorcha/modules/PPFootprintFilter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index c32043f..3416494 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -674,7 +674,7 @@ class Footprint:
             Indices of rows in field_df which fall on the sensor(s).
 
         detectorID : array
-            Index corresponding to a detector in self.detectors for each entry in detected.
+            Identifier of the detector (as in the footprint file) for each entry in detected.
 
         """
 
@@ -699,12 +699,9 @@ class Footprint:
         # check whether they land on any of the detectors
         detected = []
         detectorId = []
-        i = 0
         for detector in self.detectors:
             stuff = detector.ison(points, edge_thresh=edge_thresh)
             detected.append(stuff)
-            # detectorId.append([detector.ID] * len(stuff))
-            detectorId.append([i] * len(stuff))
-            i += 1
+            detectorId.append([detector.ID] * len(stuff))
 
         return np.concatenate(detected), np.concatenate(detectorId)
-- 
2.43.0


From 317426c1dbc7378ccfb47b670a50cee85103ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 16/62] fix: positions on the opposite side of the sky do not
 land on the camera

---
 src/sorcha/modules/PPFootprintFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index 3416494..10854b5 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -129,7 +129,9 @@ def radec_to_tangent_plane(ra, dec, field_ra, field_dec):
     focaly /= np.linalg.norm(focaly, axis=0)
 
     # extend observation vectors to plane tangent to field pointings
-    k = 1.0 / np.sum(field_vectors * observation_vectors, axis=0)
+    # (points on the other side of the sky have no projection)
+    cos_separation = np.sum(field_vectors * observation_vectors, axis=0)
+    k = 1.0 / np.where(cos_separation > 0.0, cos_separation, np.nan)
     observation_vectors *= k
     observation_vectors -= field_vectors
 
-- 
2.43.0


From 03cf7072052344b4f4f3534257151a070776aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 17/62] fix: unwrap RA about the field centre in the per-visit
 footprint, at any declination and with external ephemerides

---
 src/sorcha/modules/PPApplyFOVFilter.py        |  1 -
 src/sorcha/modules/PPVisitsFootprintFilter.py | 25 ++++---------------
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..3f85f4b 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -61,7 +61,6 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
             observations,
             sconfigs.fov.visits_query,
             visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
         )
 
         observations = observations.iloc[onSensor].copy()
diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..585e3ac 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -13,7 +13,6 @@ def PPVisitsFootprint(
     field_df,
     query,
     visits_filename,
-    ephermers_buffer=1.5,
     ra_name="RA_deg",
     dec_name="Dec_deg",
     fieldId="FieldID",
@@ -35,8 +34,6 @@ def PPVisitsFootprint(
         Path to SQLite database containing footprint data.
     ra_name, dec_name, fieldId : str
         Column names in field_df for RA, Dec, and field ID respectively.
-    ephermers_buffer : float
-        accounts for ar wraping RA points around 0-360, while yhe camera footprint doesnt to avoid the need to create complex shapes
     ccd_num : int
         number of ccds to check
     plot : boolen
@@ -69,23 +66,11 @@ def PPVisitsFootprint(
                 list(zip(points_df[ra_name], points_df[dec_name]))
             )  # number list of ra and of objects
 
-            # ephermides wraps points around 0-360. however the ccd ra and decs supplied dont wrap around this point for a given camera footprint to reduce the complexity of creating shapes.
-            # therefore to solve this priblem we use the radius from the ar simulations to decide if an object on-sky postion needs to be unwraped for a given camera footprint
-
-            # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
-            if ephermers_buffer < 180:
-
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
-                    points_query[
-                        points_query[:, 0] < 180, 0
-                    ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
-                    points_query[points_query[:, 0] > 180, 0] -= 360
-            else:
-                logger.warning(
-                    "Ephemides buffer is too big to account for wrap around. Your footprint will be inaccurate"
-                )
-                # this might casue issues with objects of massive ephermides (greater than 180). Maybe warn the user of the super extreme case?
+            # ephemerides wrap RA around 0-360, but the ccd corners of a given camera footprint don't.
+            # so bring the points to within half a turn of the field centre, in the same relative coordinates as the footprint
+            ra_offset = points_query[:, 0] - points_df["fieldRA_deg"].to_numpy()
+            points_query[ra_offset < -180, 0] += 360
+            points_query[ra_offset > 180, 0] -= 360
 
             # Kd tree using corners and centres of ccds
 
-- 
2.43.0


From 50342d92b94d525cd8851e8416d58199afd52822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 18/62] fix: check all detectors of the visit, whatever their
 shape and whichever other objects are there

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index 585e3ac..2d27fa8 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -16,7 +16,7 @@ def PPVisitsFootprint(
     ra_name="RA_deg",
     dec_name="Dec_deg",
     fieldId="FieldID",
-    ccd_num=3,
+    ccd_num=None,
     plot=False,
 ):
     """
@@ -34,8 +34,8 @@ def PPVisitsFootprint(
         Path to SQLite database containing footprint data.
     ra_name, dec_name, fieldId : str
         Column names in field_df for RA, Dec, and field ID respectively.
-    ccd_num : int
-        number of ccds to check
+    ccd_num : int, optional
+        number of ccd corners and centres closest to each point whose ccds are checked. By default all ccds are checked.
     plot : boolen
         used to turning on plotting for debugging
     Returns
@@ -92,14 +92,14 @@ def PPVisitsFootprint(
             # Build KDTree with all points
             ccd_tree = cKDTree(all_ccd_points)
 
-            if len(rows) > 1:
+            if len(rows) > 1 and ccd_num is not None:
                 k = min(ccd_num, len(all_ccd_points))
                 _, closest_point_indices = ccd_tree.query(points_query, k=k)
 
                 # Map back to unique ccd indices
                 unique_ccd_indices = set(point_to_ccd_map[i] for i in closest_point_indices.flatten())
             else:
-                unique_ccd_indices = {0}
+                unique_ccd_indices = range(len(rows))
 
             polygons = []
             detectors = []
-- 
2.43.0


From 1d9fe7f62d2f704a0c10db6e59e50936dd955146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 19/62] fix: select detections by position, not by row label,
 in the field-of-view filters

---
 src/sorcha/modules/PPApplyFOVFilter.py        | 2 +-
 src/sorcha/modules/PPVisitsFootprintFilter.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 3f85f4b..d6c0d94 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -183,7 +183,7 @@ def PPSimpleSensorArea(ephemsdf, module_rngs, fillfactor=0.9):
     fillArray = np.zeros(n) + fillfactor
     dropObs = np.where(randomNum > fillArray)[0]
 
-    ephemsOut = ephemsdf.drop(dropObs)
+    ephemsOut = ephemsdf.drop(ephemsdf.index[dropObs])
     ephemsOut = ephemsOut.reset_index(drop=True)
 
     return ephemsOut
diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index 2d27fa8..db58d72 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -45,6 +45,7 @@ def PPVisitsFootprint(
     detector_id_list : list
         List of detector IDs corresponding to each detected object.
     """
+    field_df = field_df.reset_index(drop=True)  # detections are reported by position
     detected_indices = set()
     detector_for_index = {}
     lim_mag_list = {}
-- 
2.43.0


From e2e2c3ae1456129da2ab84816ff54590c6eb4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 20/62] fix: apply a circle radius or fill factor of zero

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index d6c0d94..8e6521f 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -70,10 +70,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 178cf00fae1f5fc1f39e47224c3f94a47758c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 21/62] fix: use the phase parameters of the filter also when a
 single filter is observed

---
 src/sorcha/modules/PPCalculateApparentMagnitude.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sorcha/modules/PPCalculateApparentMagnitude.py b/src/sorcha/modules/PPCalculateApparentMagnitude.py
index 2353200..bd22e9b 100644
--- a/src/sorcha/modules/PPCalculateApparentMagnitude.py
+++ b/src/sorcha/modules/PPCalculateApparentMagnitude.py
@@ -72,15 +72,11 @@ def PPCalculateApparentMagnitude(
     verboselog = pplogger.info if verbose else lambda *a, **k: None
 
     # apply correct colour offset to get H magnitude in observation filter
-    # if user is only interested in one filter, we have no colour offsets to apply: assume H is in that filter
-    if len(observing_filters) > 1:
-        verboselog("Selecting and applying correct colour offset...")
-
-        observations = PPApplyColourOffsets(
-            observations, phasefunction, othercolours, observing_filters, mainfilter
-        )
-    else:
-        observations["H_filter"] = observations["H_" + mainfilter].copy()
+    # with a single filter the offset is zero, but its phase curve parameters may still be given for that filter
+    verboselog("Selecting and applying correct colour offset...")
+    observations = PPApplyColourOffsets(
+        observations, phasefunction, othercolours, observing_filters, mainfilter
+    )
 
     # calculate main body apparent magnitude in observation filter
     verboselog("Calculating apparent magnitude in filter...")
-- 
2.43.0


From 78e8e6a1e68e56c8d57a8eb1e4309cf83a162f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 22/62] fix: round to zero decimals when that is configured

---
 src/sorcha/modules/PPOutput.py        | 4 ++--
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 2f1e450..6d71528 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -213,7 +213,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -230,7 +230,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..e82c0ce 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1727,7 +1727,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1735,7 +1735,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From f38b9b3ccc434d63ebc3dfdb84f3d73f0757bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 23/62] fix: index only the columns the SQLite output has

---
 src/sorcha/modules/PPOutput.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 6d71528..94ab9a5 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -134,9 +134,11 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    # the output does not have to hold all of these columns
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename))]
+    for column in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if column in columns:
+            cur.execute("CREATE INDEX {} ON {} ({})".format(column, tablename, column))
     cnx.commit()
 
 
-- 
2.43.0


From b05cf394579b4a4c37b98d616b0d5242348515a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 24/62] fix: basic output for surveys without uncertainties

---
 src/sorcha/modules/PPOutput.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 94ab9a5..4aca35e 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -178,7 +178,8 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
     )
 
     if sconfigs.output.output_columns == "basic":
-        observations = observations_in.copy()[
+        # surveys without uncertainties do not have all of these
+        observations = observations_in.copy().filter(
             [
                 "ObjID",
                 "fieldMJD_TAI",
@@ -196,7 +197,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "RangeRate_LTC_km_s",
                 "Obj_Sun_LTC_km",
             ]
-        ]
+        )
 
         # if linking is on and unlinked objects are NOT dropped, add the object_linked column to the output
         if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
-- 
2.43.0


From d8ead73ae9a884a35fe60a111621cf5db24e7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 25/62] fix: write HDF5 output also when ObjID is not among the
 output columns

---
 src/sorcha/modules/PPOutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 4aca35e..c742648 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -61,7 +61,8 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
-    pp_results = pp_results.astype({"ObjID": str})
+    if "ObjID" in pp_results.columns:
+        pp_results = pp_results.astype({"ObjID": str})
 
     # this suppresses a warning when ObjIDs begin with a number
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
-- 
2.43.0


From f7fc4d236fd638761bd554fa63af0cef75482700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 26/62] fix: apply fractional colours to whole-number absolute
 magnitudes

---
 src/sorcha/modules/PPApplyColourOffsets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 2d87a94..b469a0c 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -60,6 +60,8 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
 
     # first apply the correct colour offset to H for every observation
     try:
+        # H may have been read as integers, the offsets are not
+        observations[H_col] = observations[H_col].astype(float)
         unique_opt_filters = observations["optFilter"].unique()
         for filter in unique_opt_filters:
             mask = observations["optFilter"] == filter
-- 
2.43.0


From 8f9286d12f6bf3c72e48dda83a61d9f8c78b4644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 27/62] fix: check-logs checks the file it writes, with the
 .csv ending, for existence

---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From 880e77a0fa59a433c229a73527bcb95e4c17ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 28/62] fix: with -f remove all existing outputs of the run,
 and nothing that only matches as a shell pattern

---
 src/sorcha/utilities/sorchaCommandLineParser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..182353e 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -16,7 +16,7 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     Parameters
     ----------
     filepath : string
-        The full file path to a given file. i.e. /home/data/output.csv
+        The full file path to a given file, i.e. /home/data/output.csv, or a glob pattern for the file(s).
     force_remove : boolean
         Whether to remove the file if it exists.
     pplogger : Logger
@@ -26,7 +26,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for existing_file in file_exists:
+            os.remove(existing_file)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
@@ -85,7 +86,7 @@ def sorchaCommandLineParser(args):
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"])) + ".*",
             args.f,
             pplogger,
         )
@@ -97,7 +98,9 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"])) + ".csv",
+            args.f,
+            pplogger,
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -105,7 +108,9 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"])) + ".*",
+        args.f,
+        pplogger,
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From 76a067c237aba2677f4156f96dcc115f45aa2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 29/62] fix: refuse a run whose outputs would be written to the
 same file

---
 .../utilities/sorchaCommandLineParser.py      | 33 +++++++++++++++++++
 src/sorcha_cmdline/run.py                     |  2 ++
 2 files changed, 35 insertions(+)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 182353e..d2a49f7 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -118,3 +118,36 @@ def sorchaCommandLineParser(args):
         pplogger.info(f"Using commandline setting {flag} = {value}")
 
     return cmd_args_dict
+
+
+def check_output_names(cmd_args, sconfigs):
+    """
+    Checks that the detections, the statistics and the ephemerides of a run are not to be written to the
+    same file, and exits if they are.
+
+    Parameters
+    -----------
+    cmd_args : dictionary
+        dictionary of variables taken from command line arguments
+
+    sconfigs: dataclass
+        Dataclass of configuration file arguments.
+
+    Returns
+    ----------
+    None.
+
+    """
+
+    suffixes = {"csv": ".csv", "whitespace": ".csv", "sqlite3": ".db", "hdf5": ".h5"}
+
+    outputs = [cmd_args["outfilestem"] + suffixes[sconfigs.output.output_format]]
+    if cmd_args["stats"] is not None:
+        outputs.append(cmd_args["stats"] + ".csv")
+    if cmd_args["output_ephemeris_file"] and sconfigs.input.ephemerides_type == "ar":
+        outputs.append(cmd_args["output_ephemeris_file"] + suffixes[sconfigs.input.eph_format])
+
+    if len(set(os.path.normpath(output) for output in outputs)) < len(outputs):
+        pplogger = logging.getLogger(__name__)
+        pplogger.error("ERROR: -t/--stem, --st/--stats and --ew/--ephem-write name the same output file.")
+        sys.exit("ERROR: -t/--stem, --st/--stats and --ew/--ephem-write name the same output file.")
diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..6ae9151 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -154,6 +154,7 @@ def execute(args):
         update_lc_subclasses,
     )
     from sorcha.des import runDESSimulation
+    from sorcha.utilities.sorchaCommandLineParser import check_output_names
     import sys, os
 
     # Extract the output file path now in order to set up logging.
@@ -171,6 +172,7 @@ def execute(args):
     pplogger.info("Reading configuration file...")
     sconfigs = sorchaConfigs(cmd_args["configfile"], cmd_args["surveyname"])
     pplogger.info("Configuration file read.")
+    check_output_names(cmd_args, sconfigs)
 
     if sconfigs.input.ephemerides_type == "external" and cmd_args["input_ephemeris_file"] is None:
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
-- 
2.43.0


From 2ae8691f1b81e89712e72feb01718396b22ab770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 30/62] fix: no statistics rows for filters without detections

---
 src/sorcha/modules/PPStats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPStats.py b/src/sorcha/modules/PPStats.py
index a1efbde..f27d3dd 100644
--- a/src/sorcha/modules/PPStats.py
+++ b/src/sorcha/modules/PPStats.py
@@ -33,7 +33,7 @@ def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
 
     statsfilepath = os.path.join(outpath, statsfilename + ".csv")
 
-    group_by = observations.groupby(["ObjID", "optFilter"], observed=False)
+    group_by = observations.groupby(["ObjID", "optFilter"], observed=True)
 
     mag = (
         group_by["trailedSourceMag"]
-- 
2.43.0


From 370950a0078278075e2abca30017a4d581a89c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 31/62] fix: report the refusal of unsupported DES settings
 instead of crashing in the logger

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index e82c0ce..109c3a9 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -941,7 +941,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -953,7 +953,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From 5535798171f9bd87de3d60afe13b668ecc794618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 32/62] fix: refuse nan as value of a number in the
 configuration file, it passed all range checks

---
 src/sorcha/utilities/sorchaConfigs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 109c3a9..d706543 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -253,6 +253,8 @@ class saturationConfigs:
             if isinstance(self.bright_limit, str):
                 try:
                     self.bright_limit = [float(e.strip()) for e in self.bright_limit.split(",")]
+                    if any(np.isnan(self.bright_limit)):
+                        raise ValueError("not a number")
                 except ValueError:
                     logging.error("ERROR: could not parse brightness limits. Check formatting and try again.")
                     sys.exit("ERROR: could not parse brightness limits. Check formatting and try again.")
@@ -1397,7 +1399,8 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        if np.isnan(float(value)):
+            raise ValueError("not a number")
     except ValueError:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
-- 
2.43.0


From 176431dd07794e7a1db67305403ceb77c1cf0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 33/62] fix: refuse out-of-range chunk sizes, ephemeris
 settings and DES efficiencies

---
 src/sorcha/utilities/sorchaConfigs.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index d706543..0778a12 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
@@ -115,6 +118,17 @@ class simulationConfigs:
             self.ar_picket = cast_as_int(self.ar_picket, "ar_picket")
             self.ar_healpix_order = cast_as_int(self.ar_healpix_order, "ar_healpix_order")
             self.ar_n_sub_intervals = cast_as_int(self.ar_n_sub_intervals, "ar_n_sub_intervals")
+
+            for key, in_range in {
+                "ar_ang_fov": 0.0 < self.ar_ang_fov <= 180.0,
+                "ar_fov_buffer": 0.0 <= self.ar_fov_buffer <= 180.0,
+                "ar_picket": self.ar_picket >= 1,
+                "ar_healpix_order": 0 <= self.ar_healpix_order <= 29,
+                "ar_n_sub_intervals": self.ar_n_sub_intervals >= 1,
+            }.items():
+                if not in_range:
+                    logging.error(f"ERROR: {key} is out of bounds.")
+                    sys.exit(f"ERROR: {key} is out of bounds.")
         elif self._ephemerides_type == "external":
             # makes sure when these are not needed that they are not populated
             check_key_doesnt_exist(self.ar_ang_fov, "ar_ang_fov", "but ephemerides type is external")
@@ -487,6 +501,9 @@ class fadingfunctionConfigs:
                 self.des_transient_efficency = cast_as_float(
                     self.des_transient_efficency, "des_transient_efficency"
                 )
+                if self.des_transient_efficency < 0.0 or self.des_transient_efficency > 1.0:
+                    logging.error("ERROR: des_transient_efficency out of bounds. Must be between 0 and 1.")
+                    sys.exit("ERROR: des_transient_efficency out of bounds. Must be between 0 and 1.")
             else:
                 self.des_transient_efficency = 1  # won't impact detection efficency when 1
         check_key_doesnt_exist(
-- 
2.43.0


From fa00742c26ed22195e17bddb5c549e9001befea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 34/62] fix: a configuration with external ephemerides needs no
 SIMULATION section

---
 src/sorcha/utilities/sorchaConfigs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 0778a12..bbcf1cd 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1292,11 +1292,11 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
+            if config_object.has_section(section):
+                if section == "SATURATION":
                     extra_args["_observing_filters"] = self.filters.observing_filters
 
                 if section == "EXPERT":
-- 
2.43.0


From b4e12a153c51f359dafc4979934f511106687763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 35/62] fix: refuse unknown sections and keys of the
 configuration file with an error message

---
 src/sorcha/utilities/sorchaConfigs.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index bbcf1cd..8db546b 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import configparser
 import logging
 import sys
@@ -1278,6 +1278,11 @@ class sorchaConfigs(basesorchaConfigs):
             "EXPERT": expertConfigs,
             "AUXILIARY": auxiliaryConfigs,
         }
+        unknown_sections = [section for section in config_object.sections() if section not in section_list]
+        if unknown_sections:
+            self.pplogger.error(f"ERROR: unrecognised section(s) in config file: {unknown_sections}.")
+            sys.exit(f"ERROR: unrecognised section(s) in config file: {unknown_sections}.")
+
         # when adding new sections in config file this general function needs the name of the section in uppercase
         # to be the same as the attributes defined above in lowercase e.g. section INPUT has attribute input
         # general function that reads in config file sections into there config dataclasses
@@ -1303,6 +1308,15 @@ class sorchaConfigs(basesorchaConfigs):
                     extra_args["camera_model"] = self.fov.camera_model
 
                 section_dict = dict(config_object[section])
+                known_keys = [field.name for field in fields(config_section) if field.name not in extra_args]
+                unknown_keys = [key for key in section_dict if key not in known_keys]
+                if unknown_keys:
+                    self.pplogger.error(
+                        f"ERROR: unrecognised key(s) in section {section} of config file: {unknown_keys}."
+                    )
+                    sys.exit(
+                        f"ERROR: unrecognised key(s) in section {section} of config file: {unknown_keys}."
+                    )
                 config_instance = config_section(**section_dict, **extra_args)
 
             else:
-- 
2.43.0


From d28182608527af3e8ee4e802f56b7271e6356fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 36/62] fix: exit with an error message when the configuration
 file cannot be parsed

---
 src/sorcha/utilities/sorchaConfigs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 8db546b..937a2d8 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1242,10 +1242,14 @@ class sorchaConfigs(basesorchaConfigs):
                 logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
 
             config_object = configparser.ConfigParser()  # create a ConfigParser object
-            config_object.read(config_file_location)  # and read the whole config file into it
-            self._read_configs_from_object(
-                config_object
-            )  # now we call a function that populates the class attributes
+            try:
+                config_object.read(config_file_location)  # and read the whole config file into it
+                self._read_configs_from_object(
+                    config_object
+                )  # now we call a function that populates the class attributes
+            except configparser.Error as err:
+                self.pplogger.error(f"ERROR: could not parse config file {config_file_location}: {err}")
+                sys.exit(f"ERROR: could not parse config file {config_file_location}: {err}")
 
     def _read_configs_from_object(self, config_object):
         """
-- 
2.43.0


From 090d16fe4cfea59d93cdb9d8143c74ba5d4a1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 37/62] fix: do not download the default auxiliary file under
 the name of another one

---
 src/sorcha/utilities/sorchaConfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 937a2d8..5800b8a 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1088,8 +1088,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
-- 
2.43.0


From a4a2f5e007f8609702b471661ace9b2345ae8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 38/62] fix: the shipped DES configuration could not be read

---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From b656224513976a8b756f56f6361812450ae84faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 39/62] fix: name of the magnitude limit in the documentation

---
 docs/advanced.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/advanced.rst b/docs/advanced.rst
index d3fdde7..6e51bf1 100644
--- a/docs/advanced.rst
+++ b/docs/advanced.rst
@@ -103,7 +103,7 @@ The SNR filter which will remove synthetic observations that are less than a use
 To implement the magnitude limit (remove detections of objects fainter than 22 mag in all survey observing bands), include the following in the :ref:`configs`::
     
     [EXPERT]
-    magnitude_limit = 22.0
+    mag_limit = 22.0
     
 .. attention::
     Only one of these filters may be implemented at once.
-- 
2.43.0


From a8e9539fd7e3e6b60be58761025ec6afd3287607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 40/62] fix: exit with the error message when the complex
 physical parameters are missing

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 6ae9151..5903866 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -178,11 +178,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From c47cef13ffb50b177d00582f289ca2ae712b2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 41/62] fix: refuse unreadable configuration files, output
 paths that are no directory and seeds that are no integer cleanly; check
 des_discovery_on

---
 src/sorcha/utilities/sorchaConfigs.py | 13 +++++++------
 src/sorcha_cmdline/run.py             | 10 +++++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 5800b8a..178eb97 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -699,7 +699,7 @@ class linkingfilterConfigs:
                 "ERROR: only some ssp linking variables supplied. Supply all five required variables for ssp linking filter, or none to turn filter off."
             )
         self.drop_unlinked = cast_as_bool_or_set_default(self.drop_unlinked, "drop_unlinked", True)
-        if self.des_discovery_on and self.survey_name.lower() == "des":
+        if self.survey_name in ["DES", "des"]:
             self.des_discovery_on = cast_as_bool_or_set_default(
                 self.des_discovery_on, "des_discovery_on", False
             )
@@ -1237,17 +1237,18 @@ class sorchaConfigs(basesorchaConfigs):
         self.survey_name = survey_name
 
         if config_file_location:  # if a location to a config file is supplied...
-            # Save a raw copy of the configuration to the logs as a backup.
-            with open(config_file_location, "r") as file:
-                logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
-
             config_object = configparser.ConfigParser()  # create a ConfigParser object
             try:
+                # Save a raw copy of the configuration to the logs as a backup.
+                with open(config_file_location, "r") as file:
+                    logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
+
                 config_object.read(config_file_location)  # and read the whole config file into it
+
                 self._read_configs_from_object(
                     config_object
                 )  # now we call a function that populates the class attributes
-            except configparser.Error as err:
+            except (OSError, UnicodeDecodeError, configparser.Error) as err:
                 self.pplogger.error(f"ERROR: could not parse config file {config_file_location}: {err}")
                 sys.exit(f"ERROR: could not parse config file {config_file_location}: {err}")
 
diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 5903866..874b637 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -144,7 +144,6 @@ def execute(args):
     #       is poor user experience.
     #
     from sorcha.sorcha import (
-        FindFileOrExit,
         sorchaGetLogger,
         sorchaCommandLineParser,
         runLSSTSimulation,
@@ -154,11 +153,12 @@ def execute(args):
         update_lc_subclasses,
     )
     from sorcha.des import runDESSimulation
+    from sorcha.utilities.fileAccessUtils import FindDirectoryOrExit
     from sorcha.utilities.sorchaCommandLineParser import check_output_names
     import sys, os
 
     # Extract the output file path now in order to set up logging.
-    outpath = FindFileOrExit(args.o, "-o, --outfile")
+    outpath = FindDirectoryOrExit(args.o, "-o, --outfile")
     pplogger = sorchaGetLogger(outpath, args.t)
     pplogger.info("Sorcha Start (Main)")
     pplogger.info(f"Command line: {' '.join(sys.argv)}")
@@ -186,7 +186,11 @@ def execute(args):
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-        cmd_args["seed"] = int(os.environ["SORCHA_SEED"])
+        try:
+            cmd_args["seed"] = int(os.environ["SORCHA_SEED"])
+        except ValueError:
+            pplogger.error("ERROR: environmental variable SORCHA_SEED is not an integer")
+            sys.exit("ERROR: environmental variable SORCHA_SEED is not an integer")
         pplogger.info(f"Random seed overridden via environmental variable, SORCHA_SEED={cmd_args['seed']}")
     if sconfigs.fov.camera_model != "visits_footprint" and cmd_args["visits_database"] is not None:
         pplogger.error(
-- 
2.43.0


From c5392ebf598d4074d7afe44d5cafdc003d8b7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 42/62] fix: refuse an SNR limit for DES, for which no signal
 to noise ratio is calculated

---
 src/sorcha/utilities/sorchaConfigs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 178eb97..ebb796b 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -959,6 +959,11 @@ class expertConfigs:
             self.trailing_losses_on = cast_as_bool_or_set_default(
                 self.trailing_losses_on, "trailing_losses_on", False
             )
+            if self.snr_limit_on:
+                # no uncertainties, and therefore no signal to noise ratios, are calculated for DES
+                logging.error("ERROR: DES simulation does not support an SNR limit.")
+                sys.exit("ERROR: DES simulation does not support an SNR limit.")
+
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
                 logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
-- 
2.43.0


From c75dae9ce394adb52b98b1bf2d5b169d41a4f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 43/62] fix: faint-object culling with filters that are never
 used and with the identity models; identity activity model as it is called

---
 src/sorcha/activity/base_activity.py          |  2 +-
 src/sorcha/activity/identity_activity.py      | 37 +++++++++++++++++--
 src/sorcha/lightcurves/identity_lightcurve.py | 16 ++++++++
 .../modules/PPFaintObjectCullingFilter.py     |  3 +-
 4 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..de0e510 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -57,7 +57,7 @@ class AbstractCometaryActivity(ABC):
         exception : Exception
             The exception with a value string to appended to the error log
         """
-        self._log_error_message(str(exception.value))
+        self._log_error_message(str(exception))
 
     def _log_error_message(self, error_msg: str) -> None:
         """Log a specific error string to the error log file
diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..40a9f8c 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -20,15 +20,22 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
-        """Returns numpy array of 0's with shape equal to the input dataframe
-        time column.
+    def compute(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.DataFrame:
+        """Returns the input dataframe, unchanged.
 
         Parameters
         ----------
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
 
+        observing_filters : list of str, optional
+            The photometric filters of the observations (not used).
+
+        rho, delta, alpha : array-like, optional
+            Heliocentric distance, distance to Earth and phase angle (not used).
+
         Returns
         -------
         pd.DataFrame
@@ -39,6 +46,30 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
 
         return df
 
+    def maxBrightness(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.Series:
+        """Returns the brightest magnitude of each object: the one without activity.
+
+        Parameters
+        ----------
+        df : pd.DataFrame
+            Dataframe with the magnitude without activity in the column trailedSourceMagTrue.
+
+        observing_filters : list of str, optional
+            The photometric filters of the observations (not used).
+
+        rho, delta, alpha : array-like, optional
+            Heliocentric distance, distance to Earth and phase angle (not used).
+
+        Returns
+        -------
+        pd.Series
+            The magnitudes, unchanged.
+        """
+
+        return df["trailedSourceMagTrue"]
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this cometary activity method. It
diff --git a/src/sorcha/lightcurves/identity_lightcurve.py b/src/sorcha/lightcurves/identity_lightcurve.py
index ecd9be5..8a1f013 100644
--- a/src/sorcha/lightcurves/identity_lightcurve.py
+++ b/src/sorcha/lightcurves/identity_lightcurve.py
@@ -40,6 +40,22 @@ class IdentityLightCurve(AbstractLightCurve):
 
         return np.zeros_like(df["fieldMJD_TAI"])
 
+    def maxBrightness(self, df: pd.DataFrame) -> np.array:
+        """Returns the largest brightening by the lightcurve: none.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            Dataframe of orbits and physical parameters, one row per object.
+
+        Returns
+        -------
+        np.array
+            Numpy array of 0's, one per object.
+        """
+
+        return np.zeros(len(df))
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this light curve method. It must be
diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..f8f7f31 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,8 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        # (and nothing is detected in a filter that is never used)
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From 46c11b4e527bc0d7d1ca8d398140bf572310d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 44/62] fix: refuse an empty ephemeris file name like a missing
 one

---
 src/sorcha_cmdline/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 874b637..8bcc17a 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -174,7 +174,7 @@ def execute(args):
     pplogger.info("Configuration file read.")
     check_output_names(cmd_args, sconfigs)
 
-    if sconfigs.input.ephemerides_type == "external" and cmd_args["input_ephemeris_file"] is None:
+    if sconfigs.input.ephemerides_type == "external" and not cmd_args["input_ephemeris_file"]:
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-- 
2.43.0


From 782eb18e263e8226ccf60da38841f50ff7dd2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 45/62] fix: faint object culling added a column to the objects
 it keeps

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index f8f7f31..20f1e1f 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -49,11 +49,13 @@ def PPFaintObjectCullingFilter(
         filterpointing.groupby("optFilter", observed=True)["fieldFiveSigmaDepth_mag"].max().to_dict()
     )
 
-    if "q" not in aux_df.columns:
-        aux_df["q"] = PPEstimatePerihelion(aux_df)
+    # the perihelion is only used here: objects are passed on without an additional column
+    candidates = aux_df.copy()
+    if "q" not in candidates.columns:
+        candidates["q"] = PPEstimatePerihelion(aux_df)
 
     # this only works if object perihelion
-    aux_df_dropped = aux_df[aux_df["q"] >= 2]
+    aux_df_dropped = candidates[candidates["q"] >= 2]
     q = aux_df_dropped["q"]
 
     # rough estimation of object's distance from Earth
-- 
2.43.0


From a835d6f7d6c9ccd65909986bcadc531e118988e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 46/62] fix: states of objects approaching perihelion on orbits
 of very long period were wrong

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..988c549 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,9 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        # time from the closest perihelion passage, before or after it: counting from the previous one
+        # would lose all precision on the inbound leg of orbits with very long periods
+        t = t - per * np.round(t / per)
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From 250c5a0d776fd1ad05c739e983215ad87a2d30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 47/62] fix: cometary elements from states: wrong orientation
 or anomaly in special positions, polar and near-parabolic orbits

---
 .../ephemeris/orbit_conversion_utilities.py   | 54 ++++++-------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 988c549..61c7356 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -416,17 +416,16 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     r = np.linalg.norm(pos)
 
-    v2 = np.dot(vel, vel)
-
     rdotv = np.dot(pos, vel)
     rdot = rdotv / r
 
     p = hs / mu
-    alpha = 2 * mu / r - v2
 
-    incl = np.arccos(h_vec[2] / h)
+    # h sin(incl), which unlike an arccos keeps the precision of small inclinations
+    h_xy = np.sqrt(h_vec[0] * h_vec[0] + h_vec[1] * h_vec[1])
+    incl = np.arctan2(h_xy, h_vec[2])
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -437,7 +436,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -447,42 +446,23 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     # u is the argument of latitude
     rcosu = pos[0] * cosnode + pos[1] * sinnode
-    rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
+    rsinu = (pos[1] * cosnode - pos[0] * sinnode) * h_vec[2] / h + pos[2] * h_xy / h
 
-    if rsinu != 0.0 and rcosu != 0.0:
-        u = np.arctan2(rsinu, rcosu)
-    else:
-        u = 0.0
+    u = np.arctan2(rsinu, rcosu)
 
     argperi = u - trueanom
 
-    # There should a better way to handle this.
-
-    # Branch on e at this point, until there's a better solution
-    # Be careful with the e=1 transition.
-    if np.abs(e - 1) < 1e-15:
-        e = 1
-    if e < 1:
-        # elliptical
-        eccanom = 2.0 * np.arctan(np.sqrt((1.0 - e) / (1.0 + e)) * np.tan(trueanom / 2.0))
-        meananom = eccanom - e * np.sin(eccanom)
-        meananom = principal_value(meananom)
-        a = mu / alpha
-        mm = np.sqrt(mu / (a * a * a))
-        tp = epochMJD_TDB - meananom / mm
-    elif e == 1:
-        # parabolic
-        tf = np.tan(0.5 * trueanom)
-        B = 0.5 * (tf * tf * tf + 3 * tf)
-        mm = np.sqrt(mu / (p * p * p))
-        tp = epochMJD_TDB - B / (3 * mm)
+    # The time since perihelion from the universal Kepler equation, which holds for all e.
+    # For e < 1 this is the time from the closest perihelion passage.
+    alpha = mu * (1 - e) / q
+    tanhalf = np.tan(0.5 * trueanom) * np.sqrt(q / (mu * (1 + e)))
+    if alpha > 0:
+        s = 2.0 * np.arctan(np.sqrt(alpha) * tanhalf) / np.sqrt(alpha)
+    elif alpha < 0:
+        s = 2.0 * np.arctanh(np.sqrt(-alpha) * tanhalf) / np.sqrt(-alpha)
     else:
-        # hyperbolic
-        heccanom = 2.0 * np.arctanh(np.sqrt((e - 1.0) / (e + 1.0)) * np.tan(trueanom / 2.0))
-        N = e * np.sinh(heccanom) - heccanom
-        a = mu / alpha
-        mm = np.sqrt(-mu / (a * a * a))
-        tp = epochMJD_TDB - N / mm
+        s = 2.0 * tanhalf
+    tp = epochMJD_TDB - root_function(s, mu, alpha, q, 0.0, 0.0)[0]
 
     return q, e, incl, longnode, argperi, tp
 
-- 
2.43.0


From bf5113106c7048d794ec09ad1bf133001d43e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 48/62] fix: shift the pickets in the direction of the
 requested time

A visit 0.5 to 1 picket intervals before the central picket shifted the pickets
later instead of earlier, so that the interpolation extrapolated away from the
visit and objects in its field were missed.
---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index cb1a8b3..406f019 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From 748e7a56190c73075d119b4287da0d758865052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 49/62] fix: index objects under the pixels they traverse too

Only the neighbours of the traversed pixels were registered. An object that stays
within one pixel between the pickets was not found in that pixel, so a field
overlapping no neighbour of it (large pixels) missed it.
---
 src/sorcha/ephemeris/pixel_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 406f019..ecc90a0 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -280,8 +280,9 @@ class PixelDict:
             pixels = hp.vec2pix(self.nside, vec[:, 0], vec[:, 1], vec[:, 2], nest=self.nested)
             pixels = list(set(pixels))
 
-            # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            # Add the neighboring pixels (some pixels have only seven neighbors: the missing one is -1)
+            pixels = set(pixels).union(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            pixels.discard(-1)
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 71fb3471100f2484db79ee64f89490cf1914c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 50/62] fix: look up the pixels of the buffer region too

The pixel lookup used the field radius without the buffer, so objects in the
buffer region were missed when the pixels are small compared with the buffer.
---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index ba0d2e4..2f3e0d4 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -187,7 +187,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         # compute a new set
 
         desigs = pixdict.get_designations(
-            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov
+            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov_buffer
         )
         unit_vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
         visit_vector = get_vec(pointing, "visit_vector")
-- 
2.43.0


From 54d46f7b2893642c115597410139efe015e78a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 51/62] fix: keep objects exactly at the centre of the field

Rounding can make the dot product of two equal unit vectors slightly larger than
one; its arccos is NaN and the object was dropped.
---
 src/sorcha/ephemeris/simulation_driver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 2f3e0d4..76b4807 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -201,7 +201,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1, 1)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -212,7 +212,9 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                ang_from_center = (
+                    180 / np.pi * np.arccos(np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1, 1))
+                )
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
-- 
2.43.0


From 7cd985140e5c59d2971df70979d0bbcb82a1b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 52/62] fix: observatories with a zero coordinate have a
 position

A longitude, sine or cosine of exactly zero (Greenwich, the geocentre) was taken
for a missing one and runs with these observatories crashed.
---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..898c9cf 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -338,11 +338,7 @@ class Observatory:
                 Geocentric position (x,y,z)
         """
         returned_tuple = (None, None, None)
-        if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
-        ):
+        if all(obs_location.get(key) is not None for key in ("Longitude", "cos", "sin")):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
             y = obs_location["cos"] * np.sin(longitude)
-- 
2.43.0


From 3c80e6313a2797050639581f687f962a6b595e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 53/62] fix: ephemeris rows without numbers at the poles and at
 opposition

Rounding can make the cosine of the phase angle or the sine of the declination
slightly larger than one, which gave NaN; at the poles the rates were divided by
zero; and a tiny negative right ascension was given as 360.
---
 src/sorcha/ephemeris/simulation_driver.py   | 13 +++++++------
 src/sorcha/ephemeris/simulation_geometry.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 76b4807..0e47de3 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -262,9 +262,11 @@ def get_residual_vectors(v1):
         D vector
     """
     x, y, z = v1
-    cosd = np.sqrt(1 - z * z)
-    A = np.array((-y, x, 0.0)) / cosd
-    D = np.array((-z * x / cosd, -z * y / cosd, cosd))
+    cosd = np.hypot(x, y)
+    # at the poles, where all directions are possible, RA is taken as zero
+    cosra, sinra = (x / cosd, y / cosd) if cosd > 0 else (1.0, 0.0)
+    A = np.array((-sinra, cosra, 0.0))
+    D = np.array((-z * cosra, -z * sinra, cosd))
     return A, D
 
 
@@ -303,9 +305,8 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     r_ast_sun = ephem_geom_params.r_ast - r_sun
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
-    phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
-    )
+    cos_phase = np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+    phase_angle = np.arccos(np.clip(cos_phase, -1, 1))
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
 
diff --git a/src/sorcha/ephemeris/simulation_geometry.py b/src/sorcha/ephemeris/simulation_geometry.py
index 1e21c6e..5d10154 100644
--- a/src/sorcha/ephemeris/simulation_geometry.py
+++ b/src/sorcha/ephemeris/simulation_geometry.py
@@ -160,8 +160,8 @@ def vec2ra_dec(vec):
     x = vec[0]
     y = vec[1]
     z = vec[2]
-    ra = radeg * np.arctan2(y, x) % 360
-    dec = radeg * np.arcsin(z)
+    ra = radeg * np.arctan2(y, x) % 360 % 360  # twice, as a tiny negative angle gives 360 the first time
+    dec = radeg * np.arcsin(np.clip(z, -1, 1))
     return ra, dec
 
 
-- 
2.43.0


From b1cc116286997078166f77d28874b42906d142e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 54/62] fix: log checker fails on empty logs and on logs cut
 within a character

---
 src/sorcha/utilities/check_output_logs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..b6b5935 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -51,9 +51,10 @@ def check_all_logs(log_files):
     last_lines = []
 
     for log_file in log_files:
-        with open(log_file, "r") as f:
+        # the log of an interrupted run can be empty, or end in the middle of a character
+        with open(log_file, "r", errors="replace") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From cafb8ffb450341f7c76e517830ecb81917273c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 55/62] fix: results database collates itself and fails on runs
 without results or directories with special names

---
 .../utilities/createResultsSQLDatabase.py     | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..2b39ccd 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,10 +42,15 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(
+        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
+    )
 
-    if filename in output_list:
-        output_list.remove(filename)
+    if os.path.exists(filename):
+        output_list = [output for output in output_list if not os.path.samefile(output, filename)]
+
+    # a run without any results leaves a database without a table
+    output_list = [output for output in output_list if has_table(output)]
 
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
@@ -104,7 +109,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(os.path.join(glob.escape(input_path), table_type + "*"))
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
@@ -146,7 +151,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
@@ -155,6 +160,32 @@ def create_results_database(args):
         create_inputs_table(cnx_out, args.inputs, "complex")
 
 
+def has_table(filename, table_name="sorcha_results"):
+    """
+    Checks whether a SQLite database has a table of the given name.
+
+    Parameters
+    -----------
+    filename : string
+        Filepath/name of sqlite3 database.
+
+    table_name : string, optional
+        Name of table. Default = "sorcha_results"
+
+    Returns
+    -----------
+    found (bool): whether the table exists.
+
+    """
+
+    con = sqlite3.connect(filename)
+    found = con.execute("SELECT 1 FROM sqlite_master WHERE type = 'table' AND name = ?", (table_name,))
+    found = found.fetchone() is not None
+    con.close()
+
+    return found
+
+
 def get_column_names(filename, table_name="sorcha_results"):
     """
     Obtains column names from a table in a SQLite database.
-- 
2.43.0


From 524d701419589ffb65f456fb52472444c9b4ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 56/62] fix: results with different columns are collated into
 the wrong columns

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 2b39ccd..162b641 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -55,7 +55,10 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
 
-    column_names = get_column_names(output_list[0])
+    # the runs do not need to have the same columns, or to have them in the same order
+    column_names = list(
+        dict.fromkeys(column for output in output_list for column in get_column_names(output))
+    )
 
     cur_out = cnx_out.cursor()
     cur_out.execute("DROP TABLE if exists " + table_name)
@@ -67,10 +70,6 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     cur_out.execute(create_command)
 
-    # building the correct SQL command to add data
-    questions = "(" + (len(column_names) - 1) * "?, " + "?)"
-    sql_command = "INSERT into " + table_name + " VALUES " + questions
-
     for filename in output_list:
         con = sqlite3.connect(filename)
         cur = con.cursor()
@@ -78,6 +77,12 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         cur.execute("SELECT * FROM sorcha_results")
         output = cur.fetchall()
 
+        # building the correct SQL command to add data
+        columns = [column[0] for column in cur.description]
+        column_string = "([" + "], [".join(columns) + "])"
+        questions = "(" + (len(columns) - 1) * "?, " + "?)"
+        sql_command = "INSERT into " + table_name + column_string + " VALUES " + questions
+
         for row in output:
             cur_out.execute(sql_command, row)
 
-- 
2.43.0


From 2df96394bb7831834ab0144fc7b6df4e795ebefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 57/62] fix: object IDs that look like numbers and input files
 with different columns in results database

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 162b641..3593cf3 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -122,13 +122,18 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out = cnx_out.cursor()
     cur_out.execute("DROP TABLE if exists " + table_type)
 
+    inputs = []
     for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+        # object IDs are text, also if they look like numbers
+        df = pd.read_csv(filename, sep="\\s+", dtype={"ObjID": str})
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
 
-        df.to_sql(table_type, cnx_out, if_exists="append")
+        inputs.append(df)
+
+    # the files do not need to have the same columns
+    pd.concat(inputs).to_sql(table_type, cnx_out, if_exists="append")
 
     cur_out.close()
 
-- 
2.43.0


From e5467458741502ea0ac3f4ae5583f085bf6ed1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 58/62] fix: interrupted set-up leaves an incomplete
 meta_kernel.txt that is used later

---
 src/sorcha/utilities/generate_meta_kernel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..9aa3422 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -64,17 +64,24 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
     abspath = _split_kernel_path_str(str(retriever.abspath))
 
-    # build a meta_kernel.txt file
-    with open(meta_kernel_file_path, "w") as meta_file:
+    # get all the kernels first, so that a failed download cannot leave an incomplete meta_kernel.txt file
+    kernel_files = [
+        _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for file_name in auxconfigs.ordered_kernel_files
+    ]
+
+    # build a meta_kernel.txt file, which only gets its name when it is complete
+    temporary_file_path = f"{meta_kernel_file_path}.{os.getpid()}.tmp"
+    with open(temporary_file_path, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
         meta_file.write(f"PATH_VALUES = ('{abspath}')\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
         meta_file.write("KERNELS_TO_LOAD=(\n")
-        for file_name in auxconfigs.ordered_kernel_files:
-            shortened_file_name = _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for shortened_file_name in kernel_files:
             meta_file.write(f"    '{shortened_file_name}',\n")
         meta_file.write(")\n\n")
         meta_file.write("\\begintext\n")
+    os.replace(temporary_file_path, meta_kernel_file_path)
 
 
 def _build_file_name(cache_dir: str, file_path: str) -> str:
-- 
2.43.0


From e20ef65861b1c01f84b3a19e8e8a3987b4d8dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 59/62] fix: sorcha bootstrap --force fails if a file is
 missing

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..a46de01 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,11 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        file_path = os.path.join(retriever.abspath, file_name)
+        # an interrupted download can leave some of the files missing
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From dc6830840b9733b8c1ecb83310977c4a5f834cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 60/62] fix: meta_kernel.txt cannot be loaded for long cache
 directories and names with quotes

---
 src/sorcha/utilities/generate_meta_kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 9aa3422..d7ba320 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -62,7 +62,10 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     """
     # build meta_kernel file path
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
-    abspath = _split_kernel_path_str(str(retriever.abspath))
+    # the pieces go on lines of their own (the lines can have 132 characters), without an empty one at the
+    # end, and quotes are doubled
+    pieces = _split_kernel_path_str(str(retriever.abspath)).removesuffix("+' '").split("+' '")
+    abspath = "+'\n    '".join(piece.replace("'", "''") for piece in pieces)
 
     # get all the kernels first, so that a failed download cannot leave an incomplete meta_kernel.txt file
     kernel_files = [
-- 
2.43.0


From f8ceea3bc3f701e1e89ffa031e185e7fbefaf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 61/62] fix: -l/--log-level switches the detailed log on, not
 off

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 8bcc17a..7cd6464 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -107,8 +107,8 @@ def main():
         "--log-level",
         help="Print additional information to log while running",
         dest="l",
-        default=True,
-        action="store_false",
+        default=False,
+        action="store_true",
     )
 
     optional.add_argument(
-- 
2.43.0


From 5c511314d7e6cfd6ab3c5bcc050beaca3490e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 62/62] fix: log every setting in force as it was understood

---
 src/sorcha/utilities/sorchaConfigs.py | 45 ++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index ebb796b..64a958d 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1623,27 +1623,28 @@ def PrintConfigsToLog(sconfigs, cmd_args):
                 pplogger.info("Loading default LSST footprint LSST_detector_corners_100123.csv")
             if cmd_args.surveyname.lower() == "des":
                 pplogger.info("Loading default DES footprint DES_ccd_corners.csv")
-        if sconfigs.fov.footprint_edge_threshold:
+        if sconfigs.fov.footprint_edge_threshold is not None:
             pplogger.info(
                 "The footprint edge threshold is "
                 + str(sconfigs.fov.footprint_edge_threshold)
                 + " arcseconds"
             )
         else:
-            pplogger.info("Default footprint edge threshold used (10px or 2 arcseconds).")
+            pplogger.info("No footprint edge threshold used: the whole detector area is considered.")
     elif sconfigs.fov.camera_model == "circle":
         pplogger.info("Footprint is circular.")
         if sconfigs.fov.fill_factor:
             pplogger.info(
                 "The code will approximate chip gaps using filling factor: " + str(sconfigs.fov.fill_factor)
             )
-        elif sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius:
             pplogger.info(
                 "A circular footprint will be applied with radius: " + str(sconfigs.fov.circle_radius)
             )
     elif sconfigs.fov.camera_model == "visits_footprint":
         pplogger.info("Footprint is the actual camera footprint for each observation.")
         pplogger.info("Loading camera footprint from " + cmd_args.visits)
+        pplogger.info("Visits database required query is: " + str(sconfigs.fov.visits_query))
     else:
         pplogger.info("Camera footprint is turned OFF.")
 
@@ -1667,14 +1668,20 @@ def PrintConfigsToLog(sconfigs, cmd_args):
 
     if sconfigs.fadingfunction.fading_function_on:
         pplogger.info("The detection efficiency fading function is ON.")
-        pplogger.info(
-            "The width parameter of the fading function has been set to: "
-            + str(sconfigs.fadingfunction.fading_function_width)
-        )
-        pplogger.info(
-            "The peak efficiency of the fading function has been set to: "
-            + str(sconfigs.fadingfunction.fading_function_peak_efficiency)
-        )
+        if cmd_args.surveyname.lower() == "des":
+            pplogger.info(
+                "The transient efficiency of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.des_transient_efficency)
+            )
+        else:
+            pplogger.info(
+                "The width parameter of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.fading_function_width)
+            )
+            pplogger.info(
+                "The peak efficiency of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.fading_function_peak_efficiency)
+            )
     else:
         pplogger.info("The detection efficiency fading function is OFF.")
 
@@ -1713,6 +1720,22 @@ def PrintConfigsToLog(sconfigs, cmd_args):
             pplogger.info("Unlinked objects will not be dropped.")
     else:
         pplogger.info("Solar System Processing linking filter is turned OFF.")
+    if sconfigs.linkingfilter.distance_cut_on:
+        pplogger.info(
+            "Objects are kept between the distances in au: "
+            + str(sconfigs.linkingfilter.distance_cut_lower)
+            + " and "
+            + str(sconfigs.linkingfilter.distance_cut_upper)
+        )
+    if sconfigs.linkingfilter.motion_cut_on:
+        pplogger.info(
+            "Detections are kept between the rates of motion in degrees per day: "
+            + str(sconfigs.linkingfilter.motion_cut_lower)
+            + " and "
+            + str(sconfigs.linkingfilter.motion_cut_upper)
+        )
+    if sconfigs.linkingfilter.des_discovery_on:
+        pplogger.info("DES discovery filter is turned ON.")
     pplogger.info("The auxiliary files used for emphemris generation...")
     pplogger.info("...the leap second file is: " + str(sconfigs.auxiliary.leap_seconds))
     pplogger.info(
-- 
2.43.0

