From 8e3e25e5b9b33199cd9a5ccf58300510baa968e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 01/30] fix: times on a sample map to that sample despite float
 rounding

---
 resistics/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..31309f2 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -373,14 +373,16 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     >>> check_inclusive
     471900155
     """
-    from math import floor, ceil
+    from math import floor, ceil, isclose
 
     days_in_seconds, remaining_in_seconds = to_seconds(delta)
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
     # add 1 to be inclusive of start and end
     n_samples += 1
-    if n_samples.is_integer():
-        return int(n_samples)
+    # a whole number of samples up to floating point rounding error
+    nearest = round(n_samples)
+    if isclose(n_samples, nearest, rel_tol=1e-12):
+        return int(nearest)
 
     if method == "floor":
         return int(floor(n_samples))
-- 
2.43.0


From 5008bb690da4843293f8308bc4ed32fecca77d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/30] fix: times on a window start map to that window despite
 float rounding

---
 resistics/window.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..0b24046 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -343,7 +343,7 @@ def datetime_to_win(
     1985-09-12 22:20:20
 
     """
-    from math import floor, ceil
+    from math import floor, ceil, isclose
     from resistics.sampling import to_seconds
 
     if time < ref_time:
@@ -356,8 +356,10 @@ def datetime_to_win(
     delta_total_in_seconds = delta_days_in_seconds + delta_remaining_in_seconds
     n_increments = delta_total_in_seconds / increment_seconds
 
-    if n_increments.is_integer():
-        n_increments = int(n_increments)
+    # a whole number of increments up to floating point rounding error
+    nearest = round(n_increments)
+    if isclose(n_increments, nearest, rel_tol=1e-12, abs_tol=1e-12):
+        n_increments = int(nearest)
     elif method == "floor":
         n_increments = int(floor(n_increments))
     elif method == "ceil":
-- 
2.43.0


From 833275bb8237af109f81ab75958e2da3a96c4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 03/30] fix: get windows by global index, local index is global
 minus offset

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 0b24046..0af3fe1 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1144,7 +1144,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From 9ba4edb30a5c20452584f5548d9f7d70ee2deeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 04/30] fix: keep window and channel axes when windowing one
 channel or position

---
 resistics/window.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 0af3fe1..74ccd47 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1386,9 +1386,9 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From 808fdda0bed60f1b3af1338a9a997d543dfa07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/30] fix: find the last complete window for any overlap size

---
 resistics/window.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 74ccd47..dafefc3 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -481,14 +481,10 @@ def get_first_and_last_win(
     last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
     # adjust if there is not enough date to complete the last window
     last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
-        if metadata.last_time >= last_win_time + duration:
-            break
-        logger.debug(f"Adjusting last window attempt {attempt + 1}")
+    while last_win >= first_win and metadata.last_time < last_win_time + duration:
+        logger.debug("Adjusting last window")
         last_win -= 1
         last_win_time = win_to_datetime(ref_time, last_win, increment)
-    if metadata.last_time < last_win_time + duration:
-        raise ValueError("Unable to correctly get the last window")
     return first_win, last_win
 
 
-- 
2.43.0


From 0491a092a2cb5e16db6577a79535b95976183f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 06/30] fix: report the reference time the target windower used

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index dafefc3..c6d22d4 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1490,7 +1490,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 66fff531b9dbb7a3e2a7f6df2bdeb9775a8f9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 07/30] fix: windowed metadata lists only the levels that were
 windowed

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index c6d22d4..328df8f 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1413,6 +1413,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From 02e25c1d653d81e77a4a7ed65cfdf3fa4d1603d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/30] fix: do not modify the dictionary a process is built
 from

---
 resistics/common.py    | 4 ++--
 resistics/transfunc.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..1aa67de 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,9 +816,9 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
-        name = value.pop("name")
+        name = value["name"]
         try:
-            return cls._types[name](**value)
+            return cls._types[name](**{k: v for k, v in value.items() if k != "name"})
         except Exception:
             raise ValueError(f"Unable to initialise {name} from dictionary")
 
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..ffc1142 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,7 +253,8 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
-        name = value.pop("name")
+        name = value["name"]
+        value = {k: v for k, v in value.items() if k != "name"}
         if name == "TransferFunction":
             return cls(**value)
         # check other known Transfer Functions
-- 
2.43.0


From 67602aefe88976f02500a0c63c8e07625a859c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 09/30] fix: calibrate data with a single frequency or window

---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From 30678475a33b0e5c81aa0b15e6e823e38de1dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 10/30] fix: check every project subdirectory when loading

---
 resistics/letsgo.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..bd0f488 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -151,7 +151,6 @@ class ProjectLoader(ResisticsProcess):
         for subdir in PROJ_DIRS.values():
             subdir_path = self.dir_path / subdir
             assert_dir(subdir_path)
-            return False
         return True
 
     def _load_site(self, site_dir: Path, config: Configuration) -> Site:
-- 
2.43.0


From 1c215ba9b5d34583f70c82d18c0ea17675bb5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 11/30] fix: processes and writers work on their own copy of
 the metadata

---
 resistics/decimate.py |  2 +-
 resistics/spectra.py  |  2 +-
 resistics/time.py     | 12 ++++++------
 resistics/window.py   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..394ee60 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = dec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..a6b0dea 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = spec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..918e2a7 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1139,7 +1139,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1173,7 +1173,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
@@ -1300,7 +1300,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1970,7 +1970,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2066,7 +2066,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2256,7 +2256,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
diff --git a/resistics/window.py b/resistics/window.py
index 328df8f..a983879 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1558,7 +1558,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = win_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From a05bf04287f967686ade094755185bcea928f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 12/30] fix: keep channels without a custom function unchanged

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 918e2a7..0afc73b 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2345,7 +2345,7 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        data = np.array(time_data.data, dtype=float)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From 51d09d04f1cae757623636cf8c48bfa11ab02b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 13/30] fix: do not lose the last complete window to rounding
 of times

---
 resistics/window.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index a983879..17e8e49 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -475,13 +475,17 @@ def get_first_and_last_win(
     >>> level_metadata.last_time > last_win_start_time + increment
     True
     """
+    from resistics.sampling import to_timedelta
+
     duration = win_duration(win_size, metadata.fs)
     increment = inc_duration(win_size, olap_size, metadata.fs)
     first_win = datetime_to_win(ref_time, metadata.first_time, increment, method="ceil")
     last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
     # adjust if there is not enough date to complete the last window
     last_win_time = win_to_datetime(ref_time, last_win, increment)
-    while last_win >= first_win and metadata.last_time < last_win_time + duration:
+    # allow for rounding of times, a small fraction of the sampling period
+    last_time = metadata.last_time + to_timedelta(1 / metadata.fs) * 1e-4
+    while last_win >= first_win and last_time < last_win_time + duration:
         logger.debug("Adjusting last window")
         last_win -= 1
         last_win_time = win_to_datetime(ref_time, last_win, increment)
-- 
2.43.0


From 197eab2d893fe922c98cd95a5502c6121a6f24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 14/30] fix: read numpy recordings into memory instead of
 keeping the file mapped

---
 resistics/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 0afc73b..cc52955 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1099,7 +1099,8 @@ class TimeReaderNumpy(TimeReaderJSON):
         messages = [f"Reading raw data from {dir_path}"]
         messages.append(f"Sampling frequency {metadata.fs} Hz")
         data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
-        data = np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1]
+        # copy the samples, a memory map would change when the file is overwritten
+        data = np.array(np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1])
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From cb9b179014fab6a3bb2a5ace06cc197c8d556d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 15/30] fix: keep the channel axis when reading ascii data with
 one channel

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index cc52955..7dbe526 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From a0b57d8300d1dc15551d154c1bc4275e111f01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 16/30] fix: do not truncate the values added to or multiplied
 with integer data

---
 resistics/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 7dbe526..0e27052 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1495,7 +1495,8 @@ class Add(TimeProcess):
 
     def _get_add(self, time_data: TimeData) -> np.ndarray:
         """Make an array to add to the data"""
-        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.add, float) or isinstance(self.add, int):
             return add + self.add
         for chan in time_data.metadata.chans:
@@ -1572,7 +1573,8 @@ class Multiply(TimeProcess):
 
     def _get_mult(self, time_data: TimeData) -> np.ndarray:
         """Make an array to multiply the data with"""
-        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.multiplier, float) or isinstance(self.multiplier, int):
             return mult * self.multiplier
         for chan in time_data.metadata.chans:
-- 
2.43.0


From f43b740c32123c91a7a3e0743a701003704ebb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 17/30] fix: shift timestamps of long single precision
 recordings precisely

---
 resistics/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 0e27052..b565f44 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2256,10 +2256,11 @@ class ShiftTimestamps(TimeProcess):
         messages.append(f"Last time: {str(metadata.last_time)} -> {str(last_time)}")
 
         # shift data
-        x = np.arange(0, metadata.n_samples, dtype=time_data.data.dtype)
-        x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
+        x = np.arange(0, metadata.n_samples)
+        x_shift = np.arange(0, n_samples) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
+        data = data.astype(np.result_type(time_data.data.dtype, np.float32))
         metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
-- 
2.43.0


From c511de0af774e5846ae607d8ac39e502bbd1855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 18/30] fix: keep the last attoseconds when reading a datetime
 from a string

---
 resistics/sampling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index 31309f2..7ef7207 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -98,7 +98,12 @@ def datetime_from_string(time: str) -> RSDateTime:
     >>> datetime_from_string(time_str)
     attotime.objects.attodatetime(2021, 1, 1, 0, 0, 0, 61, 35.15625)
     """
-    return RSDateTime.strptime(time, "%Y-%m-%d %H:%M:%S.%f_%o_%q_%v")
+    from decimal import localcontext
+
+    with localcontext() as context:
+        # the default precision of 28 digits loses the last attoseconds
+        context.prec = 35
+        return RSDateTime.strptime(time, "%Y-%m-%d %H:%M:%S.%f_%o_%q_%v")
 
 
 def to_datetime(time: DateTimeLike) -> RSDateTime:
-- 
2.43.0


From 0f084170796607aaca2286c86bb042e353796b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 19/30] fix: do not truncate the taper applied to integer
 windows

---
 resistics/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index a6b0dea..521cd03 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -538,7 +538,9 @@ class FourierTransform(ResisticsProcess):
         # detrend and apply window
         if self.detrend is not None:
             data = signal.detrend(data, axis=-1, type=self.detrend)
-        win_coeffs = self._get_window(metadata.win_size).astype(data.dtype)
+        # integer data must not turn the taper into integers
+        dtype = np.result_type(data.dtype, np.float32)
+        win_coeffs = self._get_window(metadata.win_size).astype(dtype)
         data = data * win_coeffs
         # perform the fft on the last axis
         return rfft(data, n=n_transform, axis=-1, norm="ortho", workers=self.workers)
-- 
2.43.0


From 3fa18d56fd624a2f6589de9c28e1c07c5cdcbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 20/30] fix: read phase units in any letter case

---
 resistics/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 143c1d6..aa39245 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -405,7 +405,7 @@ class SensorCalibrationTXT(SensorCalibrationReader):
         data = np.array([x.split() for x in data_lines], dtype=float)
         df = pd.DataFrame(data=data, columns=["frequency", "magnitude", "phase"])
         # unit manipulation - change phase to radians
-        if data_dict["phase_unit"] == "degrees":
+        if data_dict["phase_unit"].lower() == "degrees":
             df["phase"] = df["phase"] * (np.pi / 180)
         df = df.set_index("frequency").sort_index()
         return df
-- 
2.43.0


From b7de1bbe3820837f142d71f61b43c4f8737f2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 21/30] fix: project time range ignores sites without
 measurements

---
 resistics/letsgo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index bd0f488..a376fbc 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -130,9 +130,11 @@ class ProjectLoader(ResisticsProcess):
         for site_dir in time_subdirs:
             site = self._load_site(site_dir, config)
             sites[site_dir.name] = site
-        if len(sites) > 0:
-            begin_time = min([x.begin_time for x in sites.values()])
-            end_time = max([x.end_time for x in sites.values()])
+        # sites without measurements have no time range
+        populated = [x for x in sites.values() if x.n_meas > 0]
+        if len(populated) > 0:
+            begin_time = min([x.begin_time for x in populated])
+            end_time = max([x.end_time for x in populated])
         else:
             begin_time = datetime.now()
             end_time = datetime.now()
-- 
2.43.0


From 6dff4775fdcb1340c80ca955edb22211e2cae443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 22/30] fix: notch filter recordings with a Nyquist frequency
 below one and bands reaching to it

---
 resistics/time.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index b565f44..9d63158 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1871,15 +1871,15 @@ class Notch(TimeProcess):
             )
 
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
-        low = (self.notch - (band / 2)) / nyquist
-        high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
-            logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
+        low = self.notch - (band / 2)
+        high = self.notch + (band / 2)
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
-        sos = butter(
-            self.order, (low, high), btype="bandstop", analog=False, output="sos"
-        )
+        if high < nyquist:
+            critical, btype = (low / nyquist, high / nyquist), "bandstop"
+        else:
+            logger.debug(f"Band high {high} >= nyquist {nyquist}. Filtering to nyquist")
+            critical, btype = low / nyquist, "lowpass"
+        sos = butter(self.order, critical, btype=btype, analog=False, output="sos")
         data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
         messages = [f"Notch filtered at {self.notch} Hz with bandwidth {band} Hz"]
         record = self._get_record(messages)
-- 
2.43.0


From e0aac6350f678181d10899df72e50e486ab16d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 23/30] fix: plot time data of some of the channels

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 9d63158..fb7ea11 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -679,7 +679,7 @@ class TimeData(ResisticsData):
             chans = self.metadata.chans
         if fig is None:
             y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
-            fig = get_time_fig(self.metadata.chans, y_labels)
+            fig = get_time_fig(chans, y_labels)
 
         # plot the data
         for idx, chan in enumerate(chans):
-- 
2.43.0


From 2d74233dc8bb393fc6d79beb99b926b8c3856ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 24/30] fix: plots with more levels or groups than there are
 colors

---
 resistics/decimate.py | 3 ++-
 resistics/spectra.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 394ee60..5d37929 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -6,6 +6,7 @@ Module for time data decimation including classes and for the following
 """
 from loguru import logger
 from typing import Any, Optional, Tuple, Union, Dict, List
+from itertools import cycle
 from pathlib import Path
 from pydantic import validator, PositiveInt, conint
 import numpy as np
@@ -688,7 +689,7 @@ class DecimatedData(ResisticsData):
         chans = self.metadata.chans
         y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
         fig = get_time_fig(chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
 
         for ilevel in range(0, self.metadata.n_levels):
             logger.info(f"Plotting decimation level {ilevel}")
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 521cd03..49392e7 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -7,6 +7,7 @@ Fourier transform implementation is inspired by the implementation of the
 scipy stft function.
 """
 from loguru import logger
+from itertools import cycle
 from pathlib import Path
 from typing import Union, Tuple, Dict, List, Any, Optional
 from pydantic import PositiveInt
@@ -194,7 +195,7 @@ class SpectraData(ResisticsData):
 
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for ilevel in range(self.metadata.n_levels):
             level_metadata = self.metadata.levels_metadata[ilevel]
             freqs = np.array(level_metadata.freqs)
@@ -250,7 +251,7 @@ class SpectraData(ResisticsData):
         freqs = np.array(level_metadata.freqs)
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for idx, group in df.groupby(pd.Grouper(freq=grouping, offset=offset)):
             stack = np.mean(np.absolute(self.data[level][group["local"]]), axis=0)
             fig = self._add_stack_data(
-- 
2.43.0


From db9de283cb27de934016f009e2ae52dae634404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 25/30] fix: plot a section of spectra with a single channel

---
 resistics/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 49392e7..e584cfa 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -336,7 +336,7 @@ class SpectraData(ResisticsData):
 
         fig = get_spectra_section_fig(self.metadata.chans)
         colorbar_len = 0.90 / self.metadata.n_chans
-        colorbar_inc = 0.84 / (self.metadata.n_chans - 1)
+        colorbar_inc = 0.84 / max(self.metadata.n_chans - 1, 1)
         # group by the grouping frequency, iterate over the groups and plot
         data = {}
         for idx, group in df.groupby(pd.Grouper(freq=grouping)):
-- 
2.43.0


From a04980e44fd9ebd37d472f70b7e6b0931f26112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 26/30] fix: estimated times do not drift along the array

---
 resistics/sampling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index 7ef7207..3a9c327 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -938,9 +938,10 @@ def datetime_array_estimate(
     if isinstance(first_time, RSDateTime):
         first_time = pd.to_datetime(first_time.isoformat())
 
-    dt = pd.Timedelta(1 / fs, "s")
     if n_samples is not None:
-        return pd.date_range(start=first_time, freq=dt, periods=n_samples)
+        samples = np.arange(n_samples)
     if samples is None:
         raise ValueError("One of n_samples or samples must be provided")
-    return pd.to_datetime(pd.to_datetime(first_time) + samples * dt)
+    # round each time instead of the period, otherwise times drift along the array
+    offsets = np.rint(np.asarray(samples) * (1e9 / fs)).astype("timedelta64[ns]")
+    return pd.to_datetime(first_time) + pd.to_timedelta(offsets)
-- 
2.43.0


From a6b15aaa743ad67de18cab06b68037b229c4bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 27/30] fix: metadata of replaced data is removed before the
 data is overwritten

---
 resistics/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index 1aa67de..aab73a5 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -924,6 +924,10 @@ class ResisticsWriter(ResisticsProcess):
             return False
         if dir_path.exists():
             logger.warning(f"Overwriting existing directory {dir_path}")
+            # metadata is written last and must not describe data being replaced
+            metadata_path = dir_path / "metadata.json"
+            if metadata_path.exists():
+                metadata_path.unlink()
         if not dir_path.exists():
             logger.info(f"Directory {dir_path} not found. Creating including parents.")
             dir_path.mkdir(parents=True)
-- 
2.43.0


From 0e593a8275a36d5d63bca3a44e1ed2ed94c72a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 28/30] fix: incompletely written time data is an error

---
 resistics/time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resistics/time.py b/resistics/time.py
index fb7ea11..74ef774 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1141,6 +1141,11 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
+        try:
+            # the end of the data can be lost without an error on a full disk
+            np.load(data_path, mmap_mode="r")
+        except ValueError as error:
+            raise WriteError(dir_path, "Data not written completely") from error
         metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
-- 
2.43.0


From ed45feedf627febf08f014952759c1cb019ef429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 29/30] fix: solutions of one site can be written at the same
 time

---
 resistics/letsgo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index a376fbc..9d018ac 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -800,8 +800,7 @@ def process_evals_to_tf(
     reg_data = run_regression_preparer(config, gathered_data)
     solution = run_solver(config, reg_data)
     solution_path = get_results_path(proj.dir_path, out_site, config.name)
-    if not solution_path.exists():
-        solution_path.mkdir(parents=True)
+    solution_path.mkdir(parents=True, exist_ok=True)
     solution_name = get_solution_name(
         fs, solution.tf.name, solution.tf.variation, postfix
     )
-- 
2.43.0


From 2e7b72ba983d5a3232f884af9ad98d900e04c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:52 +0000
Subject: [PATCH 30/30] fix: sections of spectra with groups without windows or
 zeros can be plotted

---
 resistics/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index e584cfa..5b277b8 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -346,8 +346,10 @@ class SpectraData(ResisticsData):
                 data={k: v[idx] for k, v in data.items()}, index=level_metadata.freqs
             )
             z = np.log10(df_data.values)
-            z_min = np.ceil(z.min())
-            z_max = np.floor(z.max())
+            # groups without windows and values of zero have no finite logarithm
+            finite = z[np.isfinite(z)]
+            z_min = np.ceil(finite.min()) if finite.size > 0 else 0
+            z_max = np.floor(finite.max()) if finite.size > 0 else 0
             z_range = np.arange(z_min, z_max + 1)
             colorbar = dict(
                 tickvals=z_range,
-- 
2.43.0

