From 34ea5bddc6b710ade21c1ff5f6bbdd7c85b2ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 01/16] fix: do not append process records to the history of
 the input time data

TimeMetadata.copy() is shallow, so Subsection, Resample, Decimate and
ShiftTimestamps shared the History object with their input and added their
record to it. Build the new metadata from dict() as new_time_data does.
---
 resistics/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..d038b0d 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1300,7 +1300,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1970,7 +1970,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2066,7 +2066,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2256,7 +2256,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
-- 
2.43.0


From 08ff24f3b36e7c9ae220440e682fb943d0116ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/16] fix: writers no longer modify the metadata of the data
 being written

The shallow copy shared the history (and, for time data, the channel
metadata), so writing data changed the history and data_files of the object
being written.
---
 resistics/decimate.py | 2 +-
 resistics/spectra.py  | 2 +-
 resistics/time.py     | 4 ++--
 resistics/window.py   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..8d01652 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = DecimatedMetadata(**dec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..ce1ef97 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = SpectraMetadata(**spec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index d038b0d..fabd15c 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1139,7 +1139,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1173,7 +1173,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..6900be7 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = WindowedMetadata(**win_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From fbf7f765b7881493dceb8435fc604a7e671134c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/16] fix: WindowedData.get_global converts global to local
 window by subtracting the offset

index_offset is global - local.
---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 6900be7..aa439b5 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1142,7 +1142,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From ed667ea37417c02828fe6fc159818c2d846387ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 04/16] fix: keep the window and channel axes when windowing a
 single channel or a single window

squeeze removed every axis of length one, not only the leading one.
---
 resistics/window.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index aa439b5..f720ca2 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1384,9 +1384,9 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From f921f8c6b609b7f21251ecda46dd3ff6755040b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 05/16] fix: calibrate channels with a single frequency per
 level

Squeezing removed the frequency (or window) axis when it had length one and
the result could not be assigned back to the channel.
---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From 7f898d002093258b87dcb54080bb9b09c948c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 06/16] fix: ApplyFunction passes through channels without a
 function

They were left as uninitialised memory.
---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index fabd15c..202e332 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2345,7 +2345,7 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        data = time_data.data.astype(float)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From ee47c471714ec76c294f361c31977e95dfc47cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 07/16] fix: SpectraSmootherGaussian uses its sigma parameter

---
 resistics/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index ce1ef97..3faaca1 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -966,7 +966,7 @@ class SpectraSmootherGaussian(SpectraProcess):
         messages = [f"Smoothing frequencies with gaussian filter, sigma {self.sigma}"]
         for ilevel in range(spec_data.metadata.n_levels):
             data[ilevel] = ndimage.gaussian_filter1d(
-                spec_data.get_level(ilevel), 1, axis=-1
+                spec_data.get_level(ilevel), self.sigma, axis=-1
             )
             messages.append(f"Smoothed level {ilevel} with gaussian filter")
         metadata = SpectraMetadata(**spec_data.metadata.dict())
-- 
2.43.0


From 6f7f45a0f797f69c8d7570f6f119a220faa65fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 08/16] fix: WindowerTarget records the reference time its
 windows are indexed from

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index f720ca2..343b272 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1492,7 +1492,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 8dd0d0279bcd0fe99368d339193efb656e5faf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/16] fix: validating a process or transfer function leaves
 the caller's dictionary unchanged

---
 resistics/common.py    | 1 +
 resistics/transfunc.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..9f6de07 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,6 +816,7 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        value = dict(value)
         name = value.pop("name")
         try:
             return cls._types[name](**value)
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..1e4efd9 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,7 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        value = dict(value)
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From 9c8b6dd5953ace3996303e7f4b8cdd6fdac926a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 10/16] fix: compare the normalised notch band edge with the
 normalised Nyquist frequency

---
 resistics/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 202e332..46365a2 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1869,9 +1869,9 @@ class Notch(TimeProcess):
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
         low = (self.notch - (band / 2)) / nyquist
         high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
+        if high > 1:
             logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
+            high = 1
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
         sos = butter(
             self.order, (low, high), btype="bandstop", analog=False, output="sos"
-- 
2.43.0


From b439e5b2df0c5838576595fe36dab892757bcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 11/16] fix: find the last window for overlaps above half the
 window size

More than two steps back may be needed when the increment is small compared
to the window size.
---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 343b272..ce70bd3 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -479,7 +479,7 @@ def get_first_and_last_win(
     last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
     # adjust if there is not enough date to complete the last window
     last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
+    for attempt in range(win_size // (win_size - olap_size) + 1):
         if metadata.last_time >= last_win_time + duration:
             break
         logger.debug(f"Adjusting last window attempt {attempt + 1}")
-- 
2.43.0


From 991286e00027aa8e4709497a7adf8b472a806f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 12/16] fix: empty window table when the level is shorter than
 a window

A negative number of windows raised an error instead of ending the windowing.
---
 resistics/window.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index ce70bd3..79cba4e 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -681,7 +681,7 @@ def get_win_table(
         ref_time, metadata, win_size, olap_size
     )
     first_win_time = win_to_datetime(ref_time, first_win, increment)
-    n_wins = last_win - first_win + 1
+    n_wins = max(last_win - first_win + 1, 0)
     local_wins = np.arange(n_wins).astype(int)
     # samples - use the floor here to avoid a situation where it is rounded up
     # and then there are insufficient samples
@@ -689,7 +689,7 @@ def get_win_table(
     starts = datetime_array_estimate(first_win_time, fs / increment_size, n_wins)
     ends = get_win_ends(starts, win_size, fs)
     df_dict = {
-        "global": np.arange(first_win, last_win + 1),
+        "global": np.arange(first_win, first_win + n_wins),
         "local": local_wins,
         "from_sample": first_sample + (local_wins * increment_size),
         "to_sample": first_sample + win_size - 1 + (local_wins * increment_size),
-- 
2.43.0


From d98a8ffda9382fe7664a952c31123d2210a7f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 13/16] fix: windowed metadata lists the sampling frequencies
 of the windowed levels only

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index 79cba4e..af167a1 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1415,6 +1415,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From bfaecd44f6ce08a92dcfd008c598eb82f52766bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 14/16] fix: floating point error must not move time to sample
 conversions to another sample

---
 resistics/sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..aa378ee 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -379,8 +379,10 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
     # add 1 to be inclusive of start and end
     n_samples += 1
-    if n_samples.is_integer():
-        return int(n_samples)
+    # allow for floating point error, which must not move to another sample
+    nearest = int(round(n_samples))
+    if abs(n_samples - nearest) <= 1e-14 * abs(n_samples):
+        return nearest
 
     if method == "floor":
         return int(floor(n_samples))
-- 
2.43.0


From f16637d6cc0a0958b6b41f444bd5e02243f28ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 15/16] fix: floating point error must not move time to window
 conversions to another window

---
 resistics/window.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index af167a1..4be9d10 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -356,8 +356,10 @@ def datetime_to_win(
     delta_total_in_seconds = delta_days_in_seconds + delta_remaining_in_seconds
     n_increments = delta_total_in_seconds / increment_seconds
 
-    if n_increments.is_integer():
-        n_increments = int(n_increments)
+    # allow for floating point error, which must not move to another window
+    nearest = int(round(n_increments))
+    if abs(n_increments - nearest) <= 1e-14 * abs(n_increments):
+        n_increments = nearest
     elif method == "floor":
         n_increments = int(floor(n_increments))
     elif method == "ceil":
-- 
2.43.0


From e31d9f62ff03af391ab6cbf94d5eab380f80cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 16/16] fix: keep the channel axis when reading a single
 channel ASCII file

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index 46365a2..3698f69 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0

