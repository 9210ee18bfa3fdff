"""Regenerates properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
POW2 = "sampling frequencies and shifts whose periods are exactly representable (e.g. powers of two), any reference and query times"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Time to sample conversion brackets the requested range",
  "For a recording with first sample time F, sampling frequency fs (period exactly representable) and last sample time L, converting a 'from' time gives the first sample at or after it and converting a 'to' time gives the last sample at or before it. A time closer to a sample than double precision resolves counts as that sample. A from time before F is clamped to sample 0 and a to time after L to the last sample; a from time after L or a to time before F raises ValueError. Converting a sample's own time gives that sample back in both directions.",
  ["inputs"], "all sampling frequencies with exactly representable periods, all recordings, all query times (on, between and outside samples)",
  "The unit tests convert a handful of times at a handful of frequencies; the rounding direction matters only for times between samples and the clamps only at the edges.",
  ["resistics/sampling.py"],
  [("from_time_to_sample, to_time_to_sample, datetimes_to_samples", "resistics/sampling.py"), ("to_n_samples, to_seconds", "resistics/sampling.py"), ("check_from_time, check_to_time", "resistics/sampling.py")],
  observe=["return value of datetimes_to_samples, from_time_to_sample, to_time_to_sample"])
p("C02", "Every way of asking for a sample's time gives first_time + sample/fs",
  "Sample k of a recording starting at F sampled at fs (period exactly representable) is at F + k/fs, whether asked for as a single sample, a pair of samples, an array of all samples, an array of chosen samples, or through the timestamps of time or decimated data at a level. The estimated (pandas) variants give the same instants to the nanosecond when the instants are whole nanoseconds. A sample outside an explicitly given number of samples raises ValueError.",
  ["inputs"], "all F, fs with exactly representable period, sample numbers and arrays of sample numbers",
  "Tests compare short arrays at one or two frequencies; consistency between the five entry points for all samples is not sampled.",
  ["resistics/sampling.py", "resistics/time.py", "resistics/decimate.py"],
  [("sample_to_datetime, samples_to_datetimes", "resistics/sampling.py"), ("datetime_array, datetime_array_estimate", "resistics/sampling.py"), ("TimeData.get_timestamps, DecimatedData.get_timestamps", "resistics/time.py, resistics/decimate.py"), ("to_timedelta", "resistics/sampling.py")])
p("C03", "Sub-ranges contain exactly the requested samples and say so",
  "Reading part of a recording by samples or times, or taking a subsection by times, returns for every channel exactly the samples from the first to the last requested one inclusive, in order and unchanged. The returned metadata has the matching number of samples, first time and last time (of the first and last returned samples) and the same sampling frequency and channels. Sample numbers outside the recording, and ranges whose first sample is not before their last, raise ValueError.",
  ["inputs"], "all recordings (any number of channels and samples) and all sample or time ranges, fs with exactly representable period",
  "An off-by-one at either end only shows for particular ranges; the readers are not exercised by the stable tests at all.",
  ["resistics/time.py", "resistics/sampling.py"],
  [("TimeReader.run, _get_read_samples, _get_return_metadata", "resistics/time.py"), ("TimeReaderNumpy.read_data, TimeReaderAscii.read_data", "resistics/time.py"), ("Subsection.run, TimeData.subsection", "resistics/time.py"), ("adjust_time_metadata", "resistics/time.py")])
p("C04", "Time processes leave their input untouched and log one record",
  "Running any time process (subsection, NaN interpolation, mean removal, add, multiply, filters, resample, decimate, timestamp shift, custom functions) leaves the input object's data, metadata, channel metadata and history exactly as they were. The result carries the input's history followed by exactly one new record naming the process. The result shares no mutable state with the input: modifying the result afterwards does not change the input.",
  ["inputs", "histories"], "all time data, all processes and parameters, any sequence of processes applied to the same data",
  "Tests look at the output only; aliasing of histories shows only when the input or a sibling result is inspected afterwards.",
  ["resistics/time.py", "resistics/common.py"],
  [("each TimeProcess.run", "resistics/time.py"), ("new_time_data", "resistics/time.py"), ("ResisticsProcess._get_record, History.add_record", "resistics/common.py")],
  state=[("metadata.history", "list of process records", "resistics/common.py")])
p("C05", "Output metadata of time processes describes the output data",
  "After any time process the metadata of the result agrees with its data: number of samples, number of channels and channel order equal the data's shape, the last time is the first time plus (samples - 1)/fs, and fs, first time and channels are those implied by the process (unchanged; fs divided by the factor for decimation; the new fs for resampling; first time advanced by the shift for a timestamp shift).",
  ["inputs"], "all time data with at least two samples, all processes and valid parameters, fs with exactly representable period",
  "Tests check individual fields for one recording; agreement of all fields for every process and size is not sampled.",
  ["resistics/time.py"],
  [("adjust_time_metadata", "resistics/time.py"), ("Resample.run, Decimate.run, ShiftTimestamps.run, Subsection.run", "resistics/time.py")])
p("C06", "Per-channel arithmetic is exact and channels do not mix",
  "Add, Multiply and ApplyFunction change each channel exactly by its own constant, factor or function, given once for all channels or per channel name, and channels not named are passed through unchanged. RemoveMean subtracts from every sample of a channel that channel's own mean and nothing else.",
  ["inputs"], "all time data with any number, order and naming of channels; all constants, dictionaries and functions, including names not in the data",
  "Tests use one or two channels in one order; mixing up channels needs particular orders and partial dictionaries.",
  ["resistics/time.py"],
  [("Add.run, Multiply.run", "resistics/time.py"), ("RemoveMean.run", "resistics/time.py"), ("ApplyFunction.run", "resistics/time.py")])
p("C07", "NaN interpolation and timestamp shifting interpolate linearly",
  "Interpolating NaNs leaves every non-NaN sample unchanged and replaces each NaN by the linear interpolation between the nearest non-NaN samples of the same channel (the nearest value at the ends). Shifting timestamps by s (less than one sample period) gives one sample fewer, each being the linear interpolation of its two neighbours at fraction s*fs, and a shift of a sample period or more is refused.",
  ["inputs"], "all channels and NaN patterns with at least one valid sample per channel; all shifts",
  "NaN runs at the edges, in several channels and of various lengths are not all sampled by the tests.",
  ["resistics/time.py"],
  [("InterpolateNans._interpolate_nans", "resistics/time.py"), ("ShiftTimestamps.run", "resistics/time.py")])
p("C08", "Decimation steps multiply to the requested factor; filters use their cut-offs",
  "Decimating by a factor applies a sequence of steps whose product is exactly that factor, none larger than the maximum single factor unless it is prime, with the samples of the result being every factor-th one. Low, high, band pass and notch filters apply a zero-phase Butterworth filter of the requested order to each channel with exactly the requested band edges as fractions of the Nyquist frequency of the data, and refuse cut-offs above Nyquist.",
  ["inputs"], "all factors >= 1 and maximum single factors >= 2; all sampling frequencies, cut-offs and orders",
  "The factor split has corner cases (primes above the maximum, powers, trailing groups) that a few tested factors do not reach; filter edges are only tested at one sampling frequency.",
  ["resistics/time.py"],
  [("Decimate.run, _get_downsample_factors, _prime_factorisation", "resistics/time.py"), ("LowPass.run, HighPass.run, BandPass.run, Notch.run", "resistics/time.py")])
p("C09", "Evaluation frequencies follow the half-octave ladder from fs/4",
  "The k-th evaluation frequency (k from 0) is fs/4 divided by 2 to the power k/2. Asking for a number of frequencies gives exactly that many; asking for a minimum frequency gives exactly those not below it, and a minimum that is not positive or is above fs/4 is refused.",
  ["inputs"], "all sampling frequencies, minimum frequencies and counts", "Tests list a few ladders; the cut at the minimum frequency matters only near an entry.",
  ["resistics/decimate.py"], [("get_eval_freqs_min, get_eval_freqs_size, get_eval_freqs", "resistics/decimate.py")])
p("C10", "Decimation parameters: factors, increments, rates and per-level frequencies",
  "For each level, in a decimation setup with evaluation frequencies that do not increase from level to level, the total factor is the largest power of the division factor that keeps the level's sampling frequency at least four times the level's highest evaluation frequency (1 if even the undecimated rate is below that), the level's sampling frequency is fs divided by its factor, and the product of the incremental factors up to the level is the total factor. Per-level and per-index access to evaluation frequencies returns the corresponding rows and entries of the level by index table, and levels or indices outside it are refused. User frequencies of the wrong count or above Nyquist are refused.",
  ["inputs", "configurations"], "all sampling frequencies, numbers of levels and frequencies per level, division factors >= 2, default and user evaluation frequencies",
  "Tests cover the default setup at a few frequencies.",
  ["resistics/decimate.py"], [("DecimationSetup.run, _get_factors, _get_decimation_factor", "resistics/decimate.py"), ("DecimationParameters validators and accessors", "resistics/decimate.py")])
p("C11", "Decimator output is the chain of incremental decimations",
  "Level 0 of decimated data is the time data decimated by the first incremental factor and each further level is the previous level decimated by its own incremental factor, by resampling or by filtering as configured (a factor of one changes nothing). Levels are produced in order until the parameters' number of levels is reached or a level would have fewer than the minimum number of samples; that level and all later ones are left out. The metadata has one entry per produced level with that level's sampling frequency, number of samples, first and last time, and the lists agree in length with the data.",
  ["inputs", "configurations"], "all time data and decimation parameters for which at least the first level is long enough",
  "The stable tests do not run the decimator; the chain, the stop rule and the bookkeeping depend on lengths.",
  ["resistics/decimate.py", "resistics/time.py"], [("Decimator.run, _decimate, _resample, _get_metadata", "resistics/decimate.py"), ("Resample.run, Decimate.run", "resistics/time.py")])
p("C12", "Windows sit on the global grid, fit the data and miss none",
  "For a level whose period and offset from the reference time are whole numbers of sample periods, global window g covers the win_size samples starting at reference + g*(win_size - olap_size) sample periods, and the window table lists, in order and each once, exactly those global windows that lie entirely within the level's data. Each row's local number is its position, its from and to samples are the level's sample numbers of the window's first and last samples, and its start and end times are the times of those samples. A reference time after the first sample is refused.",
  ["inputs"], "all reference times at or before the data, window sizes, overlaps (0 < overlap < window size), levels and lengths, fs with exactly representable period",
  "Whether an edge window is dropped or duplicated depends on the offset modulo the increment; the tests sample few offsets and are not among the stable tests.",
  ["resistics/window.py", "resistics/sampling.py"], [("get_win_table, get_first_and_last_win", "resistics/window.py"), ("datetime_to_win, win_to_datetime, win_duration, inc_duration", "resistics/window.py"), ("get_win_starts, get_win_ends", "resistics/window.py")])
p("C13", "Windowed data holds exactly the samples its window table promises",
  "For every level, window number w (local) of the windowed data is, for every channel, samples from_sample(w) to to_sample(w) of the decimated level, and the level's metadata has the matching fs, number of windows, window size, overlap and a global-minus-local offset valid for all windows; windowing stops at the first level with fewer than the minimum number of windows. The recorded reference time is the one used for windowing, and the lists in the metadata have one entry per windowed level. Getting a window by local number, by global number, or a channel by name returns exactly that window or channel, and numbers or names outside the data are refused.",
  ["inputs", "configurations"], "all decimated data (any number of channels including one), parameters and reference times, with at least one level having enough windows",
  "Global-to-local conversion is wrong only when the reference time differs from the first time; axis handling only for single channels or windows.",
  ["resistics/window.py"], [("Windower.run, WindowerTarget.run, _get_level_data, _get_level_metadata, _get_metadata", "resistics/window.py"), ("WindowedData.get_level, get_local, get_global, get_chan", "resistics/window.py")])
p("C14", "Window and overlap sizes per level follow the setup",
  "Without user sizes, each level's window size is its sampling frequency divided by the window factor rounded down, but at least the minimum size, and its overlap is the stated proportion of the window size rounded down, but at least the minimum overlap. User sizes are used as given for the first levels and refused if there are fewer than levels. The result has exactly one size and overlap per level, and asking for a level outside is refused.",
  ["inputs", "configurations"], "all setups, numbers of levels and level sampling frequencies", "Tests try a few setups.",
  ["resistics/window.py"], [("WindowSetup.run, _get_win_sizes, _get_olap_sizes", "resistics/window.py"), ("WindowParameters.get_win_size, get_olap_size", "resistics/window.py"), ("WindowerTarget._get_win_size", "resistics/window.py")])
p("C15", "Fourier spectra: right bins, windows and channels independent",
  "For every level the spectra of window w and channel c is the orthonormal real FFT of that window and channel alone, detrended as configured, tapered with the configured window function of the level's window size and padded to the transform length. The level's metadata lists the bin frequencies k*fs/N of that transform for the level's own sampling frequency, their number equal to the last axis of the data, and keeps the level's window bookkeeping.",
  ["inputs", "configurations"], "all windowed data, window functions and detrend options", "The spectra tests do not run with the stable tests and use one or two levels.",
  ["resistics/spectra.py"], [("FourierTransform.run, _get_level_data, _get_window, _get_level_metadata", "resistics/spectra.py")])
p("C16", "Evaluation-frequency spectra interpolate linearly between bins",
  "For every level, window and channel the value at an evaluation frequency between two bins is the linear interpolation (in frequency) of the two neighbouring bins, exactly the bin value at a bin, for the evaluation frequencies of that level. The level's metadata lists those frequencies and their number and keeps the window bookkeeping.",
  ["inputs", "configurations"], "all spectra with increasing bin frequencies, all evaluation frequencies inside their range", "Exact-bin, last-bin and one-frequency cases are not sampled by stable tests.",
  ["resistics/spectra.py"], [("EvaluationFreqs.run, _get_level_data, _get_level_metadata", "resistics/spectra.py"), ("DecimationParameters.get_eval_freqs", "resistics/decimate.py")])
p("C17", "Decimation to calibration stages leave inputs untouched and log once",
  "Decimating, windowing, Fourier transforming, reducing to evaluation frequencies, smoothing and calibrating leave their input object's data, metadata and history exactly as they were. Each result carries the input's history followed by exactly one new record naming the process, and the channels, position, times and channel metadata of the input.",
  ["inputs", "histories"], "all inputs and any sequence of stages applied to the same input", "Tests look at outputs only.",
  ["resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/calibrate.py"],
  [("Decimator.run, Windower.run, WindowerTarget.run", "resistics/decimate.py, resistics/window.py"), ("FourierTransform.run, EvaluationFreqs.run, SpectraSmoother*.run", "resistics/spectra.py"), ("SensorCalibrator.run", "resistics/calibrate.py")])
p("C18", "Sensor calibration divides each channel by its own interpolated response",
  "Calibrating divides, at every level, window and frequency, the spectra of each channel that is to be calibrated and has calibration data by magnitude*exp(i*phase), with magnitude and phase interpolated linearly at the level's own frequencies from that channel's calibration data (end values outside its range). All other channels are unchanged. Calibration data comes from the first configured reader that can provide it for the channel's sensor and serial.",
  ["inputs", "configurations"], "all spectra, channel selections, calibration tables and reader lists", "Stable calibration tests cover reading files; applying calibration to several levels and channels is not covered.",
  ["resistics/calibrate.py"], [("SensorCalibrator.run, _calibrate, _interpolate, _get_cal_data, _get_chans", "resistics/calibrate.py"), ("SensorCalibrationReader._get_path, run", "resistics/calibrate.py")])
p("C19", "Calibration text files are read completely, sorted and in radians",
  "Reading a sensor calibration text file yields every data row between the calibration data header and the first blank line (or the end), sorted by frequency, with phases converted to radians when the file says degrees and unchanged otherwise. Serial, sensor, static gain and units are those in the header, with defaults 1, empty, 1, mV/nT and radians when absent, and a file without a data header is refused.",
  ["inputs"], "all well-formed calibration text files", "The tests use a few fixed files in one layout.",
  ["resistics/calibrate.py"], [("SensorCalibrationTXT.read_calibration_data and its helpers", "resistics/calibrate.py")])
p("C20", "Selected windows are exactly those all sites have",
  "For every level common to all sites, a selection lists, sorted and each once, exactly the global windows for which every selected site has some measurement with that window at the requested sampling frequency, and names for each site a measurement that has it. The number of levels is the smallest over the sites of the largest over the site's measurements, and window counts, evaluation frequencies and measurement lists agree with the tables.",
  ["inputs", "configurations"], "all projects: any number of sites, measurements (overlapping, adjacent or apart) and levels", "Gathering is tested with one or two hand-made measurements and not by the stable tests.",
  ["resistics/gather.py"], [("Selector.run, get_site_wins, get_site_level_wins, get_site_evals_metadata", "resistics/gather.py"), ("Selection accessors", "resistics/gather.py")])
p("C21", "Gathered rows hold the same global window for every site and channel",
  "In gathered data for level l and frequency f, row r of the output, input and cross site data is the evaluation-frequency value of the r-th selected global window, for each requested channel in the requested order, taken from the measurement named by the selection at that window's local position. Every selected window appears in exactly one row and every row is filled; quick gathering takes all windows of the single measurement in order under the same keys.",
  ["inputs", "configurations"], "all selections with at least one shared window, all transfer function channel lists, same or different sites", "Row misalignment needs several measurements with different offsets; not covered by the stable tests.",
  ["resistics/gather.py"], [("ProjectGather.run, _populate_data, _get_indices, _get_empty_data", "resistics/gather.py"), ("QuickGather.run", "resistics/gather.py"), ("SpectraData.get_chans", "resistics/spectra.py")])
p("C22", "Regression equations encode the complex cross-power system",
  "For every evaluation frequency the regression input's observations and predictors are the real form of the equations out*conj(cross) = sum over inputs of Z*in*conj(cross), one complex equation per window and cross channel: for any complex coefficients Z, predictors times interleaved (real, imaginary) parts of Z equal the observations exactly when the complex equations hold. Equations appear in the same window and cross-channel order for all outputs and predictors, and frequencies are listed in order.",
  ["inputs", "configurations"], "all gathered or spectra data, any numbers of windows, output, input and cross channels", "A sign or interleaving slip shows only for particular channel counts or complex values.",
  ["resistics/regression.py"], [("RegressionPreparerGathered, RegressionPreparerSpectra: _get_cross_powers, _get_obs, _get_preds, _get_preds_win", "resistics/regression.py")])
p("C23", "Solutions map solver coefficients to the right tensor components",
  "Solving regression data puts the coefficients found for output o and input i at evaluation frequency f, real part first, into component (o, i) at f, for every output, input and frequency, with frequencies, transfer function and contributors kept. The tensor and component accessors return those same values, apparent resistivity is 0.2 * period * |component| squared, and tipper length is computed from the two tipper components.",
  ["inputs", "configurations"], "all transfer functions, numbers of frequencies and coefficient values returned by the estimator", "The estimator library is not installed here, and transposed or swapped components go unnoticed for symmetric test data.",
  ["resistics/regression.py", "resistics/transfunc.py"], [("SolverScikit._solve, _get_tensor, _get_solution", "resistics/regression.py"), ("Solution.get_tensor, get_component", "resistics/regression.py"), ("Component, get_component_key, ImpedanceTensor.get_resistivity, Tipper.get_length", "resistics/transfunc.py")])
p("C24", "Project queries return exactly the matching sites and measurements",
  "Asking a site for measurements or a project for sites at a sampling frequency returns exactly those recorded at it (all when none is given), the listed sampling frequencies are exactly those present, sorted and each once, and unknown names are refused. Concurrent sites of a site are exactly the other sites whose time range overlaps its own, touching included. When a project is loaded, a site's begin and end are the earliest first and latest last time of its measurements and the project's those of its sites.",
  ["inputs", "configurations"], "all projects with any sites, measurements, times and sampling frequencies", "Tests use one fixed project.",
  ["resistics/project.py", "resistics/letsgo.py"], [("Site.get_measurements, fs, get_measurement", "resistics/project.py"), ("Project.get_sites, fs, get_concurrent", "resistics/project.py"), ("ProjectLoader.run, _load_site", "resistics/letsgo.py")])
p("C25", "Writers never overwrite existing data when told not to",
  "With overwrite off, writing time, decimated, windowed or spectra data to a path that already exists raises an error and leaves everything there untouched. Writing never modifies the object being written (data, metadata or history), and when it succeeds both the data and the metadata are present in the directory, which is created with its parents if missing.",
  ["inputs", "histories"], "all data objects and target paths, existing or not, file or directory", "Tests of writers check only that something was written.",
  ["resistics/common.py", "resistics/time.py", "resistics/decimate.py", "resistics/window.py", "resistics/spectra.py"], [("ResisticsWriter._check_dir", "resistics/common.py"), ("TimeWriterNumpy, TimeWriterAscii, DecimatedDataWriter, WindowedDataWriter, SpectraDataWriter run", "resistics/*.py")])
p("C26", "Projects are never overwritten; loading uses the first reader that works",
  "Creating a project where a project file already exists raises an error and changes nothing there; otherwise all project subdirectories and the project file exist afterwards and existing content is kept. Loading gives one site per site directory and one measurement per measurement directory readable by some configured reader, read by the first configured reader that succeeds, and skips unreadable ones.",
  ["inputs", "configurations"], "all directory states, reader lists and measurement directories", "The stable tests do not create or load projects.",
  ["resistics/letsgo.py"], [("ProjectCreator.run, _make_subdirs, new", "resistics/letsgo.py"), ("ProjectLoader.run, _load_site, _load_measurement", "resistics/letsgo.py"), ("quick_read", "resistics/letsgo.py")])
p("C27", "Stored artefacts of different origin have different paths",
  "The storage paths for time, spectra, evaluation-frequency, feature and mask data and results lie under the project directory and differ whenever the kind, site, measurement or configuration (each a plain name) differs. A solution's file name is determined by sampling frequency, transfer function, variation and postfix in such a way that saving and later loading with the same arguments refer to the same file.",
  ["inputs", "configurations"], "all plain site, measurement and configuration names, sampling frequencies, variations and postfixes", "Tests compare a few literal paths.",
  ["resistics/project.py", "resistics/letsgo.py", "resistics/common.py"], [("get_meas_time_path, get_meas_spectra_path, get_meas_evals_path, get_meas_features_path, get_mask_path, get_results_path", "resistics/project.py"), ("get_solution_name, fs_to_string", "resistics/project.py, resistics/common.py"), ("process_evals_to_tf, get_solution", "resistics/letsgo.py")])
p("C28", "Processes and transfer functions rebuild from dictionaries",
  "Validating a dictionary with the name of a known process or transfer function gives an instance of exactly that class with exactly the given parameters (defaults elsewhere); an instance is returned as it is. The caller's dictionary is left unchanged, so it can be used again. Unknown names, missing names and values of other types are refused.",
  ["inputs", "histories"], "all process and transfer function classes and parameter dictionaries, used any number of times", "Tests validate one process once.",
  ["resistics/common.py", "resistics/transfunc.py"], [("ResisticsProcess.validate, validate_name, __init_subclass__", "resistics/common.py"), ("TransferFunction.validate and validators", "resistics/transfunc.py")])
p("C29", "Access by channel, level or frequency returns exactly what was asked",
  "For time and spectra data, getting a channel by name returns that channel's row, getting several returns them in the order asked, setting a channel changes that channel and no other, and unknown channels are refused, as are levels beyond those present and frequency indices out of range. Electric and magnetic channel queries return exactly the channels of that type in channel order, and a copy of time data equals the original and is independent of it.",
  ["inputs"], "all data objects with distinct channel names in any order", "Tests use one channel order.",
  ["resistics/time.py", "resistics/spectra.py", "resistics/decimate.py", "resistics/common.py"], [("TimeData.get_chan, set_chan, get_chan_index, copy", "resistics/time.py"), ("SpectraData.get_chan, get_chans, get_level, get_freq", "resistics/spectra.py"), ("TimeMetadata channel queries", "resistics/time.py"), ("DecimatedData.get_level", "resistics/decimate.py")])
p("C30", "Robust weights are the documented functions of the residuals",
  "For non-negative residuals r, Huber weights are 1 up to the threshold and threshold/r above it, trimmed-mean weights are 1 up to the threshold and 0 above, and bisquare weights are (1 - min(1, r/k)^2)^2; each residual's weight depends on that residual only. The iteratively reweighted solver returns the coefficients of the last fit, having used for each fit the weights from the scaled absolute residuals of the previous one.",
  ["inputs"], "all residual vectors and thresholds", "Not tested; the estimator library is absent.",
  ["resistics/regression.py"], [("SolverScikitWLS.huber, bisquare, trimmed_mean, _get_coef", "resistics/regression.py")])
p("C31", "Written data reads back equal",
  "Writing time, decimated, windowed or spectra data in the binary format and reading it back gives the same data at every level and the same metadata (times to full resolution, sampling frequencies, channels, level tables, position and channel metadata), with the original history followed by the write and read records. ASCII time data written by hand in the documented layout reads back to the written precision.",
  ["inputs"], "all data objects", "Round trips are tested for single small objects and not by the stable tests.",
  ["resistics/time.py", "resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/sampling.py"], [("writers and readers", "resistics/*.py"), ("datetime_to_string, datetime_from_string", "resistics/sampling.py")])
p("C32", "The one-line pipelines are the documented sequence of stages",
  "Processing a measurement to a transfer function, to spectra or to stored evaluation-frequency data runs the configured time processors in order, then decimation with parameters for the processed data's sampling frequency, windowing from the first time of the recording (quick processing) or the project's reference time, Fourier transform, spectra processors, evaluation frequencies, calibration where applicable, gathering, regression preparation and solving, each stage on the previous one's result. Each stage and its parameters are those of the given configuration and results are stored under the measurement's own site, name and configuration.",
  ["configurations", "inputs"], "all configurations, measurements and stage implementations", "Only end-to-end examples with the default configuration exist, and not among the stable tests.",
  ["resistics/letsgo.py"], [("quick_tf, quick_spectra, process_time, process_time_to_evals, process_evals_to_tf, run_* helpers", "resistics/letsgo.py")])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
