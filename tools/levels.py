TECH = "contract-based deductive verification of the real source (pyvc weakest-precondition style symbolic execution with loop invariants, z3/cvc5), contracts also run on the real code for replay"
NA = {}
TAIL = " Floats are real arithmetic in the proofs; library contracts (pyvc/libs) are assumed and cross-checked by seeded cases on the real code."
def proof(note, **kw):
    return dict(level="proof", note=note + TAIL, **kw)
LEVELS = {
 "C01": proof("Discharged for all sampling frequencies, start times, lengths and query times."),
 "C02": proof("Discharged for every recording, sample, pair and array of samples; decimated levels for any level table."),
 "C03": proof("Numpy and text recordings of any size asked by time, sample or not at all, and subsections; callers of the time conversions are checked against their contracts, proved for C01."),
 "C04": proof("Frame and history contracts of every time process, for any number of channels and samples; user functions in ApplyFunction assumed pure."),
 "C05": proof("Shape, channel, fs and time metadata of every time process, for any number of channels and samples."),
 "C06": proof("Every cell of the result, for any channels, samples and parameters."),
 "C07": proof("Every cell of the result for any channels and samples; np.interp through its contract."),
 "C08": proof("All factors and maximum single factors: prime factorisation (loop invariants: product so far times what is left is the number, no divisor below the trial divisor), grouping, and the steps applied; filters for all sampling frequencies, cut-offs and orders. Termination of the while loops trusted."),
 "C09": proof("All sampling frequencies, numbers and minimum frequencies; termination of the while loop trusted."),
 "C10": proof("All levels and all non-increasing frequency tables, with an inductive invariant for the factor loop; termination of the while loop trusted."),
 "C11": proof("Any recording, increments and level counts (at least one level produced), by a chain of recordings in which Resample.run and Decimate.run are functions of the recording and their arguments (their own contracts: C05, C08)."),
 "C12": proof("Any level on the grid: start, period, length, window and overlap sizes (overlap below the window size, fewer than 10^14 sample periods from the reference time); the search for the last window by loop invariants. Times for whole-nanosecond periods."),
 "C13": proof("Any levels, channels, windows, sizes and parameters (windows larger than a positive overlap, at least one level windowed); window tables through their contract (C12)."),
 "C14": proof("All level tables and parameters."),
 "C15": proof("Any levels, channels, windows and bins; FFT, detrend and window functions through their contracts (each row on its own)."),
 "C16": proof("Any levels, windows, channels and frequencies; np.interp through its contract."),
 "C17": proof("Every stage on any input: Decimator (either way), Windower, WindowerTarget, FourierTransform, EvaluationFreqs, both smoothers, SensorCalibrator."),
 "C18": proof("Any levels, channels, calibration tables, channels asked for (once each) and readers failing in any of their ways; readers' file names for names without the placeholder character, for three templates with and without an extension."),
 "C20": proof("Any sites, measurements (overlapping, adjacent or apart), levels, windows and requested names; pandas tables through their contract; window numbers within 64 bits."),
 "C22": proof("Any numbers of windows, output, input and cross channels (cross channels among the data's), levels and frequencies; gathered and spectra data."),
 "C23": proof("Any transfer function whose component keys differ (precondition), numbers of frequencies and coefficients; each of the five solvers; estimators are functions of the equations they are fitted to."),
 "C24": proof("Projects with any sites and measurements; loading for any directory contents, each measurement's reading through its contract (C26)."),
 "C25": proof("All writers and the readers' refusals, for any initial directory state, object and overwrite setting; file systems through their contract (plain names, no file where a directory has to be)."),
 "C26": proof("Any directory state, readers and measurement directories. Plain names, nothing but directories under the names of the project subdirectories (precondition)."),
 "C31": proof("Any time, decimated, windowed or spectra data (time data of at least two samples), written into any directory state and read back: every cell of every level, every metadata field, the history. JSON, npy and npz files through their contracts; text recordings with any header and delimiter."),
 "C32": proof("Any configuration with any number of readers and processors, every stage an arbitrary deterministic function of its arguments (its own contract is elsewhere)."),
 "C27": proof("Any project directory, plain names, sampling frequencies and transfer functions; names without path separators (precondition)."),
 "C28": proof("Every process and transfer function class of the package (the classes are read from the current source), with arbitrary legal values for any selection of its plain parameters; pydantic through its contract."),
 "C29": proof("All objects and requests; channel, level and frequency access of time and spectra data."),
 "C30": proof("Weight functions, and the reweighting loop for any number of iterations; regressions through their contract."),
}
BOUNDED = "bounded stand-in only so far, not proved: seeded random cases of the property's postconditions on the real code"
PARTLY = {
 "C21": "Discharged: quick gathering; of project gathering the sites and channels of each role, the shape and keys of the arrays, and the rows and windows of each measurement (_get_indices). Not proved, bounded stand-in (seeded random selections on the real code): filling the arrays measurement by measurement and the combined metadata (_populate_data, _get_site_data).",
}
for _i in range(1, 33):
    _p = "C%02d" % _i
    LEVELS.setdefault(_p, dict(level="exploration", note=PARTLY.get(_p, BOUNDED)))
