# what decides each property: specification, oracle, preconditions, what stays assumed or bounded
B = "Bounded stand-in: "
TEXT = {
"C01": """The postcondition is the definition of "first sample at or after" over exact real seconds: for any F, fs>0, n>=1 and
time t, `from_time_to_sample` returns k with F+k/fs >= t > F+(k-1)/fs (clamped), and so on. Precondition: the period 1/fs is exactly
representable as attotimedelta. Tests sample a handful of rates; the proof covers all of them, including times on samples and both
ends. The floating point rounding ("closer than double precision resolves") is outside real arithmetic and is exercised by the
harness on the real code (that is how fix bfaecd4 was found).""",
"C02": """All five ways of asking (single, pair, all, chosen, decimated timestamps) are given the same postcondition F+k/fs. pandas
`Timestamp`/`DatetimeIndex` arithmetic is an assumed contract (whole nanoseconds).""",
"C03": """Readers are verified through the file system contract: any directory whose `metadata.json`/data files describe n samples of m
channels; every (from,to) request, as times, samples or none. Time conversions are met through C01's contracts (`callee`). Numpy files
and text files of any size; `np.loadtxt` and `np.load(mmap)` are assumed contracts.""",
"C04": """Frame: a snapshot of everything reachable from the input is unchanged at exit; separation: nothing reachable from the result
is reachable (mutably) from the input; history: the result's records are the input's then one with the class name. For all processes
of time.py, every parameter shape.""",
"C05": """Shape/metadata agreement as postcondition of every process, with the process's own fs/first-time law.""",
"C06": """Cell postcondition for each channel and sample, with the per-channel table of constants/factors/functions of any size.""",
"C07": """Cell postconditions with the neighbouring indices as witnesses; `np.interp` by contract (linear between neighbours, ends held).""",
"C08": """Filters: order, band edges (fractions of Nyquist of the data's own rate) and refusal for every fs and cut-off; the scipy design
and `sosfiltfilt` are uninterpreted functions of exactly those arguments, so a wrong edge, order or axis changes the term.
Decimation steps: ghost folds over the lists built (product; every element prime) and invariants given by the contract for the loops met:
product so far times what is left is the number; what is left has no divisor below the trial divisor; grouped product times the group in
progress is the prefix product; length left times the product so far brackets the original length. The number theory used (an uninterpreted
`without(n, b)`: no divisor of n in [2, b)) is instantiated from lemmas that are themselves obligations ("lemmas on divisors"). Each of
`_prime_factorisation`, `_get_downsample_factors` and `run` is proved through the contract of the one below.""",
"C09": """Ladder term fs/4/2^(k/2) by an inductive invariant; count and minimum-frequency variants.""",
"C10": """Inductive invariant for the factor loop (largest admissible power), products of increments, access functions and refusals.""",
"C11": """The statement's chain of recordings is a ghost function of the level (recording before level 0 given, recording after level l by its
own increment, or the same for an increment of one); the loop invariant says the carried recording is the chain's (a family member carried by
its index). Every level's cells, table entry and times are those of the chain; levels stop at the first one too short and nowhere else.""",
"C12": """Offsets and periods are integers of sample periods d, s, w, n; the table's rows are proved to be exactly the g with
g*s >= d and g*s + w <= d + n (nonlinear integer arithmetic), each row's numbers and times as stated. `datetime_to_win` and `to_n_samples`
are proved separately for times on the grid (floor and ceiling, including the closeness tolerance) and met through those contracts.
The adjustment loop of the last window: affine carried variables, exit at the first window that fits, and the loop's bound is enough.""",
"C13": """`get_win_table` is met through C12's contract as uninterpreted row count, first window and first sample with the fit within the
level; `sliding_window_view` is a view of the level's cells. Cell postcondition for every level, window, channel and sample; the level at
which windowing stops has too few windows and none before has. Accessors on arbitrary windowed data.""",
"C14": """Sizes for every level as a function of its sampling frequency; user sizes; refusals; one entry per level.""",
"C15": """rfft, detrend, window functions and scipy's padding are functions of one row; the postcondition says which row, which
window, which length. Metadata as terms of the level's own fs.""",
"C16": """`np.interp`-style interpolation contract at each level, window, channel and frequency.""",
"C17": """Frame: a snapshot of everything reachable from the input and the other arguments is unchanged; the result's history is the input's
records and one more naming the process; channels, times, position and channel metadata are the input's. Each stage on arbitrary inputs of
its kind, with the level loop's own invariants.""",
"C18": """Calibration data is a family (any number of tables of any length); which channel has which is arbitrary, `_get_cal_data` being met
through its contract (first reader that succeeds, proved separately for any readers). Cell postcondition on every level, window, channel and
frequency: the nested loop over channels and levels writes at varying positions, so the last writer of each cell is found (scatter rule) and
shown to be the channel's own iteration.""",
"C19": B + "generated calibration files (every header combination, blank lines, orders) through the real reader.",
"C20": """Five functions, each against its own contract. `get_site_evals_metadata`: a measurement is used exactly when it was recorded at
the frequency and its spectra can be read (any reader outcome per path). `get_site_level_wins`: labels strictly increasing, a label exactly
for the windows of the measurements with that level, each naming a measurement that has it. `get_site_wins`: as many levels as the
measurement with most. `Selector.run` with the tables of the sites an arbitrary function of site and level: a row exactly for the windows
every requested site has (labels within 64 bits), sorted, each once, every cell a measurement having the window, as many levels as the site
with least, sites sorted and once each, every evaluation frequency used. Selection accessors for arbitrary tables and choices of windows.
pandas (series under labels, append, duplicated, sort_index, alignment and dropna, boolean rows) through its contract in `pyvc/libs/pandas_.py`.""",
"C21": """Quick gathering: nested loops insert arrays under integer keys, found again by part and position (per_level*l + i, with no level having more
frequencies than per_level: precondition, as evaluation data has). Of project gathering: `run` (each role's site, its default and its channels), `_get_empty_data` (an array per
evaluation frequency under the key of level and frequency, a row per window) and `_get_indices` (for any table: rows exactly those naming the
measurement, each with the window's number counted from the measurement's first). Filling the arrays (`_populate_data`, `_get_site_data`): bounded stand-in, """ + "random selections through ProjectGather/QuickGather, each row compared with the measurement's data.",
"C22": """Row 2(w*n_cross + c) and the one after it are the real and imaginary part of the equation of window w and cross channel c: stated for an
arbitrary window, cross channel, output and input of an arbitrary frequency as polynomial identities in the real and imaginary parts (the
expansion of Z*in*conj(cross)). For spectra data the equations of level l, frequency i are at position start(l)+i, start being the running
total of the numbers of frequencies (a list appended to by nested loops).""",
"C23": """Regression input: uninterpreted observations and predictors. `_get_coef` is met as a function of the equations it is given (they must be
those of one frequency and output, all rows), and is itself under contract for each solver (one fit, those coefficients; reweighting in C30).
Nested loops write the tensor by blocks and the components by parts; the key of a pair is found again only for that pair (precondition:
component keys differ, as they do for any real channel names). Accessors on arbitrary solutions.""",
"C24": """Sites and measurements are families of any size. `fs()` through sets with positions (each value has a unique place in the listing);
`Project.fs` meets the contract of `Site.fs`. Loading: begin/end as minimum/maximum with witnesses.""",
"C25": """Initial directory state arbitrary; with overwriting off and an existing path, WriteError and no file system event at all. Otherwise
data and metadata files exist in the (created) directory; for the text writer one file per channel for any number of channels, by a
loop over a family whose members are written to. The object written is unchanged (snapshot), including its channel metadata.""",
"C26": """The file system is an unknown initial state plus the writes of the run (`pyvc/libs/fs.py`). Creating: refusal without any
event; otherwise final kinds of all subdirectories and the project file, and every other path that existed keeps its kind and contents.
Loading: for an arbitrary name, a measurement/site exists iff the directory does and is readable; reader choice by the first that
succeeds, readers failing in any of their ways.""",
"C27": """Paths are sequences of codes with injective join; two artefacts differing in kind or any name have different paths; a saved
solution is found under the same arguments.""",
"C28": """For every class found in the current source: `validate` of a dictionary with any subset of its plain parameters set to arbitrary
legal values gives exactly that class with exactly those parameters; the dictionary is unchanged.""",
"C29": """Accessor postconditions on cells; refusals; copies equal and separate.""",
"C30": """Weight functions cell by cell; the reweighting loop with the recurrence of fits and weights for any number of iterations.""",
"C31": """The real writer and then the real reader run over one file system: what is written (arrays, json trees with keys turned to text and
times to the documented format) is what is read. Any initial state of the directory without a file in its place. Every field of the
metadata, every record and every cell is compared; text recordings with any header length and delimiter are given as files. The formats'
own fidelity (json numbers, npy, npz, strptime after strftime in full) is assumed and exercised by the harness on real files.""",
"C32": """Every stage is an uninterpreted function of its (identified) arguments; the result is the term the documentation describes. A stage
left out, out of order or given another parameter gives a different term.""",
}
