"""Writes properties.jsonl (kept as a program only so that the text is readable and diffable)."""
import json, pathlib
R = "resistics/"
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=R + b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

p("C01", "Sample numbers and times convert into each other without drift",
  "For any recording (first time, sampling frequency, number of samples), the time of sample i is exactly i sample periods after the first sample, and asking which sample a time belongs to returns i for that time whether it is used as a start or as an end; a start time between two samples selects the later one and an end time between two samples the earlier one. Times outside the recording are clipped to its first/last sample, and a start after the end of the recording, an end before its beginning, or a sample number outside it is refused with an error. The number of samples of a duration counts both ends, and the array form of the conversion agrees with the scalar form.",
  ["inputs"], "all first times, sampling frequencies, sample numbers and query times (on, between and outside the samples)",
  "test_sampling has a few hand-picked times and frequencies, all of which happen to be exactly representable; float rounding of seconds*fs only shows at other combinations (e.g. sample 29 at 100 Hz).",
  ["sampling.py"], [("to_n_samples / from_time_to_sample / to_time_to_sample / check_from_time / check_to_time", "sampling.py"), ("sample_to_datetime, datetime_array", "sampling.py")],
  ["resistics.sampling functions' return values and exceptions"])

p("C02", "Partial reads and subsections return exactly the requested samples",
  "Reading a stored recording between two times or two sample numbers, or taking a subsection of recording in memory, returns for every channel exactly the samples in that closed range, in order, with a first time, last time, number of samples and sampling frequency that describe exactly the returned samples; a time limit takes precedence over a sample limit, limits outside the recording are clipped (times) or refused (samples), and a range that is empty or holds a single sample is refused. Composing reads equals reading the intersection, and reading without limits returns the whole recording.",
  ["inputs", "histories"], "all recordings, limits and chains of reads/subsections",
  "tests read a handful of ranges from one small recording; off-by-one at range ends, header offset, metadata/data disagreement and chained subsections are not sampled.",
  ["time.py"], [("TimeReader.run and its sample limits", "time.py"), ("TimeReaderNumpy/TimeReaderAscii.read_data", "time.py"), ("Subsection", "time.py"), ("adjust_time_metadata", "time.py")],
  ["TimeReader.run(...), Subsection.run(...), TimeData.subsection(...)"])

p("C03", "Saved data products read back unchanged",
  "A recording, decimated recording, windowed recording or spectra written to a directory and read back has identical sample values (type and shape included) for every channel, window, frequency and level, and identical descriptive metadata: timing to ten attoseconds (the resolution of the time arithmetic), channels and channel details, levels, offsets, frequencies, reference time and location. Reading only the metadata gives the same metadata as reading everything, and two different products written to different directories never affect each other.",
  ["inputs"], "all data products: any channels, number of levels, times, dtypes",
  "tests round-trip one small product per type and compare few metadata fields.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "common.py", "sampling.py"],
  [("TimeWriterNumpy/TimeReaderNumpy", "time.py"), ("DecimatedDataWriter/Reader", "decimate.py"), ("WindowedDataWriter/Reader", "window.py"), ("SpectraDataWriter/Reader", "spectra.py")],
  ["writer.run(dir, data); reader.run(dir); reader.run(dir, metadata_only=True)"])

p("C04", "Processing steps and writers never alter their input",
  "Running any processing step or writer leaves the data and metadata objects it was given exactly as they were: values, timing, channels, channel details and processing history. Running the same step again on the same input therefore gives the same output, and any number of steps can branch from one input without influencing each other.",
  ["histories", "programs"], "all sequences and branchings of processing steps over a set of data objects",
  "tests look at the output of single step runs and do not compare the input before and after; aliasing shows only when an input is reused.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py", "regression.py"],
  [("new_time_data, metadata copies in each process", "time.py"), ("Decimator.run", "decimate.py"), ("Windower.run", "window.py"), ("FourierTransform.run, EvaluationFreqs.run, writers", "spectra.py"), ("SensorCalibrator.run", "calibrate.py")],
  ["inputs of every public run(...) compared before and after"])

p("C05", "Every step adds exactly one truthful record to the processing history",
  "The processing history of a step's output is the history of its input followed by exactly one new record, which names the step that ran with the parameter values it ran with; earlier records are never changed, reordered or dropped. This holds along any chain of steps, including writing to disk (the writer's record is stored) and reading back (the reader's record is appended), up to and including transfer function solution, whose own history starts at regression preparation and which keeps the histories of the contributing data alongside.",
  ["histories", "programs"], "all chains of processing, write and read steps with all parameter values",
  "tests check histories of at most one step, never along chains or across write/read.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "regression.py"],
  [("History.add_record, get_record, ResisticsProcess._get_record", "common.py"), ("history handling in each run()", "time.py")],
  ["metadata.history.records of every output"], [("history", "append-only list of records", R + "common.py History")])

p("C06", "Decimation plan keeps every evaluation frequency resolvable",
  "For every sampling frequency and set-up the decimation plan lists, for each level, the same number of evaluation frequencies in the order given (by default falling from a quarter of the sampling frequency by half an octave at a time), and each level's cumulative factor is the largest power of the division factor that keeps the level's sampling frequency at least four times its highest evaluation frequency (no decimation when none does), for evaluation frequencies that do not rise from one level to the next. Level sampling frequency equals recording frequency divided by the cumulative factor, and cumulative factors are the running product of the incremental factors; evaluation frequencies above Nyquist, a wrong number of them, and out-of-range levels or indices are refused.",
  ["configurations", "inputs"], "all sampling frequencies, numbers of levels/frequencies, division factors and user-given evaluation frequencies",
  "tests compare a few literal parameter sets.",
  ["decimate.py"], [("DecimationSetup.run", "decimate.py"), ("DecimationParameters accessors", "decimate.py"), ("get_eval_freqs", "decimate.py")],
  ["DecimationSetup(...).run(fs) and the accessors of its result"])

p("C07", "Decimated levels follow the plan and stop cleanly at the minimum length",
  "Decimating a recording yields levels 0..k-1 without gaps where level j is obtained from level j-1 by its incremental factor (a factor of one leaves the data unchanged), starts at the recording's first time, has sampling frequency recording frequency / cumulative factor, and whose reported number of samples and last time describe the data actually present. Levels stop at the first one whose length would fall below the configured minimum and no later level is produced; channels keep their order, and a channel's decimated values depend only on that channel.",
  ["inputs", "configurations"], "all recordings (length, channels, frequency) and decimation plans",
  "tests decimate one or two synthetic recordings with fixed plans.",
  ["decimate.py", "time.py"], [("Decimator.run", "decimate.py"), ("Resample / Decimate", "time.py")],
  ["Decimator.run(dec_params, time_data): data, metadata, levels metadata"])

p("C08", "Windows lie inside the recording, tile it without gaps and none is missing",
  "For any reference time not after the start of the recording, window g of a level starts exactly g window increments (size minus overlap) after the reference time; the windows produced are precisely those that lie fully inside the level's data, numbered consecutively. The content of each window, for every channel, is exactly the consecutive samples the window covers, from the sample at (or immediately before) the window's start, so that neighbouring windows share exactly the overlap; windows can be fetched by position or by global number with the same result and numbers outside the range are refused. A level with fewer windows than the configured minimum ends windowing: it and all later levels are absent.",
  ["inputs", "configurations"], "all level lengths, sampling frequencies, window/overlap sizes, reference time offsets, channel counts",
  "tests use a few fixed tables; first/last window rounding and adjustment, single-channel or single-window levels and global access are not covered.",
  ["window.py"], [("get_first_and_last_win, get_win_table", "window.py"), ("Windower.run", "window.py"), ("WindowedData.get_local/get_global", "window.py")],
  ["get_win_table(...), Windower.run(...), WindowedData accessors"])

p("C09", "Equal global window numbers mean the same absolute time in all recordings",
  "Two recordings windowed with the same reference time, sampling frequency and window/overlap sizes give the same absolute start and end time to equal global window numbers, whatever the start times and lengths of the recordings, at every decimation level and through the spectra step; the reported timestamp of any window is the reference time plus its global number times the increment. Where both recordings sampled the same signal, windows with equal numbers hold identical values.",
  ["inputs", "histories"], "all pairs of recordings and all reference times",
  "tests window one recording at a time.",
  ["window.py", "spectra.py"], [("reference-time based numbering, index offset", "window.py"), ("get_win_starts, SpectraData.get_timestamps", "spectra.py")],
  ["get_win_table, WindowedData, SpectraData.get_timestamps, metadata.ref_time"])

p("C10", "Window sizes and overlaps follow the set-up at every level",
  "Default window size at a level is the whole-number quotient of the level's sampling frequency by the window factor but never below the minimum size, and the default overlap is the given proportion of the window size rounded down but never below the minimum overlap; explicitly given sizes or overlaps are used as they are, in level order, surplus entries are dropped and too few are refused. The target-count variant instead sizes windows from the data length, the target count and the overlap proportion, not below its minimum size, and the resulting windows are described truthfully by the metadata of every level.",
  ["configurations"], "all set-ups, numbers of levels and level frequencies",
  "tests try a few literal set-ups.",
  ["window.py"], [("WindowSetup.run", "window.py"), ("WindowerTarget", "window.py"), ("WindowParameters accessors", "window.py")],
  ["WindowSetup(...).run(n_levels, dec_fs), WindowerTarget.run(...) results"])

p("C11", "Spectra are computed per window and channel on the right frequency axis",
  "The spectrum of a window and channel depends only on the samples of that window and channel and is linear in them; it is the tapered, optionally detrended, zero padded, orthonormally scaled real Fourier transform, whose frequency axis runs from zero to Nyquist of the level's sampling frequency with one value per frequency. Level order, window numbers, window and overlap sizes, global offsets, reference time and channel order are carried over from the windowed data unchanged.",
  ["inputs"], "all windowed data (levels, windows, channels, sizes) and taper/detrend settings",
  "tests transform one or two small arrays.",
  ["spectra.py"], [("FourierTransform.run", "spectra.py")], ["FourierTransform(...).run(win_data)"])

p("C12", "Evaluation-frequency values interpolate the right spectra bins at each level",
  "Reducing spectra to evaluation frequencies yields at each level exactly the plan's frequencies for that level in plan order, and each value is the linear interpolation, in both real and imaginary part, between the two neighbouring spectral bins of the same window, channel and level (the bin itself when the frequency coincides with it, the end bin beyond the range). Window numbering, offsets, channels, timing and location are unchanged.",
  ["inputs", "configurations"], "all spectra (levels, windows, channels, frequency axes) and evaluation frequencies",
  "tests check one synthetic level; mixing of levels, channels, windows or order is not sampled.",
  ["spectra.py", "decimate.py"], [("EvaluationFreqs.run", "spectra.py"), ("DecimationParameters.get_eval_freqs", "decimate.py")],
  ["EvaluationFreqs().run(dec_params, spec_data)"])

p("C13", "Sensor calibration divides exactly the right channels by their response",
  "Calibrating spectra divides each selected channel for which calibration data is found by the complex response (magnitude and phase in radians linearly interpolated to each frequency, held constant outside the calibrated range), at every level, window and frequency; channels not selected and channels without readable calibration data keep their values exactly. The calibration file belongs to the channel's own sensor and serial number, readers are tried in the configured order and the first that succeeds is used, and a missing or broken file never aborts the calibration of the others.",
  ["inputs", "configurations", "fault_sequences"], "all spectra shapes, channel selections, reader lists, present/missing/broken calibration files",
  "tests calibrate with one reader and one file; fallbacks, faults, multi-level and single-frequency data are not covered.",
  ["calibrate.py"], [("SensorCalibrator.run", "calibrate.py"), ("SensorCalibrationReader file lookup", "calibrate.py")],
  ["SensorCalibrator(...).run(dir_path, spec_data)"])

p("C14", "Selected windows are exactly those available at every site",
  "For each decimation level present at all requested sites, the selection holds exactly the global windows for which every site has evaluation data (of the requested configuration and sampling frequency) in at least one measurement, each once and in increasing order, and attributes each window at each site to one measurement that really contains it: the first one listed when measurements overlap. Order and repetition of the requested sites do not matter; a site with no evaluation data at the sampling frequency is refused, and measurements without readable evaluation data are left out.",
  ["inputs", "histories"], "all sets of sites and measurements with any (overlapping, nested, disjoint) window ranges, levels and configurations",
  "tests (which need scikit-learn, absent from the stable set) cover one small project; overlap and level combinations are combinatorial.",
  ["gather.py", "project.py"], [("get_site_evals_metadata, get_site_level_wins, get_site_wins", "gather.py"), ("Selector.run, Selection accessors", "gather.py")],
  ["Selector().run(...) tables and Selection accessors"])

p("C15", "Gathered rows are simultaneous and come from the right place",
  "In gathered data, row i at evaluation frequency k of the output, input and cross parts all refer to the same selected global window, and each value is that window's spectral value at frequency k for the named channel, from the measurement the selection attributes the window to at the part's site. The input site defaults to the output site and the cross site to the input site; channels appear in transfer-function order, frequencies in level order, and the recorded histories and measurement names are those of the contributing measurements.",
  ["inputs", "histories"], "all projects, selections, transfer functions and site roles",
  "needs multi-site, multi-measurement, multi-level projects; wrong row/channel/frequency pairings give plausible numbers.",
  ["gather.py"], [("ProjectGather.run", "gather.py"), ("QuickGather.run", "gather.py")],
  ["ProjectGather().run(...), QuickGather().run(...)"])

p("C16", "The regression system is the complex linear relation, equation by equation",
  "For every evaluation frequency and output channel the real equations prepared for the solver are exactly the real and imaginary parts of: output times conjugate cross = sum over inputs of transfer-function value times input times conjugate cross, one complex equation per window and cross channel, with unknowns ordered by input channel as real, imaginary. Frequencies keep their order and the same predictors are used for all the output channels.",
  ["inputs"], "all spectra values, transfer-function shapes (outputs, inputs, cross channels), numbers of windows and frequencies",
  "a sign or ordering error that also swaps consistently can pass an example; tests use few numbers and need scikit-learn.",
  ["regression.py"], [("RegressionPreparerSpectra", "regression.py"), ("RegressionPreparerGathered", "regression.py")],
  ["RegressionInputData.get_inputs / freqs / obs / preds"])

p("C17", "Data generated by a transfer function is solved back to it, correctly labelled",
  "When the prepared data is exactly consistent with a transfer function, the solution's value for each output/input pair and frequency is that function's value; components are labelled by output then input channel, tensors have outputs as rows and inputs as columns in transfer-function order, and frequencies are paired with their own values. The solution carries the transfer function, the contributing data descriptions and the processing history it was computed from.",
  ["inputs"], "all transfer functions, channel sets, numbers of frequencies and solvers",
  "tests of solvers are not in the stable set and check one function.",
  ["regression.py", "transfunc.py"], [("SolverScikit._solve and sub-classes", "regression.py"), ("Solution.get_component/get_tensor", "regression.py"), ("Component", "transfunc.py")],
  ["Solver.run(regression_data): Solution"])

p("C18", "Saved solutions are found again at their address and never mixed up",
  "A transfer function solution computed for an output site, configuration, sampling frequency, transfer function and postfix can be read back by the same address and equals the last one computed there; computing a solution for a different site, configuration, sampling frequency, transfer function or postfix never changes it. Asking for an address with no solution is an error.",
  ["histories", "configurations"], "all sequences of computing and fetching solutions over addresses",
  "tests never store more than one solution in a project.",
  ["letsgo.py", "project.py", "regression.py"], [("process_evals_to_tf, get_solution", "letsgo.py"), ("get_results_path, get_solution_name", "project.py")],
  ["process_evals_to_tf(...), get_solution(...), files below results/"])

p("C19", "Projects are created without destroying anything and loaded completely",
  "Creating a project makes the project file and every data folder, is refused where a project already exists, and never removes or changes files already there. Loading is refused when the project file or any data folder is missing; otherwise it finds every site folder and every measurement folder that some configured reader can read, using the first such reader in configuration order, skipping unreadable ones, and reports times and metadata as stored; loading changes nothing on disk and loading again after changes reflects them.",
  ["histories", "configurations", "fault_sequences"], "all sequences of create, external changes to folders, load and reload, with any missing or corrupt pieces",
  "tests create and load one well-formed project.",
  ["letsgo.py", "project.py", "common.py"], [("ProjectCreator.run / new", "letsgo.py"), ("ProjectLoader.run / load / reload", "letsgo.py")],
  ["new(...), load(...), reload(...), directory contents"])

p("C20", "Project queries reflect the measurements it holds",
  "Listing sampling frequencies gives the sorted distinct frequencies of the measurements; restricting sites or measurements to a sampling frequency returns exactly those having it; the sites concurrent to a site are exactly the other sites whose time range shares at least one instant with it; a site's range runs from the earliest first to the latest last time of its measurements, and the project's over the sites that have measurements. Unknown site or measurement names are refused.",
  ["inputs"], "all projects: sites, measurements, time ranges and sampling frequencies",
  "tests query one or two small projects; boundary cases (touching, nested ranges) are not sampled.",
  ["project.py", "letsgo.py"], [("Project/Site queries", "project.py"), ("ProjectLoader times", "letsgo.py")],
  ["Project.fs/get_sites/get_concurrent, Site.fs/get_measurements, begin/end times"])

p("C21", "Processing writes only to its own address",
  "Processing a measurement into evaluation-frequency data changes only the folder belonging to that site, configuration and measurement; saving processed time data changes only the target site's measurement folder; computing a transfer function changes only the results folder of the output site and configuration. Source recordings, calibration files and all other sites', measurements' and configurations' outputs stay byte for byte as they were, and repeating a step replaces its own output with the same values.",
  ["histories", "configurations"], "all sequences of processing steps over sites, measurements and configurations",
  "tests run single steps and look at the one expected output.",
  ["letsgo.py", "project.py"], [("process_time, process_time_to_evals, process_evals_to_tf", "letsgo.py"), ("path helpers", "project.py")],
  ["digest of the project tree before and after each step"])

p("C22", "Processing runs the configured steps once each, in the configured order",
  "Processing a measurement applies, in this order and once each: reader, time processors in list order, decimation, windowing, Fourier transform, spectra processors in list order, evaluation frequencies and sensor calibration, each as configured, with windows numbered from the project's reference time (from the recording's own first time in quick processing). The result equals running those steps by hand, quick reading uses the first configured reader that can read the folder and fails if none can, and requested time limits restrict what is read. Quick spectra stop at the Fourier transform, quick processing calibrates only when it is given calibration data, and a step that fails stops the processing with nothing stored.",
  ["configurations", "programs"], "all configurations (lists of readers, processors, parameters) and entry points",
  "tests use the default configuration on few data; order only matters for non-commuting processors.",
  ["letsgo.py", "config.py"], [("run_* functions, quick_read/quick_spectra/quick_tf, process_time(_to_evals)", "letsgo.py"), ("Configuration", "config.py")],
  ["history records and values of the outputs of each entry point"])

p("C23", "Processes, transfer functions and configurations survive serialisation",
  "Turning any process, transfer function or configuration into a dictionary or JSON and building it again gives an object of the same concrete type with the same parameter values and the same behaviour; nested lists of processes keep order and types. Building from a dictionary never modifies the dictionary (so it can be used again), user-defined subclasses are found by their name, and a dictionary with no name or an unknown name is refused. Cross channels default to the input channels.",
  ["inputs", "configurations"], "all processes and parameter values, transfer functions, configurations",
  "tests serialise a few; multi-use of one dictionary and nested lists are not covered.",
  ["common.py", "transfunc.py", "config.py"], [("ResisticsProcess registry and validate", "common.py"), ("TransferFunction registry and validate", "transfunc.py"), ("Configuration", "config.py")],
  ["X.parameters(), X.json(), validate(dict), Configuration(**dict)"])

p("C24", "Sample-wise time processing touches only the designated channels and samples",
  "Adding, multiplying or applying a function changes each designated channel by exactly that operation and leaves all others as they were, unknown channel names are ignored; mean removal subtracts each channel's own mean (channels without gaps); gap filling replaces exactly the missing samples of channels with at least one present sample by linear interpolation between that channel's nearest present neighbours (holding the end values) and leaves present samples alone. Channel order, number of samples and timing are unchanged, and no channel influences another.",
  ["inputs"], "all recordings, channel subsets, constants, functions and gap patterns",
  "tests use one or two channels and single gaps.",
  ["time.py"], [("Add, Multiply, ApplyFunction, RemoveMean, InterpolateNans", "time.py")],
  ["process.run(time_data).data / metadata"])

p("C25", "Resampling, decimating and shifting keep the time axis truthful",
  "After resampling, decimating or time-shifting, number of samples, sampling frequency, first time and last time in the metadata describe the data returned: last time = first time + (n-1)/frequency. Resampling and decimating keep the first time and divide time into the new rate (decimating by the total factor split into single steps whose product is that factor and, where possible, none above the allowed maximum); shifting by less than a sample period moves the first time by the shift, drops one sample and gives the linearly interpolated values, and a larger shift is refused. Each channel is processed on its own.",
  ["inputs"], "all recordings, rates, factors, maximum single factors and shifts",
  "tests try few factors; factor decomposition and timing metadata over all factors are not sampled.",
  ["time.py"], [("Resample, Decimate, ShiftTimestamps, adjust_time_metadata", "time.py")],
  ["process.run(time_data): metadata, data shape/values, history messages"])

p("C26", "Channels and levels are addressed by name and number without mix-ups",
  "Fetching a channel by name from recordings, windowed data or spectra returns that channel's data whatever the channel order, fetching several returns them in the order asked, and writing a channel changes that channel only and is refused when size or type differ. Unknown channels and levels or indices past the end are refused; electric and magnetic channel listings follow the channel types in channel order; the number of channels, sampling period, duration and Nyquist frequency follow from the channels, sampling frequency and number of samples.",
  ["inputs"], "all channel orders, names, levels and indices",
  "tests use the standard channel order.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "common.py"], [("TimeData get/set", "time.py"), ("WindowedData/SpectraData accessors", "spectra.py"), ("check_chan, get_chan_type", "common.py")],
  ["accessor results and exceptions"])

p("C27", "High resolution timestamps survive text and JSON exactly",
  "Any timestamp down to the attosecond formatted to text and parsed back is the same instant, ordering and differences of timestamps are preserved, and metadata stored as JSON and read back keep all their timestamps exactly. Dates given as ordinary date strings, pandas timestamps or datetimes denote the same instant whichever form is used.",
  ["inputs"], "all timestamps",
  "tests convert a few literals.",
  ["sampling.py", "common.py"], [("datetime_to_string, datetime_from_string, to_datetime, HighResDateTime", "sampling.py"), ("json encoders", "common.py")],
  ["datetime_to_string/datetime_from_string/to_datetime, metadata.json()/parse"])

p("C28", "Writers never overwrite unless allowed",
  "With overwriting switched off, writing to an existing directory is refused with an error and leaves it byte for byte untouched, while writing to a new directory creates it with its parents; with overwriting on, what is read afterwards is entirely the last product written, with nothing left of the previous one. This holds for every writer and any sequence of writes and reads.",
  ["histories", "configurations"], "all sequences of writes with either setting, to new, existing and nested directories, and reads",
  "tests write once to a fresh directory.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py"], [("ResisticsWriter directory check", "common.py"), ("each writer's run", "time.py")],
  ["writer.run outcome, directory digests, reader results"],
  [("overwrite", "writer option", R + "common.py ResisticsWriter")])

p("C29", "Spectra smoothing acts only along frequency and as configured",
  "Smoothing averages neighbouring frequencies of the same level, window and channel only, with weights that sum to one and that are set by the smoother's parameter (an odd number of points proportional to the number of frequencies for the uniform one; the given standard deviation for the Gaussian one). A constant spectrum is unchanged, shapes and all metadata are kept, and levels with different numbers of frequencies are smoothed by their own length.",
  ["inputs", "configurations"], "all spectra shapes and smoothing parameters",
  "tests do not vary the parameter, so an ignored parameter passes.",
  ["spectra.py"], [("SpectraSmootherUniform, SpectraSmootherGaussian", "spectra.py")], ["smoother.run(spec_data)"])

p("C30", "Calibration files are read faithfully",
  "Reading a sensor calibration file yields its frequencies in increasing order with the magnitude and phase of the same line (text files) or as stored (JSON files), phases in radians whichever unit (degrees or radians, in any letter case) the text file states, the stated static gain, units, sensor and serial number (letter case aside), and as many samples as data lines. The file looked for is the pattern with sensor, serial and extension of the channel filled in, and a missing file or one with no data section is an error.",
  ["inputs"], "all well-formed files: any number and order of lines, units, header values and name patterns",
  "tests read one file of each type.",
  ["calibrate.py"], [("SensorCalibrationTXT, SensorCalibrationJSON, file name pattern", "calibrate.py")],
  ["reader.run(dir_path, metadata, chan): CalibrationData"])

p("C31", "A known linear relation in the recordings comes back as the transfer function",
  "When the output channels of recordings are a fixed combination of the input channels (which vary independently), processing them, quickly or through a project, with any number of measurements, sites in any roles, decimation levels and window sizes, gives a transfer function whose every component at every evaluation frequency is that combination's coefficient, changed only by the multipliers given for channels and by the flat responses of calibrated sensors. The solution a project stores is the one that was computed.",
  ["inputs", "configurations"], "all relations, projects, site roles, configurations and entry points",
  "the whole chain from files to transfer function needs scikit-learn and many windows; a wrong channel, site, level, row, calibration or sign anywhere in it still gives smooth plausible curves.",
  ["letsgo.py", "time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py", "regression.py", "transfunc.py", "project.py"],
  [("quick_tf, process_time_to_evals, process_evals_to_tf", "letsgo.py"), ("Selector, ProjectGather, QuickGather", "gather.py"), ("regression preparers and solvers", "regression.py")],
  ["quick_tf(...), process_evals_to_tf(...), get_solution(...)"])

p("C32", "Filters pass their band, stop the rest and move nothing in time",
  "A low pass, high pass, band pass or notch filter leaves sinusoids well inside its pass band unchanged in amplitude and phase, halves the amplitude at its cutoff (both passes together), removes those well inside its stop band with the steepness of its order, and shifts nothing in time. Each channel is filtered on its own, by the same filter; metadata, number of samples, timing and floating point type are kept, and cutoffs beyond Nyquist or bands whose lower limit is above the upper are refused.",
  ["inputs", "configurations"], "all filters, cutoffs, orders, sampling frequencies and multi-sinusoid recordings",
  "tests filter one record with one cutoff per filter type and compare with the same library call.",
  ["time.py"], [("LowPass, HighPass, BandPass, Notch", "time.py")], ["process.run(time_data).data / metadata"])

p("C33", "Figures and tables show the data they are made from",
  "Plotting a recording draws, for every requested channel it has, one trace on that channel's row whose points are the samples at their times - all of them, or when a limit is given at most that many in order, first and last included - and leaves what was drawn before unchanged. Decimated recordings get one trace per level at that level's own sampling frequency, however many levels there are; stacked spectra show the mean magnitude over exactly the windows of the level, or of each span of time, at the level's frequencies; sections the same for each span. Impedance figures show 0.2 T |Z|^2 and the continuous phase in degrees (that of the negative for ExHx and ExHy), tippers their length and angles, calibration figures and tables the calibration curve, decimation tables the plan, and timelines one bar per measurement from its first to its last time.",
  ["inputs", "configurations", "histories"], "all recordings, spectra, transfer functions, calibrations, plans and projects, channel selections, limits, groupings, and figures drawn on repeatedly",
  "tests do not look at the traces of a figure.",
  ["time.py", "decimate.py", "spectra.py", "calibrate.py", "transfunc.py", "project.py", "plot.py"],
  [("TimeData.plot, DecimatedData.plot, SpectraData.plot/plot_level_stack/plot_level_section", "time.py"), ("ImpedanceTensor.plot/get_resistivity/get_phase, Tipper.plot", "transfunc.py"), ("plot_timeline, lttb_downsample", "plot.py")],
  ["traces of the returned plotly figures, returned arrays and data frames"])

p("C34", "Readers read what is asked for, once, and refuse incomplete recordings",
  "Reading runs a reader's own parts in a fixed order, each at most once: its metadata, unless metadata were handed in and data are wanted; its data, for exactly the samples asked for; then its scaling, if and only if scalings are to be applied. Asking for metadata never touches the data. Limits outside the recording, or a part that fails, refuse the request before anything that follows. Metadata handed in stay as they were. The readers of folders answer only when the metadata file is whole and every data file listed for any channel is there and of the reader's type, otherwise they refuse; they return every channel whatever the header, separator and extension they were told of, and leave the folder as it was.",
  ["inputs", "faults"], "all requests (times, samples, metadata only, metadata handed in, scalings on or off), all readers including those of users, folders with any metadata or data file missing, cut, broken or of another type",
  "tests read one whole recording and replace parts of the reader.",
  ["time.py"], [("TimeReader.run, TimeReaderJSON, TimeReaderAscii, TimeReaderNumpy", "time.py")], ["reader.run(dir_path, ...) and the parts it runs"])

p("C35", "Transfer functions do not depend on names, orders, places or units",
  "A transfer function is determined by the content of the recordings in the project as they were when processed. Renaming measurements or sites, storing the channels in another order or with other channels beside them, writing descriptive details differently, moving the project, shifting recordings and reference time together, processing measurements or sites in another order or again, with any number of workers, loading the project anew, and recordings of other sampling frequencies or sites beside them change nothing. Recordings taken out of the project no longer contribute, whatever was processed from them, and contribute again once back. Amplifying an output channel multiplies its row, amplifying all input channels divides every value, and amplifying the channels of a cross site of its own changes nothing - from when the recordings are next processed.",
  ["inputs", "histories"], "all histories of renaming, reordering, moving, amplifying, taking out, putting back, processing and solving, for any roles of channels and sites",
  "tests solve one project in one arrangement; a dependence on bookkeeping shows only when two arrangements of the same recordings are compared.",
  ["letsgo.py", "gather.py", "regression.py", "project.py", "window.py", "time.py"],
  [("process_time_to_evals, process_evals_to_tf", "letsgo.py"), ("Selector, ProjectGather", "gather.py")], ["components of the returned Solution, compared with those of the same recordings in a plain project"])

p("C36", "An interrupted write is never mistaken for a product",
  "However writing a product ends - the process killed at any moment, stopped by the user, the disk full - what can be read afterwards is the product that was there before, the new one, or nothing (the read is refused, or the measurement is not found); never data and metadata that were not written together, and never part of the data. Metadata can be read only while the data they were written with are complete. Writing goes from old to new once and not back, reports when it could not complete, and when it returns the new product is there. Whatever an interrupted write has left, a later write puts its product there in full, and the other measurements of the project stay usable. This holds for time data, decimated, windowed and spectra data, solutions, and the processing steps of a project that write them, in new folders and over existing ones.",
  ["faults", "histories"], "all moments of interruption, sizes of the disk, and sequences of whole and interrupted writes of different products to one place",
  "tests write once to an empty folder without interruption.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py", "regression.py", "letsgo.py"],
  [("ResisticsWriter, WriteableMetadata.write", "common.py"), ("TimeWriterNumpy, TimeWriterAscii", "time.py"), ("process_time, process_time_to_evals", "letsgo.py")],
  ["what the readers, load and process_evals_to_tf make of the disk as it was at every moment of a write"])

p("C37", "Independent steps of a project can run at the same time",
  "Steps of a project none of which writes what another reads or writes - processing different measurements to evaluation frequencies or to new time data, the same measurement with different configurations, solving for different sites, sampling frequencies, variations or postfixes - can run at the same time, in any interleaving: none fails, each returns and stores what it does when it runs alone (values, metadata and history), no other file is made or changed.",
  ["schedules"], "all interleavings of the reads and writes of two or three steps, from projects in which none of the output folders exists yet",
  "tests run one step at a time.",
  ["letsgo.py", "common.py", "project.py"],
  [("process_time, process_time_to_evals, process_evals_to_tf", "letsgo.py"), ("ResisticsWriter", "common.py")],
  ["returned solutions, products read back from their addresses, and the files of the project"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
