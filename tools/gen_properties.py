"""Regenerates /verif/properties.jsonl (kept next to the text it is generated from)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               hook_needed=None)))
WR = "CHECLabPy/waveform_reducers/"
IO = "CHECLabPy/core/io/"

prop("C01", "Reducers never alter the waveforms and keep no memory of earlier events",
     "Processing an event with a waveform reducer (average-window, common, cross-correlation and its local and neighbour variants, saturation, superpixel, flasher, timing, the sliding-window reducers and the ctapipe integrators, ctapipe's functions themselves assumed free of side effects) leaves the waveform array handed to it exactly as it was. The columns it returns are a function of that event's waveforms and of the reducer's configuration alone: whatever events the same reducer processed before, the result equals that of a fresh reducer, and what was returned for an event does not change when further events are processed.",
     ["inputs", "histories", "configurations"], "every waveform array of any size, every earlier event processed by the same reducer object",
     "tests use one recorded file that is not even shipped; none compares a used reducer with a fresh one, and only 9 tests run",
     [WR + "*.py", "CHECLabPy/core/reducer.py"],
     [("WaveformReducer._prepare", "CHECLabPy/core/reducer.py (copy of the waveforms)"), ("_prepare of every reducer", WR)])
prop("C02", "A reducer returns exactly its own enabled columns",
     "The result of processing an event holds one entry per column that the reducer's class itself introduces and that the configuration does not switch off, under the column's own name, and no other entry; columns that a parent class already provides belong to the parent and never reappear in a subclass. A column is active by default unless columns are disabled by default, and an explicit setting for that column always wins. Reading a column before any event was processed is refused, and two different reducers cannot define the same column name.",
     ["configurations", "programs"], "every set of column switches, every class hierarchy of reducers",
     "tests sample a handful of switches on one toy hierarchy, and do not import on this tree's Python without the repaired package",
     ["CHECLabPy/core/reducer.py"],
     [("WaveformReducerMeta", "CHECLabPy/core/reducer.py"), ("get_active_columns", "CHECLabPy/core/reducer.py"), ("column.__get__", "CHECLabPy/core/reducer.py")])
prop("C03", "The reducer chain merges configuration correctly and runs what is enabled",
     "Configuration given as arguments overrides the configuration file; without a file it overrides the built-in column defaults, and with a file the built-in column defaults are not applied (an unlisted column is off). A reducer takes part only if at least one of its columns is active, no column is active unless the merged configuration says so, and the output of the chain for an event is the union of the participating reducers' columns, each with the value that reducer computes for that event.",
     ["configurations", "inputs"], "every assignment of column switches and settings in file, arguments and defaults",
     "the chain test does not run on this tree's Python and checks one configuration",
     ["CHECLabPy/core/chain.py", "CHECLabPy/core/__init__.py"],
     [("WaveformReducerChain.__init__/_build_chain/process", "CHECLabPy/core/chain.py"), ("child_subclasses", "CHECLabPy/core/__init__.py")])
prop("C04", "Windowed charge and saturation sums use the right samples",
     "For waveforms of at least 20 samples, the average-waveform extraction time is the (first) sample at which the waveform averaged over all pixels peaks, held within 10 samples of both ends, unless a time is configured; the extracted charge of each pixel is the sum of exactly window-size samples starting window-shift before that time. The saturation value of each pixel is the sum of all its samples from 4 (or the configured shift) before the same kind of time to the end of the waveform.",
     ["inputs", "configurations"], "every number of pixels, every number of samples >= 20, every sample value, every window that starts at or after sample 0",
     "no test runs these reducers; edge clamping needs events peaking in the first or last 10 samples",
     [WR + "average_wf.py", WR + "saturation.py"],
     [("AverageWF._prepare/charge_averagewf", WR + "average_wf.py"), ("Saturation.saturation_sum", WR + "saturation.py")])
prop("C05", "Baseline and waveform statistics describe each pixel's own samples",
     "For each pixel the start (end) baseline mean and rms are the mean and the population standard deviation of that pixel's first (last) 20 samples - of all samples if there are fewer - and the waveform mean, rms and maximum are those of all its samples.",
     ["inputs"], "every number of pixels and samples >= 1, every sample value",
     "no test checks these values",
     [WR + "common.py"], [("Common columns", WR + "common.py")])
prop("C06", "Cross-correlation charge, height and time",
     "The cross-correlation reducers correlate every pixel with the reference pulse so that the pulse's maximum is aligned, and take as charge the correlation value at one sample: the first maximum of the pixel-averaged correlation for all pixels, of the pixel's own correlation in the local variant, or of the average ctapipe gives of the correlations of the pixel's neighbours (own pixel left out) in the neighbour variant, which refuses to be built without a mapping. The reported height is the charge times the maximum of the unit-area reference pulse. The reported time is the parabola vertex through that sample and its two neighbours in the same pixel when that lies inside the waveform, and otherwise (including a peak on the first or last sample, or a straight line) the sample itself; no pixel's result depends on another pixel's samples except through the average.",
     ["inputs"], "every reference pulse, number of pixels and samples, sample value and peak position including the first and last sample",
     "no test runs this reducer with synthetic waveforms; peaks on the first and last sample of a pixel are rare",
     [WR + "cross_correlation.py"],
     [("extract_pulse_time", WR + "cross_correlation.py"), ("CrossCorrelation._prepare", WR + "cross_correlation.py"), ("CrossCorrelationLocal._prepare", WR + "cross_correlation.py"), ("CrossCorrelationNeighbour._prepare", WR + "cross_correlation.py")])
prop("C07", "Pulse timing: time, amplitude, width and rise time of each pixel",
     "For waveforms of at least 20 samples, each pixel's pulse time and amplitude are those of the parabola through its first highest sample within the event window and the two neighbours, the amplitude being measured from the mean of the first 10 samples; if the three samples are on a line or the vertex is outside the waveform all values of that pixel are 0. The width is the distance between the first interpolated downward crossings of half the amplitude to the right and to the left of the pulse, and the rise time that between the first crossings of 90% and 10% to the left; each is not-a-number when one of its crossings is missing (a crossing exactly at sample 0 counts as missing). No sample outside the pixel's own waveform is ever read and no input raises an error.",
     ["inputs", "configurations"], "every number of pixels, n_samples >= 20, every sample value, every event window that stays at least one sample inside the waveform",
     "no test runs this; the search loops have unbounded trip counts and depend on where crossings fall",
     [WR + "timing.py"], [("obtain_pulse_timing", WR + "timing.py"), ("Timing._prepare", WR + "timing.py")])
prop("C08", "Superpixel values and flasher identification",
     "The superpixel columns give each pixel the maximum, and the (first) sample of the maximum, of the sum of the 4 consecutive pixels of the superpixel that contains it. The flasher column is -1 if any of the mean peak heights of modules 5, 23, 8 and 26 is below 30, and otherwise the position of the highest mean in that list.",
     ["inputs"], "every event",
     "no test runs these reducers",
     [WR + "superpixel.py", WR + "flag_flasher.py"],
     [("SPAmplitude", WR + "superpixel.py"), ("FlagFlashers._prepare", WR + "flag_flasher.py")])
prop("C09", "The rolling baseline is the mean over the latest events",
     "The baseline of each pixel is the mean of its first baseline samples over a window of events that starts as the first events of the file (as many as requested, or all when the file is shorter) and in which each newly subtracted event replaces the oldest entry. Subtracting returns the event minus the updated baseline of its own pixel and leaves the input event unchanged.",
     ["inputs", "histories"], "every sequence of events of any length, every window length, number of pixels and samples",
     "no test exercises the subtractor; the wrap-around needs more events than the window",
     ["CHECLabPy/utils/waveform.py"], [("BaselineSubtractor", "CHECLabPy/utils/waveform.py")],
     [("baseline_waveforms", "ring buffer of the last events' first samples", "CHECLabPy/utils/waveform.py"), ("iev", "number of events subtracted", "CHECLabPy/utils/waveform.py")])
prop("C10", "Shifting and averaging waveforms",
     "Shifting waveforms by n samples moves sample i of every pixel to i+n, fills exactly the vacated samples with the fill value, keeps the shape and leaves the input unchanged, for positive, negative and zero shifts shorter than the waveform; shifting to a time puts the maximum of the pixel-averaged waveform there. The average waveform of a run is the mean over all its events (and pixels) of the baseline-subtracted waveforms shifted in this way.",
     ["inputs", "histories"], "every array, shift, fill value and run of any number of events",
     "no test covers these functions",
     ["CHECLabPy/utils/waveform.py"],
     [("shift_array/shift_waveform", "CHECLabPy/utils/waveform.py"), ("get_average_wf(_per_pixel)", "CHECLabPy/utils/waveform.py")])
prop("C11", "Dead pixels are those with a low average pulse",
     "The list of dead pixels of a run is exactly the pixels, in increasing order, whose peak of the waveform averaged over the first events (all of them up to the maximum requested) is below the given fraction of the mean of that peak over all pixels.",
     ["inputs", "histories"], "every run, any number of events and pixels",
     "no test covers it; it could not run at all before the repair",
     ["CHECLabPy/utils/waveform.py"], [("obtain_dead_pixel_list_r1", "CHECLabPy/utils/waveform.py")])
prop("C12", "Time correction interpolates each pixel linearly",
     "Correcting the timing gives every pixel at sample i its own waveform evaluated at i minus the pixel's correction: linear interpolation between the two enclosing samples, and linear extrapolation of the first or last two samples beyond the ends. A correction of a whole number of samples moves samples exactly, a zero correction changes nothing, and the input array is not modified.",
     ["inputs"], "every number of pixels, n_samples >= 2, every sample value and every real correction, including whole numbers and corrections longer than the waveform",
     "no test covers it; the shipped corrections never hit whole numbers or the extrapolation branch at both ends",
     ["CHECLabPy/calib/time_calibrator.py"], [("apply_t_cor", "CHECLabPy/calib/time_calibrator.py")])
prop("C13", "Amplitude calibration and illumination correction use each pixel's coefficients",
     "Calibrating amplitudes gives (value - pedestal of that pixel) / conversion * flat-field of that pixel for each value and its pixel, whatever the order, repetition or subset of the pixels. Folding and unfolding an image with an illumination profile multiply and divide pixel by pixel, so one undoes the other. Neither modifies its input.",
     ["inputs"], "every array of values and pixels, coefficients and profiles (profile and conversion non-zero)",
     "no test covers calibration",
     ["CHECLabPy/calib/amplitude_calibrator.py", "CHECLabPy/calib/illumination_profile.py"],
     [("AmplitudeCalibrator.__call__", "CHECLabPy/calib/amplitude_calibrator.py"), ("IlluminationProfile.fold/unfold", "CHECLabPy/calib/illumination_profile.py")])
prop("C14", "Amplitude matching steps each superpixel's voltage safely",
     "Each matching iteration steps the DAC of every unfinished superpixel by its current step (10, 5 then 1) towards the target, falls back to the previous DAC and the next smaller step when the distance to the target grew, and leaves finished superpixels alone; a superpixel that is masked (or all of whose pixels are), or one that leaves the range 10 to 255, ends at 255 and is finished, so every DAC set stays within that range. Superpixels are independent of one another. When all are finished a second pass restarts all of them with step 1, after which the DACs no longer change and completion is reported; DACs are always returned in shape (32, 16).",
     ["inputs", "histories"], "every state of the matcher and every measured amplitude, for any number of superpixels",
     "no test covers the matcher; it is a state machine over arbitrary measurement histories",
     ["CHECLabPy/calib/amplitude_matcher.py"],
     [("_get_next_dac(_nb)", "CHECLabPy/calib/amplitude_matcher.py"), ("_calculate_average", "CHECLabPy/calib/amplitude_matcher.py"), ("process", "CHECLabPy/calib/amplitude_matcher.py")],
     [("stage", "step stage per superpixel", "CHECLabPy/calib/amplitude_matcher.py"), ("global_stage", "pass of the procedure", "CHECLabPy/calib/amplitude_matcher.py")])
prop("C15", "Pixel masks: combination, expansion and persistence",
     "The overall mask of a pixel is set exactly when the pixel is dead, low, or in a bad-HV superpixel. Loading a mask file replaces the masks, and merging one can only add masked pixels (the result is the pixel-wise or); saving masks and loading them again gives the same masks. A list of superpixels (modules) is expanded to exactly the 4 (64) pixels of each, in order.",
     ["inputs", "histories"], "every mask content, every sequence of loads, every list",
     "no test covers the masks; they could not even be constructed before the repair",
     ["CHECLabPy/calib/pixel_masks.py"], [("PixelMasks", "CHECLabPy/calib/pixel_masks.py")])
prop("C16", "Running mean and variance equal the batch values",
     "Feeding any sequence of samples one at a time to the running algorithm, starting from zero, gives after every sample the count, the mean of all samples so far, and the sum of their squared deviations from that mean.",
     ["inputs", "histories"], "every sequence of samples of any length (real arithmetic)",
     "no test covers it; it is an induction over the history",
     ["CHECLabPy/stats/welfords.py"], [("welfords_online_algorithm", "CHECLabPy/stats/welfords.py")])
prop("C17", "Charge resolution and statistics do not depend on how data is fed",
     "Whatever the number, size and order of the contributions and whenever memory is condensed in between, the charge resolution and the charge statistics per pixel and per camera equal those computed once from all contributed values: root-mean-square deviation from the true charge (with the true charge added as Poisson variance for simulated charges), also divided by the true charge, and mean and population standard deviation of the charge. Entries with zero true charge are excluded from the resolution.",
     ["inputs", "histories"], "every history of contributions and condensations, any values",
     "no test covers it; memory is condensed only after 1 GB",
     ["CHECLabPy/utils/resolutions.py"],
     [("ChargeResolution.add/_amalgamate/finish", "CHECLabPy/utils/resolutions.py"), ("ChargeStatistics", "CHECLabPy/utils/resolutions.py")],
     [("_df/_df_list", "condensed sums and pending contributions", "CHECLabPy/utils/resolutions.py")])
prop("C18", "Spectrum parameters: bookkeeping, configuration and updates reach the fit",
     "Each single parameter appears once and each multi parameter once per illumination in the fit's parameters, with its own initial value, limits and fixed flag, and for every illumination the lookup of a parameter's name gives the position of the value that belongs to that illumination. Parameters updated from a list, loaded from a configuration file or replaced by the last fit's values are the ones the next fit starts from. Saving a configuration and loading it into another fitter of the same kind reproduces bins, range, initial values, limits and fixed flags.",
     ["configurations", "histories"], "every list of parameters, number of illuminations and configuration",
     "tests sample two hand-made collections and never fit after loading a configuration",
     ["CHECLabPy/core/spectrum_fitter.py"],
     [("SpectrumParameterCollection._prepare_parameters/update", "CHECLabPy/core/spectrum_fitter.py"), ("SpectrumFitter.load_config/save_config/update_initial", "CHECLabPy/core/spectrum_fitter.py")])
prop("C19", "Fit histogram, likelihood and fitted curve are normalised per illumination",
     "Fitting histograms each illumination's charges over the configured bins and range, with x at the bin centres; the likelihood compares each illumination's histogram with that illumination's spectrum scaled to the histogram's own area, and sums minus two log Poisson probabilities over all bins and illuminations. Each returned fit curve covers the configured range with ten points per bin and has the same area as its own histogram.",
     ["inputs", "configurations"], "every histogram, spectrum, number of illuminations, bins and range",
     "tests compare one seeded fit with a loose tolerance",
     ["CHECLabPy/core/spectrum_fitter.py", "CHECLabPy/spectrum_fitters/gentile.py", "CHECLabPy/spectrum_fitters/mapm.py"],
     [("SpectrumFitter.apply/fit_result_curve/_minimize_function", "CHECLabPy/core/spectrum_fitter.py"), ("_get_likelihood", "CHECLabPy/spectrum_fitters/*.py")])
prop("C20", "Single-photoelectron spectra follow the published formulas",
     "The SiPM spectrum is the pedestal Gaussian weighted by the Poisson probability of zero plus, for k = 1, 2, ..., a Gaussian at pedestal + k photoelectrons whose variance is the pedestal's plus k times the single-photoelectron one, weighted by the probability of k fired cells: the sum over j of Poisson(j) (1-ct)^j ct^(k-j) C(k-1, j-1), leaving out terms with Poisson(j) below 1e-4. The MAPM spectrum is the same with weight Poisson(k). Both stop at the first k whose weight is below 1e-4 and not above the largest so far, or after k = 99.",
     ["inputs"], "every x array and parameter value",
     "tests compare the integral of one parameter set",
     ["CHECLabPy/spectrum_fitters/gentile.py", "CHECLabPy/spectrum_fitters/mapm.py"],
     [("sipm_gentile_spe", "CHECLabPy/spectrum_fitters/gentile.py"), ("mapm_spe", "CHECLabPy/spectrum_fitters/mapm.py")])
prop("C21", "Probability functions equal their definitions",
     "The binomial coefficient, Poisson probability and its logarithm, Gaussian density and x*log(y) (0 when x is 0 and y is a number) equal their mathematical definitions in terms of exponential, logarithm and log-gamma, element by element.",
     ["inputs"], "every argument in the domain (real arithmetic)",
     "tests compare a few values with scipy",
     ["CHECLabPy/stats/pdf.py"], [("binom/poisson/normal_pdf/xlogy/poisson_logpmf", "CHECLabPy/stats/pdf.py")])
prop("C22", "HDF5 tables hold every appended row once and in order",
     "After any sequence of appends and writes to any tables of a writer or of an appender to an existing file, and closing it, each table contains exactly the rows appended to it in the order in which they were appended (following the rows already there), whenever the writer chose to flush; a direct write replaces everything the table held or had pending. Nothing in one table depends on operations on another.",
     ["histories", "inputs"], "every interleaving of append, write, metadata calls and flushes over any tables, any dataframe sizes",
     "tests append less than the 0.5 GB that triggers a flush",
     [IO + "hdf5_writer.py", IO + "hdf5_appender.py"],
     [("HDF5Writer.append/_append_to_store/write/finish", IO + "hdf5_writer.py"), ("HDF5Appender.finish", IO + "hdf5_appender.py")],
     [("df_list", "pending dataframes per table", IO + "hdf5_writer.py")])
prop("C23", "HDF5 metadata is stored completely and sizes add up",
     "On closing, every metadata entry added is stored under its table and name, later additions to the same table and name override entry by entry, appending to a file keeps the entries that were not overridden, and the reserved names are refused. Each table's recorded byte count is the sum of the sizes of what the table holds, also after appending to an existing file, the total is the sum over all tables, and the library version is recorded; a pixel map added comes back with its metadata and is no counted table.",
     ["histories", "inputs"], "every sequence of metadata additions, appends and writes",
     "tests check one file written in one go",
     [IO + "hdf5_writer.py", IO + "hdf5_appender.py", IO + "hdf5_reader.py"],
     [("add_metadata/_save_metadata/finish", IO + "hdf5_writer.py"), ("HDF5Appender._save_metadata/finish", IO + "hdf5_appender.py")])
prop("C24", "Reading DL1 and HDF5 files addresses the right rows and refuses the rest",
     "Requesting an event by its number returns exactly the rows of the event with that number, and an unknown number is refused; iterating over events (or over a selection) yields each (selected) event's rows once in file order. Selected columns hold the rows asked for, monitor columns are matched to the rows by the stored index, and module quantities are looked up under the requested module and superpixel, numbers at or above the stored counts being refused. Tables over 8 GB are only loaded when forced, unknown tables, columns of the monitor and metadata are refused, and reading in chunks covers the table with chunks of the requested size, by default the number of rows that fits 2 GB.",
     ["inputs", "configurations"], "every file content, event number, module, superpixel, size",
     "tests use one small file that is not shipped",
     [IO + "dl1_reader.py", IO + "hdf5_reader.py"],
     [("DL1Reader.__getitem__/select_event_index/iterate_over_selected_events", IO + "dl1_reader.py"), ("HDF5Reader.read/get_metadata/iterate_over_chunks", IO + "hdf5_reader.py")])
prop("C25", "DL1 production accounts for every event",
     "Reducing a run writes the rows of every event that is neither stale nor missing packets, once and in order, together with the event's number, time, trigger counter and first cell, the pixel number, the subtracted baseline and the chain's columns computed from the time-corrected (except simulations), baseline-subtracted waveforms. The stored counts of processed and skipped events add up to the events read, start and end times are those of the first and last processed event, and module information is stored under its own module and superpixel. The input file is never the output file, and with several input files each is reduced once, in order, into its own output.",
     ["inputs", "histories"], "every run: any number of events, any pattern of stale or incomplete events, real and simulated",
     "the script could not be imported; its dependencies for reading raw files are absent",
     ["CHECLabPy/scripts/extract_dl1.py"],
     [("DL1Writer.write_dl1_file", "CHECLabPy/scripts/extract_dl1.py"), ("DL1Extractor.__init__/__call__/skip_event", "CHECLabPy/scripts/extract_dl1.py"), ("main", "CHECLabPy/scripts/extract_dl1.py")])
prop("C26", "Waveform readers index, slice, iterate and tag events consistently",
     "For a file of N events, index i in [-N, N) gives event i (modulo N) and any other integer is refused; slices and lists give the events Python indexing selects, in order, and iteration gives events 0 to N-1, where N is the file's count limited by a requested maximum. Each event's waveforms carry that event's own number, cell, flags and times, views and arithmetic results keep these tags, and the CPU time is the stored seconds and nanoseconds added up exactly; waveforms and true charges of simulated events are brought into the camera's pixel order by position, with the event's own truth and pointing, and calibration keeps the tags and leaves the raw event unchanged. Module and superpixel numbers at or above the file's counts are refused.",
     ["inputs", "configurations"], "every event count, index, slice, list and maximum",
     "tests need recorded files and the TARGET libraries, neither of which is available",
     [IO + "waveform.py", IO + "tio.py", IO + "simtel.py", "CHECLabPy/calib/waveform.py"],
     [("WaveformReader.__getitem__/__iter__", IO + "waveform.py"), ("Waveform.__new__/__array_finalize__/t_cpu", IO + "waveform.py"), ("TIOReader", IO + "tio.py"), ("SimtelReader", IO + "simtel.py"), ("WaveformCalibrator.__call__", "CHECLabPy/calib/waveform.py")])
prop("C27", "Superpixel and module maps summarise their own pixels",
     "The superpixel (module) map derived from a pixel map has one row per superpixel (module), in increasing order; its row and column are the pixel row and column divided by 2 (8), its position is the mean position of its own pixels, and for superpixels the slot and ASIC are those of its pixels. The derived map's metadata gives the number of rows and columns of the derived grid and a size scaled by 2 (8), and the pixel map and its metadata are left unchanged.",
     ["inputs"], "every pixel map",
     "no test covers it: the maps come from a library that is not available",
     ["CHECLabPy/utils/mapping.py"], [("get_superpixel_mapping/get_tm_mapping", "CHECLabPy/utils/mapping.py")])
prop("C28", "Per-pixel spectrum extraction keeps results with their pixel",
     "For every pixel, exactly the charges of that pixel of every illumination are fitted, and the fitted values, errors, histogram and curves are stored under that pixel's number; every pixel is fitted once, whether pixels are processed in sequence or by several processes in any order, and the stored tables are ordered by pixel.",
     ["inputs", "schedules"], "any number of pixels, events and illuminations; any completion order",
     "the script could not be imported, and tests never fit more than one pixel",
     ["CHECLabPy/scripts/extract_spe.py"], [("PixelFitApplier", "CHECLabPy/scripts/extract_spe.py")])
prop("C29", "High-voltage configuration files are parsed into the right cells",
     "Every DAC (HV) and HV-on entry of a configuration file sets exactly the value of its module and superpixel in the corresponding array, the last entry for a cell wins, and every other cell stays 0.",
     ["inputs"], "every file",
     "no test covers the parser",
     ["CHECLabPy/utils/files.py"], [("extract_hv_cfg", "CHECLabPy/utils/files.py")])
prop("C30", "Camera rows and columns are recovered from pixel positions",
     "For pixels on a rectangular grid the row and column assigned to each pixel are its ranks along y and x, whatever the order of the pixels.",
     ["inputs"], "every full square grid, spacing, offset and pixel order",
     "no test covers it",
     ["CHECLabPy/utils/mapping.py"], [("get_row_column", "CHECLabPy/utils/mapping.py")])
prop("C31", "Sliding-window and neighbour charge extraction",
     "The sliding-window reducers place a window of the configured number of samples where its sum over the pixel-averaged, the pixel's own, or its neighbour-averaged waveform is largest (the first such starting position; samples beyond the end count as 0), and extract the sum of each pixel's samples in that window; the pulse time is ctapipe's for the same waveforms, position and width. The ctapipe integrators are built with the configured window width and shift (and the mapping's neighbours, own pixel left out) and return its charge and time of each event. Reducers that need neighbours refuse to be built without a mapping.",
     ["inputs"], "every event, window and mapping, whatever ctapipe returns", "the reducers need a library (ctapipe) that is absent, so no test covers them",
     [WR + "sliding_window.py", WR + "ctapipe_integrators.py"], [("SlidingWindow", WR + "sliding_window.py")])
prop("C32", "The spectrum fit converges to the parameters that produced the data",
     "For charges drawn from a spectrum the fitter returns parameters statistically compatible with those that generated it.",
     ["inputs"], "every parameter set and sample", "tests fit one seeded sample",
     ["CHECLabPy/core/spectrum_fitter.py"], [("SpectrumFitter.apply", "CHECLabPy/core/spectrum_fitter.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps(p) + "\n")
    print(len(P))
