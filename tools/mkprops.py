import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
S="src/hera_pspec/"
add("C01","A spectrum container behaves as a durable map from (group, name) to spectrum",
 "After any sequence of stores, overwrites, reads, listings and re-openings of a container file, through any of its handles, reading a (group, name) returns exactly the spectrum most recently stored there, and the listings (groups, spectra, tree, whole-group reads) name exactly the spectra that were stored. A store that is refused or fails - read-only handle, existing name without permission to overwrite, wrong type, malformed or inconsistent spectrum - raises an error and leaves every previously stored spectrum and every listing unchanged, and the container stays usable. Reading or listing something absent raises an error and never changes the file.",
 ["histories","fault_sequences"],"every finite sequence of container operations (single and list stores with and without overwrite, valid and invalid payloads, reads, listings, flushes, close/re-open in read or read-write mode, held-open or per-operation opening, several handles on one file)",
 "tests exercise a handful of fixed store/read scripts; none replaces an entry with an invalid object, interleaves handles, or looks at the other entries after a refused store",
 [S+"container.py",S+"uvpspec.py"],[("transactional wrapper","container.py: transactional"),("store path","container.py: PSpecContainer.set_pspec/_store_pspec"),("read path","container.py: get_pspec/_load_pspec/spectra/groups/tree")],
 [("file content","map group -> name -> spectrum","HDF5 file")],["PSpecContainer public methods"])
add("C02","Merging a container's spectra folds together exactly the intended spectra",
 "Merging the extensions of spectra inside a container replaces, for each dataset-pair name, all spectra of that pair by a single spectrum under the bare pair name holding exactly the union of their data, and leaves the spectra of every other pair and group untouched. A pair whose merge cannot be carried out (overlapping or incompatible members), or whose bare name already exists when overwriting is not allowed, is left exactly as it was. Nothing stored is ever lost: every data cell present before is present, with the same value, afterwards.",
 ["inputs","histories"],"every set of stored names (including names that are prefixes or substrings of one another), every partition of data between them, merge options, and repeated merges",
 "tests merge one hand-made set of names whose dataset labels never contain one another and never check that bystanders survive a failed merge",
 [S+"container.py"],[("name grouping, merge, deletion","container.py: combine_psc_spectra")],None,["container contents before/after"])
add("U01","Every way of addressing a spectrum cell reaches the same, correct cell",
 "A spectrum, weight, integration time, sample count, covariance, window function or statistic requested with a (spectral window, baseline-pair, polarization-pair) key is exactly the one belonging to that key in every row, whichever accepted form (integers, tuples, names, baseline order, keyword or positional key) is used for each part; a key not present is refused. Converting antenna numbers, baselines, baseline-pairs and polarization-pairs to their integer codes and back is lossless and injective over the whole supported range. Storing a statistic under a key changes exactly the addressed cells and is read back unchanged.",
 ["inputs","histories"],"all objects (any number/order of windows, baseline-pairs, time pairs and polarization pairs, ragged time sampling), all keys in all accepted forms, all antenna numbers and polarization codes in the supported range",
 "tests look up a few keys on objects with one spectral window and one polarization where rows are indistinguishable",
 [S+"uvpspec.py",S+"uvpspec_utils.py"],[("key to index","uvpspec.py: UVPSpec.key_to_indices and converters"),("integer codes","uvpspec_utils.py: _antnums_to_bl, _antnums_to_blpair, polpair_tuple2int, ...")],None,["get_data/get_wgts/get_integrations/get_nsamples/get_cov/get_window_function/get_stats/set_stats"])
add("U02","Selecting from a power spectrum returns exactly the requested cells",
 "Selecting by any combination of spectral windows, baselines, baseline-pairs, times, LSTs and polarization pairs yields an object containing exactly the cells that satisfy all the criteria, in every array it carries (data, weights, integrations, sample counts, statistics, covariances, window functions, dataset labels, normalization scalars, beam areas, time, LST and frequency axes), with values equal to the original's for the same key. The result is internally consistent (all declared counts agree with its arrays), and unless in-place selection is asked for the original object is unchanged.",
 ["inputs","histories"],"all objects and all selection arguments in all accepted forms, in-place or copying, repeated selections",
 "tests select along one axis at a time from a one-window, one-polarization object with constant payloads",
 [S+"uvpspec.py",S+"uvpspec_utils.py"],[("selection","uvpspec_utils.py: _select; uvpspec.py: UVPSpec.select")],None,["UVPSpec.select"])
add("U03","Writing then reading a power spectrum is lossless, also for partial reads",
 "An object written to disk (directly or in a container) and read back equals the original in every array and piece of metadata; a metadata-only read has the same metadata and no data. A partial read with any selection gives the same object as reading everything and then selecting. Writing does not modify the object, and an existing file is replaced only when overwriting is requested.",
 ["inputs","histories"],"all objects reachable by the library's operations (selected, combined, folded, averaged, with or without statistics, covariance, windows, labels, beam) and all partial-read arguments",
 "tests round-trip one vanilla object and compare with an equality that ignores several arrays",
 [S+"uvpspec.py",S+"uvpspec_utils.py"],[("I/O","uvpspec.py: write_hdf5/read_hdf5/write_to_group/read_from_group"),("partial read","uvpspec_utils.py: _select with h5file")],None,["files on disk, UVPSpec objects"])
add("U04","Combining power spectra is an exact, order-independent union",
 "Combining objects that together tile a larger spectrum along one axis (spectral window, baseline-pair-time, or polarization pair) gives an object containing each input cell exactly once with its value, weight, statistics, labels, times and normalization unchanged, and nothing else - whatever the order of the inputs, the number of inputs or their internal row order. Inputs that overlap, leave holes, or disagree in fixed metadata are refused with an error. The inputs themselves are never modified.",
 ["inputs","histories"],"all ways of cutting an object into parts along one axis (and recursively along several), all orders of the parts, all overlapping or incompatible sets",
 "tests combine two or three fixed parts and compare shapes",
 [S+"uvpspec.py",S+"uvpspec_utils.py"],[("combination","uvpspec.py: combine_uvpspec, recursive_combine_uvpspec"),("overlap detection","uvpspec.py: get_uvp_overlap"),("row matching","uvpspec_utils.py: _fast_lookup_blpairts, _fast_is_in")],None,["combine_uvpspec, recursive_combine_uvpspec, +"])
add("U05","Averaging forms the documented weighted mean of exactly the grouped cells",
 "Averaging over baseline-pair groups and/or time gives, for each group, window and polarization, the weighted mean of exactly the member spectra: weights proportional to the squared integration time times the number of samples or, on request, to the inverse square of a chosen error statistic, times the (normalized) user-supplied baseline-pair weight. Bandpass weights, window functions and integration times are averaged alike, sample counts are added up (each times its baseline-pair weight), statistics are propagated as independent errors with the same weights, covariances accordingly. Spectra of zero weight do not influence the averaged spectra and errors, a pair in no group is averaged on its own (left out if window functions are exact), each result carries pair, times and labels of the first pair of its group (times and LSTs averaged if time is), and the outcome does not depend on how the rows of different pairs are interleaved or on the order of pairs within a group. Folded spectra stay usable. Without in-place averaging the input is unchanged; a refused request changes nothing.",
 ["inputs","histories"],"all partitions of baseline-pairs into groups, all weights including zeros, ragged time sampling, all row orders",
 "tests average identical spectra with equal weights, for which many wrong formulas agree",
 [S+"grouping.py",S+"uvpspec.py"],[("average","grouping.py: average_spectra; uvpspec.py: UVPSpec.average_spectra")],None,["average_spectra"])
add("U06","Folding averages each positive delay with its mirror and nothing else",
 "Folding a spectrum replaces every positive-delay value by the mean of it and the value at the mirrored negative delay, with error statistics, covariances and window functions propagated consistently, drops the zero and negative delays from what is returned, and leaves all other keys' pairing and metadata intact. Folding twice is refused. It holds for even and odd numbers of delays and for every spectral window of a multi-window object, and data keep matching their delay axis after later selection, averaging or I/O.",
 ["inputs","histories"],"all delay-axis lengths, several windows of different lengths, all optional arrays, and operations applied before and after",
 "tests fold one single-window object of constant value",
 [S+"uvpspec.py"],[("fold","uvpspec.py: fold_spectra"),("delay axis","uvpspec.py: get_dlys, spw_to_dly_indices")],None,["fold_spectra and getters"])
add("U07","Objects stay consistent and inputs untouched through any chain of operations",
 "Starting from a valid power-spectrum object, any sequence of the library's operations (select, combine, average, fold, difference, common-sample selection, statistics, unit conversion, cosmology change, bias correction, copy, write/read) produces objects that pass their own consistency check and whose declared counts, axes and array shapes agree with one another. Operations documented as returning a new object leave every input object and argument unchanged. Two objects compare equal exactly when all their data and metadata agree.",
 ["histories"],"all finite sequences of operations on several objects",
 "tests apply operations singly to fresh objects and do not re-inspect the inputs",
 [S+"uvpspec.py",S+"uvpspec_utils.py",S+"grouping.py",S+"loss.py"],[("consistency check","uvpspec.py: UVPSpec.check, __eq__"),("differences","uvpspec_utils.py: subtract_uvp, select_common"),("bias","loss.py: apply_bias_correction")],None,["UVPSpec public methods"])
add("D01","A data set's answers depend only on its current data and settings",
 "Any quantity computed from a power-spectrum data set (weights, covariances, weighting matrices, weighted data, unnormalized bandpowers, response matrices, spectra) equals what a freshly built data set with the same current data, flags and settings (spectral window, taper, weighting, filter extensions, delays, symmetric-taper choice, weighting parameters, user-supplied matrices) would compute. This holds whatever was computed, set, cleared or added before, and for data changed through the data set's own operations (broadcasting flags, trimming, rephasing, unit conversion, adding). User-supplied matrices stay in force until they are cleared or until the window, extension or data they belong to change. Adding data sets keeps data, weights, standard deviations and labels matched, and labels stay unique.",
 ["histories"],"all interleavings of setting changes, data changes (flag broadcasting, unit conversion, trimming, adding), cache clearing and queries",
 "tests set a configuration once and query once; a stale cached matrix only shows after a change following a query",
 [S+"pspecdata.py"],[("matrix caches","pspecdata.py: PSpecData._C/_I/_iC/_Y/_R, clear_cache"),("settings","pspecdata.py: set_spw, set_taper, set_weighting, set_filter_extension, set_symmetric_taper, set_r_param, ...")],[("matrix caches","computed matrices per key","pspecdata.py PSpecData")],["PSpecData getters"])
add("D02","Each estimated spectrum depends only on its own visibilities and request",
 "In an estimation run over several spectral windows, polarization pairs and baseline-pairs, every resulting spectrum, weight, integration time and time stamp equals what is obtained when that window, polarization pair and baseline-pair is requested alone, whatever else is requested and in whichever order. Each output row carries the baseline-pair, both time stamps, both LSTs and the data-set labels of the visibilities it was formed from, first member from the first data set and second member from the second. Where flags cover whole integrations or whole channels (as broadcasting leaves them), flagged samples do not influence any spectrum that carries integration time, and the run leaves the data sets unchanged.",
 ["inputs","configurations"],"all sets and orders of windows, polarization pairs and baseline-pairs, all flagging patterns, data-set pairs in either order",
 "tests check shapes and a few values for single requests with unflagged data",
 [S+"pspecdata.py"],[("main loop","pspecdata.py: PSpecData.pspec")],None,["PSpecData.pspec output"])
add("D03","Flag broadcasting flags exactly the over-threshold times and channels",
 "Broadcasting flags across time in a spectral window flags, for each baseline and polarization, whole integrations and whole channels exactly as the documented threshold rule on the fraction of flagged samples (among the integrations not flagged across the whole band) dictates, independently of every other baseline and polarization. It never removes a flag and touches nothing outside the requested spectral windows. Afterwards the weights of each waterfall are separable in time and frequency within each window (of windows that do not overlap).",
 ["inputs"],"all flag patterns, thresholds and lists of spectral windows",
 "tests check two fixed patterns",
 [S+"pspecdata.py"],[("broadcast","pspecdata.py: broadcast_dset_flags")],None,["flag arrays"])
add("D04","Trimming data sets to common LSTs keeps exactly the shared integrations, aligned",
 "Trimming a collection of data sets on one LST grid (each with its own start, length and constant offset) leaves every data set with the same number of integrations, whose LSTs agree across the data sets within the tolerance, and keeps every integration whose LST is present, within the tolerance and also across the wrap, in all of them and no other; data sets on different grids are refused. The kept visibilities, flags and sample counts are unchanged and stay attached to their times, and weights and standard deviations are trimmed alike.",
 ["inputs"],"all relative LST offsets and lengths of two or more data sets on a common LST grid",
 "tests trim one fixed pair",
 [S+"pspecdata.py"],[("trim","pspecdata.py: trim_dset_lsts")],None,["dsets after trim"])
add("G01","Baseline-pair construction yields exactly the redundant pairs asked for",
 "From a list of baselines the constructed pairs are exactly all ordered (or, on request, unordered) pairs, with or without self-pairs or cross-pairs as requested, each exactly once, and grouping only partitions that list in order. From data sets, pairs are formed only within one redundant group (equal separation vectors within tolerance), only from baselines present in the respective data sets, never involving excluded or fully flagged antennas, and respecting the length and angle limits; no qualifying pair is missing. Redundancy grouping of baseline-pairs partitions them. Where baselines are grouped by length and angle, a baseline and its reverse count as the same separation.",
 ["inputs","configurations"],"all antenna layouts, baseline lists, option combinations, flag patterns",
 "tests count pairs for one layout",
 [S+"utils.py"],[("pairs","utils.py: construct_blpairs, calc_blpair_reds"),("redundancy","utils.py: get_reds, get_blvec_reds, get_bl_lens_angs")],None,["returned pair lists"])
add("G02","Grouping and bootstrap resampling never lose, duplicate or mix baselines",
 "Splitting baselines or spectra into groups puts every one into exactly one group (except documented remainders), sampling draws only members of the given set, and a bootstrap resample of baseline-pair groups is a with-replacement draw of the same size whose average equals the weighted average with the multiplicities of the draw. A given seed always reproduces the same result.",
 ["inputs"],"all list sizes, group counts, seeds, group structures",
 "tests try a few sizes and compare only counts",
 [S+"grouping.py"],[("grouping","grouping.py: group_baselines, sample_baselines, bootstrap_average_blpairs, bootstrap_resampled_error")],None,["returned groups, averaged objects"])
add("G03","Re-binning in delay or spherical k uses each mode once with normalized weights",
 "Spherical binning of a power spectrum whose baseline-pairs have the same times assigns every mode to the single bin containing its |k|, each bin's value being the weighted mean (weights: uniform, inverse squared errors, or inverse covariance) of exactly its modes, with bins without weight marked by zero and huge errors; statistics, covariances and window functions are propagated with the same weights, integration times averaged by and bandpass weights (up to their scale) summed with each pair's total weight, samples summed, and every window, time and polarization is treated separately, whatever the order of the rows. Pairs that do not have the same times are refused. Averaging on the way equals averaging first. Binning in delay applies the given (symmetric) kernel, normalized, to each spectrum independently, pairing every bin with its mirror image. Inputs and arguments are unchanged.",
 ["inputs"],"all bin layouts, weights, baseline lengths and window/time/polarization combinations",
 "tests bin constant spectra for which any normalized assignment agrees",
 [S+"grouping.py"],[("spherical","grouping.py: spherical_average"),("delay","grouping.py: average_in_delay_bins")],None,["returned objects"])
add("R01","The end-to-end run stores exactly the requested spectra, rightly named",
 "An end-to-end run over data sets (objects, or files of which whatever is present of the requested baselines and polarizations is used) writes, for each requested data-set pair with at least one usable baseline-pair, exactly one spectrum, under the group and pair name built from the (unique) labels, equal to the estimate, with the given options and history, from those two data sets in that order after calibration, trimming, interleaving, rephasing, flag broadcasting and unit conversion as asked for; other content of the output file is untouched. Existing spectra are replaced only if overwriting is allowed. A run that is refused stores nothing; one that fails at some pair keeps what it stored for earlier pairs. Interleaving splits the integrations of the single data set alternately between the two halves so that none is used in both. The beam and the other settings given are not changed.",
 ["configurations","histories"],"all data-set counts, pair lists, labels, polarization pairs, baseline-pair lists, overwrite and interleave options, input forms, repeated runs into one file",
 "tests run a few configurations and check that the expected names exist",
 [S+"pspecdata.py",S+"container.py"],[("pipeline","pspecdata.py: pspec_run, _load_dsets")],None,["output container"])
add("R02","The job monitor retries exactly the failed jobs and reports exactly the failures",
 "Running a list of jobs with retries calls the worker once for every job, then again only for the jobs whose latest attempt failed, at most the allowed number of times, each time with that job's own element. The returned list names exactly the jobs whose last attempt failed; if every job fails at first an error is raised.",
 ["fault_sequences","schedules"],"all failure patterns over jobs and attempts, all retry limits, all element types",
 "tests use a worker that always or never fails on consecutive integers",
 [S+"utils.py"],[("retry loop","utils.py: job_monitor")],None,["calls of the worker, returned list"])
add("S01","Pseudo-Stokes visibilities combine exactly the right samples",
 "Each pseudo-Stokes visibility is the documented linear combination of the two required linear polarizations taken at the same baseline, time and frequency, under the data's polarization convention; a sample is flagged if either input is flagged or lacks samples, and sample counts combine so that variance is preserved. Data sets that disagree in baselines, times, frequencies, or lack a needed polarization are refused. Inputs are not modified. Choosing data sets for a pseudo-Stokes parameter returns the first ones having its two polarizations first, in the order of the combination, or refuses.",
 ["inputs"],"all data values, flags and sample counts, all four Stokes parameters, both conventions, any order of polarizations in the inputs",
 "tests check one file and mostly shapes",
 [S+"pstokes.py"],[("combination","pstokes.py: _combine_pol_arrays, construct_pstokes, filter_dset_on_stokes_pol")],None,["UVData output"])
add("B01","Batched merging of per-baseline files equals combining them all at once",
 "Merging per-baseline spectrum files stores, under each requested name of the output file, exactly the object that combining what all files matching the pattern have under that name gives at once, for every batch size and file order: data, statistics, labels, windows and other arrays are those of the parts. Requested header attributes are collected for each baseline-pair from its own file. Other content of the output file and the files merged are untouched, and a merge that cannot be done (no file, missing name or attribute, overlapping or incompatible parts) changes nothing stored. The output of a merge can be merged further.",
 ["configurations","inputs","histories"],"all numbers of files and batch partitions, patterns, names and attributes, repeated merges into the same or other files",
 "tests run one merge of a few files with one batch size",
 [S+"cli.py",S+"uvpspec.py"],[("batched merge","cli.py: fast_merge_baselines")],None,["output file"])
add("W01","Exact window functions belong to their own channels, beams and baseline length",
 "The exact window function computed for a spectrum is the documented function - beam transforms evaluated over the plane of transverse modes, tapered and transformed over frequency, averaged over rings of transverse modes and over line-of-sight modes, normalized to one - of exactly that spectrum's channels, of the beams of the first and second member of its polarization pair (read from the files of these polarizations, or the one beam given), of the mean length of its redundant group, and of the object's taper, cosmology and units, for every delay, even and odd numbers of channels, and whatever other windows, pairs and polarizations the object holds; all rows of a pair have it, pairs of non-redundant baselines have none, and the bins cover all lengths and delays. Computing it in place touches nothing else, otherwise the object is unchanged, and a request that cannot be met (missing beam, folded or oversampled spectra) is refused and changes nothing. Beams cut to channel ranges, repeatedly, keep exactly those channels; window functions of beams computed directly, their weighted spherical averages (rows normalized) and what is stored of them follow the same formulas, beams with different channels are refused as a pair, and a file is replaced only on request and only by a request that succeeds.",
 ["inputs","configurations","histories"],"all beams (different for every channel and polarization), baseline lengths, numbers of channels, tapers, cosmologies and units; objects of several windows, pairs and polarizations; sequences of computing, selecting and storing",
 "the tests need a beam file that is not part of the repository and do not run; those for it compare shapes",
 [S+"uvwindow.py",S+"uvpspec.py"],[("window functions","uvwindow.py: FTBeam, UVWindow"),("of an object","uvpspec.py: get_exact_window_functions")],None,["UVPSpec window functions","HDF5 file of window functions"])
add("N01","Analytic error bars use each spectrum's own antennas, times and band",
 "The noise error bar stored for a spectrum is computed from the auto-correlations of exactly that spectrum's four antennas at exactly that spectrum's two times, over its own spectral window and (first) polarization, ignoring flagged samples - an integration flagged throughout is replaced by the one nearest in LST among those of the pair, and the error is infinite if there is none. It is the documented function of system temperature, integration time, number of samples and (for P_SN, with its correction if asked for) of the measured power; it is stored under the requested names for every cell, follows a given P_N instead when told to, and changes neither the spectra nor other statistics nor the auto-correlations. Noise spectra generated for given system temperatures follow the same formula for each pair, time, form and component. System temperatures are the auto-correlations converted with the beam of their own polarization, flags and times unchanged.",
 ["inputs"],"all assignments of system temperatures to antennas, times, frequencies and polarizations; interleaved times; flags",
 "tests use one smooth set of autos where neighbouring antennas and times give nearly equal values",
 [S+"utils.py",S+"uvpspec.py",S+"noise.py"],[("error bars","utils.py: uvp_noise_error; uvpspec.py: generate_noise_spectra")],None,["stats_array of the spectrum object"])
add("G04","Configured cross spectra are those of the files that exist, each exactly once",
 "Given templates of visibility files, pairs of polarizations and pairs of groups, the configuration has one entry for each requested combination both sides of which have a file that exists and is not excluded by a pattern (matched against the full file name), and no other; the entry names these files and has exactly the baseline pairs asked for: ordered pairs of baselines of one redundant group, with or without self-pairs, without excluded antennas and within the limits of length and angle, each exactly once. This does not depend on which files, chunks or polarizations happen to exist, nor on their order; the arguments are unchanged.",
 ["configurations","inputs"],"all sets of files present, templates, exclusion patterns, requested pairs, antenna layouts and options",
 "the tests configure one directory in which the first file exists and nothing is excluded",
 [S+"utils.py"],[("configuration","utils.py: config_pspec_blpairs")],None,["returned dictionary"])
add("P01","Beam models and cosmologies answer for exactly what they are asked for",
 "A beam model built from tables answers for each polarization from that polarization's own table, however the polarization is named (number, name, direction on the sky where the orientation is known), at the frequencies asked for: integrals over the sky, power spectrum scalars (which scale as the square of the beam's integral over that of its square) and conversions from Jy to mK. Adding a polarization changes that one only, a refused request changes nothing, and what the caller gave is neither changed nor shared: later writes to it do not change the beam. A cosmology has the parameters given, with its matter densities consistent, and its distances and their conversions follow from them, for one redshift as for many.",
 ["inputs","histories"],"all tables, polarizations and ways of naming them, frequencies, cosmological parameters, sequences of adding and asking",
 "tests ask one beam and the standard cosmology for a few numbers",
 [S+"pspecbeam.py",S+"conversions.py"],[("beams","pspecbeam.py: PSpecBeamBase, PSpecBeamGauss, PSpecBeamFromArray"),("cosmology","conversions.py: Cosmo_Conversions")],None,["answers of beam and cosmology objects"])
add("D05","Data sets are calibrated by their own calibration, and only those meant to be",
 "Data sets, and data sets of their errors, entered into an analysis together with calibrations are those data with each visibility divided (or multiplied, as the calibration says) by the gains of exactly its two antennas, polarizations, time and channel, flagged in addition where the calibration is if so asked, and otherwise unchanged. Every entry has its own calibration, also if one data set is entered several times with different ones; entries without one are the raw data. The caller's objects and lists are unchanged, and an addition that is refused leaves the analysis as it was. Spectra of an end-to-end run with calibrations are those of the data calibrated this way.",
 ["inputs","histories"],"all gains, flags, polarizations and orders of entering data sets, error data sets and calibrations, in lists or by label",
 "tests calibrate one file with one set of gains and look at one product",
 [S+"pspecdata.py"],[("calibration","pspecdata.py: PSpecData.add, pspec_run")],None,["PSpecData.dsets, PSpecData.dsets_std"])
add("V01","Plots show exactly the spectra asked for, under their own axes and labels",
 "A plot of delay spectra has exactly one curve for each requested baseline-pair (or group to be averaged) and time (or the average over them): the values, in the requested component, of exactly those cells of the requested window and polarization at their own delays or wave numbers, in the units the labels state, folded if asked, blank where nothing was measured, with the error bars of the named statistic, and labels naming what varies among the curves. A waterfall has one panel for each requested pair, whose rows are that pair's own times with their own LSTs, and whose title names the pair. A wedge has one row for each baseline length (or pair), in order of length, each the average of that length's spectra at its own delays; horizon lines follow the lengths. Waterfalls of visibilities are written one file for each requested baseline and polarization. Drawing changes neither the object drawn nor the arguments; requests for what an object does not have are refused.",
 ["inputs","configurations"],"all objects (several windows, pairs, times, polarizations, blank cells, folded, irregular times), all requests: groups, averages, components, units, axes, labels",
 "tests count the lines drawn of one object, or compare nothing",
 [S+"plot.py"],[("plots","plot.py: delay_spectrum, delay_waterfall, delay_wedge, plot_uvdata_waterfalls")],None,["artists of matplotlib axes","files written"])
add("D06","Data sets that do not fit together are refused, and entries are what was given",
 "Data sets entered into an analysis, with their weights, errors and labels, in any of the forms there are (single objects, lists, tuples, dictionaries in any order), are held in the order given, each with its own weights and errors, under labels that are unique and mean that data set; earlier entries and labels and the caller's objects and lists are unchanged. An addition that is refused (a list of another length, an object of another kind) leaves the analysis as it was. Whether data sets fit together does not depend on their order or number: validation, and every estimation or flag broadcasting that requires it, refuses exactly those that differ in number of times, number of channels, channel width or kind of phasing, have several phase centres, or are accompanied by lists of weights, errors or labels of another length, before anything is changed; misaligned LSTs or frequencies are accepted with a warning, which aligned ones are not given. Of the polarization pairs asked for, spectra are made of exactly those that the two data sets have; whether a data set has a polarization, baseline or both is answered by what it holds.",
 ["inputs","histories"],"all collections of data sets differing in any of these respects, all forms and orders of entering them, all requests",
 "tests refuse one pair of data sets for each reason",
 [S+"pspecdata.py"],[("validation","pspecdata.py: PSpecData.add, validate_datasets, validate_pol, check_key_in_dset, dset_idx")],None,["errors raised, warnings printed","PSpecData.dsets, wgts, dsets_std, labels","polarization pairs of spectra"])
add("D07","Spectral windows are exactly the channels they name",
 "The window belonging to a range of frequencies is that of the first and the last channel at or above the lower bound and below the upper one, in the data or spectrum asked, and that of a range of redshifts is that of the same range of frequencies; every range of a list has its own answer, in order, none where there are no channels, and a range that is turned or, if so asked, exceeds the band is refused. The spectra estimated in a list of windows have exactly the frequencies of those channels, window by window, and the delays belonging to their number and width; the ranges a spectrum reports for its windows lead back to them. A window set in an analysis selects exactly its channels of the visibilities and has its own delays.",
 ["inputs"],"all bands, ranges in and around them, lists of ranges, windows and numbers of delays",
 "tests ask a few ranges of one file",
 [S+"utils.py",S+"pspecdata.py",S+"uvpspec.py"],[("ranges","utils.py: spw_range_from_freqs, spw_range_from_redshifts"),("windows","pspecdata.py: PSpecData.set_spw, delays, pspec; uvpspec.py: UVPSpec.get_spw_ranges, get_dlys")],None,["returned indices","frequencies and delays of spectra"])
add("A01","Command lines and configuration files mean exactly what is written in them",
 "A command line hands the function behind it exactly what is written: every option written gives its parameter the value meant, in either of the documented notations, every option not written the documented default, whatever the order of the options, the number of inputs, and the logging options; data sets and container come in the order given and the command is kept in the history of the spectra. A malformed line is refused and nothing is run. The pseudo-Stokes command writes a file with exactly the polarizations asked for, in addition to those of the input if these are to be kept, each as constructed from the input's visibilities; it replaces a file only on request and a request it cannot meet leaves all files as they were. The noise command adds the errors asked for to exactly the named spectra of the named groups of a container (all, where nothing is named) and changes nothing else in it. In a configuration file, at any depth, 'None' becomes None and lists of lists become lists of tuples, and everything else stays as written.",
 ["configurations","inputs"],"all sets, orders, values and notations of options of every command; all sequences of commands on files and containers; all nested configurations",
 "tests parse one line per parser; no test runs a script",
 ["scripts/pspec_run.py","scripts/bootstrap_run.py","scripts/psc_merge_spectra.py","scripts/generate_pstokes_run.py","scripts/auto_noise_run.py",S+"pspecdata.py",S+"grouping.py",S+"container.py",S+"pstokes.py",S+"utils.py"],[("parsers","get_pspec_run_argparser, get_bootstrap_run_argparser, get_combine_psc_spectra_argparser, generate_pstokes_argparser, uvp_noise_error_parser"),("scripts","scripts/*.py"),("configuration","utils.py: load_config")],None,["arguments of the functions called","files and containers written","returned dictionary"])
add("N02","The sensitivity calculator answers for its own beam, cosmology and observation",
 "A calculator of thermal noise and its beam always have one and the same cosmology: that set last, whether before or after the beam and in any of the forms there are, or the beam's own if none has been set. The scalar it holds is that of its beam under the cosmology it had when the scalar was calculated, for the window, polarization and units asked for, until another is calculated; a scalar without a beam is refused. The noise power it gives is that scalar times the square of the system temperature, divided by the integration time, by the number of coherent averages and the root of the number of incoherent ones, and by the root of two for one component, as a power spectrum or, at the wave numbers given, a dimensionless one; requests it cannot meet are refused. Calculators are independent of each other, and nothing given to them is changed, except for the cosmology of a beam handed over.",
 ["inputs","histories"],"all orders of setting cosmologies and beams, calculating scalars and asking for noise, all parameters of an observation",
 "tests set the cosmology first, then one beam, and look at one noise level",
 [S+"noise.py"],[("sensitivity","noise.py: Sensitivity, calc_P_N")],None,["scalar, subband, cosmology of the calculator and its beam","noise power"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: 
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
