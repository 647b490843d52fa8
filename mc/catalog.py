"""The properties: single source of /verif/properties.jsonl and of the checks of MANIFEST.json.

    python3 mc/catalog.py        rewrites both files
"""
import json, os, sys

S = 'src/razorback/signalset.py'
U = 'src/razorback/utils.py'
M = 'src/razorback/mestimator.py'
W = 'src/razorback/weights.py'
FT = 'src/razorback/fourier_transform.py'
B = 'src/razorback/io/binary_file_array.py'
A = 'src/razorback/io/ats.py'
C = 'src/razorback/calibrations.py'
D = 'src/razorback/data.py'
L = 'src/razorback/cli.py'
P = 'src/razorback/prefilters.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         level='model_checking', observe=None, state=None, claimed=True, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note,
                      level=level, observe=observe or [], state=state or [],
                      claimed=claimed, na=na))


BIND = ('Every explored model step is executed on the real code (scratch copy of the working tree) '
        'and compared with an independent reference model; nothing is sampled. ')

prop('C01', 'Tag tables behave as bounded name-to-channels dictionaries',
     "A tag table maps names to non-empty tuples of channel numbers inside its fixed range. After any "
     "history of insertions, replacements, deletions and bulk updates, through item or attribute syntax, "
     "it holds exactly what a plain dictionary would hold and item and attribute reads agree; an entry "
     "that is empty, out of range, or not named by a string starting with a letter is refused and leaves "
     "the table unchanged. Pattern queries return exactly the matching names and the sorted channels they designate.",
     ['histories', 'inputs'], 'all operation histories on a tag table, all names and index groups',
     'The doctests build a handful of tables and never delete, replace or mix the two access syntaxes.',
     [S], [('TagsBase.__setitem__ validation', S + ': TagsBase'), ('Tags.filter / filter_get', S + ': Tags')],
     'explicit-state search: breadth-first over operation histories of a tag table against a dictionary model',
     BIND + 'Bounded: 3 names, ranges up to 3 channels, all histories up to the depth reported; names that '
     'coincide with mapping methods are checked through item syntax only.',
     observe=['Tags mapping and attribute access', 'Tags.filter', 'Tags.filter_get'])

prop('C02', 'Signal sets are time-ordered, disjoint and homogeneous',
     "Whatever the order and grouping in which runs are supplied, a signal set holds exactly those runs, sorted "
     "by time, and its reported rates, sizes, starts, stops and intervals agree with the samples. Runs that "
     "overlap in time by more than a shared end point, runs with different numbers of channels, channels of "
     "different lengths inside a run, and tags pointing outside the channels are all refused.",
     ['inputs', 'configurations'], 'all small collections of runs (rates, positions, sizes), all supply orders and groupings, all tag tables',
     'The doctests only build sets from runs that are already compatible and almost always in time order.',
     [S], [('overlap / ordering checks', S + ': SignalSet.__init__'), ('tag range check', S + ': SignalSet.tags setter'),
           ('length check', S + ': SyncSignal.__init__')],
     'bounded exhaustive enumeration of run layouts, permutations and tag tables against a reference model',
     BIND + 'Bounded: up to 4 runs on a small time grid with several clocks, up to 3 channels.',
     observe=['SignalSet constructor', 'SignalSet.signals / intervals / sizes / tags'])

prop('C03', 'Channel selection keeps exactly the designated channels and tags',
     "Selecting channels by tag, index, slice, attribute, or any mixed sequence of tags and indices keeps exactly "
     "the designated channels, in increasing channel order, in every run, each with its own samples, calibration, "
     "sampling rate and start. Every tag whose channels are all kept still designates the same channels in the "
     "same order, every other tag disappears, and an unknown identifier is refused.",
     ['inputs', 'configurations'], 'all tag tables over up to 4 channels and all selectors over them',
     'The doctests cover about ten selections on two fixed tag tables.',
     [S], [('index remapping', S + ': SignalSet.select_channels'), ('per-run selection', S + ': SyncSignal.select')],
     'bounded exhaustive enumeration of tag tables x selectors against a reference model',
     BIND + 'Bounded: tables of up to 2-3 tags over 3 (quick) or 4 (thorough) channels plus wide tables of 12 channels.',
     observe=['SignalSet.select_channels', 'SignalSet.__getitem__', 'SignalSet.__getattr__'])

prop('C04', 'Run selection behaves like one-dimensional array indexing',
     "Selecting runs by integer, slice, list of indices or boolean mask keeps exactly the runs that the same index "
     "would keep in a one-dimensional array, in time order, with their samples, calibrations, rates, times and the "
     "tag table unchanged. Combined indexing selects the channels and the runs independently of each other, and an "
     "out-of-range or repeated run index is refused.",
     ['inputs'], 'all numbers of runs up to 5 and all integer, slice, list and mask indices over them',
     'The doctests use two masks on one set of three runs.',
     [S], [('run indexing', S + ': SignalSet.select_runs'), ('combined indexing', S + ': SignalSet.__getitem__')],
     'bounded exhaustive enumeration of run counts x run indices against list indexing',
     BIND + 'Bounded: up to 4 runs (quick) or 5 (thorough); all slices with bounds in [-n-1, n+1] and steps +-1..3.',
     observe=['SignalSet.select_runs', 'SignalSet.__getitem__'])

prop('C05', 'Time extraction keeps exactly the samples of the interval',
     "Extracting a time interval keeps exactly the samples whose time lies in the closed interval, with their values, "
     "sample times, tags and calibrations unchanged, for any start time, sampling rate and bounds; excluding an interval "
     "keeps exactly the samples at or before its start and those at or after its end. A sample whose time equals a bound up "
     "to floating-point rounding counts as lying on it, and runs left with fewer than two samples are dropped.",
     ['inputs', 'configurations'], 'all small sets of runs over many clocks (start, rate) and all interval bounds on, between and outside samples',
     'One doctest extracts one interval, on integer times at 1 Hz where no rounding occurs.',
     [S], [('time to index conversion', S + ': SyncSignal._time_to_index'), ('extraction', S + ': SyncSignal.extract_t, SignalSet.extract_t')],
     'bounded exhaustive enumeration of clocks x run layouts x interval bounds against an exact rational model',
     BIND + 'Bounded: sizes up to 8, bounds on every half sample around the runs; clocks include epoch-scale starts and '
     'rates that are not dyadic.',
     observe=['SignalSet.extract_t', 'SyncSignal.extract_t', 'SyncSignal.extract_i'])

prop('C06', 'Joining gathers all runs with every tag keeping its channels',
     "Joining signal sets yields the runs of all operands in time order, whatever the order and grouping of the operands. "
     "In every run each tag designates the samples and calibrations it designated in its original operand, even when the "
     "operands number their channels differently. Operands whose tag names or group sizes differ, or whose runs overlap in "
     "time, are refused.",
     ['inputs', 'configurations'], 'all pairs and triples of small sets with all channel numberings and run positions',
     'The doctests join three fixed sets in four combinations and compare one channel.',
     [S], [('channel reordering', S + ': SignalSet._reorder_data'), ('join', S + ': SignalSet.join')],
     'bounded exhaustive enumeration of operand tuples against a reference model',
     BIND + 'Bounded: 2 to 4 operands, up to 4 channels with all channel permutations, group tags, bare runs as operands.',
     observe=['SignalSet.join', 'operator |'])

prop('C07', 'Merging takes the union of channels on exactly the common intervals',
     "Merging signal sets yields all the channels of the operands, in operand order, on exactly the time intervals of positive "
     "length where every operand has a run at one same sampling rate; each channel keeps its own samples, sample times and "
     "calibration there, and every tag keeps its channels. Parts where the sampling rates differ are skipped, and operands "
     "sharing a tag name, or sharing an interval at the same rate with sample clocks that are not aligned, are refused. "
     "Operands without any common interval give a set without runs that can itself be merged again.",
     ['inputs', 'configurations'], 'all tuples of 2-3 small sets of runs over several clocks',
     'The doctests merge sites with one run each, on integer times at one sampling rate.',
     [S], [('interval intersection', S + ': SignalSet.merge'), ('extraction on both sides', S + ': SyncSignal.extract_t')],
     'bounded exhaustive enumeration of operand tuples against a reference model',
     BIND + 'Bounded: 2-3 operands of up to 3 runs, a grid of start offsets, three rates, aligned and misaligned clocks.',
     observe=['SignalSet.merge', 'operator &'])

prop('C08', 'Merging consecutive runs loses, moves and invents no sample',
     "Merging consecutive runs concatenates exactly the maximal chains of neighbouring runs of the same sampling rate in which each run "
     "starts one sampling period after the previous one stops. No sample is lost, duplicated, reordered or moved in time, the "
     "merged run keeps the calibrations of its first run, the other runs, the channels and the tags are left as they are, and "
     "doing it twice changes nothing more.",
     ['inputs', 'configurations'], 'all sequences of up to 5 runs with consecutive, gapped or touching neighbours, rates and clocks',
     'The tests compare intervals only, never samples, on dyadic rates and day-aligned starts.',
     [S], [('grouping', S + ': SignalSet.merge_consecutive_runs, _group_indices')],
     'bounded exhaustive enumeration of run chains against a reference model',
     BIND + 'Bounded: chains up to 5 (quick) or 6 (thorough) runs over {consecutive, gap, touching} x {rate}; clocks include '
     'epoch-scale starts with non dyadic rates.',
     observe=['SignalSet.merge_consecutive_runs'])

prop('C09', 'Inventory queries apply to each element and drop empty results',
     "Filtering by tag patterns, selecting channels, selecting runs and extracting time intervals from an inventory return a "
     "new inventory holding, in the original order, the result of the operation on each element, without the elements "
     "where nothing is left, and leave the original inventory as it was. Pattern selection keeps in each element exactly the channels designated by tags "
     "matching at least one shell-style pattern; only signal sets can be stored, and an inventory reports the tags, rates, starts, stops "
     "and intervals of its elements.",
     ['inputs', 'histories'], 'all small inventories, all queries and chains of two queries',
     'One doctest exercises select_channels on one inventory; filter, select_runs and extract_t of inventories are untested.',
     [S], [('per element queries', S + ': Inventory.filter, select_channels, select_runs, extract_t')],
     'bounded exhaustive enumeration of inventories x query chains against a reference model',
     BIND + 'Bounded: up to 3 elements drawn from 8 signal sets, all queries of a fixed alphabet, chains of length 2 (3 in thorough).',
     observe=['Inventory methods'])

prop('C10', 'Packing an inventory yields exactly the common synchronous data',
     "Packing an inventory with consistently defined tags gives one signal set in which every tag designates its own "
     "channels' original samples, on exactly the maximal time intervals where all the tags are available at one same "
     "sampling rate (pieces shorter than two samples between file boundaries excepted), consecutive files being merged into "
     "one run. The result does not depend on the order or the splitting of the elements, or on hash ordering, and is an "
     "empty set when no sampling rate offers all the tags in common; extracting groups packs each group under its new tag.",
     ['inputs', 'configurations'], 'all small surveys: sites x files x positions x rates x group tags, and all element orders',
     'pack() is not tested at all; only the merge of three single-run sites is.',
     [S], [('grouping of tags', S + ': Inventory._join_merge'), ('per rate merge', S + ': Inventory.pack'),
           ('groups', S + ': Inventory.extract_groups')],
     'bounded exhaustive enumeration of surveys against an independent sample-based reference',
     BIND + 'Bounded: 1-3 sites, up to 3 files per site on a grid, 2 rates; several hash seeds in separate processes.',
     observe=['Inventory.pack', 'Inventory.merge', 'Inventory.extract_groups'])

prop('C11', 'Operations never alter their operands',
     "Any history of selections, extractions, joins, merges, inventory queries, Fourier transforms and estimations leaves the "
     "observable state of every pre-existing signal set, inventory, tag table and sample array unchanged, and repeating an operation gives "
     "the same result. Editing the tags of a resulting set, or appending to a resulting inventory, changes no other object, and a deep copy of a signal set is equal to the original and independent of it.",
     ['histories'], 'all histories of operations up to a depth over a pool of shared objects',
     'Tests use each object once and never re-observe operands.',
     [S, U], [('new Tags per set', S + ': SignalSet.tags setter'), ('new containers', S + ': Inventory.__init__')],
     'explicit-state search over operation histories on a pool of shared real objects, with a frame-condition oracle',
     BIND + 'Bounded: all histories of length 2 (quick) / 3 (thorough) over an alphabet of about 40 operations.',
     observe=['all public operations'])

prop('C12', 'Fourier coefficients are the windowed transforms of complete windows',
     "Fourier coefficients of a signal set are, run after run in time order, the windowed discrete Fourier sums (scaled by 2 over the window length) of the "
     "complete windows of Nper periods of each run, taken every (1-overlap) window length from the run's first sample, "
     "divided by the channel's calibration at that frequency; a window never straddles two runs. The reported window count, length and "
     "shift of each run describe those windows, and a frequency above half the sampling rate, windows too long for a run or a window function of another length are refused.",
     ['inputs', 'configurations'], 'all sample positions (impulses), run layouts, rates, frequencies, Nper, overlaps and windows on small sizes',
     'One doctest compares a few coefficients of a joined and an unjoined set.',
     [FT, S], [('sliding windows', FT + ': time_to_freq, discrete_window'), ('calibration', S + ': SyncSignal.fourier_coefficients'),
               ('concatenation', S + ': SignalSet.fourier_coefficients')],
     'bounded exhaustive enumeration of window geometries and of an impulse basis against direct summation',
     BIND + 'By linearity in the samples the impulse basis at every position decides all signals of the explored sizes (linearity is itself '
     'checked with mixed signals); sizes, rates and overlaps are bounded; floating point comparisons at 1e-9.',
     observe=['SignalSet.fourier_coefficients', 'time_to_freq'])

prop('C13', 'Results do not depend on chunking or on task execution order',
     "Fourier coefficients and extracted samples of lazily loaded signals are the same as for the same samples held in "
     "memory, whatever the chunk layout of each channel and whatever the order in which the scheduler runs the tasks, "
     "and deferred computation gives the same values as immediate computation.",
     ['configurations', 'schedules'], 'all chunk compositions of short signals; task orders within a deviation bound of the default schedule',
     'Tests use one chunk per array and the default scheduler.',
     [FT, S, B], [('lazy sliding windows', FT + ': time_to_freq'), ('lazy concatenation', S + ': merge_consecutive_runs')],
     'stateless model checking: all chunk compositions and all task schedules within a deviation bound, executed on the real graphs',
     BIND + 'Bounded: up to 7 samples (all 2^(n-1) layouts), schedules with at most 1 (quick) or 2 (thorough) deviations from the default order.',
     observe=['SignalSet.fourier_coefficients', 'dask.compute'])

prop('C14', 'File-backed arrays index exactly like in-memory arrays',
     "Indexing a file-backed array with any integer or slice, including negative, reversed, strided, empty and "
     "out-of-range slices, gives the same values and shape as indexing an in-memory array of the same content, and an "
     "out-of-range integer or too many indices are refused. The answer does not depend on earlier reads, on the element type, or on where the data "
     "start in the file, and data missing at the end of the file shorten the array with a warning.",
     ['inputs', 'histories'], 'all slices and integers over small sizes, element types and offsets; all short sequences of reads',
     'No test indexes a file-backed array; the fake proxy of the tests only sees full reads.',
     [B], [('index normalisation', B + ': BaseArrayProxy._to_slice, _pure_slice_index'), ('file access', B + ': BinaryFileArray_1D.extract')],
     'bounded exhaustive enumeration of indices and read histories against an in-memory array',
     BIND + 'Bounded: sizes 1-6, slice bounds in [-n-2, n+2] or absent, steps +-1..3 and +-n; 1-D to 3-D shapes.',
     observe=['BaseArrayProxy.__getitem__', 'BinaryFileArray_1D', 'to_dask_array'])

prop('C15', 'ATS files load exactly what they contain',
     "Loading ATS files gives one channel per file, in the given order, whose samples are the file's 32-bit integers times "
     "its LSB value, with the sampling rate and start time of the headers; every header field is decoded from its place in "
     "the format. A file cut at any byte yields its complete samples with a warning, or an error when no sample is complete, "
     "and files whose rate or start differ are refused. Files loaded together in one process never mix their contents, even when they "
     "were opened by the same relative name from different folders or rewritten between loads.",
     ['inputs', 'crash_points'], 'all header fields and boundary values, header lengths, sample counts, file orders, and every truncation point',
     'No test reads an ATS file.',
     [A, B], [('header layout', A + ': read_ats_header'), ('lazy samples', A + ': read_ats_sample'), ('truncation', B + ': BinaryFileArray_1D._get_real_size')],
     'exhaustive enumeration of header fields, truncation points and load histories against an independent writer',
     BIND + 'Bounded: files of up to 12 samples; truncation explored at every byte.',
     observe=['load_ats', 'load_ats_from', 'read_ats_header'])

prop('C16', 'Concurrent reads of file-backed data return the file content',
     "Reading file-backed arrays from several threads at once, as the parallel scheduler does when it loads chunks, returns "
     "for every read the values stored in the file at the requested positions, whatever the interleaving of the readers.",
     ['schedules'], 'all interleavings of 2-3 concurrent reads up to a preemption bound',
     'Tests read single-chunk fake arrays; no test has two concurrent readers.',
     [B, A], [('one private file handle per read', B + ': BinaryFileArray_1D.extract')],
     'stateless model checking of the real readers under a controlled thread scheduler with a preemption bound',
     'All schedules of the harness with at most the reported number of preemptions at every executed line of razorback '
     'code are run on the real code; preemption inside a C call (one numpy read) is not modelled.',
     observe=['BinaryFileArray_1D.__getitem__', 'load_ats'])

prop('C17', 'Rejected windows have no influence and are reported by position',
     "A transfer function estimate depends only on the windows that are not rejected: with a least-squares step it is the least-squares "
     "solution on exactly the windows kept, whatever the values in the rejected ones. The reported rejections are, for each output, exactly the positions, in the original numbering, "
     "of all the windows excluded beforehand or given a zero weight at any step of the chain. Each output is estimated independently of the other outputs, and numbers of windows, or of lists of exclusions, that disagree are refused.",
     ['inputs', 'configurations'], 'all subsets of windows rejected at each of up to 3 chained steps, all small data',
     'Tests only count rejected windows on one data set.',
     [M], [('composition of rejections', M + ': merge_invalid_indices, chain_m_estimate'), ('solver', M + ': wlse')],
     'bounded exhaustive enumeration of rejection patterns and chains against exact rational least squares',
     BIND + 'Bounded: up to 7 windows, 1-2 inputs, 1-3 outputs, 3 chained steps, all subsets; exact Gaussian-rational oracle.',
     observe=['transfer_function'])

prop('C18', 'A failing frequency gives NaN and disturbs no other frequency',
     "The impedance computed for a list of frequencies is, frequency by frequency and in order, what is computed for each frequency alone. A frequency "
     "that cannot be processed (out of range, windows too long, no convergence, dead channels, failing weights or prefilters) gives a NaN impedance, "
     "error and remote transfer of the normal shape and no rejected times, without affecting the others; when silent failure is "
     "disabled an estimation failure is raised instead.",
     ['inputs', 'configurations'], 'all lists of up to 3-4 frequencies over good and failing ones, all channel counts, with and without remote',
     'The tests only use a single failing frequency with one channel of each kind.',
     [U], [('per frequency loop and empty result', U + ': impedance, _impedance')],
     'bounded exhaustive enumeration of frequency lists x failure modes x channel counts against single-frequency runs',
     BIND + 'Bounded: lists up to length 3 over 6 frequency kinds, 1-3 outputs, 1-2 inputs, remote on/off, three failure injections.',
     observe=['razorback.utils.impedance'])

prop('C19', 'Noise-free linear relations are recovered exactly',
     "When the output channels are an exact linear combination of the input channels (up to a relative noise of 1e-9 or less), the estimated "
     "transfer is that combination, calibrations included, for any numbers of channels and any channel numbering and tag order, any number of runs and "
     "sampling rates, with least-squares, M-estimator or bounded-influence weights (rejection probability 1% for two inputs), with or without remote reference, prefilter and "
     "real-valued formulation; the remote transfer is likewise the exact relation from remote to local channels.",
     ['configurations', 'inputs'], 'all combinations of channel counts, orders, runs, calibrations, weights, remote, prefilter and problem formulation on fixed generic signals',
     'The test recovers one scalar factor with one run, one input and no calibration.',
     [U, M, W, FT], [('two-stage estimation', U + ': _impedance'), ('estimators', M + ': transfer_function'), ('real formulation', U + ': transfer_function_real_prob')],
     'exhaustive enumeration of the configuration space of the estimation against the known relation',
     BIND + 'Bounded: generic fixed signals of about 400 samples; tolerance 1e-6 relative.', level='exploration',
     observe=['razorback.utils.impedance'])

prop('C20', 'One grossly wrong window does not spoil a robust estimate',
     "With the predefined M-estimator weights, or bounded-influence weights with one input, a gross error of any magnitude and phase in the "
     "output of any single window among many leaves the estimate of every output within the noise level of the clean estimate (whenever the iterations converge), "
     "and the faulty window is reported as rejected for the affected output only.",
     ['inputs'], 'all window positions, outputs, magnitudes over 7 decades and phases, for several generic data sets',
     'The test has no outlier at all.',
     [W, M], [('Huber and Thomson weights', W + ': Huber, Thomson, mad_scale'), ('iteration', M + ': m_estimate')],
     'exhaustive enumeration of fault positions x magnitudes x phases against the clean relation',
     BIND + 'Bounded: data sets of 24-40 windows (fixed generic data on which the clean estimation converges), single faults.',
     level='fault_enumeration', observe=['transfer_function with mest_weights, bi_weights'])

prop('C21', 'Reusing weights gives the same estimate as fresh weights',
     "The predefined or user-built weight sequences can be reused: whatever estimations were run before with the same weight object, of "
     "whatever size and outcome, including ones that failed to converge or raised, an estimation gives the same transfer and "
     "the same rejected windows as with newly built weights.",
     ['histories'], 'all histories of up to 3-4 estimations over problems of different sizes and outcomes',
     'Tests reuse weights but only across successful problems of one kind and never compare with fresh weights.',
     [W], [('state reset on first iteration', W + ': Thomson.__call__, BoundedInfluenceStep.__call__')],
     'explicit-state search over histories of estimations on a shared weight object against fresh objects',
     BIND + 'Bounded: histories up to length 3 (quick) / 4 (thorough) over 6 problems x 4 weight sequences.',
     observe=['transfer_function', 'mest_weights', 'bi_weights'])

prop('C22', 'Concurrent estimations do not influence each other',
     "Estimations running at the same time in several threads, sharing the predefined or the same user-built weight sequence, "
     "each give the result they give when run alone, whatever the interleaving, and leave the floating-point error handling (np.geterr) of their threads as it was.",
     ['schedules'], 'all interleavings of two concurrent estimations up to a preemption bound',
     'No test runs anything concurrently.',
     [W, M, U], [('per-estimation state of the weights', W + ': Thomson, BoundedInfluenceStep')],
     'stateless model checking of two real estimations under a controlled thread scheduler with a preemption bound',
     'All schedules with at most the reported number of preemptions at the executed lines of the weighting and estimation code are '
     'run on the real code; preemption inside numpy calls is not modelled.',
     observe=['transfer_function'])

prop('C23', 'Estimates follow changes of unit, order and origin',
     "Multiplying the outputs (or inputs) by a constant multiplies (or divides) the estimated transfer and its error accordingly and rejects the same windows; "
     "permuting the windows permutes the rejections and leaves the transfer unchanged; permuting outputs or inputs permutes rows or columns. Moving "
     "all runs in time, or renumbering channels under the same tags, changes no impedance.",
     ['inputs', 'configurations'], 'all combinations of scalings, permutations and shifts over several generic data sets and all predefined weights',
     'No test compares two related estimations.',
     [M, W, U], [('relative convergence and scale', M + ': m_estimate', ), ('scale estimate', W + ': mad_scale')],
     'exhaustive enumeration of symmetry transformations, each compared with the untransformed run (differential oracle)',
     BIND + 'Bounded: fixed generic data sets of 12-30 windows (with and without outliers), scalings by powers of two and complex units.',
     level='exploration', observe=['transfer_function', 'impedance'])

prop('C24', 'Rejected times are the centres of exactly the rejected windows',
     "When asked to keep rejected times, the impedance reports for each output the time, in its run's own clock, of the centre of every window rejected "
     "by the prefilter, by the remote stage or by the weights, and of no other window, for any number of runs with different sampling rates, "
     "sizes and starts; when not asked, it reports no time.",
     ['inputs', 'configurations'], 'all subsets of rejected windows per stage over small multi-run sets',
     'The test only counts the rejected times of a single run starting at zero.',
     [U], [('window index to time', U + ': _impedance'), ('prefilter union', U + ': apply_prefilter')],
     'bounded exhaustive enumeration of rejection subsets per stage and run layout against computed window centres',
     BIND + 'Bounded: 1-3 runs, up to 8 windows in total, all subsets leaving a solvable problem.',
     observe=['impedance(keep_invalid_times=True)', 'prefilter_values'])

prop('C25', 'The determination prefilter rejects exactly the incoherent blocks',
     "The coefficient-of-determination prefilter gives every window the coefficient of determination of its block of consecutive "
     "windows (the last block absorbing the remainder), that is the square root of one minus the squared norm left unexplained by the least-squares fit of the output on the inputs relative to that of the output, and rejects "
     "exactly the windows whose value is outside the accepted range (its bounds are accepted). Prefilter studies report those values with the window centre times.",
     ['inputs'], 'all numbers of windows, block sizes, thresholds and placements of incoherent blocks',
     'No test uses the prefilter.',
     [P, U], [('blocks', P + ': CoefficientOfDeterminationFilter'), ('studies', U + ': prefilter_values, compute_prefilter')],
     'bounded exhaustive enumeration of window counts, block sizes, incoherence patterns and thresholds against a direct computation',
     BIND + 'Bounded: 1-30 windows, block sizes 3-10, 1-2 inputs.', level='model_checking',
     observe=['cod_filter', 'prefilter_values', 'compute_prefilter'])

prop('C26', 'Metronix calibration follows the right table and the chopper rule',
     "The metronix calibration of a sensor file interpolates linearly, in frequency, the frequency-scaled complex response of the chopper-on table when the sampling rate "
     "is at most the chopper limit and of the chopper-off table otherwise, whatever the order and layout of the tables in the file. Below the first tabulated frequency "
     "it follows the analytic low-frequency response of the sensor version when the chopper is on and is refused when it is off; above the "
     "last one it is refused, and an unknown sensor version or missing table is refused.",
     ['inputs', 'configurations'], 'all orders and layouts of small tables, sampling rates around the limit, sensor versions and probe frequencies',
     'No test loads a calibration.',
     [C], [('table choice and interpolation', C + ': metronix')],
     'bounded exhaustive enumeration of file layouts x rates x frequencies against an independent parser-free reference',
     BIND + 'Bounded: tables of 2-4 rows, both section orders, layout variants, two versions plus custom maps.',
     observe=['calibrations.metronix'])

prop('C27', 'Phoenix calibration returns each channel of the requested level',
     "The phoenix calibration functions of a level interpolate linearly, for each channel in file order, the complex values "
     "listed for that level only, whatever the order of the lines and levels in the file and the number of channels and header lines (one or two), and "
     "refuse frequencies outside the range of that level and levels that the file does not contain.",
     ['inputs', 'configurations'], 'all small tables of channels x levels x frequencies in all line orders',
     'No test loads a calibration.',
     [C], [('level filter and columns', C + ': phoenix')],
     'bounded exhaustive enumeration of file contents x levels x frequencies against a reference',
     BIND + 'Bounded: 1-4 channels, 1-3 levels, 2-3 frequencies per level, all line interleavings.',
     observe=['calibrations.phoenix'])

prop('C28', 'Data files resolve locally first, then in the shipped directory',
     "A data file is taken from the data directory under the current directory when that directory exists and holds it, otherwise from the "
     "directory shipped with the package, and is refused when neither holds it. The path command shows the directory in use, its create option "
     "creates the local directory once, never touches anything existing, and from then on that directory is the one shown; "
     "only the current directory at the time of the call matters.",
     ['configurations', 'histories'], 'all file-system configurations of local and shipped directories, and all histories of commands and directory changes up to a depth',
     'No test covers the data path or the command line.',
     [D, L], [('lookup order', D + ': data_path, get_data_file'), ('creation', L + ': path_action')],
     'explicit-state search over file-system states and command histories in a scratch directory against a lookup model',
     BIND + 'Bounded: two targets, two working directories, histories up to length 3 (quick) / 4 (thorough).',
     observe=['rzb path', 'data.get_data_file', 'data.data_path'])

prop('C29', 'Path patterns match and label exactly the intended files',
     "Matching file names against a path pattern yields, in order, exactly the names that fit the pattern, where a star spans anything inside one directory level, a double star "
     "spans anything across levels, a question mark one character, brackets a character class, a named field a non-empty run of ASCII letters, digits and "
     "underscores (the shortest texts first, from left to right, when several fit), and everything else itself. Each label is formed from the text matched by its fields, labels using fields that the pattern lacks are refused, and "
     "fields with empty, formatted or illegal names are refused.",
     ['inputs'], 'all patterns of up to 4-5 tokens and all paths of up to 5-6 characters over small alphabets',
     'The test prints results without asserting anything.',
     [U], [('pattern translation', U + ': _prepare_pattern, tags_from_path'), ('field names', U + ': _get_fields')],
     'bounded exhaustive enumeration of patterns x paths against an independent backtracking matcher',
     BIND + 'Bounded pattern and path lengths; fields take the shortest text, leftmost first.',
     observe=['tags_from_path'])

prop('C30', 'Mass processing equals one impedance run per combination',
     "Mass processing gives, for every combination of remote references (none, each, all) and every time interval, in "
     "the documented order, the same impedance, errors, rejected times and remote transfer as directly estimating that "
     "interval with exactly those remote channels, and leaves the inventory unchanged.",
     ['configurations'], 'all remote subsets, interval lists and options on small surveys',
     'Mass processing is not tested.',
     [U, S], [('combination loop', U + ': impedance_mass_proc, prefilter_values_mass_proc'), ('groups', S + ': Inventory.extract_groups')],
     'exhaustive enumeration of combinations and intervals against direct single estimations',
     BIND + 'Bounded: up to 2-3 remotes of 2 channels, 1-3 intervals, split and overlapping files.', level='exploration',
     observe=['impedance_mass_proc', 'prefilter_values_mass_proc'])

prop('C31', 'Error estimates follow the residual-based formula',
     "The error reported for each transfer element is the documented residual-based estimate of Egbert and Booker: the norm of the "
     "output's residual, normalised by the numbers of windows, inputs and rejected windows, times the square root of the matching "
     "diagonal element of the inverse input cross-power matrix. It is real, non-negative, of the same shape as the "
     "transfer, and each output's error depends only on that output and the inputs. Numbers of windows, outputs or lists of rejections that disagree are refused.",
     ['inputs'], 'all small integer data over 1-3 inputs and 1-3 outputs and all rejected subsets',
     'Tests only look at NaN errors.',
     [M, U], [('formula', M + ': transfer_error')],
     'bounded exhaustive enumeration of small data against exact rational arithmetic',
     BIND + 'Bounded: up to 5 windows with values in a small Gaussian-integer alphabet.',
     observe=['transfer_error', 'impedance'])

prop('C32', 'Impedance is the documented chain of estimation stages',
     "For each frequency the impedance equals the chain of its stages: Fourier coefficients (8 periods, 71% overlap, Slepian window "
     "unless overridden one by one), with a remote a prefiltered robust transfer from the remote to the local magnetic channels, whose "
     "prediction replaces them and whose rejected windows are excluded for all outputs, then the prefiltered robust transfer to the electric "
     "channels and its error. Remote weights and prefilter default to the local ones; options reach both stages and are not altered.",
     ['configurations', 'inputs'], 'all combinations of channel numbers, weights, prefilters, formulations, tag names and partial options',
     'The tests run one configuration per estimator on one data set and compare with stored values.',
     [U], [('stages', U + ': _impedance'), ('prefilter composition', U + ': apply_prefilter'), ('real formulation', U + ': transfer_function_real_prob')],
     'bounded exhaustive enumeration of configurations against the composition of the stages',
     BIND + 'The stages are the ones of the code (decided by C12, C17, C31, C33, C34); their composition is written independently.',
     observe=['impedance'])

prop('C33', 'Estimation steps iterate exact reweighted least squares',
     "Within a step the weight function is called with iteration numbers 0, 1, 2..., the windows left by the previous steps and the residual "
     "of the current estimate, undefined at the windows rejected so far; each iteration then solves the weighted least squares, a zero weight "
     "rejecting the window for good, until the weighted residual changes by less than the tolerance. A step not converging "
     "within the iteration limit raises NonConvergence, and its windows left and estimate are where the next step starts.",
     ['inputs', 'histories'], 'all sequences of weights an adversarial weight function can play over windows and iterations',
     'Tests use the predefined weights only, whose sequences of weights are smooth.',
     [M], [('iterations', M + ': m_estimate'), ('rejection', M + ': _eval_weight'), ('chaining', M + ': chain_m_estimate')],
     'exhaustive exploration of the plays of an adversarial weight function against exact rational iterations',
     BIND + 'Bounded: 3-5 windows, 2-4 iterations, weights 0, negligible, 1/2, 1, 3.',
     observe=['transfer_function with user-supplied weights'])

prop('C34', 'Predefined weights follow their published formulas',
     "Huber weights are 1 up to alpha times the robust scale (median absolute deviation of the residual sizes over its value .44845 for Rayleigh "
     "residuals) and inversely proportional to the residual beyond; Thomson weights are exp(exp(-xi^2) - exp(xi (r/scale - xi))) with the scale "
     "of the first iteration of the step; bounded influence steps multiply robust weights by leverage weights accumulated over the iterations. "
     "They skip rejected windows, whatever the position of the windows and the unit of the residuals, and bi_weights chains them from lax to severe.",
     ['inputs', 'histories'], 'all small vectors of residuals and leverages, rejected windows, parameters and iterations',
     'Tests only see the weights through final estimates on one data set.',
     [W], [('Huber, Thomson', W + ': Huber.__call__ / Thomson.__call__'), ('leverage', W + ': BoundedInfluenceStep.__call__'), ('chain', W + ': bi_weights')],
     'bounded exhaustive enumeration of residual and leverage vectors and iteration histories against scalar formulas',
     BIND + 'Bounded: 2-6 windows over 4-7 values, 1-3 iterations. Residuals whose robust scale is zero are outside the property.',
     observe=['Huber', 'Thomson', 'BoundedInfluenceStep', 'bi_weights', 'mest_weights'])

prop('C35', 'Histories of operations compose without losing a sample',
     "Whatever sequence of selections, extractions, exclusions, joins, splits, merges, consecutive merges and tag insertions a signal set has gone "
     "through, it holds exactly the samples, times, calibrations and tags that applying the same operations to the list of its samples gives; "
     "a step that cannot be done is refused, and every earlier set of the history is still intact.",
     ['histories'], 'all sequences of operations from several initial sets and clocks',
     'Tests apply one or two operations to one set; errors of rounding, of ordering or of sharing appear after several ones.',
     [S], [('operations', S + ': SignalSet'), ('time grid', S + ': SyncSignal._time_to_index')],
     'explicit-state search: all operation sequences up to a depth executed on the real code and on a sample-exact model',
     BIND + 'Bounded: 30 operations, length 3 (4 in the thorough tier), sets of up to 5 runs.',
     observe=['SignalSet operations'])

prop('C36', 'A survey on disk gives what its samples in memory give',
     "Finding the recordings of a survey by a path pattern, loading them one tagged set per file into an inventory, and packing, filtering, "
     "cutting or grouping it gives exactly the common synchronous samples written in the files, in physical units, whatever the order of the "
     "files and a recording that is missing; the impedances estimated from it equal the ones of the same samples held in memory.",
     ['configurations', 'inputs'], 'all small surveys: layouts of two sites, missing recording, listing order',
     'The tests have no survey: each part is tested apart, on data in memory.',
     [A, B, U, S], [('recipe', U + ': tags_from_path'), ('loading', A + ': load_ats'), ('packing', S + ': Inventory.pack')],
     'bounded exhaustive enumeration of surveys written on disk against a sample-exact model',
     BIND + 'Bounded: two sites of 4 and 2 channels, 8 layouts of 1-3 runs each, at most one missing recording.',
     observe=['tags_from_path', 'load_ats', 'Inventory', 'impedance'])


prop('C37', 'The Slepian window is the most concentrated one, with mean one',
     "The Slepian window of parameter tau is real, has the requested number of samples and mean one, and up to 1000 samples it is the positive sequence "
     "whose energy is the most concentrated at the frequencies below tau over the number of samples. Beyond 1000 samples it has this shape within half a percent of its peak. "
     "A window depends on its length and parameter only, whatever windows were built, used or overwritten before.",
     ['inputs', 'histories'], 'all window lengths, parameters and sequences of calls',
     'The tests only use the window inside one reference estimation.',
     [FT], [('window', FT + ': slepian_window'), ('sequence', FT + ': slepian')],
     'exhaustive enumeration of lengths, parameters and call histories against the defining eigenvalue problem',
     BIND + 'Bounded: all lengths up to 260 (1000 in the thorough tier), 9 to 14 parameters, histories of 3 or 4 calls.',
     observe=['slepian_window'])

prop('C38', 'Single runs are cut and selected sample by sample',
     "Cutting a run between two sample numbers or times keeps exactly the samples between them, with their values, times, sampling rate and calibrations; the times of a cut, "
     "or of a cut of a cut, designate the same samples on the original run; in strict mode sample numbers and times outside the run are refused. Selecting channels of a run keeps them in the given order. "
     "Constant calibrations and missing ones (meaning one) act as constant functions; a run needs at least one channel, channels of one length and one calibration per channel.",
     ['inputs', 'histories'], 'all cuts, chains of cuts and selections of small runs on all clocks',
     'The tests cut a few runs at round times.',
     [S], [('run', S + ': SyncSignal'), ('cut', S + ': SyncSignal.extract_i'), ('times', S + ': SyncSignal.extract_t')],
     'bounded exhaustive enumeration of cuts and chains of cuts against a sample-exact model',
     BIND + 'Bounded: runs of 1-6 samples (9 in the thorough tier), 16 clocks, chains of 2 or 3 cuts.',
     observe=['SyncSignal'])


prop('C39', 'Printed forms state what the objects hold',
     "The printed form of a signal set states its numbers of channels and runs, lists every tag once with its channels and, in time order, one line per run with its sampling rate "
     "(five significant digits) and its UTC start and stop dates to the nearest second. The one of a run states its number of channels, size, rate and dates, and the one of a tag table, evaluated, gives an equal table.",
     ['inputs', 'configurations'], 'all small tag tables, layouts and clocks',
     'The tests never look at what is printed.',
     [S], [('signal set', S + ': SignalSet.__str__'), ('run', S + ': SyncSignal.__str__'), ('tags', S + ': Tags.__repr__')],
     'bounded exhaustive enumeration of signal sets, the printed text being read back and compared with the model',
     BIND + 'Bounded: 16 clocks, 8 layouts, 25 tag tables and all tables of up to 3 names over 3 channels.',
     observe=['str(SignalSet)', 'str(SyncSignal)', 'repr(Tags)'])


prop('C40', 'The command line offers the built-in and the plugin commands',
     "The command line lists, sorted and once each, its built-in commands and the ones that installed distributions plug in, and runs each of them with its arguments, a plugin taking the place of the built-in command of the same name; "
     "an unknown command is refused. The version command shows the version of the package, marked with a plus when the extension package is installed.",
     ['configurations'], 'all sets of installed plugins, in one or several distributions',
     'The tests never run the command line with a plugin.',
     [L], [('plugins', L + ': PluginGroup'), ('version', L + ': version')],
     'exhaustive enumeration of the sets of plugins, in fresh processes',
     BIND + 'Bounded: 4 or 5 plugin names, 1 or 2 distributions.',
     observe=['rzb command'])


def write(root):
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=p['state'],
                             mechanism=[dict(name=n[0], where=n[1]) for n in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    have = {f[:3].upper() for f in os.listdir(os.path.join(root, 'mc', 'checks')) if f.lower().startswith('c')}
    checks, na = [], []
    for p in PROPS:
        if not p['claimed'] or p['id'] not in have:
            na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
            continue
        cmd = '/opt/venv/bin/python mc/run.py %s' % p['id']
        checks.append(dict(property=p['id'], quick_cmd='env VERIF_TIER=quick ' + cmd, thorough_cmd='env VERIF_TIER=thorough ' + cmd,
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'],
                           level=p['level'], level_note=p['note']))
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, dask, click"',
               checks=checks, not_applicable=na,
               notes='Each check copies /repo/src/razorback to a scratch directory, imports it from there and '
                     'explores it with mc/engine.py. No hooks are needed in /repo: seams (thread scheduling, task '
                     'scheduling, file system) are controlled from the harness. known_findings.json lists findings '
                     'and fixes. Replays: /opt/venv/bin/python mc/replay.py FILE.')
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].count('. ') + 1
        if n > 3:
            print('long statement', p['id'], n)
    write(root)
