"""writes properties.jsonl and MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/razorback/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files.split()], mechanism=[dict(name=a, where=S + b) for a, b in mech], observe_at=list(observe), hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=S + c) for a, b, c in state]
    P.append(d)


p('C01', 'A channel keeps its own calibration',
  'Whatever sequence of channel selection, reordering, run selection, time cutting, joining and merging of sets produced a signal, each of its channels carries the samples and the calibration of one and the same original channel; merging consecutive runs concatenates the samples of one channel and keeps the calibrations of the first run of the group. '
  'The Fourier coefficients of a channel are those of its samples divided by the value of that same calibration at the requested frequency. '
  'A signal with a different number of calibrations than channels, or whose channels have different lengths, is refused; a missing calibration means 1.',
  'inputs histories', 'every signal set, every sequence of operations on it, every calibration (number or function of frequency)',
  'the pairing is positional and must survive every composition of selections and merges; tests use two or three identical or absent calibrations, for which a permuted pairing gives the same numbers',
  'signalset.py io/ats.py', [('parallel sequences of samples and calibrations', 'signalset.py SyncSignal'), ('channel selection', 'signalset.py SignalSet.select_channels'),
                             ('merging', 'signalset.py SignalSet.merge'), ('calibrated coefficients', 'signalset.py SyncSignal.fourier_coefficients'),
                             ('loading', 'io/ats.py load_ats')], ['calibrations and data of the resulting signals', 'Fourier coefficients'])
p('C02', 'Tags designate the same channels before and after an operation',
  'After selecting channels, selecting runs, joining, merging, cutting or merging consecutive runs, every tag that is still present designates exactly the channels it designated before, in its own order, at their new positions; a tag with a channel that is no longer there is dropped, never silently re-targeted. '
  'Joining two sets whose channels are ordered differently first brings the second into the order of the first, following the tags. '
  'Attribute access and item access give the same channels for a tag, and filtering by pattern gives exactly the matching names, or the sorted union of their channels.',
  'inputs histories', 'every tag table (overlapping, multi-channel, repeated channels), every operation and sequence of operations',
  'tags are indices that every operation has to re-map; the documentation examples use a handful of disjoint tags where wrong re-mappings coincide with right ones',
  'signalset.py', [('tag table', 'signalset.py TagsBase'), ('re-indexing on selection', 'signalset.py SignalSet.select_channels'), ('offsets on merging', 'signalset.py SignalSet.merge'),
                   ('reordering on join', 'signalset.py SignalSet._reorder_data')], ['tags of the resulting set'])
p('C03', 'Operations never modify what they are given',
  'No operation on tags, signals, signal sets, inventories, weights, prefilters, estimators or files changes in place an object received from the caller (signals, arrays, index lists, option dictionaries), except the documented mutators applied to their own object: appending to or extending an inventory and assigning or deleting a tag. '
  'In particular a signal set can be cut, selected, merged and estimated any number of times with the same result.',
  'inputs histories', 'every operation, every argument, every later use of the arguments',
  'aliasing bugs show only when the same operand is reused after the call, in an order no test happens to use',
  'signalset.py utils.py mestimator.py weights.py prefilters.py', [('copies before in-place updates', 'mestimator.py merge_invalid_indices'), ('fresh tag tables', 'signalset.py SignalSet.__init__'),
                                                     ('private option dictionaries', 'utils.py impedance_mass_proc')], ['operands after the call'])
p('C04', 'Signal sets and inventories are always well formed',
  'Every signal set that can be built has tags covering exactly its number of channels and runs that all have that number of channels; its runs are in time order and do not overlap, and its sizes, sampling rates, starts, stops and intervals are those of its runs, in that order. '
  'Ill-formed input (channel counts that differ, tag table of another width, element that is not a signal set) is refused when the object is built or changed. '
  'A set can be copied and pickled, and an unknown attribute is reported as such.',
  'inputs histories', 'every constructor call and every operation that builds a set or an inventory',
  'the invariant must hold for the results of all operations on all inputs, including empty and single-run sets',
  'signalset.py', [('constructor checks', 'signalset.py SignalSet.__init__, SyncSignal.__init__'), ('tag setter', 'signalset.py SignalSet.tags'), ('element check', 'signalset.py Inventory._assert_valid_element')],
  ['attributes of the object', 'exception raised'])
p('C05', 'Cutting in time keeps exactly the samples of the interval',
  'Cutting a signal between two instants keeps exactly the samples whose time lies in the closed interval (up to rounding of the bounds to floating point), and the result starts at the time of its first sample, so every sample keeps its absolute time. '
  'Bounds outside the signal are brought back to its ends, or refused by strict cutting; runs that keep fewer than two samples disappear; the excluding form keeps exactly what lies up to the first instant and from the second one on. '
  'A run covers [start, start + (size-1)/rate].',
  'inputs', 'every start, stop, sampling rate and size, including bounds between samples, outside the signal, negative and equal',
  'off-by-one and rounding direction depend on where the bound falls between samples; tests sample a few aligned bounds',
  'signalset.py', [('time to index', 'signalset.py SyncSignal._time_to_index'), ('index cut', 'signalset.py SyncSignal.extract_i'), ('time cut', 'signalset.py SyncSignal.extract_t'), ('set cut', 'signalset.py SignalSet.extract_t')],
  ['start, size and data of the resulting runs'])
p('C06', 'Merging keeps the common time intervals and only those',
  'Merging signal sets gives one run for each intersection of positive length of one run of each set having the same sampling rate, with all the channels of all the sets in order, cut to that interval. '
  'Intersections of runs of different rates give no run; sets that share a tag, and overlapping runs of the same rate that are not on the same sample grid, are refused rather than mis-aligned; merging with a set without run gives no run.',
  'inputs', 'any number of sets with any run layout (nested, touching, disjoint, several overlaps)',
  'the set of intersections is combinatorial in the run layouts; tests use two sets with one or two overlaps',
  'signalset.py', [('interval intersection', 'signalset.py SignalSet.merge'), ('rate and start checks', 'signalset.py SignalSet.merge')], ['intervals, tags and data of the merged set'])
p('C07', 'Merging consecutive runs loses and invents no sample',
  'Merging consecutive runs joins maximal groups of neighbouring runs that have the same sampling rate and whose gap is one sampling period; each merged run starts at the start of the first run of the group, has its calibrations, and concatenates all the samples of the group in time order. '
  'Runs that do not satisfy this stay as they are, and tags are kept.',
  'inputs', 'every sequence of runs: any number, any gaps, rates and order',
  'grouping depends on comparisons between all neighbouring pairs and on absolute start times of any magnitude',
  'signalset.py', [('grouping of neighbouring runs', 'signalset.py SignalSet.merge_consecutive_runs, _group_indices')], ['runs of the result'])
p('C08', 'Fourier coefficients are calibrated and concatenated run by run',
  'The Fourier coefficients of a signal set at a frequency are, for each channel, the concatenation in run order of the calibrated coefficients of each run. '
  'They come with one (number of windows, window length, shift) triple per run, in the same order, so that a coefficient index designates exactly one window of one run.',
  'inputs', 'every set, frequency, window and overlap; runs with different rates and sizes, runs too short for a window',
  'window indices are only meaningful if coefficient order and metadata order agree for every run layout',
  'signalset.py fourier_transform.py', [('per-run concatenation', 'signalset.py SignalSet.fourier_coefficients'), ('windowed transform', 'fourier_transform.py time_to_freq')], ['coefficients and per-run metadata'])
p('C09', 'The sliding window covers the signal and never reads outside it',
  'At a frequency, a signal is cut in windows of Lw = Nper periods (rounded up to samples) that start at the multiples of the integer part of Lw(1-overlap): all the windows that fit in the signal are used, in order, and none reaches outside it. '
  'Each coefficient is the sum over its window of tapered sample times the complex exponential at that frequency, multiplied by 2/Lw, the same whether evaluated at once or deferred; the number of windows, their length and their shift are those used. '
  'Impossible requests (frequency outside (0, Nyquist], overlap outside [0, 1], signal too short, samples of different lengths, taper of another length) are refused.',
  'inputs', 'every signal length, frequency, number of periods, overlap and taper',
  'window counts come from rounding of real ratios, and an out-of-range strided view reads foreign memory only for particular length/shift combinations',
  'fourier_transform.py', [('window geometry', 'fourier_transform.py discrete_window'), ('strided view bound', 'fourier_transform.py sliding_window'), ('transform', 'fourier_transform.py time_to_freq'), ('taper', 'fourier_transform.py slepian')],
  ['coefficients, number of windows, window length, shift'])
p('C10', 'The estimator solves the weighted least-squares problem of its valid windows',
  'For each output channel the transfer function is the weighted least-squares solution of output against inputs over the windows not marked invalid, with the final robust weights. '
  'It follows that multiplying an output by a complex constant multiplies its row, and that mixing the inputs by an invertible matrix mixes the columns by the inverse. The error of a row is the norm of the residual of that row, scaled by its number of valid windows, times the square roots of the diagonal of the inverse of the covariance of the inputs.',
  'inputs', 'every complex outputs, inputs, weights and invalid windows',
  'a wrong conjugate, transpose or weight power agrees with the right one on the small real or noise-free cases a test checks',
  'mestimator.py weights.py', [('normal equations', 'mestimator.py wlse'), ('iteration', 'mestimator.py m_estimate'), ('per-channel loop', 'mestimator.py transfer_function'), ('error estimate', 'mestimator.py transfer_error')], ['transfer function, error'])
p('C11', 'Results do not depend on the time origin',
  'Shifting all start times by the same amount leaves Fourier coefficients, window geometry, impedances, errors and remote transfer functions unchanged, and cutting at times shifted likewise keeps the same samples. '
  'Reported times (invalid windows, prefilter values) are the window centre of the right window of the right run plus the start of that run.',
  'inputs', 'every set, frequency and time shift',
  'an absolute time leaking in a phase or an index is invisible when tests start at 0',
  'signalset.py utils.py', [('coefficients from samples only', 'signalset.py SyncSignal.fourier_coefficients'), ('window times', 'utils.py _impedance, prefilter_values')], ['coefficients, impedance, invalid times'])
p('C12', 'Rejected windows stay rejected and are reported exactly',
  'A window marked invalid by the caller, by a prefilter, by the first stage or by a previous weighting step does not contribute to the estimate, and no other window is dropped. '
  'The invalid windows reported are the union of those given and those found, per output channel, as indices (or times) in the original window numbering of the right run.',
  'inputs histories', 'every set of initial invalid windows, every chain of weighting functions, one or two stages, one or several runs',
  'indices are translated between compacted and original numbering at several layers; mistakes cancel when nothing, or only trailing windows, are rejected',
  'mestimator.py utils.py weights.py', [('index bookkeeping', 'mestimator.py chain_m_estimate, merge_invalid_indices, eliminate'), ('prefilter union', 'utils.py apply_prefilter'), ('times of invalid windows', 'utils.py _impedance')],
  ['invalid indices and times, estimate'])
p('C13', 'Weighting functions carry no memory from one estimate to the next',
  'A weighting function, or a chain of them, gives the same result whatever it was used for before: on the first iteration of an estimate its state is set from that estimate alone. '
  'Prefilters and the iteration over a chain of weights leave no state behind either.',
  'histories', 'every sequence of estimates sharing weighting objects, including aborted ones',
  'stale state matters only for specific sequences of estimates with the same object, and for aborted estimates',
  'weights.py mestimator.py', [('state set on iteration 0', 'weights.py Thomson.__call__, BoundedInfluenceStep.__call__')], ['weights returned'],
  [('scale', 'robust scale kept over the iterations of one estimate', 'weights.py Thomson'), ('previous leverage', 'previous step of the bounded influence weights', 'weights.py BoundedInfluenceStep')])
p('C14', 'Results do not depend on hash seeds, directory order or clocks',
  'Two runs on the same files and parameters give the same result in the same order: nothing ordered (channels, files, tags, rows) is derived from the iteration order of a set or of a directory listing, and nothing reads a clock or a random source.',
  'schedules configurations', 'every hash seed, every directory order',
  'the order is stable within the process that runs a test and differs only under another hash seed or file system',
  'signalset.py io/ats.py utils.py', [('sorted matches', 'signalset.py Tags.filter'), ('sorted files', 'io/ats.py load_ats_from')], ['order of results'])
p('C15', 'Result arrays have one aligned entry per requested frequency',
  'The impedance result has one entry per requested frequency, in the order requested, in each of its four members; entry k of every member comes from frequency k only, with shape (electric channels, magnetic channels), also when frequencies fail and when there are none or one. '
  'Rows and columns follow the order of the tagged channels; real-valued formulation and complex formulation have the same layout.',
  'inputs', 'every list of frequencies, any subset failing, with and without remote',
  'mixed success and failure patterns are combinatorial; misaligned shapes appear only for particular patterns',
  'utils.py mestimator.py', [('collection of results', 'utils.py impedance'), ('result of a failed frequency', 'utils.py _impedance'), ('real formulation', 'utils.py transfer_function_real_prob')], ['members of the result'])
p('C16', 'A frequency that fails is contained',
  'With silent failure on, a frequency whose transform, first stage or second stage fails yields not-a-number entries for that frequency and leaves all the others untouched; no exception of these stages escapes. '
  'With silent failure off, the failure of an estimation stage is raised to the caller.',
  'fault_sequences', 'every stage at which an estimate can fail, every set of failing frequencies',
  'failures at particular stages of particular frequencies are not triggered by the existing tests at all',
  'utils.py', [('guarded stages', 'utils.py _impedance')], ['result', 'exception'])
p('C17', 'Array proxies index like the array they stand for',
  'Indexing a file-backed array with any slice or integer (negative, open, stepped, reversed, out of range) gives what indexing the full array would. A forward slice reads only the samples between its bounds, no read goes before the data offset or beyond the end, and what cannot be done is refused. '
  'A declared size larger than the file is reduced to what the file holds, with a warning.',
  'inputs', 'every index, file size, offset and item type',
  'the index space (sign, step, bounds, emptiness) is far larger than a test enumerates, and short reads are silent',
  'io/binary_file_array.py', [('index normalisation', 'io/binary_file_array.py BaseArrayProxy'), ('bounded read', 'io/binary_file_array.py BinaryFileArray_1D.extract')], ['array returned', 'bytes read'])
p('C18', 'ATS files are decoded as the format defines',
  'The header fields are decoded from their fixed offsets, sizes and types, and the samples are the 32-bit integers after the header, scaled by the least-significant-bit value of that header, as many as the header declares. '
  'A signal loaded from several files has one channel per file in the order given and is refused when rates, starts or sizes differ; loading a directory takes its ATS files in name order.',
  'inputs', 'every well-formed ATS file and every list of them',
  'the fixture covers one instrument and one channel type per tag; a wrong field offset or type is invisible when that field is constant or zero',
  'io/ats.py io/binary_file_array.py', [('header layout', 'io/ats.py read_ats_header'), ('samples', 'io/ats.py read_ats_sample'), ('set of files', 'io/ats.py load_ats')], ['header fields, samples'])
p('C19', 'Only the explicit create option writes to the file system',
  'Reading data, computing and querying paths never create, modify or delete a file or directory; the only write is the creation of the local data directory by the command line when the create option is given and the directory does not exist. '
  'Every file opened is closed whatever happens while it is read.',
  'inputs fault_sequences', 'every operation of the library and of its command line, every failure while a file is open',
  'absence of an effect over all code paths, and release on exceptional paths, cannot be sampled',
  'cli.py data.py io/ats.py io/binary_file_array.py calibrations.py', [('create option', 'cli.py path_action'), ('with statements', 'io/ats.py, io/binary_file_array.py, calibrations.py')], ['file system', 'open files'])
p('C20', 'Calibration files give the response of the right sensor mode',
  'A Metronix calibration takes the chopper-on table up to and including the chopper limit and the chopper-off table above it, interpolates the complex response in frequency with phases in degrees, and extrapolates below the table only with chopper on, from the sensor version named by the file. '
  'A Phoenix calibration takes the requested level of its file; unknown versions, missing marks and missing files are refused.',
  'inputs', 'every calibration file, sampling rate, frequency and sensor version',
  'mode selection, units and extrapolation matter at particular rates and frequencies of particular files; no existing test reads one',
  'calibrations.py data.py', [('mode selection and extrapolation', 'calibrations.py metronix'), ('levels', 'calibrations.py phoenix'), ('file lookup', 'data.py get_data_file')], ['value of the calibration function'])
p('C21', 'A robust estimate is returned only when it has converged',
  'The iteration returns a solution only if the weighted residual sums of two successive iterations agree within the relative tolerance, uses at most the allowed number of iterations, and otherwise reports non-convergence; an estimate without any valid window left is refused. '
  'Each stage of a chain starts from the solution and the rejected windows of the previous one.',
  'inputs', 'every data set, weighting function, tolerance and iteration bound',
  'the iterates depend on real-valued data; tests see only converging cases',
  'mestimator.py errors.py', [('iteration and convergence test', 'mestimator.py m_estimate'), ('chain of stages', 'mestimator.py chain_m_estimate')], ['estimate or exception'])
p('C22', 'Building and cutting signals reads no sample',
  'Loading files, selecting, cutting, joining and merging signals, and searching inventories never read or convert sample data; samples are read only when a transform of exactly the requested part is evaluated.',
  'inputs histories', 'every sequence of operations before evaluation',
  'results are the same with and without early reading; only the absence of the operation on every path establishes it',
  'signalset.py io/ats.py io/binary_file_array.py', [('deferred arrays', 'io/binary_file_array.py to_dask_array'), ('slicing only', 'signalset.py SyncSignal.extract_i')], ['reads of data files'])
p('C23', 'Robust weights are the documented functions of the scaled residual',
  'Huber, Thomson and bounded-influence weights are the documented functions of the residual divided by its median-absolute-deviation scale: 1 up to the threshold and decreasing beyond for Huber, a double exponential for Thomson, a leverage-dependent double exponential times the given weight for bounded influence. '
  'Huber and Thomson weights lie between 0 and 1, and no weight depends on the units of the residual.',
  'inputs', 'every residual, scale, threshold and window count',
  'a shifted threshold, a wrong constant or a scale taken over the wrong axis changes estimates slightly and everywhere',
  'weights.py', [('scale', 'weights.py mad_scale, median_absolute_deviation'), ('weights', 'weights.py Huber, Thomson, BoundedInfluenceStep'), ('weight chain', 'weights.py bi_weights')], ['weights'])
p('C24', 'The remote reference is used as a two-stage estimate',
  'With a remote, local magnetic channels are first regressed on the remote ones with the remote weights and prefilter (those of the second stage where none are given), and the electric channels are then regressed on the predicted magnetic channels, ignoring the windows the first stage rejected; without one, they are regressed on the measured channels. '
  'The transfer function of the first stage is reported, and the same estimator options are used in both stages, in complex and real form.',
  'inputs configurations', 'every data set and combination of remote, weights, prefilters and options',
  'swapped options between stages give plausible numbers; no existing test runs a remote',
  'utils.py mestimator.py', [('two stages', 'utils.py _impedance'), ('real form', 'utils.py transfer_function_real_prob')], ['impedance, error, remote transfer'])
p('C25', 'Inventory searches select, group and pack without mixing data',
  'Searching an inventory by tag patterns keeps, of each element that has some, exactly the channels designated by the matching tags, in inventory order; grouping renames only the tags requested; packing gives one set with every tag once, whose runs are the intervals, per sampling rate, over which every tagged channel is available. '
  'Concatenation, cutting and selection apply to each element and drop those that become empty.',
  'inputs histories', 'every inventory and every sequence of searches',
  'which elements match and how they combine is combinatorial in tags and intervals; the documentation example shows one layout',
  'signalset.py', [('searches', 'signalset.py Inventory'), ('join and merge', 'signalset.py Inventory.pack')], ['elements of the resulting inventory, packed set'])
p('C26', 'Invalid tags are refused without damage',
  'A tag table accepts only names that are strings and start with a letter, with at least one channel index, all of which exist; any other assignment, at construction or later, by item or by attribute, is refused and leaves the table as it was (names of the table\'s own methods are not meant to be used as tags). '
  'Reading a tag that does not exist is an error, never an empty result.',
  'inputs', 'every name and every value',
  'the space of invalid names and values is open-ended, and partial updates show only after a refused assignment',
  'signalset.py', [('validation on assignment', 'signalset.py TagsBase.__setitem__')], ['exception, tag table'])
p('C27', 'Mass processing enumerates every remote combination and interval',
  'Mass processing returns one entry per combination of remotes (all subsets, or the full set only, in a fixed order) and per time interval, each computed from exactly that combination and that interval with the given options, in nested lists that follow the reported combinations. '
  'Options of one combination never leak in the next.',
  'inputs', 'every inventory, list of remotes, intervals and options',
  'the product of combinations and intervals is not exercised by any existing test',
  'utils.py signalset.py', [('combinations', 'utils.py impedance_mass_proc'), ('prefilter values', 'utils.py prefilter_values_mass_proc')], ['nested results'])
p('C28', 'A prefilter only ever adds rejected windows',
  'Applying a prefilter adds to the windows already rejected for a channel those it rejects for that channel, and nothing else; without prefilter the given ones are unchanged. '
  'The coefficient-of-determination filter rejects exactly the windows whose value, computed on their block of neighbouring windows, is outside its bounds, and reports that value for every window.',
  'inputs', 'every output and input coefficients, initial rejections and bounds',
  'edge windows and windows at the bound are hit only by particular data',
  'utils.py prefilters.py', [('union', 'utils.py apply_prefilter'), ('determination', 'prefilters.py CoefficientOfDeterminationFilter')], ['invalid windows, values'])
p('C29', 'Tags from file paths follow the pattern',
  'Extracting tags from paths yields, in the order given, each path that matches the pattern with the tags its templates produce from the fields of the pattern; paths that do not match are skipped, and templates using unknown fields are refused.',
  'inputs', 'every list of paths, pattern and templates',
  'the documented cases cover a few wildcard forms; translation of every wildcard and field has to be right in combination',
  'utils.py', [('pattern translation', 'utils.py _prepare_pattern'), ('matching', 'utils.py tags_from_path')], ['pairs of path and tags'])
p('C30', 'Data files are looked up locally first, then in the package',
  'The data directory is the local one when it exists and that of the package otherwise; a data file is taken from the first of these that contains it, and a missing file is an error. '
  'Both directories are given as absolute paths.',
  'configurations', 'every current directory and content of the local data directory',
  'depends on the working directory and on which files exist in which place',
  'data.py cli.py', [('lookup order', 'data.py get_data_file')], ['path returned'])
p('C31', 'No public operation is broken in itself',
  'No path of any function reads an undefined name, calls a function of the package with arguments that do not fit it, reads a local before it is set, or combines operands that do not support the operation. '
  'Every public operation keeps the parameters and default values its users rely on.',
  'programs', 'every function of the package on every path, including error paths',
  'error paths and rarely used functions are executed by no test',
  'utils.py signalset.py mestimator.py fourier_transform.py weights.py prefilters.py calibrations.py data.py cli.py io/ats.py io/binary_file_array.py',
  [('package namespace and signatures', '__init__.py')], ['exceptions raised by the interpreter'])
p('C32', 'A weighting or an estimate does not depend on earlier ones',
  'The state a robust weighting object keeps while it is iterated (scale of the residuals, stage reached, weights of the outputs) is set as its definition says at every call, and a result depends on the arguments only: '
  'no function keeps, from one call to the next, a value that depends on more than what it is looked up by.',
  'histories', 'every sequence of calls of every function on any objects',
  'each test makes one call on fresh objects; a value kept from an earlier call shows in the second one only',
  'weights.py mestimator.py fourier_transform.py utils.py calibrations.py data.py signalset.py io/ats.py io/binary_file_array.py',
  [('state of the weighting', 'weights.py Huber.__call__'), ('iteration', 'mestimator.py m_estimate')], ['results of repeated calls', 'attributes of the weighting object'])
p('C33', 'Objects own what they keep',
  'Every constructor stores what its arguments say in the attributes the other operations read, and no object keeps a mutable object that its caller, another instance or a later call can change, nor hands one out that it goes on using.',
  'histories', 'every construction followed by any change of the objects it was given or of what it gave back',
  'an object shared with the caller shows only when one of the two is changed later',
  'signalset.py weights.py prefilters.py io/binary_file_array.py fourier_transform.py', [('tags copied', 'signalset.py SignalSet.__init__'), ('data tuple', 'signalset.py SyncSignal.__init__')],
  ['attributes of the objects', 'operands after the call'])

NA = [
 ('N01', 'Estimates are numerically accurate', 'On data generated by a known transfer function with moderate noise, the estimated transfer function agrees with the true one within its reported error, and the result is insensitive to floating-point rounding.',
  'inputs', 'every data set of moderate noise', 'statistical statement over data',
  'mestimator.py', [('solver', 'mestimator.py wlse')], 'accuracy and conditioning quantify over floating-point values of the data; no static bound is in reach. The algebraic form of the estimator is decided in C10, C12, C21, C23.'),
 ('N02', 'Robust estimation converges on typical field data', 'For field data with a minority of disturbed windows, the chain of robust weights converges within the default iteration bound.',
  'inputs', 'every realistic data set', 'statistical statement over data',
  'mestimator.py weights.py', [('iteration', 'mestimator.py m_estimate')], 'whether the iterates converge depends on the values of the data; the contract on what happens if they do not is decided in C21.'),
 ('N03', 'The slepian taper has the optimal spectral concentration', 'The default taper concentrates its energy in the band of the requested frequency better than any other window of the same length.',
  'inputs', 'every window length and bandwidth', 'a spectral property of a computed sequence',
  'fourier_transform.py', [('taper', 'fourier_transform.py slepian')], 'a numerical property of values computed by scipy; only which taper is requested, and how it is interpolated and normalised, is visible in the source (C09).'),
 ('N04', 'Concurrent estimates do not disturb each other', 'Estimates run from several threads on shared signal sets and separate weighting objects give the results of running them one after the other.',
  'schedules', 'every interleaving of estimates', 'depends on interleavings',
  'utils.py weights.py', [('no shared mutable state', 'utils.py impedance')], 'the library makes no such promise and the state it shares belongs to numpy, dask and the caller; its own part (no operand modified, state only in weighting objects) is decided in C03 and C13.'),
]


def main():
    reasons = {}
    out = list(P)
    for id, title, st, over, text, why, files, mech, reason in NA:
        n = len(P)
        p(id, title, st, over, text, why, files, mech)
        out.append(P.pop())
        reasons[id] = reason
    with open(os.path.join(H, 'properties.jsonl'), 'w') as h:
        for d in out:
            assert len(d['title']) <= 80, d['title']
            h.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for d in P:
        cmd = f'python3 -m rzsa.check {d["id"]}'
        checks.append(dict(property=d['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                           technique=TECH.get(d['id'], 'static value-graph analysis (interprocedural abstract interpretation, normalisation, comparison with the specification)'),
                           level='other', level_note=NOTE))
    m = dict(version=1, setup_cmd='python3 -c "import rzsa.check"', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in reasons.items()],
             notes='Static analysis only: nothing of BRGM/razorback is executed or imported by a check, and no path is handed to a solver.')
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)


T0 = 'static value-graph analysis'
TECH = {
 'C01': T0 + ' + dependence rule: samples and calibrations share one index map', 'C03': 'static effect and alias analysis over all functions',
 'C11': T0 + ' + information-flow rule (start time)', 'C13': T0 + ' + def-before-use (typestate) rule on estimator state',
 'C14': T0 + ' + order-source dataflow rule', 'C16': T0 + ' + exception-containment rule', 'C19': 'static effect analysis (file-system operations, resource release)',
 'C22': T0 + ' + effect rule (no forcing of samples)', 'C32': T0 + ' + def-use rule on values kept between calls', 'C33': T0 + ' + ownership and aliasing rule',
 'C12': T0 + ' (index composition) + lifetime rules', 'C15': T0 + ' + rules on what one loop turn leaves to the next', 'C26': T0 + ' + atomicity of updates',
 'C31': 'static name, definite-assignment, signature and operand analysis over all functions',
}
NOTE = ('All inputs and all paths of the current source: each obligation is proved equal to its specification by term rewriting, refuted at a named construct, or '
        'reported as undecided (counted in the evidence, never silently passed as proved). On the functions each check reaches, def-use rules decide in addition that no state is kept '
        'between calls, no mutable object is shared, no iterator is read twice and no element of a loop depends on another. Trusted: the model of numpy/dask/scipy operations, the kinds assumed for '
        'parameters, and the specification in ref/.')
if __name__ == '__main__':
    main()
