PROPS, NA = [], []


def P(**k): PROPS.append(k)
def N(**k): NA.append(k)


NOTE = ("Decides the stated structural clause on every path of the analysed functions from the type-resolved syntax tree; trusts clang's "
        "front end, the extractor and the value-flow evaluator (vlib/ev.py), and library calls behaving as their names say. Obligations the "
        "evaluator cannot resolve are reported as undecided in the evidence and never alarm.")

P(id="C01", title="Hits written to a Cap'n Proto hit file come back with the same attributes",
  statement="For any list or vector of hits, writing it to a Cap'n Proto hit file stores exactly one message per hit in order, and reading the file yields those hits in the same order with every attribute (start frequency index and value, start time, duration, drift rate and its index, power, number of time steps, SNR, bandwidth, bin width, coarse channel number) restored from the place where the writer stored that same attribute, unaltered. The stored field is wide enough for the attribute (integers need 32 bits). The count of RFI flags is documented as not stored.",
  over=["inputs"], quant="every hit value and every list length; every path of the writer and reader",
  tests="the tests write a handful of random hits and never set every attribute; a dropped or swapped attribute that is zero or equal in the sample goes unseen",
  files=["bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/cpnp_hit_builder.cpp", "bliss/file_types/hit.capnp"],
  mech=[("signal encoder/decoder pair", "bliss/file_types/detail/cpnp_hit_builder.cpp"), ("message loop", "bliss/file_types/cpnp_files.cpp")],
  technique="value-flow through encoder and decoder (abstract interpretation), slot agreement", note=NOTE)

P(id="C02", title="Scan and channel metadata and lists survive a Cap'n Proto file round trip",
  statement="For any coarse channel or scan, writing it to a Cap'n Proto file and reading it back restores first channel frequency, channel width, source name, declination, right ascension, telescope id, sampling time, start time and the numbers of time steps and channels, each from the field in which the writer stored that same quantity. Every hit of a channel, every loaded coarse channel of a scan, every scan of a target and every target of a cadence is written and read at its own position, none dropped, duplicated or reordered.",
  over=["inputs"], quant="every scan/target/cadence structure and metadata value; every path of the codecs",
  tests="the only stable tests store one coarse channel and compare a few fields; nested lists, scan metadata and positions are not compared",
  files=["bliss/file_types/detail/cpnp_hit_builder.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/core/scan.cpp", "bliss/core/coarse_channel.cpp"],
  mech=[("metadata encoders/decoders", "bliss/file_types/detail/cpnp_hit_builder.cpp"), ("metadata getters", "bliss/core/scan.cpp, bliss/core/coarse_channel.cpp")],
  technique="value-flow through encoder, decoder and getters; loop-coverage of element codecs", note=NOTE)

P(id="C03", title="Every column and header field of a DAT file carries the value it is named for",
  statement="For any scan with hits, the DAT file has one row per hit in order, numbered from 1, and under each column name of the header line stands that hit's quantity of that name: drift rate, SNR, mid frequency, index, start and end frequency (start plus duration times drift rate), coarse channel number, with at least six decimals for real quantities. Header fields source, MJD, RA, DEC, DELTAT, DELTAF(Hz) and obs_length carry the scan's source name, start time, right ascension, declination, sampling time, channel width in Hz and duration. The hours (degrees), minutes and seconds of RA and DEC together are the angle, sign included. The complete text is handed to the file.",
  over=["inputs"], quant="every scan and hit list",
  tests="no test writes a DAT file",
  files=["bliss/file_types/dat_file.cpp"],
  mech=[("row formatting", "bliss/file_types/dat_file.cpp format_hits_to_dat_list"), ("header formatting", "bliss/file_types/dat_file.cpp write_scan_hits_to_dat_file")],
  technique="static reconstruction of the output template by value-flow; column/name agreement", note=NOTE)

P(id="C04", title="A stage does the same to every channel of a scan, target or cadence",
  statement="Every processing stage (normalizing, equalizing, excising, flagging, noise estimation, drift integration, hit search, hit filtering) applied to a scan, target or cadence does to every coarse channel of every scan exactly what it does to one channel, once, with the options the caller gave. Stages added to a scan are applied in the order they were added whenever a channel is read, without changing the channel the next reader starts from. The hits of a scan are those of all of its channels in channel order.",
  over=["inputs", "histories"], quant="every stage, option value, cadence structure, channel and order of stages",
  tests="the stable tests run a stage on single channels; an option dropped on the way down, an element skipped or a result stored in a temporary needs a cadence and unequal options",
  files=["bliss/flaggers/", "bliss/preprocess/", "bliss/estimators/", "bliss/drift_search/", "bliss/core/scan.cpp"],
  mech=[("channel pipeline", "bliss/core/scan.cpp"), ("scan, target and cadence forms of each stage", "bliss/flaggers/, bliss/preprocess/, bliss/estimators/, bliss/drift_search/")],
  technique="delegation summaries of every stage family, discovered by signature (abstract interpretation)", note=NOTE)

P(id="C05", title="A flagger sets its own flag where its condition holds and keeps all others",
  statement="Every flagger adds exactly its own flag bits to the mask a channel has, keeping the flags already there (setting a flag twice changes nothing) and not changing masks shared with other channels or readers. The magnitude flag is set exactly where the data exceeds the threshold (the mean by ten standard deviations when none is given), the kurtosis flags where the channel's spectral kurtosis, for its own sampling, is outside the limits, the clip flag where data lies outside mean - low deviations .. mean + high deviations with statistics over the samples not flagged so far, repeated until neither statistic changes or the given number of times, and the rolloff flag in the first and last round(width * channels) channels.",
  over=["inputs", "histories"], quant="every data and mask value, threshold, width and sequence of flaggers",
  tests="the tests run one flagger on a fresh mask with symmetric limits",
  files=["bliss/flaggers/filter_rolloff.cpp", "bliss/flaggers/magnitude.cpp", "bliss/flaggers/sigmaclip.cpp", "bliss/flaggers/spectral_kurtosis.cpp"],
  mech=[("mask accumulation", "bliss/flaggers/*.cpp")],
  technique="normal form of mask expressions as linear combinations of element-wise terms, from value flow (abstract interpretation)", note=NOTE)

P(id="C06", title="Array storage is only accessed as the element type the array has",
  statement="For every array library operation (arithmetic, comparison, statistics, fill, copy, spectrum, random fill, file input and output) and every combination of operand element types, an array's storage is read and written only as elements of the type that array was created with. An operand or output of a type the operation does not support is rejected with an exception and never reinterpreted.",
  over=["inputs"], quant="every operation, every path and every run-time element type of every operand",
  tests="the tests use float32 and a few integer arrays of matching type; a mismatched operand is never tried",
  files=["bland/bland/internal/include/internal/dispatcher.hpp", "bland/bland/ops/cpu/", "bland/bland/ops/", "bland/bland/ndarray.cpp"],
  mech=[("run-time type to template dispatch", "bland/bland/internal/include/internal/dispatcher.hpp"), ("type checks before typed kernels", "bland/bland/ops/cpu/statistical_cpu.cpp")],
  technique="path-condition analysis of typed storage accesses over the call graph of every instantiation", note=NOTE)

P(id="C07", title="Element-wise operations combine exactly the elements at equal positions",
  statement="For arrays of every shape, stride, offset and rank, including views and broadcast operands, every element-wise operation, fill, copy and raw write visits each position of its output exactly once, in an order that covers all dimensions, and combines there the operand elements at that same position. Operands are aligned from the last dimension, a dimension of size 1 or absent is repeated, and incompatible shapes are rejected.",
  over=["inputs"], quant="every shape, stride, offset, rank and broadcast combination; every path of every kernel",
  tests="the tests use a few small shapes; a slip at a carry, an unrolled tail or a broadcast stride needs a particular combination",
  files=["bland/bland/ops/cpu/elementwise_binary_op.hpp", "bland/bland/ops/cpu/elementwise_unary_op.hpp", "bland/bland/ops/cpu/elementwise_scalar_op.hpp",
         "bland/bland/ops/cpu/assignment_op.hpp", "bland/bland/ops/cpu/ops_cpu.cpp", "bland/bland/internal/include/internal/shape_helpers.cpp"],
  mech=[("multi-dimensional walks", "bland/bland/ops/cpu/elementwise_binary_op.hpp"), ("broadcast strides", "bland/bland/internal/include/internal/shape_helpers.cpp")],
  technique="loop-invariant check of index walks by polynomial identity over loop summaries (abstract interpretation)", note=NOTE)

P(id="C08", title="Reductions combine exactly the elements that share an output position",
  statement="For every array shape, stride, offset, rank and list of reduced axes, each output element of a reduction (sum, maximum, mean, standard deviation, standardized moment, count and the masked forms) is computed from every input element that has the output element's position in the dimensions kept, each taken once, and from no other. Mask values are taken at the position of the element they mask, and every result is stored at its own position of the output array, including views.",
  over=["inputs"], quant="every shape, stride, offset, rank and axis list; every path of every reduction kernel",
  tests="the tests reduce small contiguous arrays over one or two axes; strided views, offsets and uneven masks are hardly sampled",
  files=["bland/bland/ops/cpu/statistical_cpu.cpp"],
  mech=[("nested walks over kept and reduced dimensions", "bland/bland/ops/cpu/statistical_cpu.cpp")],
  technique="loop-invariant check of nested index walks over loop summaries (abstract interpretation)", note=NOTE)

P(id="C09", title="Array operators compute the operation they are named for, operand order included",
  statement="Every arithmetic, comparison, logical and unary operation and operator on arrays, views and scalars, for every combination of element types and with the scalar on either side, computes for each element the operation it is named for with the left operand on the left. The result has the broadcast shape of its operands (the array's shape for a scalar), lives on their device, and has the left array's type, or uint8 for comparisons.",
  over=["inputs"], quant="every operation, operand kind, operand order and element type combination",
  tests="the tests call some operators with arrays and a scalar on the right; a scalar on the left, a larger right operand and equal elements are not compared",
  files=["bland/bland/ops/arithmetic.cpp", "bland/bland/ops/comparison.cpp", "bland/bland/ops/cpu/arithmetic_cpu.cpp", "bland/bland/ops/cpu/comparison_cpu.cpp", "bland/bland/ndarray.cpp"],
  mech=[("operator and dispatch chain", "bland/bland/ndarray.cpp, bland/bland/ops/, bland/bland/internal/include/internal/dispatcher.hpp"), ("element functions", "bland/bland/ops/cpu/arithmetic_cpu_impl.hpp, comparison_cpu_impl.hpp")],
  technique="interprocedural operand-position summaries over all template instantiations; symbolic identity of the element function", note=NOTE)

P(id="C10", title="Each statistic is the one it is named for, over the elements it should cover",
  statement="For every array, axis list and mask, sum, maximum, mean, standard deviation, variance, standardized moment, count and the masked forms yield exactly the statistic their name says: the mean divides by the number of elements taken, the deviation is the root of the mean square minus the squared mean, masked forms take exactly the elements whose mask value is 0, and the maximum works for negative values. Every variant uses its own array, mask, axes and output, returns the result also in an output it was given, and otherwise makes one with the extents of the dimensions kept.",
  over=["inputs"], quant="every array, mask, axis list, element type and public variant",
  tests="the tests compare a few means and moments of positive float data; negative maxima, mask values above 1 and outputs passed by the caller are not tried",
  files=["bland/bland/ops/cpu/statistical_cpu.cpp", "bland/bland/ops/statistical.cpp"],
  mech=[("reduction kernels", "bland/bland/ops/cpu/statistical_cpu.cpp"), ("public variants", "bland/bland/ops/statistical.cpp")],
  technique="symbolic formula of each kernel over its loop accumulators (abstract interpretation); interprocedural argument summaries", note=NOTE)

P(id="C11", title="Views select exactly the elements asked for and stay inside the array",
  statement="A slice covers exactly the elements from start to end in steps of the stride, counting negative positions from the end, on top of any slice taken before, and every position asked for is applied. Squeezing, unsqueezing and reshaping keep the elements and their order. A view that would reach outside the array, or that has no meaning, is refused, and the size, shape and single elements read are those of the view.",
  over=["inputs"], quant="every number of axes, extent, stride and offset, every slice of slices, and every start, end and stride of either sign",
  tests="tests slice a few small arrays at the start of their storage; they would have to combine negative positions, steps, nested slices and views with every shape change",
  files=["bland/bland/ops/ops.cpp", "bland/bland/ndarray.cpp", "bland/bland/ndarray_slice.cpp", "bland/bland/bland_tensor_internals.cpp"],
  mech=[("slice", "bland/bland/ops/ops.cpp"), ("squeeze, unsqueeze, reshape, scalarize and the accessors", "bland/bland/ndarray.cpp")],
  technique="abstract interpretation over symbolic extents with a linear inequality domain: path conditions of the stores entail the bounds, stored values equal the specified affine forms; list-building loops compared element by element", note=NOTE)

P(id="C12", title="Arrays own their shape, share and keep their data, and lend both out safely",
  statement="Copying or assigning an array shares its data and copies everything else, and what it then says of itself never depends on the array it came from. Memory is as large as the shape and element type need, and failing to get it is an error. An array lent to or borrowed from another framework starts at the element the view starts at, and what is lent out stays valid until the borrower gives it back.",
  over=["inputs", "histories"], quant="every shape, element type, view and order of copying, assigning, lending and destroying",
  tests="dangling shapes and shared ownership only show after the other array has changed or gone; tests would have to try every order",
  files=["bland/bland/bland_tensor_internals.cpp", "bland/bland/ndarray.cpp"],
  mech=[("constructors, assignment and export of the tensor", "bland/bland/bland_tensor_internals.cpp"), ("get_managed_tensor", "bland/bland/ndarray.cpp")],
  technique="ownership and field-flow analysis: symbolic state after each constructor, assignment and export, with pointer targets by object and order of list changes", note=NOTE)

P(id="C13", title="Noise and kurtosis estimates are the statistics of the samples they should cover",
  statement="The noise floor and noise power of an estimate are the mean and the deviation of all samples given or, for a masked estimate of a channel, of exactly the samples its own mask leaves unflagged; a masked estimate is refused exactly if there are none, and an estimate that is returned always has both values. What an estimate was given is what it gives back, and estimating a scan leaves in each channel the estimate of that channel. Spectral kurtosis of a channel follows the estimator formula over its time steps, with the spectra per sample from its own sampling time and channel width.",
  over=["inputs"], quant="every array, mask, estimation method and option, every scan",
  tests="no stable test estimates noise of masked channels; tests would have to vary masks, methods and channel widths of either sign",
  files=["bliss/estimators/noise_estimate.cpp", "bliss/estimators/spectral_kurtosis.cpp", "bliss/core/noise_power.cpp"],
  mech=[("noise estimate", "bliss/estimators/noise_estimate.cpp"), ("spectral kurtosis", "bliss/estimators/spectral_kurtosis.cpp"), ("noise statistics", "bliss/core/noise_power.cpp")],
  technique="value flow to each field of the estimate under every combination of options (abstract interpretation), decision of the refusal over abstract counts, identity of the kurtosis formula over array operations", note=NOTE)

P(id="C14", title="A hit's attributes are those of the strongest cell of its own detection",
  statement="For every search, each detection yields one hit, in order, whose drift rate is that of the drift where the detection is strongest, whose frequency is its channel's in MHz, and whose power, SNR, bandwidth, start, duration and time span follow from the channel's metadata and noise. The noise at a drift is the channel's divided by the root of the number of samples averaged there. Drift rates step from the lowest by the chosen step, and every stage is handed the values of the same name.",
  over=["inputs"], quant="every channel, plane, detection, drift range and option",
  tests="no stable test runs a search; a wrong index, unit or number of averaged channels gives plausible hits",
  files=["bliss/drift_search/hit_search.cpp", "bliss/drift_search/protohit_search.cpp", "bliss/drift_search/integrate_drifts.cpp"],
  mech=[("attributes of a hit", "bliss/drift_search/hit_search.cpp"), ("noise per drift, choice of method", "bliss/drift_search/protohit_search.cpp"), ("drift rates", "bliss/drift_search/integrate_drifts.cpp")],
  technique="value flow to every field of the hit, compared as normal forms (abstract interpretation)", note=NOTE)

P(id="C15", title="Clusters and peaks of a drift plane are complete and described by one cell",
  statement="Every cell of a drift plane whose SNR (over the noise of its own drift) exceeds the threshold belongs to exactly one cluster; a cluster grows over all cells within the L1 distance, inside the plane, that exceed half the threshold. Its strength, position, noise and flag counts are all those of its strongest cell, and its width and centre come from the outermost members at that drift. A local maximum is reported exactly if its SNR exceeds the threshold and that of every other cell within the distance; its width runs on both sides over falling cells above the threshold. The components of a binary mask hold every set cell exactly once and leave the caller's mask as it was.",
  over=["inputs"], quant="every plane, noise per drift, threshold and distance",
  tests="no stable test searches a plane; the result depends on where strong cells lie relative to the borders, to one another and to the start of the scan",
  files=["bliss/drift_search/kernels/connected_components_cpu.cpp", "bliss/drift_search/kernels/local_maxima_cpu.cpp"],
  mech=[("flood fill", "bliss/drift_search/kernels/connected_components_cpu.cpp"), ("local maxima", "bliss/drift_search/kernels/local_maxima_cpu.cpp")],
  technique="abstract interpretation to closed-form conditions and updates; decision tables over their atoms compared with the rule", note=NOTE)

P(id="C16", title="Coarse channel i is the i-th block of the scan's channels, in slices too",
  statement="Reading coarse channel i of a scan succeeds exactly for 0 <= i < number of coarse channels and gives the samples and mask of the i-th block of fine channels, starting i block widths of frequency above the scan, with the scan's other metadata. Reading it again gives that same channel. Channel i of a slice that starts at s (of a scan, target or cadence) is channel s+i of the original, and a slice keeps the scans, names and device of what it was cut from. A channel or scan put together from values keeps each value under its name, and a scan of channels describes itself by its first channel: all fine channels of all of them, the first one's frequency, time steps, sampling and source. A target made of scans or files and a cadence made of targets have all of them in order; a target bears the name its scans share, distinct names joined by '::' in order, 'unknown' if none has one.",
  over=["inputs", "histories"], quant="every channel index, slice start and count, nested slices, and every order of reads",
  tests="no stable test reads channels of a file; an offset applied twice or not at all only shows for a slice that does not start at 0",
  files=["bliss/core/scan.cpp", "bliss/core/cadence.cpp", "bliss/core/coarse_channel.cpp"],
  mech=[("channel reading and caching", "bliss/core/scan.cpp"), ("slicing", "bliss/core/scan.cpp, bliss/core/cadence.cpp")],
  technique="guard and offset identities over composed function summaries (abstract interpretation)", note=NOTE)

P(id="C17", title="Every Python name does what the C++ function or field of that name does",
  statement="Each function, method, property, field, constructor and enumerator of the Python modules is the C++ one its name says, with every overload, in the submodule it belongs to; a Python wrapper passes all its arguments on in order, unconverted, and returns the result. A keyword stands for the parameter of that name and has the same default in every overload. An array handed over from Python is used with its own data, device, element type, shape and strides.",
  over=["programs", "inputs"], quant="every binding of both modules and every call of it",
  tests="the 28 tests are C++ programs: none imports the Python modules",
  files=["bland/python/pybland.hpp", "bliss/python/pybliss.cpp", "bliss/core/include/core/pyblisscore.hpp", "bliss/drift_search/include/drift_search/pydrift_search.hpp", "bliss/estimators/include/estimators/pyestimators.hpp", "bliss/file_types/include/file_types/pyfile_types.hpp", "bliss/flaggers/include/flaggers/pyflaggers.hpp", "bliss/preprocess/include/preprocess/pypreprocess.hpp"],
  mech=[("array functions and import of arrays", "bland/python/pybland.hpp"), ("submodules", "bliss/python/pybliss.cpp"), ("classes of the core", "bliss/core/include/core/pyblisscore.hpp")],
  technique="syntax-tree query over all nanobind definitions resolved by the type checker, value flow through each wrapper, comparison with the recorded interface", note=NOTE)

P(id="C18", title="Filtering removes exactly the hits to be removed and keeps the others in order",
  statement="For every list of hits and options, filtering removes a hit exactly when samples flagged as filter rolloff or as low spectral kurtosis lie on its path, or when zero-drift filtering is on and its drift rate is zero within a small tolerance of either sign. All other hits stay, unchanged and in order. The channel, scan, target and cadence forms filter with the given options, and a channel without hits is refused.",
  over=["inputs"], quant="every list of hits, count of flagged samples, drift rate and option",
  tests="no stable test filters hits; a test list would have to hold adjacent removals, negative drifts and both option values",
  files=["bliss/drift_search/filter_hits.cpp"],
  mech=[("removal rule and list traversal", "bliss/drift_search/filter_hits.cpp")],
  technique="decision table of the removal condition and iterator typestate of the traversal (abstract interpretation)", note=NOTE)

P(id="C19", title="Every command line option reaches its stage and every scan is written",
  statement="In find_hits, hits_to_dat and generate_channelizer_response the value given to an option is, unaltered, the parameter that the option's help describes, and nothing else sets that parameter. find_hits runs normalisation, then equalisation or roll-off flagging, the other flags, the noise estimate, the drift search, the hit search and the hit filter in that order, each once and each on the result of the one before, and writes the hits of every scan to the given output or to one named after that scan's own input file. A run that ends by an exception does not end with success.",
  over=["inputs", "configurations"], quant="every command line, any number of input files",
  tests="no test runs the programs; tests would have to try every option, alone and together, on data where the option matters",
  files=["bliss/bliss_find_hits.cpp", "bliss/bliss_hits_to_dat.cpp", "bliss/bliss_generate_channelizer_response.cpp"],
  mech=[("find_hits", "bliss/bliss_find_hits.cpp"), ("hits_to_dat", "bliss/bliss_hits_to_dat.cpp"), ("generate_channelizer_response", "bliss/bliss_generate_channelizer_response.cpp")],
  technique="abstract interpretation of the programs: def-use from each option to the parameters it reaches, order and chaining of stages by data flow, path conditions of outputs and exits", note=NOTE)

P(id="C20", title="Preprocessing divides by the maximum and by the designed or stored response",
  statement="Normalising divides every sample of a channel by the largest sample of that channel; equalising divides every time step by the given response, or by the one stored in the named file read with the given type, on the channel's device; nothing else of the channel changes. A designed response is the power spectrum of a Hamming windowed sinc with the given taps per channel, cut off at the channel width, zero padded to the full band and folded so that the channel's centre is in the middle, with maximum 1. A power spectrum has, for even and odd lengths, each frequency's power at its place with zero in the middle.",
  over=["inputs", "configurations"], quant="every channel, response, number of channels and fine channels, taps and spectrum length",
  tests="tests normalise one array and never design or apply a response; lengths, parities and types would have to be enumerated",
  files=["bliss/preprocess/normalize.cpp", "bliss/preprocess/passband_static_equalize.cpp", "bland/bland/ops/cpu/frequency_cpu_impl.cpp", "bland/bland/ops/frequency.cpp"],
  mech=[("normalise", "bliss/preprocess/normalize.cpp"), ("equalise, filter and response design", "bliss/preprocess/passband_static_equalize.cpp"), ("power spectrum", "bland/bland/ops/cpu/frequency_cpu_impl.cpp")],
  technique="abstract interpretation to closed forms of every element written, decided against the definition over a grid of sizes; def-use of data, response and device", note=NOTE)

P(id="C21", title="An event is a hit seen again in later ON scans and in no OFF scan",
  statement="Every hit of every scan of the first target starts one candidate event; each later scan of that target adds its hit at the smallest distance to any hit the event has so far, if that is below 50, and that hit is then used up. The event is reported exactly if it has at least two hits and no hit of any scan of any other target is at a mean distance below 50 from its hits, with averages over all its hits and the frequency and start of its first hit. The distance of two hits compares their frequencies extrapolated to a common time and their drift rates, and is the same in both orders.",
  over=["inputs", "histories"], quant="every cadence: any number of targets, scans and hits, any hit attributes",
  tests="no test searches events; tests would have to enumerate cadences of several targets with near-coinciding hits",
  files=["bliss/drift_search/event_search.cpp"],
  mech=[("candidate events, matching, OFF veto, averages", "bliss/drift_search/event_search.cpp"), ("distance and its cache", "bliss/drift_search/event_search.cpp")],
  technique="abstract interpretation to closed-form summaries of nested loops (minimum and sum reductions, list contents), decision tables, order axioms over an abstract domain of hits", note=NOTE)

P(id="C22", title="Each cell of a drift plane averages exactly the samples on its own drift path",
  statement="For every channel, set of drift rates and desmearing, each cell of the drift plane gets the samples on the path that starts at its channel and moves by the rounded drift at every time step, spread over the desmearing channels in the direction of the drift, averaged over both. Paths that leave the spectrum only take samples inside it. The flag counts of a cell count the flagged samples on that same path, each flag its own, and never fall back to 0. A channel in host memory is integrated this way along the drift rates its options ask for.",
  over=["inputs"], quant="every spectrum size, drift rate of either sign, desmearing width and flag pattern",
  tests="no stable test integrates drifts; tests would have to cover both signs, desmearing, drifts wider than the spectrum and more than 255 flags",
  files=["bliss/drift_search/kernels/drift_integration_cpu.cpp", "bliss/core/frequency_drift_plane.cpp"],
  mech=[("integration loops", "bliss/drift_search/kernels/drift_integration_cpu.cpp"), ("the plane's accessors", "bliss/core/frequency_drift_plane.cpp")],
  technique="closed-form addresses of every load and store of the loop nest, compared as normal forms (induction variable and dependence analysis)", note=NOTE)

P(id="C23", title="Hits are compared by all their attributes and restored whole from a saved state",
  statement="Two hits are equal exactly if they agree in every attribute of the signal (frequency, time, drift, power, SNR, widths, flag counts), and hits are ordered by those same attributes in one fixed sequence, so the order is strict and consistent with equality. Writing a saved state back into a hit restores every attribute, without loss of precision.",
  over=["inputs"], quant="every pair of hits and every hit",
  tests="no test compares or pickles hits",
  files=["bliss/core/include/core/hit.hpp", "bliss/core/hit.cpp"],
  mech=[("equality and order", "bliss/core/include/core/hit.hpp"), ("saved state", "bliss/core/hit.cpp")],
  technique="symbolic composition of the two state functions field by field, type-width comparison, decision of the comparison formulas over an abstract domain of attribute values", note=NOTE)

P(id="C24", title="Every message can be formatted: a report of a problem never fails itself",
  statement="In every message that is printed or thrown each placeholder has an argument of a type it can show and each argument has a placeholder, and the text used as format is fixed and never contains text from a file, the command line or another error. So what is reported is the problem that occurred, by the exception type meant for it.",
  over=["inputs", "fault_sequences"], quant="every message of the code base, in every template instantiation, for every argument value",
  tests="most messages are on error paths that no test takes; formats are checked at run time only",
  files=["bliss/file_types/h5_filterbank_file.cpp", "bliss/file_types/hits_file.cpp", "bliss/core/scan.cpp", "bland/bland/ndarray.cpp"],
  mech=[("messages of the file readers and writers", "bliss/file_types/hits_file.cpp"), ("messages of arrays", "bland/bland/ndarray.cpp"), ("messages of scans", "bliss/core/scan.cpp")],
  technique="lint over the type-checked program: format grammar against argument types per call site and instantiation, taint of format strings", note=NOTE)

P(id="C25", title="Filterbank files are read as labelled: each attribute by name, each region whole",
  statement="For any filterbank HDF5 file, each metadata value of a scan is the file attribute of that name, at full precision whichever numeric type the file stores it in; attributes the format makes optional may be missing. Data is read from exactly the requested offset and count, to the end when none is given, and dimensions are recognised by label, an unknown one being accepted only when its size is 1. The file is never opened for writing.",
  over=["inputs"], quant="every attribute, stored numeric type, offset and count, and dimension labelling",
  tests="no stable test opens a filterbank file",
  files=["bliss/file_types/h5_filterbank_file.cpp", "bliss/core/scan.cpp"],
  mech=[("attribute and region readers", "bliss/file_types/h5_filterbank_file.cpp"), ("metadata of a scan", "bliss/core/scan.cpp")],
  technique="buffer type agreement and value flow through file accessors (abstract interpretation)", note=NOTE)

P(id="C26", title="Created arrays hold every value asked for; deferred arrays give it once",
  statement="arange(start, end, step) gives exactly the values start, start + step, ... that lie before end (after end, for a negative step): a last partial step counts, a range that is empty or runs against its step is an empty array, a step of 0 raises. linspace(start, end, n) gives the n values start + k (end - start) / n, also for descending or negative integers. zeros and ones fill every element; rand_normal and rand_uniform draw every element from the distribution with the given parameters, in the array's own type. Each creates the shape, type and device it was asked for and, if it cannot write elements of that type, raises instead of handing out memory it did not write; without a type the array has the type of start. Converting a deferred array gives the array it holds, or what its function returns from one call, on the device it was last sent to; a memoizing one keeps the result, a lazy one never does, an eager one calls its function once when it is built and never again.",
  over=["inputs", "histories"], quant="every range, step, number of values, element type and device; every policy, device and history of a deferred array",
  tests="tests create a few float ranges that divide evenly and convert no deferred array twice",
  files=["bland/bland/ops/creators.cpp", "bland/bland/ndarray.cpp", "bland/bland/ndarray_deferred.cpp", "bland/bland/include/bland/ndarray_deferred.hpp"],
  mech=[("ranges", "bland/bland/ops/creators.cpp arange, linspace"), ("filled and random arrays", "bland/bland/ops/creators.cpp zeros, ones, rand_normal, rand_uniform; bland/bland/ndarray.cpp ndarray::ndarray"), ("deferred arrays", "bland/bland/ndarray_deferred.cpp")],
  technique="symbolic values of every instantiation evaluated over tables of ranges and types, typed-AST rule for unsigned wrap-around of signed ends, and case evaluation of the deferred array's conversion and constructors over policy, held state and device", note=NOTE)

P(id="C27", title="Names of types and devices; host code runs only on arrays in host memory",
  statement="Each name of an element type (float, float32, double, float64, int, int8..int64, uint, uint8..uint64) and of a device (cpu, cuda, cudahost, cudamanaged, the last three with an optional :number) gives exactly that type or device, number included, and any other name raises; the named constants agree with them, and two types or devices are equal exactly when all their fields are. An operation on arrays runs code of the host only if every array it hands over is in host memory; with all arrays on the cpu it runs and raises nothing on account of the device, with an array elsewhere it raises. What it returns is on the device of its arguments. Moving an array to the device it is on returns the array itself; to another cpu, a copy of its elements; anything this build cannot do raises. set_device on a cadence, target, scan or coarse channel refuses a cuda device that is not there and otherwise sets the device for everything in it; data, masks and drift planes are handed out on that device.",
  over=["inputs"], quant="every name, every pair of types and devices, every assignment of devices to the arrays of every operation",
  tests="all tests run on the cpu with matching devices; names are used, never checked",
  files=["bland/bland/ndarray.cpp", "bland/bland/include/bland/ndarray.hpp", "bland/bland/ops/*.cpp", "bland/bland/ops/device_dispatch.hpp", "bliss/core/scan.cpp", "bliss/core/cadence.cpp", "bliss/core/coarse_channel.cpp", "bliss/drift_search/*.cpp"],
  mech=[("names, constants and comparisons", "bland/bland/ndarray.cpp, bland/bland/include/bland/ndarray.hpp"), ("choice of the code by device", "bland/bland/ops/device_dispatch.hpp device_dispatch, bland/bland/ops/statistical.cpp, frequency.cpp, ops.cpp; bliss/drift_search local_maxima.cpp, connected_components.cpp, integrate_drifts.cpp"), ("moving and keeping devices", "bland/bland/ops/ops.cpp to; set_device/push_device in bliss/core")],
  technique="constructors and comparisons evaluated over tables of names and fields; path conditions of every hand-over to host code evaluated over assignments of devices to arrays; value flow of the device of created and moved arrays", note=NOTE)

P(id="C28", title="Hits go to the format asked for, into a whole new file, and no failure is hidden",
  statement="A scan's hits are written in the format asked for, otherwise in the one the file name ends in (.dat, .capnp or .cp), otherwise as Cap'n Proto; reading takes Cap'n Proto unless asked otherwise and refuses every format it cannot read. A file that is written replaces an earlier one entirely and goes to the path given. A file that cannot be opened, cannot be written completely, or is cut short or damaged when it is read (hit lists and event lists too) is reported as an error; a reader returns fewer records than were written in no other way.",
  over=["inputs", "fault_sequences", "crash_points"], quant="every combination of format and file name, every failure and partial result of open, write and read",
  tests="no test lets a write fail, truncates a file, reads a damaged one or checks which format a name selects",
  files=["bliss/file_types/hits_file.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/file_types/events_file.cpp", "bliss/file_types/detail/raii_file_helpers.cpp"],
  mech=[("choice of the format", "bliss/file_types/hits_file.cpp"), ("opening and writing", "bliss/file_types/detail/raii_file_helpers.cpp"), ("end of file", "bliss/file_types/cpnp_files.cpp read_hits_from_capnp_file, bliss/file_types/events_file.cpp read_events_from_file")],
  technique="path conditions of the format decision evaluated over a table of formats and names, data flow of path and descriptor, handlers that swallow errors, use of every write() result", note=NOTE)

P(id="C29", title="Events written to a file come back in order with all their hits in order",
  statement="For any list of events, writing it stores one record per event in order, events without hits included, and each record holds every hit of that event once at its own position. Reading the file yields the same number of events in the same order, each with all its hits in order. The averages of an event are not part of the file.",
  over=["inputs"], quant="every number of events and every number of hits per event",
  tests="no test writes or reads an events file",
  files=["bliss/file_types/events_file.cpp"],
  mech=[("writer", "bliss/file_types/events_file.cpp write_events_to_file"), ("reader", "bliss/file_types/events_file.cpp read_events_from_file")],
  technique="loop and effect analysis of the writer and the reader (trip counts, positions, extra conditions, early exits) on the type-checked program", note=NOTE)

P(id="C30", title="A raw array file holds the array's elements and nothing else",
  statement="For an array of any of the ten element types, any shape and any view, write_to_file leaves a file with each of its elements once, unchanged, in its own number of bytes, and nothing else, in place of what the file held before. read_from_file with an element type returns a one-dimensional array of that type with all the whole elements of the file, from its start and in its order. An unsupported type, a file that cannot be opened and a failure while writing or reading raise an exception.",
  over=["inputs", "failures"], quant="every element type, every shape and view, every length of file, every failure of open, write and read",
  tests="one test writes or reads float arrays of one shape; no other type, no partial element, no failure",
  files=["bland/bland/ops/cpu/ops_cpu.cpp", "bland/bland/ops/ops.cpp", "bland/bland/internal/include/bland_helpers/file_helpers.hpp"],
  mech=[("elements and their bytes", "bland/bland/ops/cpu/ops_cpu.cpp write_to_file"), ("length and contents", "bland/bland/ops/cpu/ops_cpu.cpp read_from_file, bland/bland/internal/include/bland_helpers/file_helpers.hpp")],
  technique="dispatch over the ten element types resolved on the path conditions, value flow of what is written, trip counts, evaluated sizes over a table of file lengths, failure paths", note=NOTE)

P(id="C36", title="Element counts, positions and channel numbers are computed in 64 bits",
  statement="Arrays and scans of 2^31 or more elements or channels are handled like smaller ones: every count of elements, extent, stride, offset and element position, every counter that runs over elements, and the number of channels of a scan are held, multiplied, summed and passed on in 64-bit types, so that none of them wraps. Exempt are numbers of dimensions, of time steps and of coarse channels, the lengths of CPU Fourier transforms and the 32-bit fields of the hit file format.",
  over=["inputs"], quant="every array shape and view and every number of channels, on every loop over elements, address computation, allocation, slice and file selection",
  tests="no test has an array of 2^31 elements: the smallest failing input takes gigabytes",
  files=["bland/bland/bland_tensor_internals.cpp", "bland/bland/ndarray.cpp", "bland/bland/ops/cpu/elementwise_unary_op.hpp", "bland/bland/ops/cpu/statistical_cpu.cpp", "bliss/core/scan.cpp", "bliss/core/cadence.cpp", "bliss/drift_search/kernels/connected_components_cpu.cpp"],
  mech=[("allocation and views", "bland/bland/bland_tensor_internals.cpp, bland/bland/ndarray.cpp"), ("kernels", "bland/bland/ops/cpu/*.hpp, statistical_cpu.cpp"), ("channels of a scan", "bliss/core/scan.cpp, bliss/core/cadence.cpp")],
  technique="flow-insensitive inference over the type-resolved syntax tree of every function (all instantiations) of which variables and lists hold sizes or positions, then a width rule on their types, conversions, products and std::accumulate initial values", note=NOTE)


N(id="C31", title="An injected drifting tone above the threshold is found with its drift and SNR",
  statement="For a spectrogram of noise with one drifting tone whose integrated SNR exceeds the threshold by a margin and whose drift lies within the search range, the pipeline reports exactly one hit whose start frequency, drift rate and SNR agree with the tone within the resolution of the search, and with no tone it reports no more hits than the false-alarm rate of the threshold allows.",
  over=["inputs"], quant="every tone and every realisation of the noise",
  tests="tests use one noiseless synthetic signal",
  files=["bliss/drift_search/hit_search.cpp", "bliss/drift_search/integrate_drifts.cpp"],
  mech=[("detection", "bliss/drift_search")],
  reason="the claim quantifies over noise realisations and sums of floating-point samples; no static argument in reach bounds whether a sum exceeds a threshold. The structural steps it rests on (paths, thresholds, clustering, formulas) are C03, C14, C18, C19, C20 and C22.")

N(id="C32", title="Accumulated statistics are accurate to the rounding of their type",
  statement="mean, standard deviation, skewness, kurtosis, spectral kurtosis, the noise floor and power and every FIR output differ from the exact value by no more than a bound that grows at most with the number of samples times the rounding of the accumulator's type, for data of any magnitude and offset.",
  over=["inputs"], quant="every array of floating-point values",
  tests="tests compare a few small arrays",
  files=["bland/bland/ops/cpu/statistical_cpu.cpp", "bliss/estimators/noise_estimate.cpp", "bliss/estimators/spectral_kurtosis.cpp"],
  mech=[("accumulation", "bland/bland/ops/cpu/statistical_cpu.cpp")],
  reason="a bound on rounding error depends on the magnitudes and cancellations of run-time data (sums over millions of samples); an interval or affine analysis without bounds on the data gives infinity. Which terms enter each sum, with which weights and in which type, is decided by C08, C09, C10 and C13.")

N(id="C33", title="The computed bandpass response matches the recording instrument's channelizer",
  statement="Dividing a recording by the response computed from the prototype filter of its channelizer leaves the noise floor of every coarse channel flat to within the estimator's error.",
  over=["inputs"], quant="every prototype filter and every recording made with it",
  tests="tests check the shape of the response only",
  files=["bliss/preprocess/passband_static_equalize.cpp"],
  mech=[("response", "bliss/preprocess/passband_static_equalize.cpp")],
  reason="whether the division flattens real data depends on the instrument and on the numbers of the filter, neither of which is in the source. The construction (window, taps, fold of the response, order of channels, division) is C20 and C13.")

N(id="C34", title="Searching takes memory and time in proportion to one coarse channel",
  statement="Searching a cadence holds at most a fixed number of coarse channels of each scan in memory, and the time per coarse channel does not grow with the number of channels searched before.",
  over=["inputs", "histories"], quant="every size of file and every number of coarse channels",
  tests="no test measures memory or time",
  files=["bliss/core/scan.cpp", "bliss/core/coarse_channel.cpp", "bliss/drift_search/hit_search.cpp"],
  mech=[("caches of coarse channels", "bliss/core/scan.cpp")],
  reason="peak memory and time depend on sizes of files, the allocator and reference counts shared by run-time histories (deferred arrays hold their sources); no sound static resource bound for this C++ is in reach. That caches never hand out another channel's data is C16.")

N(id="C35", title="CUDA kernels compute what their host counterparts compute",
  statement="For every operation with a kernel for cuda devices, the result on a cuda device equals the result on the cpu up to rounding.",
  over=["inputs", "schedules"], quant="every operation, array and launch configuration",
  tests="the tests that run here are built without CUDA",
  files=["bland/bland/ops/cuda/*.cu", "bliss/drift_search/kernels/*.cu"],
  mech=[("kernels", "bland/bland/ops/cuda, bliss/drift_search/kernels")],
  reason="the CUDA toolkit's headers are not installed, so the .cu sources cannot be parsed with their types resolved, and they are not part of this build. That arrays on such devices never reach host code is C27.")
