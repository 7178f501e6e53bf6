"""Prose of DESIGN.md that is neither a rule nor a list."""
NOTES = {
"C01": """*Oracle:* the schema slot's own declared type and the getter/setter of the same attribute. *Reach:* every hit attribute on every path of the writer and reader; a test compares a few values that float32 happens to hold.
*Bounds:* slot widths that lose precision are known findings because the schema is seticore's.""",
"C02": """*Oracle:* the getters of scan and channel before and after. The reader's object is built by abstract interpretation and each getter evaluated on it must come out as the slot the writer put that getter in. Lists are compared by loop coverage (index i to index i, whole count).""",
"C03": """*Oracle:* the column names in the header line and the labels of the header fields, i.e. the file's own description of itself, against the turboSETI meaning of each name. The text is reconstructed as a template of literal and value pieces, so it does not matter whether it is made with fmt, streams or concatenation.""",
"C04": """*Oracle:* the channel form of the same stage. Stage families are discovered by signature (a function on coarse_channel with overloads on scan, observation_target and cadence), so a new stage is checked without being listed.""",
"C05": """*Oracle:* set semantics: new mask = old | flag where condition. Masks are written as linear combinations of element-wise terms; a + b - (a & b) is recognised as or. Numeric thresholds are compared with the documented formula of each flagger.""",
"C06": """*Oracle:* the array's own dtype. Each `data_ptr<T>()` reached from a non-template function must be under a path condition that fixes code and bits to T; conditions come from the dispatch on dtype over the whole call graph of the instantiation. Nothing is assumed of the caller.""",
"C07": """*Oracle:* numpy broadcasting: position = Σ offset + index·stride, stride 0 on broadcast axes. The invariant is checked for every kernel instantiation and each of the unrolled accesses.""",
"C08": """*Oracle:* as C07, split in kept and reduced dimensions.""",
"C09": """*Oracle:* the operation's name. Over every instantiation of the dispatch (left type × right type × device), i.e. thousands of routes no test samples.""",
"C10": """*Oracle:* the statistic's definition over power sums. *Not covered:* rounding; `median` is only checked for its dispatch in C06 (selection by partial sort needs a different argument).""",
"C11": """*Oracle:* the documented normalisation of slices and row-major strides. Bounds are entailed with the inequality domain, values by affine identity. *Bounds:* extents are unbounded; strides > 0 after the check the code makes.""",
"C12": """*Oracle:* ownership rules of the DLPack protocol. Pointer targets are tracked by object, and changes of a list after a pointer to its data was taken are an error. *Known limits:* leaks of the small DLManagedTensor struct itself in the Python binding are outside the rule.""",
"C13": """*Oracle:* the definition of the estimate per option value: the options are fixed to each of their values in turn, the result is folded, and the arithmetic over arrays is compared as arithmetic over their elements. *Bounds:* the refusal condition is decided over abstract masks (counts of flagged and unflagged samples).""",
"C14": """*Oracle:* the physical definition of each attribute over the channel's metadata.""",
"C15": """*Oracle:* decision tables of membership conditions. Distances are compared as closed forms (case split over signs, no enumeration of the plane). *Bounds:* plane size, threshold and distance are symbolic.""",
"C16": """*Oracle:* a slice must commute with reading: reading channel i of slice [s, …) ≡ reading channel s+i. Proved as a polynomial identity of the composed summaries.""",
"C17": """*Oracle:* the name itself. The type checker resolves what each `def`, `def_rw`, `def_prop_ro`, `value`, `init` binds; the entity bound must fit the Python name at least as well as every other member of its record, enumeration or namespace (words of the name, without get/set, plural and low/lower spelling), so a swapped pair is a violation and a deliberate abbreviation is not. Two documented aliases are listed in the check (`write_scan_hits_to_file` is bound to, and documented as, the Cap'n Proto writer; `mad`). Lambdas are evaluated: same function, own parameters, in order, without conversion. The interface itself (names and the type of the first argument of each overload) is recorded in `checks/c17_interface.json`; losing one is a violation, adding is not. *Not covered:* what nanobind does with a value of a wrong type; pickling of arrays and events (not offered: `__setstate__` of an array is empty and `__getstate__` raises).""",
"C18": """*Oracle:* the documented meaning of the three options.""",
"C19": """*Oracle:* a table of (option, stage, parameter) written from the help texts, and the documented order of stages. The declaration of the command line is interpreted like other code: each `set` is an output whose option is known, so the parameter a stage gets is traced to the option. The parser library itself is trusted. *Not decided:* command lines that do not parse.""",
"C20": """*Oracle:* the textbook definitions. Every element written (taps, bins) has a closed form; these are evaluated, as terms, against the definition over a grid of sizes covering both parities (2 to 16 taps, 1 to 13 samples, 1 to 8 fine by 1 to 7 coarse channels): the index arithmetic is linear with divisions by 2 and by the number of fine channels, so the grid covers every residue. FFTW itself is trusted. *Not decided:* rounding of single precision, windows other than Hamming (the parameter is documented as unused).""",
"C21": """*Oracle:* the definition of an event in the statement. Minimum search, sums and list contents are summarised per loop; the removal condition and cache order are decided over abstract hits.""",
"C22": """*Oracle:* the drift path. Every load and store of the four-deep loop nest is put in closed form over the loop counters; slices of both operands with equal lengths are the only vector operation.""",
"C23": """*Oracle:* the fields of the record. Equality and order are decided over abstract records (each field from a three-element ordered set, one or two fields differing), which is complete for formulas that compare fields of the same name.""",
"C24": """*Oracle:* the grammar of format strings and the presentation types allowed per argument type. Decided per call site on the type-checked tree; formats that are not literals are traced to what they are made of. *Not decided:* formats of ranges and of types with their own formatter (only their presence is checked).""",
"C25": """*Oracle:* the attribute name and the HDF5 memory type. Numeric conversion is HDF5's.""",
"C26": """*Oracle:* Python's own enumeration of `start + k*step` before `end` and of the n evenly spaced values, for 25 ranges (partial last steps, empty, descending, against the step, negative, fractional) × every instantiation × every element type the values fit; 11 types that cannot be written must raise. The values come from the symbolic stores of each instantiation (index, value, condition and the type of `data_ptr<T>`), all evaluated per case; nothing runs. Exact arithmetic does not see an unsigned wrap, so a rule over the typed syntax tree looks for signed ends or steps turned unsigned before a division, comparison or widening. Deferred arrays: every (held, device, policy) world decides each condition of the conversion, giving one of *held*, *called*, *on(device, …)*; calls of the function and stores into the shared place are counted. *Found:* three defects (`63fe5e8`, `502b927`, `cb04e6d`). *Limits:* the distribution of random values is the standard library's; `std::get_if` leaves the conversion undecided; deferred arrays are not thread-safe (the source says so) and no claim is made.""",
    "C27": """*Oracle:* tables written from the documentation of the names (14 types, 14 devices, 32 names that are none) and dlpack.h's numbers. The constructors, `==` and `!=` are pure functions and are evaluated on closed values. For every function of bland/ops and bliss that hands arrays to `bland::cpu::*`, to a function pointer through `device_dispatch`, or to a `*_cpu` kernel (arrays the kernel itself reads; one that first copies through a checked operation needs no check), the path conditions are evaluated over all 15 uniform placements and all placements with one array elsewhere: host code with an array outside host memory is a violation, so is a cpu call that raises or never happens. Whether a build *with* CUDA does the right thing is out of reach (the sources are not compiled here). *Found:* `cudamanaged` and `cudahost` named plain cuda devices (`8e1d589`), a view moved between cpu devices was copied as if contiguous (`61e2d38`), `abs`, `median` and `standardized_moment` never looked at the device (`3d675a7`). `scalarize` at a coordinate reads memory directly and is not covered.""",
"C28": """*Oracle:* the suffix table of the statement, evaluated for 2 × 3 × 29 combinations of requested format and file name (adversarial names: a name one shorter than a suffix, the suffix in the middle or as a directory, a name that is the suffix); POSIX meaning of open() flags and of the results of write(). The format decision is a pure function of two strings, so its path conditions are evaluated on closed values by an interpreter of terms (sizes wrap as in C++); nothing of the program runs. Errors *inside* Cap'n Proto (`writeMessageToFd` and the readers throw `kj::Exception`) are the library's contract. `write_hits_to_file` for plain lists is declared but never instantiated (a caller cannot link it), so it has no behaviour to decide. Handlers are judged by whether they raise again.""",
"C29": """*Oracle:* the event index, the position of a hit in its event and the number of places of the record. The hit codec itself is C01's. A position kept in fewer than 32 bits is a violation (arithmetic on narrow integers keeps the conversion in the term).""",
    "C36": """*Oracle:* the width rule itself. Sources are what the library declares to be a size: `numel()`, `size(i)`, elements of `shape()`, `strides()`, `offsets()` and of the tensor's own lists, a scan's `nchans`. A fixed point per function carries them through initialisations, assignments, `+ - *`, range loops, `push_back` and counters that are stepped up to a size; quantities known to be below a constant (the unrolled tail of a kernel) are left out. A 64-bit size converted to the element type of an instantiation (a value, recognised because the same line converts to a floating type in another instantiation) is not an index and is not judged. Not seen: sizes that travel through a callee's return value or a structure field other than the listed ones. Found on the tree: channel counts of a scan passed and compared as `int` (fixed). Earlier rounds had already fixed the `std::accumulate(..., 0)` of offsets in the kernels, which this rule now keeps out.""",
    "C30": """*Oracle:* a table of the ten element types and their sizes; the path conditions of the dispatch are evaluated for each, so that exactly one write remains and it walks the array as that type; what the write is given must be the element itself (no conversion on the way) in its own number of bytes. Sizes of reads are evaluated over a table of file lengths (empty, one element, a partial element at the end, over 4 GB). The order of the elements is C07's walk. *Found:* neither function reported a full disk or an unreadable file (`cc947b6`).""",
}
TAIL = """
## 4. False alarms corrected, and what was left alone

* C23 does not require `coarse_channel_number` in `==` and `<`: two detections of one signal in overlapping reads are meant to be equal.
* C05's first form compared the whole mask expression syntactically and objected to a re-ordered sum; it is now a linear normal form.
* C14/C21 compared arithmetic by normal form only and objected to `a*b/c` written as `a/c*b` under integer-to-float casts; `numeq` replaced it.
* C06 first asked for the type test in the kernel itself; dispatch tables that test it once for several kernels are now followed over the call graph.
* C16's cache rule first named the map; it now composes look-up and store keys, whatever holds them.
* Conditions the evaluator cannot resolve used to count as "possibly true" and led to alarms; they are undecided now.

Read, judged and left (no small safe repair, or outside the properties claimed): `scan::hits()` swallows `logic_error` with a warning by design;
the capnp list readers take any `kj::Exception` for the end of the file; results of `write()` are ignored in the DAT writer (C03 checks the buffer and
length handed over); `compute_drifts` divides by zero for a single time step; `pybland.ndarray.__setstate__` is an empty stub upstream.

## 5. Cost

`setup_cmd` 45 s; a check 1–60 s and under 2 GB; everything is deterministic (no seeds, no time limits inside). `quick` and `thorough` are the same command: the
analysis is exhaustive over its abstract domain, there is no deeper exploration to switch on.
"""
SEEDS = """
Each change was written from the property's text, confirmed in a scratch copy (the demonstration passes before and fails after, the stable tests
pass) and kept whether or not it was caught. "(strengthened)" marks those missed at first; the check was extended until it decided the clause the change breaks.
"""
MISSED = {k: " (strengthened)" for k in ("c36-allocation-count", "c18-adjacent", "c14-rate-of-position", "c15-upper-edge-memory", "c21-off-first-scan", "c23-order-guard", "c13-few-samples", "c19-nodesmear", "c24-source-name", "c29-place-wraps", "c01-reader-dedup", "c03-short-table-write", "c17-clip-keywords", "c30-partial-element", "c30-through-float", "c30-empty-kept")}
