ASAN = "runtime monitoring: "

prop("C01", "Array views address exactly the elements they name",
     "Every view, copy or in-place update of a strided n-dimensional array (slice, transpose, reverse, "
     "reshape, broadcast, expand, pad, concatenate, gather, scatter, block copy, iteration) yields, at every "
     "index, the element a plain index-by-index model of the operation yields. Writing through a view "
     "changes exactly the elements that view names and nothing else of the underlying buffer, and reads and "
     "writes stay inside it.",
     ["inputs", "programs"],
     "for every shape (rank 0 to 6, empty and unit dimensions), element size, stride layout including "
     "negative, zero and overlapping ones, and every chain of view operations",
     "the tests use a few fixed compact shapes; the layouts reached by composing views are unbounded",
     ["core/ndarray_ref.h", "core/ndarray_ref.cc", "core/shape.h", "core/shape.cc", "core/value.cc",
      "core/pt_buffer_view.h", "core/vectorize.h"],
     [("NdArrayRef", "core/ndarray_ref.cc"), ("Shape/Strides helpers", "core/shape.cc")],
     ASAN + "randomised view chains compared element by element with an index model, guard bytes around the "
     "buffers, AddressSanitizer",
     "random views up to rank 6; every element of every intermediate is compared, under AddressSanitizer")

prop("C02", "Half-precision numbers follow IEEE 754 binary16",
     "Conversion to and from every other number type, arithmetic, comparison, rounding functions and "
     "elementary functions of 16-bit floats give the result of computing exactly and rounding once to "
     "nearest-even, with IEEE handling of subnormals, signed zeros, infinities and NaN (elementary functions "
     "within their documented accuracy).",
     ["inputs"],
     "for every operand bit pattern and pair of bit patterns",
     "the tests sample a handful of values; wrong roundings sit on isolated bit patterns",
     ["core/half.h"],
     [("half", "core/half.h")],
     ASAN + "exhaustive unary and dense binary operand sweeps against an exact integer/double-double oracle",
     "all 65536 unary operands; binary operands sampled (quick) or dense rows (thorough); UBSan on")

prop("C03", "Fixed-point encoding and decoding are exact to their precision",
     "Encoding a number of any supported input type into the ring and decoding it again returns integers and "
     "booleans unchanged (modulo the ring), and reals within one unit of the fixed-point precision, saturating "
     "at the documented bounds, with NaN and infinities handled as documented. Encoding is monotone, and "
     "the array forms agree with the element forms for every layout of the input.",
     ["inputs", "configurations"],
     "for every input type, value, ring width, number of fraction bits and array layout",
     "the tests round-trip a few random compact arrays; saturation and rounding edges are not reached",
     ["core/encoding.cc", "core/encoding.h", "core/pt_buffer_view.h", "core/type_util.cc"],
     [("encodeToRing/decodeFromRing", "core/encoding.cc")],
     ASAN + "randomised and edge-value inputs against an exact-arithmetic oracle, UndefinedBehaviorSanitizer",
     "edge-dense sampling of values, all types and rings, random strided layouts")

prop("C04", "Ring and field array kernels compute exact modular arithmetic",
     "Every element-wise, matrix, shift, bit-reversal, selection, permutation, prime-field and tiled kernel on "
     "ring or field arrays gives the exact result of the same operation on residues, for every layout of its "
     "operands and however the work is split into tiles or threads. Operands are never modified unless they are "
     "the destination, and an error in one tile is reported only after all tiles are done with shared memory.",
     ["inputs", "schedules", "configurations"],
     "for every ring width, shape, stride layout, aliasing of the destination, thread count and tile size",
     "the tests use compact arrays of a few sizes with one thread setting; stride, aliasing and split "
     "combinations are unbounded",
     ["mpc/utils/ring_ops.cc", "mpc/utils/linalg.h", "mpc/utils/linalg.cc", "mpc/utils/gfmp_ops.cc",
      "mpc/utils/gfmp.h", "mpc/utils/permute.cc", "mpc/utils/tiling_util.h", "core/parallel_utils.h",
      "core/vectorize.h", "mpc/utils/simulate.h"],
     [("ring_* kernels", "mpc/utils/ring_ops.cc"), ("matmul", "mpc/utils/linalg.h"),
      ("tiled", "mpc/utils/tiling_util.h")],
     ASAN + "randomised kernels against element-wise residue models on guarded strided buffers, perturbed "
     "work splitting, AddressSanitizer",
     "random layouts and tilings; all rings; every result element and every guard byte compared")

prop("C05", "Types, values and configurations survive serialization; bad ones fail",
     "Every type, secret-shared or public value, and configuration that the system can produce is read back "
     "equal after being written, whatever the memory layout, chunk size or order of chunks. A malformed or "
     "inconsistent representation is refused with an error and never crashes, overflows or yields an "
     "inconsistent value, and completing a configuration with defaults keeps every explicit setting.",
     ["inputs", "configurations", "fault_sequences"],
     "for every type and its parameters, shape, layout, chunking, configuration, and every corruption of the "
     "written form",
     "the tests round-trip a few values; corruption of the written form is hardly tested",
     ["core/value.cc", "core/type.h", "core/type.cc", "core/config.cc", "spu.cc", "spu.h", "device/io.cc",
      "mpc/aby3/type.cc", "mpc/semi2k/type.cc", "mpc/spdz2k/type.cc", "mpc/cheetah/type.cc"],
     [("Value::toProto/fromProto", "core/value.cc"), ("Type::fromString", "core/type.cc"),
      ("populateRuntimeConfig", "core/config.cc")],
     ASAN + "round trips and mutation fuzzing of serialized forms with equality and consistency oracles, "
     "AddressSanitizer",
     "all registered type families, random layouts and chunkings, structured mutations of the written form")

prop("C08", "Secure operations compute their plaintext meaning",
     "In every protocol and ring it supports, revealing the result of any program of secure operations "
     "(arithmetic, bitwise, shifts, comparison, conversion between share forms, multiplication, matrix "
     "product, selection, permutation, concatenation) gives at every party exactly what the same program "
     "gives on plaintext integers modulo the ring size.",
     ["programs", "inputs", "configurations", "schedules"],
     "for every protocol, ring width, program of operations, mixture of public, private and secret operands, "
     "shape, operand value and interleaving of the parties",
     "the tests check single operations on a few small fixed shapes, mostly with small values",
     ["mpc/api.cc", "mpc/ab_api.cc", "mpc/semi2k/arithmetic.cc", "mpc/aby3/arithmetic.cc",
      "mpc/aby3/boolean.cc", "mpc/aby3/conversion.cc", "mpc/cheetah/arithmetic.cc", "mpc/securenn/arithmetic.cc",
      "mpc/spdz2k/boolean.cc", "mpc/experimental/swift/arithmetic.cc", "mpc/common/pv2k.cc"],
     [("protocol kernels", "mpc/api.cc"), ("dispatch", "mpc/common/pv2k.cc")],
     ASAN + "all parties run in one process over a monitored link; every revealed intermediate is compared with "
     "a plaintext model",
     "random programs with edge-value operands for six protocols and three rings; message delays perturbed")

# ---- more
prop("C06", "Declared costs and cost expressions are what happens",
     "Whenever a protocol kernel declares a communication cost, running it on any shape takes exactly the declared "
     "number of rounds and, within its declared tolerance, the declared number of bits at every party. A cost "
     "expression evaluates to its arithmetic meaning under the given bindings and its printed form denotes the same "
     "value.",
     ["inputs", "programs", "configurations"],
     "for every protocol, ring, kernel, shape and operand value, and every cost expression",
     "the tests measure a few kernels on one shape and print two expressions",
     ["core/cexpr.cc", "mpc/common/communicator.h", "mpc/common/communicator.cc", "mpc/semi2k/arithmetic.h",
      "mpc/aby3/boolean.h", "mpc/securenn/arithmetic.h", "mpc/kernel.cc"],
     [("cost expressions", "core/cexpr.cc"), ("kernel costs", "mpc/aby3/arithmetic.h")],
     ASAN + "kernels run over a monitored link with the communicator's counters compared with the declaration; "
     "printed expressions parsed back and compared with a model",
     "random shapes for 33 kernels in eight protocol settings; random expressions")

prop("C26", "Bit utilities, adder circuits and bit packing are exact",
     "Bit widths, logarithms, bit interleaving and de-interleaving, the adder and carry circuits, grouped "
     "(vectorised) evaluation, packing of narrow elements into words, bit-matrix transposition and opening of packed "
     "shares give the result of their bit-by-bit definition for every width, and never touch bits or words beyond it.",
     ["inputs"],
     "for every word type, value, width, stride and element count",
     "the tests check a few constants at full width",
     ["core/bit_utils.h", "core/bit_utils.cc", "core/vectorize.h", "mpc/utils/circuits.h", "mpc/cheetah/ot/ot_util.h",
      "mpc/cheetah/ot/ot_util.cc"],
     [("BitIntl/BitDeintl", "core/bit_utils.h"), ("circuits", "mpc/utils/circuits.h"),
      ("ZipArray", "mpc/cheetah/ot/ot_util.h")],
     ASAN + "edge-dense operands against bit-by-bit oracles, AddressSanitizer",
     "every width of every word type, edge-dense values; opened shares over a monitored link")

prop("C27", "The LowMC cipher and switching networks are correct",
     "LowMC encryption equals the published cipher for the matrices, constants and key in use, is the same for the "
     "same seed and key at every party, is undone by decryption and leaves its operand unchanged; the oblivious PRF "
     "built on it is a keyed injection of the shared input. The switching network built for any number of packets is "
     "well formed and optimal in size, and routing any permutation through it delivers every packet.",
     ["inputs", "configurations"],
     "for every ring, seed, key, data size, tensor layout, and every permutation of any number of packets",
     "the tests encrypt a few blocks and route permutations of a few small sizes",
     ["mpc/utils/lowmc.cc", "mpc/utils/lowmc_utils.cc", "mpc/utils/waksman_net.cc", "mpc/utils/waksman_net.h"],
     [("LowMC", "mpc/utils/lowmc.cc"), ("AS-Waksman", "mpc/utils/waksman_net.cc")],
     ASAN + "an independent LowMC model and a packet-by-packet simulation of the network, AddressSanitizer",
     "all permutations up to 7 packets, random up to 400; random keys and layouts for all rings")

prop("C18", "Fixed-point functions meet their accuracy",
     "Multiplication, division, exponentials, logarithms, trigonometric and hyperbolic functions, sigmoid, error "
     "function, powers and square roots of fixed-point values are within the accuracy of the configured approximation "
     "over its documented domain, whatever the protocol and whichever operands are public, private or secret. The "
     "result has the operands' shape and is the same at every party.",
     ["inputs", "configurations"],
     "for every operand in the domain, precision, ring, protocol, approximation mode and visibility",
     "the tests check a few dozen operands at one precision",
     ["kernel/hal/fxp_approx.cc", "kernel/hal/fxp_base.cc", "kernel/hal/fxp_cleartext.cc", "kernel/hal/polymorphic.cc"],
     [("approximations", "kernel/hal/fxp_approx.cc"), ("division", "kernel/hal/fxp_base.cc")],
     ASAN + "log-uniform and boundary operands over nine protocol settings; an accuracy monitor compares every element "
     "with double-precision references under per-function error bounds",
     "26 functions, fraction bits 8 to 40; bounds per function and precision class measured on the unchanged tree and "
     "written down with margin")

prop("C19", "Integer, logical and comparison functions are exact",
     "Arithmetic, bitwise, shift, comparison, selection, rounding, cast, product, concatenation, padding, update, scan "
     "and reduction functions on public, private and secret values give exactly the result of the same function on "
     "plain ring values, with the documented shape and type, for every mix of operand visibilities and share forms. "
     "Operands keep their contents.",
     ["inputs", "programs"],
     "for every operand, type, shape, mix of visibilities and owners, protocol and ring",
     "the tests check a few operands per function under one protocol",
     ["kernel/hal/polymorphic.cc", "kernel/hal/ring.cc", "kernel/hal/integer.cc", "kernel/hal/fxp_base.cc",
      "kernel/hal/type_cast.cc", "kernel/hal/shape_ops.cc", "kernel/hal/constants.cc", "kernel/hal/random.cc",
      "kernel/hal/utils.h", "kernel/hal/prot_wrapper.cc"],
     [("dispatch on visibility", "kernel/hal/ring.cc"), ("typed functions", "kernel/hal/polymorphic.cc"),
      ("scan and reduce", "kernel/hal/utils.h")],
     ASAN + "random calls over nine protocol settings, each revealed element compared with an exact ring model, "
     "AddressSanitizer",
     "45 functions, edge-dense ring values, all visibilities, strided operands")

prop("C20", "Sorting, permuting, selecting and shuffling do what they claim",
     "Sorting by any keys, direction, algorithm and visibility returns the operands' rows rearranged together into key "
     "order (in original order among equal keys where stability is asked for), top-k returns the right values and "
     "positions, and permuting and inverse permuting undo each other. A shuffle returns the same rows, all operands "
     "and axes rearranged alike, with every order equally likely.",
     ["inputs", "configurations"],
     "for every protocol, ring, key tuple, tie pattern, visibility mix, direction, axis, sort algorithm and threshold",
     "the tests sort a few vectors with the default configuration",
     ["kernel/hal/permute.cc", "kernel/hlo/sort.cc", "kernel/hlo/shuffle.cc", "kernel/hlo/permute.cc",
      "mpc/semi2k/permute.cc", "mpc/aby3/permute.cc", "mpc/cheetah/permute.cc"],
     [("sorting", "kernel/hal/permute.cc"), ("entry points", "kernel/hlo/sort.cc"),
      ("permutation kernels", "mpc/semi2k/permute.cc")],
     ASAN + "stable-order and multiset oracles on the revealed results, order frequencies tested for uniformity, "
     "AddressSanitizer and UBSan",
     "random keys with ties, all four sort methods, quick-sort thresholds, up to 60 rows; chi-square on the orders of "
     "4 rows")

prop("C21", "Moving, indexing, reducing and branching on arrays is exact",
     "Reshaping, transposing, slicing, padding, concatenating, gathering, scattering, dynamic slicing and updating "
     "with public or secret positions (clamped into range), window and tree reductions, arg-max, pooling and its "
     "gradient scatter, conditionals and loops return exactly the elements the operation's definition selects, for "
     "real and complex arrays and at every party.",
     ["inputs", "configurations"],
     "for every protocol, ring, shape, stride, window, visibility, and in-range or out-of-range position",
     "the tests use a few fixed shapes and positions, most of them public",
     ["kernel/hlo/geometrical.cc", "kernel/hlo/indexing.cc", "kernel/hlo/reduce.cc",
      "kernel/hlo/select_and_scatter.cc", "kernel/hlo/control_flow.cc", "kernel/hlo/utils.cc",
      "kernel/hal/shape_ops.cc"],
     [("indexing", "kernel/hlo/indexing.cc"), ("reductions", "kernel/hlo/reduce.cc"),
      ("gradient scatter", "kernel/hlo/select_and_scatter.cc"), ("control flow", "kernel/hlo/control_flow.cc")],
     ASAN + "an index-level model of each operation, AddressSanitizer and UBSan",
     "ranks 1 to 3 (4 for pooling), up to about 60 elements, positions in and out of range")

prop("C22", "Dot products and convolutions equal their definitions",
     "Matrix products, batched products and strided 2-D convolutions of integer operands equal the sums of products "
     "modulo the ring exactly, of an integer with a fixed-point operand exactly in fixed point, and of two fixed-point "
     "operands up to the truncation of the last places.",
     ["inputs", "configurations"],
     "for every protocol, ring, shape, stride and visibility mix",
     "the tests multiply a few small arrays",
     ["kernel/hlo/basic_binary.cc", "kernel/hlo/convolution.cc", "kernel/hal/polymorphic.cc",
      "kernel/hal/fxp_base.cc", "kernel/hal/integer.cc", "mpc/ab_api.cc"],
     [("convolution", "kernel/hlo/convolution.cc"), ("tensordot", "kernel/hal/ring.cc")],
     ASAN + "sums of products over the ring, AddressSanitizer and UBSan",
     "contractions up to 8 long, windows up to 3 by 3; probabilistic slips of truncation allowed for once per result")

prop("C31", "Group-by aggregation is exact",
     "Aggregating shared payload columns grouped by one or several shared key columns returns one row per distinct key "
     "tuple, in key order, with the exact sum of its payloads (or their average within fixed-point precision).",
     ["inputs", "configurations"],
     "for every protocol with secure permutations, ring, key tuple multiset and payload",
     "the tests aggregate a few fixed tables",
     ["kernel/hlo/group_by_agg.cc"],
     [("group-by", "kernel/hlo/group_by_agg.cc")],
     ASAN + "a plaintext group-by, AddressSanitizer and UBSan",
     "up to 20 rows, 1 to 2 keys, 1 to 2 payloads, with and without dropping the padding rows")

prop("C07", "Sharing and reconstruction round-trip, and shares reveal nothing",
     "Shares made from an input reconstruct exactly the value its encoding denotes, from any share form the engine hands "
     "back and at every party, with the announced type, size and owner. What a party, or a coalition below the "
     "protocol's threshold, receives of a secret input is uniformly random whatever the input, differs between two "
     "sharings of it, and is consistent between the parties that hold copies.",
     ["inputs", "configurations"],
     "for every protocol, ring, element type, shape, stride, owner and colocation setting",
     "the tests share a few arrays and reconstruct them",
     ["device/io.cc", "mpc/io_interface.h", "mpc/aby3/io.cc", "mpc/semi2k/io.cc", "mpc/cheetah/io.cc",
      "mpc/securenn/io.cc", "mpc/swift/io.cc", "mpc/ref2k/ref2k.cc"],
     [("IoClient", "device/io.cc"), ("toShares", "mpc/aby3/io.cc")],
     ASAN + "an independent model of encoding, frequency tests on every bit of the shares, AddressSanitizer and UBSan",
     "uniformity is judged bit by bit and for sums, differences and exclusive ors of a party's components (thresholds "
     "far beyond chance), not against an arbitrary distinguisher")

prop("C24", "Colocated inputs reach every party intact, once and unseen",
     "After parties set variables on their own devices and synchronise, every party holds every variable with the shape, "
     "type, visibility and value its owner set, later rounds replace only what they set again, names set by two parties "
     "are refused, and no secret value crosses the network in the clear.",
     ["histories", "inputs", "configurations"],
     "for every history of setting and synchronising variables, protocol, ring and colocation setting",
     "the tests synchronise two fixed variables",
     ["device/io.cc", "device/symbol_table.cc"],
     [("ColocatedIo::sync", "device/io.cc"), ("SymbolTable", "device/symbol_table.cc")],
     ASAN + "a table of what was set, a search of every message for clear values, AddressSanitizer and UBSan",
     "up to three rounds of up to four variables a party; complex values are refused by this front end")

prop("C09", "Every value held is a well formed sharing of what it denotes",
     "After every operation, what the parties hold is consistent: same form and shape everywhere, replicated copies equal, "
     "MACs that verify under the shared key, declared boolean widths that cover the value, private data held by its owner, "
     "and shares that combine to exactly the value the program denotes.",
     ["programs", "inputs"],
     "for every program, protocol, ring and share form",
     "the tests look at opened results only, and only of single operations",
     ["mpc/ab_api.cc", "mpc/aby3/boolean.cc", "mpc/aby3/conversion.cc", "mpc/spdz2k/boolean.cc", "mpc/semi2k/boolean.cc",
      "mpc/experimental/swift/arithmetic.cc", "mpc/cheetah/boolean.cc", "mpc/securenn/arithmetic.cc"],
     [("share forms", "mpc/spdz2k/boolean.cc"), ("replication", "mpc/aby3/arithmetic.cc")],
     ASAN + "a monitor that combines the raw shares of all parties after every operation, AddressSanitizer and UBSan",
     "tensors of up to a few dozen elements; programs of up to 12 operations over the arithmetic and boolean interface")

prop("C13", "Protocols finish and agree whatever the timing",
     "Whatever the timing of messages and worker threads, and however operands are split over workers, every program "
     "terminates with the same exact results at every party, no party waits for a message nobody sends, every message sent "
     "is consumed, and what is exchanged over each channel does not depend on the timing.",
     ["schedules", "programs"],
     "for every interleaving of message deliveries and worker threads",
     "the tests run one schedule on an idle machine",
     ["mpc/common/communicator.cc", "mpc/utils/tiling_util.h", "mpc/cheetah/state.cc", "mpc/ab_api.cc", "mpc/api.cc"],
     [("tiling", "mpc/utils/tiling_util.h"), ("Communicator", "mpc/common/communicator.cc")],
     ASAN + "a link that delays by seed, detects deadlock and unconsumed messages, and records every channel",
     "three schedules per program; operands above 50000 elements for the split paths; the transport is a stand-in")

prop("C14", "Pseudo-random streams are never reused and never drift apart",
     "No party draws the same part of a pseudo-random stream twice, across operations, forks and triple generation (the "
     "trusted dealer's replay aside), and parties that share a stream draw the same parts of it.",
     ["programs", "schedules"],
     "for every program, fork and protocol",
     "a reused mask gives right results, so no test notices it",
     ["mpc/common/prg_state.cc", "mpc/common/prg_state.h", "mpc/common/prg_tensor.h", "mpc/semi2k/beaver",
      "mpc/spdz2k/beaver/beaver_tfp.cc", "mpc/utils/ring_ops.cc"],
     [("PrgState", "mpc/common/prg_state.cc"), ("ring_rand", "mpc/utils/ring_ops.cc")],
     ASAN + "a log of every draw (party, seed, blocks) checked offline for overlap and for agreement between holders",
     "draws by worker threads that have not yet sent anything cannot be attributed and are only checked for excess reuse")

prop("C25", "Forked and independent contexts do not influence one another",
     "A forked context has its parent's kernels and configuration, its own identity, link and state, and programs running at "
     "once in parent and forks give the results they give alone. Registering, finding and forking kernels and states follows "
     "what was registered: duplicates and unknown names are refused, unforkable states are refused at every party.",
     ["histories", "schedules"],
     "for every tree of forks and every interleaving of the programs running in it",
     "the tests fork once and use the fork alone",
     ["core/object.cc", "core/object.h", "core/context.cc", "mpc/common/prg_state.cc", "mpc/common/communicator.h",
      "mpc/semi2k/state.h", "mpc/securenn/state.h"],
     [("Object::fork", "core/object.cc"), ("SPUContext::fork", "core/context.cc")],
     ASAN + "plaintext models of concurrent programs and of the registry, AddressSanitizer and UBSan",
     "up to three forks and one nested fork at a time; Cheetah and SPDZ2K states refuse to fork")

prop("C10", "Truncation errs by at most one unit in the last place",
     "Dividing a secret by 2^f, for every sign hint and share form, gives the floor or a neighbour of it whenever the operand "
     "is within the range the protocol declares (|x| < 2^(k-2)); protocols that allow an error of the top bit make it no "
     "more often than about 2^(l+1-k) for |x| < 2^l.",
     ["inputs"],
     "for every value, shift amount, ring and truncation mode",
     "the tests compare a few values after a fixed-point multiplication, with a tolerance of many units",
     ["mpc/semi2k/arithmetic.cc", "mpc/aby3/arithmetic.cc", "mpc/cheetah/nonlinear/truncate_prot.cc",
      "mpc/securenn/arithmetic.cc", "mpc/spdz2k/arithmetic.cc", "mpc/experimental/swift/arithmetic.cc", "mpc/common/pv2k.cc"],
     [("TruncAPr", "mpc/semi2k/arithmetic.cc"), ("TruncateProtocol", "mpc/cheetah/nonlinear/truncate_prot.cc")],
     ASAN + "thousands of edge-dense values per run judged against the floor, slips counted against their bound",
     "statistical where the protocol itself is probabilistic; the range |x| < 2^(k-2) is the protocols' stated precondition")

prop("C11", "What is sent does not depend on the secrets",
     "Apart from operations that open intermediate results by design, the number, endpoints, labels and sizes of the messages "
     "of a computation depend only on shapes, types, configuration and public values, never on secret or private values.",
     ["programs", "inputs"],
     "for every program, and every two secret inputs of the same shape",
     "tests look at results, never at the traffic of two runs",
     ["mpc/api.cc", "mpc/ab_api.cc", "kernel/hal/ring.cc", "kernel/hal/fxp_approx.cc", "kernel/hlo/indexing.cc",
      "kernel/hlo/sort.cc", "kernel/hal/permute.cc", "mpc/aby3/boolean.cc", "mpc/semi2k/boolean.cc", "mpc/cheetah/arithmetic.cc"],
     [("dispatch", "mpc/ab_api.cc"), ("approximations", "kernel/hal/fxp_approx.cc")],
     ASAN + "recorded traffic of runs with different secrets compared message by message",
     "quick sort and top-k open shuffled comparisons by design and are excluded; sizes of ciphertexts are those of the stand-in")

prop("C17", "Messages and shares look the same whatever the secrets are",
     "For every operation that opens nothing, what a party other than the owner of the inputs receives, sends and holds - "
     "alone and in pairs - is distributed the same way whatever the secret inputs are.",
     ["inputs", "programs"],
     "for every pair of secret inputs",
     "an unmasked or doubly used mask gives right results, so no test notices it",
     ["mpc/semi2k/arithmetic.cc", "mpc/semi2k/boolean.cc", "mpc/aby3/arithmetic.cc", "mpc/aby3/boolean.cc", "mpc/aby3/conversion.cc",
      "mpc/securenn/arithmetic.cc", "mpc/spdz2k/arithmetic.cc", "mpc/experimental/swift/arithmetic.cc", "mpc/cheetah/nonlinear"],
     [("zero masks", "mpc/common/prg_state.cc"), ("masked openings", "mpc/semi2k/arithmetic.cc")],
     ASAN + "per-bit and repetition statistics of recorded payloads and shares, and of their pairwise differences, between runs",
     "a first-order statistical test, not a proof of security; Cheetah's encrypted products are a stand-in and excluded")

prop("C28", "No input makes the library touch invalid memory or overflow",
     "Whatever supported operation is run on whatever shapes, layouts, types, protocols and schedules, the library stays "
     "within its buffers, uses nothing freed, uninitialised or null, and executes no undefined arithmetic (oversized shifts, "
     "signed overflow, invalid conversions).",
     ["programs", "inputs", "schedules"],
     "for every program, layout, protocol and schedule",
     "the tests are not built with sanitizers and use compact arrays of a few fixed shapes",
     ["core/ndarray_ref.h", "mpc/utils", "mpc/aby3", "mpc/semi2k", "mpc/cheetah", "mpc/experimental/swift", "mpc/spdz2k", "kernel/hal",
      "kernel/hlo", "device/io.cc", "core/encoding.cc"],
     [("views", "core/ndarray_ref.h"), ("ring kernels", "mpc/utils/ring_ops.cc")],
     ASAN + "AddressSanitizer and UBSan over a cross section of every workload, every report inside the library counted",
     "uninitialised reads are not instrumented (no MemorySanitizer build of the standard library)")

prop("C15", "Dealt correlated randomness satisfies its relation and is used once",
     "Triples, dot, square, truncation, permutation, random-bit and authenticated tuples from every dealer (trusted first "
     "party, trusted third party, SPDZ2K first party, TinyOT) satisfy their defining relation exactly, for any sequence of "
     "requests, sizes, parties, spawned dealers and replays. Nothing dealt comes back in a later request unless a replay is "
     "asked for, and an answer damaged on its way from the third party never turns into wrong randomness of another size.",
     ["histories", "fault_sequences"],
     "for every sequence of requests to a dealer, and every damaged or missing answer of it",
     "tests deal each kind once, at one size, from a healthy dealer",
     ["mpc/semi2k/beaver", "mpc/spdz2k/beaver", "mpc/spdz2k/ot/tiny_ot.cc", "mpc/common/prg_tensor.h"],
     [("first party", "mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc"), ("third party", "mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc"),
      ("server", "mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc"), ("SPDZ2K", "mpc/spdz2k/beaver/beaver_tfp.cc"),
      ("TinyOT", "mpc/spdz2k/beaver/beaver_tinyot.cc")],
     ASAN + "shares of all parties recombined in exact arithmetic, ledger of everything dealt, fault injection in the dealer's answers",
     "the oblivious transfers under TinyOT and the HTTP transport to the third party are stand-ins")

prop("C16", "A tampered message never makes an SPDZ2K party accept a wrong value",
     "When a corrupted party changes any message of a computation under SPDZ2K (first-party dealer or TinyOT), every honest "
     "party either stops with an error or accepts exactly the values of the honest run, whatever is changed and whomever it is "
     "sent to. Tuples dealt by the parties themselves that carry valid MACs satisfy their relation even then.",
     ["fault_sequences", "programs"],
     "for every program, message and alteration of it by a corrupted party",
     "tests run honest parties only, for which a check that never fails and a check that is missing look alike",
     ["mpc/spdz2k/arithmetic.cc", "mpc/spdz2k/boolean.cc", "mpc/spdz2k/conversion.cc", "mpc/spdz2k/beaver", "mpc/spdz2k/ot",
      "mpc/spdz2k/commitment.cc"],
     [("MAC check", "mpc/spdz2k/beaver/beaver_tfp.cc"), ("sacrifice", "mpc/spdz2k/beaver/beaver_tinyot.cc"),
      ("TinyOT", "mpc/spdz2k/ot/tiny_ot.cc"), ("commitment", "mpc/spdz2k/commitment.cc")],
     ASAN + "fault injection in the messages of one party; accepted values compared with the honest run, dealt tuples with their relation",
     "one or two changed messages per run, also believed by the liar itself; base OT and Ferret are stand-ins; SWIFT only logs "
     "inconsistencies by design and is not covered")

prop("C23", "Parallel execution is free of data races and changes no result",
     "However an operation's parallel regions are split over threads, and however many parties, forked contexts and dealers of "
     "one process work at once, no two threads touch the same memory unsynchronised, and every result is that of sequential "
     "execution.",
     ["schedules", "programs"],
     "for every splitting, number of threads and interleaving of what runs at once",
     "regions are split from 50000 elements only, tests stay below that, and a race rarely shows in a value",
     ["core/parallel_utils.h", "core/context.cc", "core/object.cc", "core/trace.cc", "mpc/utils", "mpc/common", "mpc/aby3", "mpc/semi2k",
      "mpc/securenn", "mpc/cheetah", "mpc/spdz2k", "mpc/api.cc"],
     [("parallel loops", "core/parallel_utils.h"), ("forks", "core/context.cc"), ("tracers", "core/trace.cc")],
     ASAN + "ThreadSanitizer over a cross section of the workloads with every parallel region split over threads; results "
     "also compared with their models",
     "races are seen between accesses that a run makes; thread pools of the real yacl and of OpenMP are not run")

prop("C29", "Profiling and action logs record what was executed and change nothing",
     "With tracing enabled, every traced action of an enabled module is recorded and logged exactly once, at its depth, with "
     "the bytes and sends it made, in the context it ran in, its forks and their forks; nothing is recorded that was not "
     "enabled or belongs to an earlier set-up. Results and messages are those of a run without tracing.",
     ["programs", "configurations"],
     "for every program, tree of forks and combination of trace flags",
     "the tests print traces and look at none of them",
     ["core/trace.cc", "core/trace.h", "core/context.cc", "mpc/api.cc", "mpc/ab_api.cc"],
     [("actions", "core/trace.h"), ("tracers", "core/trace.cc"), ("set-up", "core/context.cc")],
     ASAN + "recorded actions and log lines compared with a model of the executed tree; traffic with that of an untraced run",
     "times and memory figures are not judged beyond their order")

# ---- not applicable
prop("N01", "Compilation preserves the meaning of the program",
     "The program the compiler emits for a frontend program computes the same values as that program.",
     ["programs"], "for every frontend program and every set of enabled passes",
     "a compiler test checks the text of one pass on one program",
     ["compiler/compile.cc"], [("passes", "compiler/compile.cc")], "", "",
     "the compiler needs MLIR and StableHLO, which are not installed and cannot be fetched, so it cannot run here")
prop("N02", "Executing a program in parallel gives the sequential result",
     "Executing an operation graph with any inter-operation parallelism gives the result of executing its "
     "operations in program order.",
     ["programs", "schedules"], "for every program and schedule of its independent operations",
     "the tests run small graphs with one schedule",
     ["device/executor.cc", "device/pphlo/pphlo_executor.cc"], [("executor", "device/executor.cc")], "", "",
     "the executor needs MLIR (the pphlo dialect), which is not installed, so it cannot run here")
prop("N03", "Homomorphic products in Cheetah decrypt to the exact ring product",
     "Matrix, dot and element-wise products under the two-party homomorphic protocol give additive shares of the "
     "exact product modulo the ring.",
     ["inputs", "configurations"], "for every shape, ring and operand",
     "the tests check a few sizes",
     ["mpc/cheetah/arith/cheetah_mul.cc", "mpc/cheetah/arith/cheetah_dot.cc", "mpc/cheetah/rlwe/modswitch_helper.cc"],
     [("CheetahMul", "mpc/cheetah/arith/cheetah_mul.cc")], "", "",
     "needs Microsoft SEAL, which is not installed; the checks of Cheetah replace these products by a stand-in")
prop("N04", "GPU kernels agree with CPU kernels",
     "Every kernel with a GPU implementation gives the CPU result.",
     ["inputs"], "for every shape and operand", "the tests compare a few sizes",
     ["cuda_support/kernels.cu"], [("kernels", "cuda_support/kernels.cu")], "", "",
     "needs CUDA and a GPU; neither is present")
