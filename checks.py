"""Table of checks: property -> monitors (harness sources) and budgets."""

ASSUME = [
    "the verdict concerns only the executions this run produced",
    "clang 18 / gcc 13 sanitizer runtimes report the errors they document",
]


import os
HARN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")


def U(name, src=None, cases=(1000, 20000), configs=("rel", "dbg"), **kw):
    d = dict(name=name, src=src or name + ".cpp", cases=cases, configs=list(configs))
    d.update(kw)
    return d

def W(part, kinds, rounds=6, **kw):
    """Objects beyond 2^31 elements or bytes: every kind once (quick) or several times (thorough)."""
    return U("wide", cases=(kinds, kinds * rounds), configs=("gcc",), flags=["-DVF_WIDE=%d" % part], cpu=200, shards=2, big=True,
             require=["attempted"], **kw)


LIFE = "lifetime:|leak|asan:|never-destroyed"

CHECKS = {
    "A01": dict(
        rule="each case is a random history of 5-45 public operations over three live arrays of one element type "
             "(int, char, double, complex, lifetime-tracked, move-only) and kind (Array plain/aligned, SmallArray, StaticArray); "
             "after every operation the whole observable state of every array is compared with a std::vector model; "
             "non-trivial: at least one operation was executed and compared; distinct: different operation sequence",
        units=[U("array1d", cases=(24000, 600000), require=["grow-by-append", "grow-by-resize", "copy", "move", "aligned", "inline-to-heap",
                                                          "alias-append", "filled-to-capacity", "move-only", "static-array", "large", "large-small"]),
               W(1, 6)]),
    "A09": dict(
        rule="each case grows, fills within what was reserved, or uses for long at a bounded size one container (arrays of trivial, owning and move-only "
             "elements, byte and 16-bit strings, hash maps, sets, insertion-ordered maps, deques, Info, Dynamic) while hooks in the allocator and in the elements "
             "count the bytes requested, the elements made or assigned, and a counting hash function the slots looked at; these are compared with a multiple of "
             "the amount of work, or with zero within reserved room; non-trivial: the operation was measured; distinct: different container, sizes and operations",
        units=[U("growth", cases=(12000, 400000), require=["regrown", "filled", "steady", "small-array", "aligned", "filled-string", "filled-string16", "map-inserts",
                                                           "map-reserved", "map-window", "text-pieces", "text-keys", "set-adds", "ordered-inserts", "objects-in-tables", "reused", "lookups-measured"])]),
    "A04": dict(
        rule="each case is a random history of 4-25 operations (construct plain/aligned/from value/list, copy, move, self-assign, "
             "resize, reserve, write, set) over three arrays of one class (rank 2, 3, 4, both orders, static) and element type; after "
             "every operation shape, every element, element addresses (distinctness, order, strides) and capacity are compared with an "
             "index->value model; distinct: different operation sequence",
        units=[U("arraynd", cases=(4000, 80000), parts=6, require=["copy", "move", "aligned", "aligned-empty", "empty-lists", "resize-within-capacity", "resize-grow",
                                                                    "reserve", "copy-assign-within-capacity", "static", "resize-with-value"]),
               W(4, 10)]),
    "A03": dict(
        rule="each case builds one parent (Array plain/aligned, SmallArray, StaticArray, Array2D/Array2C compact, padded or aligned, "
             "StaticArray2D, Array3D) and takes 1-6 views/edits, ranges and views of views; the address of every element of every view is compared "
             "with the parent's element, and the whole parent is compared with a model after writes through edits; distinct: different operation sequence",
        units=[U("views", cases=(40000, 800000), require=["view1", "view-of-view", "write-through", "view2-column-major", "view2-row-major", "parent-with-padding",
                                                           "column-view", "row-view", "block-copy", "view2-static", "view3"]),
               W(3, 8)]),
    "A05": dict(
        rule="each case runs a random history of construction, entry writes, copy/move construction and assignment over three triangular matrices, "
             "or writes/copies of one banded or tridiagonal matrix; every admissible entry is compared with an index->value model after every step, "
             "addresses are checked pairwise distinct and inside the storage; distinct: different operation sequence and arguments",
        units=[U("packed", cases=(20000, 500000), require=["lower", "upper", "band", "tridiagonal", "copy", "move", "copy-assign-within-capacity"]),
               W(5, 6)]),
    "A06": dict(
        rule="each case creates two arrays (Array, Array2D/2C, Array3D/3C of 6 element types) with random alignment/offset/modulus under randomised allocator "
             "addresses and applies 3-14 copies, moves, resizes, reservations, appends; after each the address of the first element and of every line, the "
             "reported alignment, the contents and the spare capacity are checked; distinct: different operation sequence and arguments",
        units=[U("align", cases=(12000, 300000), configs=("rel", "dbg", "gcc"),
                 require=["align1", "align2", "align3", "aligned-line", "align-copy", "align-move", "align-append", "align-resize", "align-reserve",
                          "spare-capacity-written", "aligned-address-odd-multiple", "align-default-offset"]),
               W(6, 4)]),
    "A07": dict(
        rule="each case builds one object (containers of rank 1-4, views, packed matrices, strings, sparse matrix, reductions, BLAS operands) in a checked build and makes "
             "1-30 out-of-contract calls: every one must raise the library's abort exception before the sanitizers see a memory access and leave the object as it was; "
             "distinct: different call and argument sequence",
        units=[U("contract", cases=(30000, 400000), configs=("dbg",),
                 require=["rejections", "contract-array", "contract-small", "contract-static", "contract-2d", "contract-3d", "contract-4d", "contract-view2d",
                          "contract-view2c", "contract-view3d", "contract-triangular", "contract-band", "contract-string", "contract-sparse", "contract-reductions",
                          "contract-static-nd", "contract-aligned"]),
               U("misuse", cases=(10000, 300000), configs=("dbg",), require=["rejections", "outdated-insert", "outdated-first", "outdated-erase", "outdated-clear", "outdated-reserve", "outdated-move", "outdated-other", "present-spot", "absent-spot",
                 "map-array", "deque-tree", "dynamics", "records", "texts", "inside-a-rune"]),
               U("contract-blas", src="blas.cpp", flags=["-DVF_PART=1"], mkl=True, cases=(8000, 200000), configs=("dbg",), require=["rejections", "contract-blas"]),
               U("contract-solvers", src="iterate.cpp", flags=["-DVF_PART=1"], mkl=True, env={"MKL_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}, cases=(3000, 60000), configs=("dbg",), require=["rejections", "contract-solvers"]),
               U("contract-dense", src="solve.cpp", flags=["-DVF_PART=1"], mkl=True, cases=(12000, 200000), configs=("dbg",), require=["rejections", "contract-dense"]),
               U("contract-sparse", src="sparse.cpp", flags=["-DVF_PART=1"], mkl=True, cases=(6000, 100000), configs=("dbg",), require=["rejections", "contract-sparse"])]),
    "S01": dict(
        rule="each case is a random history of 4-30 operations (construction from bytes/literals/characters, copy, move, self-assignment, append of characters, runes, "
             "bytes, literals and views, insertion, reserve, clear, substring, write) over three byte strings or three 16-bit strings with sizes on the storage-mode boundaries; "
             "after every operation size, bytes, terminator, type, storage mode and capacity of all three are compared with std::string / std::u16string; distinct: different operation sequence and arguments",
        units=[U("strings", cases=(24000, 600000), require=["inline-state", "heap-state", "heap-with-small-size", "self-assignment", "moved", "reserve", "insert", "substring", "literal",
                                                             "append-within-reserve", "inline-to-heap", "inline16-state", "heap16-state", "self-assignment16", "utf16-histories"]),
               W(7, 2, keys="(?!wide-search)")]),
    "S02": dict(
        rule="cases 0..1087 sweep every integer 0..0x10FFFF (1024 per case: scalar test, UTF-8/UTF-16 encoding, decoding, boundaries, conversions both ways), 256 further cases sweep every "
             "first and second byte with boundary third/fourth bytes through the validity test; the rest are random texts (iteration, conversion round trip, damaged texts, values outside the code space); "
             "distinct: block, byte or different text",
        units=[U("unicode", cases=(8000, 200000), shards=32, require=["scalar", "non-scalar", "exhaustive-block", "well-formed", "ill-formed", "text-round-trip"])]),
    "S03": dict(
        rule="each case runs four of: comparisons of related texts, searches, chains of view slices with every predicate at every position, joins of 2-6 strings, integer/C-string conversions, on exact-size "
             "buffers (sanitizers see any read outside), each result compared with std::string; distinct: different operation sequence and arguments",
        units=[U("stralg", cases=(40000, 1000000), require=["equal-pair", "different-pair", "found", "not-found", "views", "joins", "conversions"]),
               W(7, 2, keys="wide-search")]),
    "A08": dict(
        rule="each case builds one container (eleven array types of one to four dimensions, of 17 numeric element types, with and without alignment, fixed-size arrays built over used storage, triangular matrices) in a debug build and runs "
             "1-8 operations (elements set, resized with any extents kept, shrunk or extended, reserved, copied, moved); after each, every element is compared with the value it was given or with the mark documented for its type; "
             "distinct: different type, extents and operations",
        units=[U("marks", parts=3, cases=(3000, 150000), configs=("dbg", "gccdbg"), require=["elements-marked", "fixed", "triangular", "grown", "not-grown"])]),
    "H01": dict(
        rule="each case runs 5-60 operations (set by copy/move/spot/C string, erase, clear, reserve, rehash, copies, moves, value changes, iteration with erasure) over up to three maps of one key/value type "
             "(int, long, String, lifetime-tracked; plain, colliding and constant hash functions; keys chosen to collide in the library's own hash); after every operation all 40 keys are looked up, the iteration and the counts "
             "are compared with std::map for every live map, and every lookup runs under a CPU-time watchdog; distinct: different operation sequence and arguments",
        units=[U("maps", flags=["-DVF_PART=0"], cases=(9000, 300000), require=["insert", "overwrite", "erase", "erase-keeps-tombstone", "erase-rehashes", "clear", "reserve", "reserve-below-count", "rehash", "copy", "copy-assign",
                                              "copy-assign-empty", "self-assign", "move", "move-assign", "value-change", "value-of-absent-key", "aliased-value", "c-string-key", "remembered-spot", "erase-all", "from-list", "long-history", "erase-clear-rounds", "very-large"])]),
    "H02": dict(
        rule="each case runs 5-50 operations (set by copy/move/remembered failed search, overwrite, copies, moves, value changes) over up to three insertion-ordered maps; after every operation all 40 keys are looked up and the "
             "whole enumeration is compared with a vector of pairs in first-insertion order; distinct: different operation sequence and arguments",
        units=[U("maparray", src="maps.cpp", flags=["-DVF_PART=1"], cases=(9000, 300000), require=["insert", "overwrite", "copy", "copy-assign", "self-assign", "move", "move-assign", "value-change", "c-string-key", "remembered-spot", "from-list", "very-large"])]),
    "H03": dict(
        rule="each case runs 5-60 operations (add, add through a remembered search, clear, copies, moves) over up to three sets of int, long, String or lifetime-tracked elements with plain and colliding hash functions; after every "
             "operation membership of all 40 candidates, the iteration and the count are compared with std::set; distinct: different operation sequence and arguments",
        units=[U("set", src="maps.cpp", flags=["-DVF_PART=2"], cases=(9000, 300000), require=["add", "add-again", "remembered-spot", "clear", "copy", "copy-assign", "copy-assign-empty", "self-assign", "move", "move-assign", "very-large"])]),
    "Q01": dict(
        rule="each case runs 5-90 pushes, pops and writes at both ends of one deque of capacity 1-40 (int, double, lifetime-tracked) against std::deque, draining copies from random ends at random moments (order of every element), or builds one tree "
             "with 1-9 children per node and compares value, emptiness, parent, children and depth of every node with an explicit node table after every operation; distinct: different operation sequence and arguments",
        units=[U("deque", cases=(20000, 600000), require=["push-front", "push-back", "pop-front", "pop-back", "pop-front-last", "pop-back-last", "full", "full-rejected", "empty-rejected", "drained", "child", "child-beyond-fourth",
                                                            "child-beyond-sixth", "node-value"]),
               W(8, 1, 3)]),
    "D02": dict(
        rule="each case runs 4-40 operations on three statuses (set, attach information, examine, ignore, rearm, move; in checked builds also overwriting and, in a forked child, destroying unexamined ones) against a state machine, or 3-40 operations on three "
             "information records (set of four types with names that are prefixes of each other, copies, moves, clear) against a table, reading every name back after every operation; distinct: different operation sequence and arguments",
        units=[U("status", cases=(12000, 400000), require=["error-set", "ok-set", "examined", "ignored", "rearmed", "status-moved", "overwrite-reported", "unexamined-destruction-reported", "examined-destruction-silent", "name-set",
                                                             "name-overwritten", "info-copy", "info-assign", "info-move", "error-codes"])]),
    "D01": dict(
        rule="each case runs 3-30 operations (construction of 23 payload types by copy and by move, typed assignment, copies, moves, self-assignment, assignment from a value held inside, nesting into arrays and maps, in-place writes, "
             "reads of a wrong type) over four dynamic values; after every operation type(), is<T> for every T and the whole tree of all four values are compared with a model tree, and the allocation ledger must balance; distinct: different operation sequence and arguments",
        units=[U("dynamic", cases=(60000, 2000000), require=["copy-assign", "self-assign", "move-assign", "own-element", "own-map-value", "own-string", "nested", "in-place", "wrong-type-reported",
                                                             "copy-string", "copy-array", "copy-map", "copy-maparray", "copy-double[,]", "copy-uchar[,]", "copy-uint[]", "move-short[]", "assign-over-uchar[,]", "typed-assign-schar"])]),
    "A02": dict(
        rule="the histories of A01, A04, A05, H01-H03 and Q01 run with elements that register every construction, assignment, move, read and destruction in a ledger of live addresses and own a heap block; "
             "every event on storage without a live element, every construction over a live one, every element never destroyed and every unreleased block is a violation; only those reports count here; distinct: different operation sequence and arguments",
        units=[U("life-array1d", src="array1d.cpp", cases=(10000, 300000), env={"VF_LIFE": "1"}, keys=LIFE, require=["element_constructions", "element_assignments", "move-only", "inline-to-heap"]),
               U("life-arraynd", src="arraynd.cpp", cases=(2500, 60000), parts=6, env={"VF_LIFE": "1"}, keys=LIFE, require=["resize-within-capacity", "copy-assign-within-capacity", "reserve", "static"]),
               U("life-packed", src="packed.cpp", cases=(6000, 200000), env={"VF_LIFE": "1"}, keys=LIFE, require=["lower", "upper"]),
               U("life-map", src="maps.cpp", flags=["-DVF_PART=0"], cases=(4000, 120000), env={"VF_LIFE": "1"}, keys=LIFE, require=["erase", "rehash", "copy-assign", "move-assign"]),
               U("life-maparray", src="maps.cpp", flags=["-DVF_PART=1"], cases=(4000, 120000), env={"VF_LIFE": "1"}, keys=LIFE, require=["overwrite", "copy-assign"]),
               U("life-set", src="maps.cpp", flags=["-DVF_PART=2"], cases=(3000, 100000), env={"VF_LIFE": "1"}, keys=LIFE, require=["add", "copy-assign"]),
               U("life-deque", src="deque.cpp", cases=(6000, 200000), env={"VF_LIFE": "1"}, keys=LIFE, require=["pop-front-last", "pop-back-last", "drained"])]),
    "N01": dict(
        rule="blocks of calls per type (int, unsigned, long, unsigned long, long long, unsigned long long): every pair of about 60-90 edge values (extremes, halves, thirds, square roots, powers of two +-1) plus random pairs biased to the exact overflow boundary, "
             "each call judged against 128-bit arithmetic, with the error flag initially true and initially false, in the portable and in the builtin branches; evaluations counts blocks of ~60-200 operand sets, distinct: different edge row or random operands",
        units=[U("arith", cases=(4000, 100000), parts=2, require=["edge-pairs", "error-reported", "exact", "upper-round", "product-error", "product-exact", "narrowing-error", "narrowing-exact"])]),
    "N02": dict(
        rule="each case draws ten argument sets per function (extremes, signed zeros, subnormals, dyadic boundaries, random magnitudes) and judges each value against its definition (integer arithmetic, long double, hypot, clz, text parsed back); "
             "quasi-random points are judged by the exact stratification of a Sobol net in every coordinate; distinct: different arguments",
        units=[U("mathfn", cases=(80000, 2000000), require=["min-max", "ipow", "abs", "floor", "powers-of-2", "time"]),
               U("sobol", cases=(300, 5000), configs=("rel",), mkl=True, require=["sobol-points"])]),
    "T01": dict(
        technique="runtime monitor over a clock and sleep calls the harness owns, under ASan+UBSan",
        rule="the program owns the clock and the sleep calls: each case runs random histories of start, stop, reset, copy and sleep over two timers, timing loops with pauses and whole benchmarks with chosen costs per round, and compares every reported time with the time "
             "that was made to pass, to the nanosecond; sleeps are cut short by signals; a cycle counter is compared with counters read around it; checked builds also misuse timers; distinct: different histories",
        units=[U("timing", cases=(20000, 600000), require=["started", "stopped", "accumulated", "reset", "slept", "no-time-left", "interrupted-sleep", "sleep", "copied", "paused", "timing-loop", "benchmark", "benchmark-one-run", "benchmark-runs"])]),
    "P01": dict(
        technique="runtime monitor: the program runs under gdb and a script compares what the printers show with the program's own notes",
        note="Sampled executions only: every object shown is judged exactly against its accessors; what no history reached is not covered. Trusts gdb's debug information reader.",
        rule="each case runs a program under gdb that fills about 40 objects (containers of every registered kind, grown, copied, moved, shrunk and reserved at random), notes what their accessors report and stops, 12 times; at each stop "
             "what the repository's gdb printers show (summary, sizes, capacities, every element with its label, pairs of maps, fields, texts) is compared with the notes; distinct: different random histories",
        units=[U("printers", cases=(20, 6000), configs=("gccdbg",), flags=["-g", "-O0", '-DVF_HARN="%s"' % HARN],
                 require=["several-tombstones", "objects-shown", "children-compared", "Array", "SmallArray", "StaticArray", "ArrayView", "Array2D", "Array2C", "Array2DView", "StaticArray2D", "StaticArray2C", "LowerArray2D", "TriDiagonal", "SparseMatrixCSR",
                                                           "Array3D", "StaticArray3D", "Array4D", "Array4C", "StaticArray4D", "String", "StringView", "Map", "Info", "Status", "Dynamic", "Deque"])]),
    "G01": dict(
        rule="each case draws arrays (int, long, short, float, double; duplicates, sorted, reversed, constant, all-negative, wide magnitudes; spare capacity, alignment), matrices and sub-ranges and judges every algorithm's value against its direct definition "
             "(long double sums, std::sort), checks that inputs are bitwise unchanged, and sorts 20000-120000 elements in adversarial patterns every 500th case; distinct: different arguments",
        units=[U("algo", cases=(60000, 1500000), require=["whole-array", "range", "column", "sorted", "sorted-large", "search-present", "search-absent", "moments", "two-elements", "vector-norms", "matrix-norms"]),
               W(9, 2)]),
    "I01": dict(
        rule="each case makes 1-4 exchanges: a vector or matrix (int, long, float, double; arbitrary bit patterns, spare capacity, padding, alignment) is saved, the file is read by an independent strict npy parser and loaded back; files of an independent npy writer are loaded, also as the three parts of a sparse matrix; "
             "in some cases numpy itself writes or reads 24 files; every element is compared bit for bit; distinct: different shapes, types and file kinds",
        units=[U("npy", cases=(6000, 150000), repo_src=["il/io/numpy/numpy.cpp"], cpu=20, require=["files-parsed", "sparse-loaded", "vector-round-trip", "matrix-round-trip", "padded", "spare-capacity", "foreign-file", "row-major-file"]),
               W(10, 2, repo_src=["il/io/numpy/numpy.cpp"])]),
    "I03": dict(
        rule="each case treats 1-3 documents: a model of nested tables, arrays of tables, arrays, inline tables and typed values is rendered with random layout (line endings, indentation, comments, blank and very long lines, quoted and literal keys, header order, "
             "implicit tables, number formats) and the parsed map is compared key by key, type by type and bit by bit with the model; or one of 190 constructs outside the grammar is put in a document, which must be reported; and random tokens for numbers, strings, keys and headers are read and judged by a grammar written for the check; distinct: different document or construct",
        units=[U("config-parse", src="config.cpp", flags=["-DVF_PART=0"], repo_src=["il/io/toml/toml.cpp"], cases=(10000, 300000), cpu=20, require=["parsed", "rejected", "unsupported", "long-line", "crlf", "no-final-newline", "literal-string", "quoted-key", "underscore",
                 "array", "inline-table", "table-header", "table-of-array", "implicit-table", "table-after-children", "token-parsed", "token-reported", "key-parsed", "key-reported"])]),
    "I04": dict(
        rule="each case saves 1-3 maps built from a model (nested maps of both kinds, arrays, number arrays and matrices, strings with every escape and UTF-8, keys that need quotes, extreme numbers) and compares what is loaded back with the model; batches of files are also "
             "read by Python's tomllib; saving to /dev/full, a missing directory or a directory, or a value TOML can not hold, must not report success; distinct: different data",
        units=[U("config-save", src="config.cpp", flags=["-DVF_PART=1"], repo_src=["il/io/toml/toml.cpp"], cases=(8000, 250000), cpu=20, require=["round-trip", "second-round-trip", "unwritable", "unrepresentable", "root-map", "nested-map", "nested-maparray",
                 "array-of-double", "matrix-of-double"])]),
    "I05": dict(
        rule="each case treats 1-3 files: a model map (nested maps of both kinds, arrays, padded matrices, arrays of structures, extreme numbers, arbitrary bytes in strings and keys) is saved to a binary pack and loaded back as MapArray and as Map, compared bit for bit and in order; "
             "random chunks are written to a raw file and read back with random buffer sizes, read sizes and skips against the bytes of the file, up to and past its end; images of an independent writer with random header layouts are read pixel by pixel; distinct: different operations and sizes",
        units=[U("packs", repo_src=["il/io/toml/toml.cpp"], cases=(8000, 250000), cpu=20, require=["pack-round-trip", "as-map", "array-of-struct", "nested-map", "nested-maparray", "padded", "raw-round-trip", "buffered-reads", "direct-reads", "skips", "past-end", "images"]),
               W(11, 1, 3)]),
    "I02": dict(
        rule="each case reads 1-4 damaged files (truncated, bytes changed, inserted, removed or repeated, numbers replaced by extreme ones, arbitrary bytes, missing, directories): numpy vectors, matrices and sparse matrices, binary packs, images, raw files, configuration files; whatever reports success is compared with an "
             "independent reader of the damaged file (tomllib for configurations), truncated files must be reported, requests for memory are bounded by the file size, descriptors and blocks are counted; saving runs into full devices, size limits at random bytes, missing directories: success only if the file is complete; distinct: different damaged files",
        units=[U("malform-npy", src="malform.cpp", flags=["-DVF_PART=0"], repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"], cases=(12000, 400000), cpu=20, require=["accepted", "accepted-well-formed", "reported", "sparse-accepted", "sparse-reported"]),
               U("malform-pack", src="malform.cpp", flags=["-DVF_PART=1"], repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"], cases=(12000, 400000), cpu=20, require=["accepted", "accepted-compared", "reported", "deep-pack", "raw-open"]),
               U("malform-config", src="malform.cpp", flags=["-DVF_PART=2"], repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"], cases=(400, 15000), cpu=60, require=["accepted", "reported", "same", "both"]),
               U("malform-write", src="malform.cpp", flags=["-DVF_PART=3"], repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"], cases=(8000, 250000), cpu=20, require=["partial-write", "partial-large-write", "reported", "success", "unsupported-reported"])]),
    "L01": dict(
        rule="each case makes 1-3 calls: vector updates, dots with and without conjugation, matrix updates, matrix-vector and matrix-matrix products of four types and both orders with every operation flag, coefficients 0, 1, -1 and others, "
             "operands placed with arbitrary leading dimensions in buffers filled with not-a-number, products of the library's own (padded, empty) arrays and of static arrays; every entry is compared with a long double sum (exactly for integer data), every byte of the inputs "
             "and around the destination with its snapshot, and BLAS argument errors are recorded; distinct: different shapes, flags and coefficients",
        units=[U("blas", mkl=True, cases=(30000, 1000000), require=["vector-update", "dot", "dot-conjugated", "matrix-update", "matrix-vector", "matrix-matrix", "inner-zero", "conjugate-transpose", "padded-destination", "large",
                 "array-product", "empty-operand", "static-products"])]),
    "L02": dict(
        rule="each case solves or factorizes one random system (dense, small integers, permuted triangular, badly scaled, zero row or column; orders 1-90, spare capacity, guarded buffers filled with not-a-number around views and in triangles that must not be read): "
             "general row- and column-major, banded, tridiagonal, LU (one and several right-hand sides, inverse, determinant, condition, factors, rectangular), static LU, Cholesky full and packed, eigenvalues, singular values, LU and QR in place, all triangular solutions; "
             "residuals, reconstruction, power sums and determinants are evaluated in long double against backward error bounds, inputs compared with snapshots; distinct: different kind, order and operation",
        units=[U("solve", mkl=True, cases=(20000, 600000), require=["general", "banded", "tridiagonal", "lu", "lu-rectangular", "static-lu", "cholesky", "indefinite-reported", "singular-reported", "eigenvalues", "singular-values", "lu-in-place", "qr-in-place",
                 "triangular-solves", "transposed-solve"])]),
    "L03": dict(
        rule="each case assembles a matrix from a random list of positions (repeated, sorted, reversed, none), builds one in each of the other ways (any order of the columns, empty rows and extents), takes a weighted norm, "
             "multiplies it with vectors (own loops and MKL handles, both index types, both precisions, hints, repeated use) or with another matrix or itself; structure, values, indices and products are compared with a dense model in long double, operands with their former contents; "
             "distinct: different shape, number of elements and operation",
        units=[U("sparse", mkl=True, cases=(40000, 1200000), require=["positions", "empty-matrix", "built", "norm", "rectangular", "product", "optimized", "optimized-float", "sparse-sparse", "square-of-itself", "overwritten"])]),
    "L04": dict(
        rule="each case runs one history: two Pardiso objects (patterns replaced, values replaced, factorized again, several right-hand sides, iterative solutions near the factorized values), GMRES with an incomplete factorization (recomputed, kept with other values, settings), "
             "matrix-free GMRES and conjugate gradient with and without preconditioner (restarts, few iterations allowed, destinations with former content, step by step, reused); residuals are evaluated in long double and compared with the precision asked for, the status and the norms the solver reports; "
             "matrices and right-hand sides with their former contents; distinct: different order, settings and operations",
        units=[U("iterate", mkl=True, env={"MKL_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}, cases=(8000, 240000), require=["direct", "iterative", "near-values", "new-pattern", "new-values", "symbolic-again", "ilu-converged", "ilu-stopped", "old-preconditioner", "gmres-converged", "gmres-reported", "restarted",
                 "steps-looked-at", "ilu-defaults", "cg-defaults", "cg-converged", "cg-reported", "cg-steps-looked-at"])]),
    "C01": dict(
        technique="ThreadSanitizer and per-thread result monitors over concurrent workloads on the real code",
        rule="each case builds a set of objects, then starts 2-4 threads at once (common start, random yields) that run 1-4 random tasks each: reading, searching, iterating and copying the same "
             "const containers, strings, maps, values and matrices; changing objects of their own; formatting text, arithmetic; parsing and saving files of their own; products, factorizations and solvers; the thread sanitizer watches every access and "
             "each thread's digest of all it observed must be the one the same tasks give when run alone afterwards; distinct: different tasks, arguments and threads",
        units=[U("threads", repo_src=["il/io/format/print.cc", "il/io/format/ostream.cc"], flags=["-DVF_PART=0"], cases=(2400, 60000), configs=("tsan", "rel", "dbg"), cpu=60, require=["read-arrays", "read-matrices", "read-strings", "read-maps", "read-values", "read-sparse", "own-objects", "formatting", "arithmetic", "other-containers", "at-once:read-maps/read-maps", "at-once:read-strings/read-strings"]),
               U("threads-files", src="threads.cpp", flags=["-DVF_PART=1"], repo_src=["il/io/toml/toml.cpp", "il/io/numpy/numpy.cpp"], cases=(1500, 40000), configs=("tsan", "rel"), cpu=60, require=["parse-toml", "save-toml", "numpy-files", "packs", "images", "at-once:parse-toml/parse-toml"]),
               U("threads-linear", src="threads.cpp", flags=["-DVF_PART=2", "-I/usr/include/mkl", "-DIL_MKL", "-DIL_BLAS"], libs=["-lmkl_intel_lp64", "-lmkl_core", "-lmkl_sequential", "-ldl", "-lm"], cases=(1000, 30000), configs=("tsan", "rel"), cpu=60, require=["products", "dense-solvers", "iterative-solvers", "direct-sparse", "factorizations", "other-solvers", "at-once:products/products"])]),
    "F01": dict(
        technique="output compared with an independent formatter, under ASan+UBSan and gcc's sanitizers",
        rule="each case formats 1-4 values of one of 17 types with random fill, alignment, sign, '#', '0', width, precision and type (literal, nested or named widths), 22 arguments at once, or an invalid format, through "
             "fmt::format, il::format, il::print, a memory writer that already holds text, or a fixed buffer; the text is compared with an independent formatter (128-bit integers, snprintf for the digits of doubles), invalid formats "
             "must be reported; random text as a format must be formatted or reported without a fault; distinct: different specification, type and way",
        units=[U("format", repo_src=["il/io/format/print.cc", "il/io/format/ostream.cc"], cases=(40000, 1500000), configs=("rel", "dbg", "gccsan"),
                 require=["fmt::format", "il::format", "il::print", "MemoryWriter", "ArrayWriter", "reported", "invalid", "bad-sizes", "garbage-formatted", "garbage-reported", "many-arguments", "double", "char", "bool", "pointer",
                          "il::String", "user's type", "long double", "not-a-number", "moved-writer", "buffer-full", "system-error", "long-system-error", "system-error-report", "enumeration", "wide", "wide-reported", "fmt::print(FILE*)", "fmt::print(ostream)", "fmt::print_colored"])]),
}

for _c in CHECKS.values():
    if any(u["name"] == "wide" for u in _c["units"]):
        _c["rule"] += ("; unit wide: each case takes one kind of object beyond 2^31 elements or bytes through growth, reservation, copies, moves, views, searches or file round "
                       "trips and compares marks at the ends, around 2^31 and 2^32 and at random places")
