#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

C1 = "il/container/1d/"; C2 = "il/container/2d/"; C3 = "il/container/3d/"; C4 = "il/container/4d/"

prop("A01", "Growable one-dimensional arrays behave exactly like sequences",
  "After any sequence of constructions, copies, moves, appends, resizes, reservations and element writes, a dynamic or small-buffer array has the length and elements that the same operations give on a mathematical sequence; copies are independent and a moved-from array is empty and reusable. Reserving never changes the contents, and no operation accesses memory outside the array's own storage or leaks storage.",
  ["histories", "inputs"], "every sequence of public operations, every length (including 0 and the inline-capacity boundary), every element type (trivial, non-trivial, move-only) and every requested alignment",
  "The tests build a handful of arrays of fixed length and apply one or two operations; growth, in-place versus reallocating paths, aligned storage and self-referencing appends combine into histories no fixed test enumerates.",
  [C1+"Array.h", C1+"SmallArray.h", C1+"StaticArray.h", "il/core/memory/allocate.h"],
  [("growth, copy-assign reuse-or-reallocate, aligned relocation", C1+"Array.h"), ("inline-to-heap switch", C1+"SmallArray.h")],
  ["size()", "operator[]", "capacity()", "data()", "allocator"])

prop("A02", "Container elements are constructed and destroyed exactly once",
  "For element types with non-trivial construction or destruction, every element a container exposes is a live, fully constructed object, every object a container constructs is destroyed exactly once, and no assignment, move or destruction is ever applied to storage holding no object. When the last container is destroyed, no element and no storage is left alive.",
  ["histories"], "all operation histories over every owning container (sequences, multi-dimensional arrays, packed matrices, maps, deques) with elements that own resources",
  "Lifetime errors are invisible to value assertions on numbers; the tests use a counting type for a few operations of a single container.",
  [C1+"Array.h", C1+"SmallArray.h", C2+"Array2D.h", C2+"Array2C.h", C3+"Array3D.h", C3+"Array3C.h", C4+"Array4D.h", C4+"Array4C.h", C2+"LowerArray2D.h", C2+"UpperArray2D.h", "il/container/hash/Map.h", "il/container/deque/Deque.h"],
  [("placement construction / explicit destruction in resize, assign, reserve", C1+"Array.h"), ("the same per column/row block", C2+"Array2D.h"), ("slot construction and tombstones", "il/container/hash/Map.h")],
  ["element constructor/destructor events", "allocator"])

prop("A03", "Views denote exactly the requested elements of their parent",
  "A read-only or editable view over the whole of an array, a range of it, a column, a row or a block has the requested extent and its element at each index is the very element of the parent at the corresponding position, so writes through an editable view change those parent elements and no others. This holds for parents with spare capacity, padding or alignment, and for views of views.",
  ["inputs", "programs"], "all parents (shape, capacity, alignment, storage order) and all in-range sub-ranges",
  "Tests look at one or two views of compact arrays, where stride equals extent and most index mistakes are invisible.",
  [C1+"ArrayView.h", C1+"Array.h", C1+"SmallArray.h", C2+"Array2DView.h", C2+"Array2CView.h", C2+"Array2D.h", C2+"Array2C.h", C3+"Array3DView.h", C3+"Array3D.h"],
  [("pointer/stride arithmetic", C2+"Array2DView.h")], ["view(i[,j[,k]])", "addresses"])

prop("A04", "Multi-dimensional arrays keep their elements at their indices",
  "Distinct valid index tuples of a two-, three- or four-dimensional array denote distinct elements and a stored value is read back unchanged; resizing preserves every element whose index is valid before and after (filling new ones with the given value when one is given), reserving preserves all of them, and copies and moves yield the same shape and elements while sharing nothing. The in-memory order is the one advertised (column-major or row-major, unit stride in the contiguous dimension).",
  ["histories", "inputs"], "all shapes (including zero extents), capacities, alignments, element types and sequences of resize, reserve, append, copy, move and write, for column-major and row-major arrays of rank 2, 3 and 4, dynamic and static",
  "Existing tests use small fixed shapes of rank 2 and 3 in one order; row-major rank 3 and rank 4 arrays are not even compiled by them, and growth paths depend on the joint capacity of every dimension.",
  [C2+"Array2D.h", C2+"Array2C.h", C3+"Array3D.h", C3+"Array3C.h", C4+"Array4D.h", C4+"Array4C.h", C2+"StaticArray2D.h", C2+"StaticArray2C.h", C3+"StaticArray3D.h", C4+"StaticArray4D.h"],
  [("stride/capacity arithmetic and column-by-column moves", C2+"Array2D.h"), ("same, row by row", C2+"Array2C.h"), ("plane/slice moves", C3+"Array3D.h")],
  ["operator()(i,j,..)", "size(d)", "capacity(d)", "data()"])

prop("A05", "Packed and structured matrices store each admissible entry separately",
  "In triangular, banded and tridiagonal matrices every admissible index pair denotes its own entry: writing one entry and reading any admissible entry back gives exactly what was last written there, through construction, copy and move. Storage never exceeds what was allocated for the structure and is never leaked.",
  ["histories", "inputs"], "all orders including 0 and 1, all band widths, element types and sequences of writes, copies and moves",
  "No test compiles the triangular or banded matrices at all.",
  [C2+"LowerArray2D.h", C2+"UpperArray2D.h", C2+"BandArray2C.h", C2+"TriDiagonal.h"],
  [("packed index formula n(n+1)/2", C2+"LowerArray2D.h"), ("band offset", C2+"BandArray2C.h")], ["operator()(i,j)"])

prop("A06", "Requested alignments are honoured and kept",
  "An array or matrix created with an alignment (and offset) has the address of its first element congruent to that offset modulo the alignment, and of each column or row where the contract says so, after construction and after every later copy, resize, reservation or append that keeps the alignment; the padding never overlaps elements. Alignment information reported by the container and its views is true of the addresses they expose.",
  ["histories", "inputs", "configurations"], "all power-of-two alignments and offsets valid for the element type, all sizes and growth histories",
  "Addresses returned by the allocator vary; tests check one alignment once, right after construction.",
  ["il/core/memory/allocate.h", C1+"Array.h", C2+"Array2D.h", C2+"Array2C.h", C3+"Array3D.h", C1+"ArrayView.h"],
  [("shift computation", "il/core/memory/allocate.h"), ("re-alignment on growth", C1+"Array.h")], ["data()", "alignment()"])

prop("A07", "Checked builds reject out-of-contract accesses instead of executing them",
  "In a build with checks enabled, indexing outside the bounds, taking the last element of an empty container, asking for an invalid dimension, size, range or view, combining operands of incompatible shapes, reading a value as a type it does not have, using a status out of turn, or using a hash map position remembered from before an insertion, erasure, clearing or move is rejected before any memory is touched and leaves the object unchanged and usable; in-contract calls are never rejected. Building with or without the checks never changes the result of an in-contract program.",
  ["inputs", "configurations"], "all containers and views, all indices just outside and far outside the bounds including negative ones, all shape mismatches",
  "The tests probe a few single out-of-range indices per class and never compare checked with unchecked builds.",
  ["il/core/core.h", C1+"Array.h", C1+"SmallArray.h", C1+"StaticArray.h", C1+"ArrayView.h", C2+"Array2D.h", C2+"Array2C.h", C2+"Array2DView.h", C3+"Array3D.h", C4+"Array4D.h", "il/container/hash/Map.h", "il/container/hash/Set.h", "il/container/deque/Deque.h", "il/container/tree/Tree.h", "il/container/dynamic/Dynamic.h", "il/container/info/Info.h", "il/container/info/Status.h", "il/container/string/String.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/blas.h"],
  [("precondition macros", "il/core/core.h"), ("unsigned-compare bounds checks", C1+"Array.h")], ["AbortException / abort", "sanitizer reports"])

prop("A08", "Debug builds mark the numeric elements nobody has set",
  "In a build without NDEBUG, every numeric element of an array that was created or added by a resize and has not been set since holds the documented mark, NaN for floating point types and 1234... for integers, in all array types, dimensions and alignments, including when a resize reuses spare capacity. Elements that were set keep their values through every resize, copy and move, and are never marked again.",
  ["inputs", "histories"], "all numeric element types, array types, extents and histories of sizes",
  "The tests check the mark of one freshly built array per class and hardly ever after a resize within the capacity.",
  ["doc/Array.rst", "il/core/core.h", C1+"Array.h", C1+"SmallArray.h", C2+"Array2D.h", C2+"Array2C.h", C3+"Array3D.h", C3+"Array3C.h", C4+"Array4D.h", C4+"Array4C.h", C2+"LowerArray2D.h", C2+"UpperArray2D.h"],
  [("defaultValue", "il/core/core.h"), ("marking on construction and growth", C1+"Array.h")], ["operator[] / operator()"])

prop("A09", "Growing costs what it has to and reserved room is used",
  "Appending n elements to a growable array or string, or inserting n keys in a hash map, hash set or insertion-ordered map requests memory and makes or moves elements in proportion to n in total, never once per element, and a lookup in a hash table with well spread keys examines a small number of slots on average, also after many erasures. Once room for n elements has been reserved in an array, a string or a hash map, filling it up to n elements requests no memory and moves nothing: the storage, its capacity and the addresses of what is in it stay the same. An object that is used for ever at a bounded size (filled and emptied, erased from and inserted into, assigned again and again) keeps its capacity and the memory it holds bounded.",
  ["histories"], "all growable containers (arrays, small-buffer arrays, byte and 16-bit strings, hash maps, sets, insertion-ordered maps, deques, Info, Dynamic), all starting states, sizes and orders of operations",
  "The tests never measure what an operation costs: storage replaced at every append, tables that double with every erasure or reservations that are ignored give the right values.",
  [C1+"Array.h", C1+"SmallArray.h", "il/container/string/String.h", "il/container/string/UTF16String.h", "il/container/hash/Map.h", "il/container/hash/MapArray.h", "il/container/hash/Set.h", "il/container/deque/Deque.h", "il/container/info/Info.h"],
  [("growth factor", C1+"Array.h"), ("rehash and tombstone thresholds", "il/container/hash/Map.h"), ("reserve", "il/container/string/UTF16String.h")], ["data()", "capacity()", "nbBuckets()", "allocator", "element constructors"])

prop("H01", "The hash map behaves like a finite map under any history",
  "After any sequence of insertions, lookups, value changes, erasures, clears, reservations, rehashes, copies and moves, looking a key up finds it exactly when it was inserted and not erased since, gives the last value stored for it, and iteration visits every present key exactly once. The reported number of elements is the number of present keys, copies are independent, every lookup terminates, and none of this depends on hash collisions or on how many erased slots remain.",
  ["histories", "inputs"], "all histories of operations, all key types with built-in hashing (integers and strings, short and long), all collision patterns and load factors",
  "The tests insert a few hundred keys once; tombstone reuse, growth with tombstones, probing around the table end and copy/assign between tables of different capacity are history-dependent.",
  ["il/container/hash/Map.h", "il/container/hash/HashFunction.h"],
  [("open addressing with tombstones, growth", "il/container/hash/Map.h"), ("hash and key equality", "il/container/hash/HashFunction.h")],
  ["search/found/value", "spotBegin/next/spotEnd", "nbElements()"],
  [("nb_elements, nb_tombstones, p", "occupancy of the open-addressing table", "il/container/hash/Map.h")])

prop("H02", "The insertion-ordered map keeps order, uniqueness and values",
  "An insertion-ordered map holds each key once, enumerates its pairs in the order in which the keys were first inserted, and finds for each present key the value last stored for it, also for keys inserted through a remembered failed search. Copies and moves preserve order and content and are independent.",
  ["histories"], "all sequences of insertions (new and repeated keys), in-place value changes, searches, copies and moves",
  "No test exercises this container directly; it is only used behind the configuration-file parser on small files.",
  ["il/container/hash/MapArray.h", "il/container/hash/Map.h"],
  [("index map plus dense array of pairs", "il/container/hash/MapArray.h")], ["key(i)", "value(i)", "search"])

prop("H03", "The hash set behaves like a mathematical set",
  "After any sequence of additions, lookups, clears, reservations, copies and moves, membership is exactly what a mathematical set would report, the element count is the number of distinct elements and iteration visits each element once. Copies are independent and no element or storage leaks.",
  ["histories"], "all histories, element types and collision patterns",
  "No test compiles the set.",
  ["il/container/hash/Set.h", "il/container/hash/HashFunction.h"],
  [("open addressing", "il/container/hash/Set.h")], ["search", "iteration"])

prop("S01", "Strings are value-semantic byte sequences across storage modes",
  "After any sequence of constructions, copies, moves, assignments, appends, insertions, reservations and clears, a string's size and bytes are those of the same operations on a byte sequence, it is zero-terminated where it promises to be, and copies are independent. This is the same for strings stored in place and on the heap, including growth across that boundary and strings containing zero bytes.",
  ["histories", "inputs"], "all operation histories, all contents and sizes, in particular around the in-place capacity and reserved-capacity boundaries, for byte strings and 16-bit strings",
  "Tests cover eleven fixed constructions; the in-place/heap flag shares storage with the data, so correctness depends on exact sizes and on the previous mode.",
  ["il/container/string/String.h", "il/container/string/UTF16String.h"],
  [("in-place buffer whose last byte holds size and mode", "il/container/string/String.h")], ["size()", "data()", "asCString()", "isSmall()"])

prop("S02", "Text encoding is correct for every Unicode scalar value",
  "Appending a code point stores its unique UTF-8 (or UTF-16) encoding, iterating over the text yields the code points that were appended, the validity test accepts exactly well-formed text, and converting between the two encodings and back is the identity. Code points that are not Unicode scalar values are never accepted as valid.",
  ["inputs"], "all 1,112,064 scalar values, all surrogates and out-of-range values, all byte sequences offered to the validity test",
  "Tests append a single example rune per width.",
  ["il/container/string/String.h", "il/container/string/UTF16String.h", "il/container/string/unicode.h"],
  [("encoder/decoder", "il/container/string/String.h"), ("conversion", "il/container/string/unicode.h")], ["bytes", "toRune/nextRune"])

prop("S03", "String search, comparison, slicing and conversion match their definitions",
  "Equality, prefix and suffix tests, search, counting, sub-views, joining and number-to-text or text-to-number conversions on strings and string views give exactly what their definition on byte sequences gives, and never read outside the text they are given. Text produced from a number reads back as that number.",
  ["inputs"], "all texts (empty, embedded zeros, repeated patterns, high bytes), all positions and all representable integers and doubles",
  "Two tests look at string views on literals, where an over-read or a prefix comparison goes unnoticed.",
  ["il/container/string/String.h", "il/container/string/algorithmString.h"],
  [("byte loops over explicit lengths", "il/container/string/String.h")], ["return values", "sanitizer reports"])

prop("D01", "A dynamic value returns exactly what was stored in it",
  "A dynamic value reports the type of the value it was given, converts back to exactly that value (a plain int is kept and reported as the library's integer type), and keeps both through copies, moves, reassignment to any other type and storage inside containers. Copies are deep and independent, and every payload is released exactly once.",
  ["histories", "inputs"], "all supported payload types and values (including extreme integers, NaN, infinities, signed zeros and both storage modes of strings) and all reassignment sequences between types",
  "Tests store one value per type and read it back; transitions between types (50x50), and the packed representation's extreme values, are not covered.",
  ["il/container/dynamic/Dynamic.h", "il/container/dynamic/Type.h"],
  [("tag byte packed in the payload, heap payloads", "il/container/dynamic/Dynamic.h")], ["type()", "is<T>/as/to<T>"])

prop("D02", "Status and information records are never lost, mixed up or silently dropped",
  "A status carries exactly the error, and the attached named information, that was set on it through copies of ownership, and in checked builds a status that is destroyed or overwritten without having been examined is reported, while an examined one never is; a status that takes over another by a move has to be examined again. Named information records return for each name the value last stored under it and nothing for names never stored.",
  ["histories", "inputs"], "all sequences of setting, moving, examining and re-setting; all names (including prefixes of each other) and value types",
  "Two tests cover the record type; whether an unexamined failure is reported depends on the ownership history.",
  ["il/container/info/Status.h", "il/container/info/Info.h"],
  [("must-check flag transferred on move", "il/container/info/Status.h"), ("length-prefixed records in a small buffer", "il/container/info/Info.h")], ["ok()/isError()", "toCheck at destruction", "search"])

prop("Q01", "Deques and trees preserve order and structure",
  "A double-ended queue yields its elements in the order implied by pushes and pops at both ends for any history, whatever the wrap-around position, up to the capacity it was given; a push beyond it is reported and changes nothing. A tree gives each node's value, parent and children exactly as they were set.",
  ["histories"], "all histories of push and pop at both ends with elements owning resources; all trees within the supported arity",
  "No test compiles the deque; one test builds one tree.",
  ["il/container/deque/Deque.h", "il/container/tree/Tree.h"],
  [("circular buffer", "il/container/deque/Deque.h"), ("child index arithmetic", "il/container/tree/Tree.h")], ["front/back/size", "children"])

prop("N01", "Checked integer arithmetic is exact or reports an error",
  "The overflow-checked sum, difference, product, division, upper-rounding division and narrowing conversions either report success and return the exact mathematical result, or report an error; they report an error for two operands exactly when the exact result is not representable or not defined. No call is itself undefined.",
  ["inputs"], "all operand values of every supported integer type, including the extremes",
  "Tests try sixteen operand pairs.",
  ["il/core/math/safe_arithmetic.h"],
  [("compiler overflow builtins and portable fallbacks", "il/core/math/safe_arithmetic.h")], ["result and error flag"])

prop("N02", "Elementary numeric functions match their mathematical definition",
  "Minimum, maximum, absolute value and modulus, rounding down (to an integer or to a multiple), integer powers, powers and logarithms of two, quasi-random points and the text of durations give the value of their definition, in the argument type's own precision, for every argument for which the result is representable. None of them loops forever or overflows on the way to a representable result.",
  ["inputs"], "all arguments of each supported type (integers, float, double, complex)",
  "No test calls these functions except through others.",
  ["il/math.h", "il/core/core.h", "il/unit/time.h", "il/random/sobol.h"],
  [("inline definitions", "il/math.h")], ["return values"])

prop("G01", "Array algorithms compute what they claim, in any element type",
  "Sorting yields an ordered permutation of its input, searching finds a position of the value or reports its absence, and minimum, maximum, range, mean, variance, norms and other reductions over arrays, matrices and sub-ranges return the value of their definition without narrowing through another type. Inputs they only read are unchanged.",
  ["inputs"], "all arrays and matrices (duplicates, negatives, NaN-free doubles, one element, padding and spare capacity), all sub-ranges",
  "No test exercises the array algorithms.",
  ["il/algorithm/algorithmArray.h", "il/algorithm/algorithmArray2D.h", "il/linearAlgebra/dense/norm.h"],
  [("loops over views", "il/algorithm/algorithmArray.h")], ["return values"])

prop("I01", "Arrays survive a numpy file round trip bit for bit",
  "Saving a vector or matrix to a numpy file and loading it back gives the same shape, order, type and bits, whatever its capacity or padding, and the file is a well-formed numpy file describing that content. Files written by numpy itself for supported types load with the values numpy wrote.",
  ["inputs"], "all shapes (including empty and one-row), element types, storage orders, capacities and values (NaN, infinities, extremes), and files in any legal header layout",
  "Four tests round-trip one tiny compact array each.",
  ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
  [("header formatter/parser", "il/io/numpy/numpy.cpp")], ["file bytes", "loaded array", "status"])

prop("I02", "Malformed or unreadable files are reported, never trusted",
  "Reading a numpy, configuration, binary-pack or image file that is truncated, corrupted, of the wrong type or missing ends with an error status (or with valid content when the damage is harmless), without invalid memory access, unbounded allocation, endless loop, abort or leaked file handle. Failures to write are reported the same way.",
  ["inputs", "fault_sequences"], "all byte-level corruptions and truncations of valid files and arbitrary bytes; unwritable targets",
  "The tests read only well-formed files.",
  ["il/io/numpy/numpy.cpp", "il/io/numpy/numpy.h", "il/io/toml/toml.cpp", "il/io/toml/toml.h", "il/io/filepack/filepack.h", "il/io/ppm/ppm.h", "il/io/File.h"],
  [("status returned on every exit", "il/io/toml/toml.cpp")], ["status", "open descriptors", "allocations", "sanitizer reports"])

prop("I03", "Configuration files parse to exactly the data they denote",
  "Parsing a well-formed TOML document of the supported subset gives the tables, keys and typed values the document denotes, independently of layout: line endings, indentation, blank lines, comments, trailing spaces and line length. Documents outside the grammar, and duplicated keys or tables, are reported as errors rather than yielding other data.",
  ["inputs"], "all documents of the supported subset: nested tables, dotted headers, arrays, inline tables, basic and literal strings with escapes, integers with separators, floats, booleans, in every layout",
  "Nineteen tests parse one short fixed text each.",
  ["il/io/toml/toml.cpp", "il/io/toml/toml.h"],
  [("recursive-descent parser over lines", "il/io/toml/toml.cpp")], ["parsed map", "status"])

prop("I04", "Configuration data survives a save and load round trip",
  "Saving a configuration map and loading the file back gives an equal map: the same keys at the same nesting, the same types, and exactly equal values, including full double precision and strings with any printable content. Saving reports success only if the file holds the data.",
  ["inputs"], "all configuration maps of supported values nested to any depth, in any key order",
  "Two tests save one small map with round numbers.",
  ["il/io/toml/toml.h", "il/io/toml/toml.cpp"],
  [("recursive writer", "il/io/toml/toml.h")], ["reloaded map"])

prop("I05", "Binary packs and raw files round trip losslessly",
  "A structure of numbers, strings, arrays, matrices and nested maps saved to a binary pack loads back equal, and bytes written to a file are read back unchanged through buffered reads of any size and alignment; a pixel image loads with the pixels the file holds.",
  ["inputs", "histories"], "all nested structures of supported types, all read sizes relative to the buffer, all image sizes and comment layouts",
  "No test compiles these readers and writers.",
  ["il/io/filepack/filepack.h", "il/io/File.h", "il/io/ppm/ppm.h"],
  [("type-tagged records", "il/io/filepack/filepack.h"), ("buffered reader", "il/io/File.h")], ["reloaded value"])

prop("L01", "Dense products and dots equal their algebraic definition",
  "Matrix-matrix, matrix-vector and dot products in every supported type, storage order, transposition or conjugation, on arrays, static arrays and views with arbitrary strides, equal the textbook sum within rounding error (exactly for integers and exactly representable values), scale and accumulate as their coefficients say, and write only the destination. Empty operands and inner dimension zero behave as the definition gives.",
  ["inputs"], "all shapes, strides, views, coefficient values (including 0 and 1), operator flags and element types",
  "The tests use fixed 2x2/2x3 examples; leading dimensions larger than the extent and most flag/type/order combinations are not reached.",
  ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/blas_static.h", "il/linearAlgebra/dense/blas/blas_config.h"],
  [("argument mapping to the BLAS interface", "il/linearAlgebra/dense/blas/blas.h")], ["results", "bytes outside the destination"])

prop("L02", "Dense solvers and factorizations return what they claim",
  "For a nonsingular system the solution returned satisfies it to within rounding scaled by the conditioning, for every storage order, structure (general, triangular, banded, tridiagonal, symmetric) and right-hand side; factors reproduce the matrix, determinants and inverses, eigenvalues and singular values match their definition, and inputs passed by constant reference are unchanged. A matrix with a zero row or column is reported as singular, and no error is reported for a well-conditioned one.",
  ["inputs"], "all square and rectangular sizes, matrices with spare capacity and any conditioning class, single and multiple right-hand sides",
  "Seven tests solve fixed 2x2 systems.",
  ["il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/Cholesky.h", "il/linearAlgebra/dense/factorization/Singular.h", "il/linearAlgebra/dense/factorization/Eigen.h", "il/linearAlgebra/dense/factorization/Householder.h", "il/linearAlgebra/dense/factorization/luDecomposition.h", "il/linearAlgebra/dense/factorization/qrDecomposition.h", "il/linearAlgebra/dense/blas/solve.h", "il/linearAlgebra/dense/norm.h"],
  [("argument mapping to LAPACK, pivots", "il/linearAlgebra/dense/factorization/LU.h")], ["residuals", "status"])

prop("L03", "Sparse matrices and their products equal their dense meaning",
  "A compressed-row matrix built from any list of positions and values represents exactly that matrix, whatever the order of the positions; element access by stored index, norms, sparse-times-dense products and scaled accumulations equal those of the dense matrix it denotes. Building and multiplying never touch memory outside the operands.",
  ["inputs"], "all sparsity patterns (empty rows, empty matrix, dense rows, unsorted input), sizes and coefficients",
  "Sparse tests cover one 2x2 pattern per solver.",
  [C2+"SparseMatrixCSR.h", "il/linearAlgebra/sparse/blas/sparseBlas.h", "il/linearAlgebra/sparse/blas/SparseMatrixBlas.h", "il/linearAlgebra/sparse/blas/sparseDot.h"],
  [("counting construction", C2+"SparseMatrixCSR.h")], ["elements", "products"])

prop("L04", "Sparse and iterative solvers solve the system they are given",
  "The direct sparse solver and the iterative ones (Pardiso, Gmres with or without a preconditioner, Gmres with an incomplete factorization, the conjugate gradient) return a solution whose residual meets the requested precision whenever they report success or stop before their iteration limit, for any well-conditioned system of their kind, and leave the matrix and the right-hand side as given. They report, rather than hide, that the precision was not reached, and can be reused for new right-hand sides, new values and new patterns without mixing up earlier state.",
  ["inputs", "histories"], "all nonsingular systems of the supported kinds, all reuse histories (same pattern new values, new pattern, several right-hand sides), iteration limits",
  "Four tests solve a 2x2 system once each.",
  ["il/linearAlgebra/sparse/factorization/Pardiso.h", "il/linearAlgebra/sparse/factorization/GmresIlu0.h", "il/linearAlgebra/matrixFree/solver/Gmres.h", "il/linearAlgebra/matrixFree/solver/Cg.h"],
  [("phase state machine", "il/linearAlgebra/sparse/factorization/Pardiso.h"), ("reverse-communication loop", "il/linearAlgebra/matrixFree/solver/Gmres.h")], ["residual", "status", "allocations"])

prop("C01", "Concurrent readers and independent objects never interfere",
  "Any number of threads may read the same container, string, dynamic value, map or sparse matrix at once, and different threads may work on different objects, convert text, parse or save different files and multiply or sort different data at once, with every thread getting the result it would get alone. No such program contains a data race.",
  ["schedules", "programs"], "all interleavings of threads that share only read-only objects or share nothing",
  "The tests are single-threaded.",
  [C1+"Array.h", "il/container/hash/Map.h", "il/container/hash/MapArray.h", "il/container/string/String.h", "il/container/dynamic/Dynamic.h", "il/io/toml/toml.cpp", "il/io/numpy/numpy.cpp", C2+"SparseMatrixCSR.h"],
  [("const operations without hidden mutable state", "il/container/hash/Map.h"), ("no global parser state", "il/io/toml/toml.cpp")], ["thread sanitizer reports", "per-thread results"])

prop("T01", "Timers and benchmark loops report the time that really passed",
  "A timer reports the sum of the intervals between its Start and Stop calls since it was made or reset, whatever the order of starts, stops, resets, copies and sleeps, and sleeping returns neither before the time asked for nor later than the clock requires, even when a signal cuts a sleep short. A benchmark runs its loop exactly as often as it decided, leaves paused time out, and reports the time of its last run divided by the iterations of that run.",
  ["inputs", "histories"], "all histories of timer calls and all costs per iteration",
  "Tests only start and stop a timer around other work and look at nothing it says.",
  ["il/benchmark/tools/timer/Timer.h", "il/benchmark/tools/timer/Benchmark.h"],
  [("Timer", "il/benchmark/tools/timer/Timer.h"), ("benchmark", "il/benchmark/tools/timer/Benchmark.h")], ["reported times", "iteration counts"])

prop("P01", "The gdb printers show what an object really holds",
  "In a program compiled for debugging, what the gdb pretty printers of the library show of a container, a string, a map, a sparse, triangular or tridiagonal matrix, a status, an info or a dynamic value is what the object's own accessors report: the sizes and capacities, every element that the object holds with its own label and value, every pair or field exactly once, the text, type and storage mode of a string, and nothing that the object does not hold. Printing succeeds in every state the object can be in, empty objects, moved-from objects and references included.",
  ["inputs", "histories"], "all contents and histories of the objects of the kinds that have a registered printer",
  "No test runs a debugger.",
  ["prettyPrint/gdb/printers.py"],
  [("layout shared by hand between the printers and the classes", "prettyPrint/gdb/printers.py"), ("string type and capacity bits", "il/container/string/String.h"), ("debug-only members", "il/container/2d/Array2DView.h")], ["what the debugger shows"])

prop("F01", "Formatted printing writes the text its format denotes",
  "Formatting or printing values with a format string gives the text the format specification denotes for every argument type, width, precision, fill, alignment and sign flag, of any length, and an invalid format or missing argument is reported rather than producing other output or touching memory outside the buffers.",
  ["inputs"], "all format strings and argument values of the supported types",
  "No test exercises formatting.",
  ["il/io/format/format.h", "il/io/format/print.cc", "il/print.h"],
  [("growing memory writer", "il/io/format/format.h")], ["output text"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
