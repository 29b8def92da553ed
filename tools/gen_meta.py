#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/libawkward/array/"
O = "src/awkward/operations/"
ALLARR = [A + x + ".cpp" for x in ("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "ByteMaskedArray",
                                   "BitMaskedArray", "UnmaskedArray", "RecordArray", "UnionArray", "EmptyArray")]
T = "exhaustive bounded exploration of the real code against a reference model"

P = []


def p(id, title, statement, over, text, why, files, mech, note, technique=T):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  technique=technique))


p("C01", "Reading any array yields exactly what its buffers denote",
  "For every valid layout, length, iteration, integer indexing with either sign, field access and conversion to Python lists all return "
  "exactly the value that the layout's buffers denote. An integer index outside the array raises an error and never returns data. "
  "Lazily generated, partitioned and strided arrays read the same as the eager, whole, contiguous array with the same content.",
  ["inputs"], "every composition of node types up to the depth bound, every buffer content in the bounded alphabet, every index",
  "tests read a few hand-built layouts; wrong offsets, widths or mask orders only show for particular buffers",
  ALLARR + ["src/python/content.cpp", O + "convert.py", "src/awkward/highlevel.py"],
  [("getitem_at / tolist per node type", A), ("boxing of scalars", "src/python/content.cpp"), ("to_list", O + "convert.py")],
  "exhaustive over the stated layout alphabet; trusts the independent buffer decoder and NumPy")

p("C02", "Basic slicing follows list semantics on every layout",
  "Slicing an array with integers, ranges (any start, stop and step, negative included), new axes, an ellipsis and field names, alone or "
  "combined in a tuple, returns what the same slices return on the nested-list value (NumPy's answer for regular data). "
  "Out-of-range integers and slices deeper than the data raise an error. Slicing the result of a slice is equally right.",
  ["inputs", "histories"], "all layouts of the alphabet x all slice tuples of the alphabet, and two-slice histories",
  "the space of layout x slice-tuple combinations is far beyond the sampled tests",
  ALLARR + ["src/libawkward/Slice.cpp", "src/libawkward/Content.cpp", "src/awkward/partition.py", "src/cpu-kernels/awkward_ListArray_getitem_next_range.cpp"],
  [("getitem_next(at|range|ellipsis|newaxis|field)", A), ("partitioned slicing", "src/awkward/partition.py")],
  "exhaustive over layout and slice alphabets; results the documentation leaves open are not compared")

p("C03", "Advanced slicing selects exactly the requested elements",
  "Slicing with integer arrays, boolean masks, arrays containing missing values and jagged arrays (integer or boolean), alone or combined "
  "with ranges and integers, returns exactly the elements NumPy's rules select for regular data and, for jagged slices, the elements each "
  "inner list selects from its own list. Missing slice entries give missing results in place. Masks or indexes that select outside the array raise an error.",
  ["inputs"], "all layouts of the alphabet x all small index/mask arrays",
  "advanced indexing has one code path per node type per slice kind; tests hit few combinations",
  ALLARR + ["src/libawkward/Slice.cpp", "src/libawkward/Content.cpp", "src/python/content.cpp"],
  [("getitem_next(array|missing|jagged)", A), ("asslice", A), ("toslice", "src/python/content.cpp")],
  "exhaustive over layouts x slice arrays in bound; NumPy is the oracle for regular data")

p("C04", "Reducers equal a per-group fold on every layout, axis and option",
  "sum, prod, min, max, count, count_nonzero, any, all, argmin and argmax along any axis equal the fold of the values in each group, with "
  "missing values skipped, empty groups giving the identity (or a missing value when masking is requested) and keepdims keeping the reduced "
  "dimension. This holds for every element type, every nesting of lists, and every layout that represents the same data. "
  "Positions returned by argmin/argmax index the original (unskipped) group.",
  ["inputs", "configurations"], "layouts x reducers x axes x keepdims x mask_identity x dtypes",
  "local vs. nonlocal reduction, missing values and unordered lists interact; tests sample a few shapes",
  [O + "reducers.py", "src/libawkward/Reducer.cpp", "src/libawkward/Content.cpp"] + ALLARR + ["src/cpu-kernels/awkward_reduce_sum.cpp"],
  [("reduce_next", A), ("Reducer::apply_*", "src/libawkward/Reducer.cpp"), ("high-level reducers", O + "reducers.py")],
  "exhaustive over the layout/axis/option alphabet, compared with a fold over Python lists")

p("C05", "Sorting is an order-respecting, stable permutation of each list",
  "sort and argsort along any axis return, for each list independently, its values in the requested order: a permutation of the input, "
  "ordered, missing values last (argsort positions count the values that are present), and, when stability is requested, equal values in their original order in "
  "both directions. This holds for numbers, booleans, strings and bytestrings of every length and for every layout of the same data; values are never lost, duplicated or moved between lists.",
  ["inputs", "configurations"], "all short value sequences over a small alphabet incl. NaN and missing, lengths across the small-sort threshold, axes, order, stability",
  "sorting defects show only for particular value patterns and lengths",
  [O + "structure.py"] + ALLARR + ["src/cpu-kernels/awkward_sort.cpp", "src/cpu-kernels/awkward_argsort.cpp"],
  [("sort_next/argsort_next", A), ("awkward_sort", "src/cpu-kernels")],
  "exhaustive over short sequences, patterned over long ones")

p("C06", "List-structure operations preserve elements and report true structure",
  "num, flatten, unflatten, local_index, to_regular, from_regular, firsts, singletons and run_lengths agree with their list definitions on "
  "every layout and axis. unflatten inverts flatten, from_regular inverts to_regular, and firsts inverts singletons. "
  "Requests that the data cannot satisfy (irregular to regular, counts that do not add up) raise an error.",
  ["inputs"], "layouts x operations x axes",
  "offsets that do not start at zero, unreachable elements and missing lists are not sampled by tests in combination",
  [O + "structure.py"] + ALLARR, [("offsets_and_flattened, num, localindex, toRegularArray", A), ("unflatten", O + "structure.py")],
  "exhaustive over layout alphabet and axes")

p("C07", "Missing-value operations touch exactly the missing values",
  "is_none, fill_none, pad_none (clipped or not) and mask act on exactly the positions they name, at any axis and in every representation of "
  "missing data: non-missing values are unchanged, list lengths change only as pad_none says, and fill_none leaves no missing value at the "
  "level it fills.",
  ["inputs"], "option layouts x operations x axes x targets x fill values",
  "five representations of missing data, two bit orders and two polarities interact with slicing and nesting",
  [O + "structure.py"] + [A + x for x in ("IndexedArray.cpp", "ByteMaskedArray.cpp", "BitMaskedArray.cpp", "UnmaskedArray.cpp", "ListArray.cpp",
                                          "ListOffsetArray.cpp", "RegularArray.cpp")],
  [("rpad/rpad_and_clip/fillna", A), ("mask/is_none", O + "structure.py")],
  "exhaustive over layouts, axes and targets in bound")

p("C08", "Combinations and Cartesian products enumerate exactly the right tuples",
  "combinations and argcombinations yield, per list, exactly the n-element combinations in lexicographic order, with or without replacement; cartesian "
  "and argcartesian yield exactly the product in lexicographic order, nested as requested. Field names, axis and missing lists are respected, "
  "and the arg forms give the positions of the plain forms.",
  ["inputs", "configurations"], "list-length patterns x n x replacement x axis x nesting x layouts",
  "combinatorial kernels depend on list lengths around n; tests use few lengths",
  [O + "structure.py", "src/cpu-kernels/awkward_ListArray_combinations.cpp"] + ALLARR,
  [("combinations", A), ("cartesian", O + "structure.py")],
  "exhaustive over list-length patterns and n in bound, itertools as oracle")

p("C09", "Concatenation, merging and where keep every element and its order",
  "concatenate along any axis and where return every selected input element unchanged, in order, with none added or lost, whatever the layouts "
  "and types being merged; numeric types widen without losing values and different kinds become a union. "
  "Elements unreachable in the inputs never appear in the result.",
  ["inputs"], "pairs (and triples) of layouts x axes",
  "merging is pairwise over node types: quadratically many code paths",
  [O + "structure.py", "src/libawkward/Content.cpp"] + ALLARR,
  [("mergemany/mergeable/reverse_merge/simplify", A), ("concatenate/where", O + "structure.py")],
  "exhaustive over ordered pairs of the layout alphabet")

p("C10", "Broadcasting and element-wise functions match the element-by-element result",
  "Universal functions, arithmetic operators, broadcast_arrays and zip on any combination of nested, regular, missing, record, union and scalar "
  "arguments equal applying the operation element by element under the documented broadcasting rules. Missing values propagate, results keep the list structure, "
  "and arguments whose lengths do not match raise an error.",
  ["inputs"], "pairs and triples of layouts x operations",
  "broadcasting is pairwise over node types and depths; tests sample a few",
  ["src/awkward/_util.py", "src/awkward/_connect/_numpy.py", O + "structure.py"] + ALLARR,
  [("broadcast_and_apply", "src/awkward/_util.py"), ("array_ufunc", "src/awkward/_connect/_numpy.py")],
  "exhaustive over ordered pairs of the layout alphabet")

p("C11", "ArrayBuilder snapshots equal the appended data for every call history",
  "After any sequence of builder calls, a snapshot equals the data appended so far, whatever types were mixed in whatever order and however often "
  "internal buffers grew. Earlier snapshots are never changed by later calls. Calls that do not fit the current structure raise an error.",
  ["histories"], "all call sequences up to a depth, at minimal buffer growth sizes",
  "builders change type and reallocate as data arrives; only particular histories reach each transition",
  ["src/libawkward/builder/" + x for x in ("ArrayBuilder.cpp", "UnknownBuilder.cpp", "OptionBuilder.cpp", "UnionBuilder.cpp", "ListBuilder.cpp", "RecordBuilder.cpp",
                                           "TupleBuilder.cpp", "GrowableBuffer.cpp", "Int64Builder.cpp", "Float64Builder.cpp", "Complex128Builder.cpp", "DatetimeBuilder.cpp")],
  [("builder state machine", "src/libawkward/builder"), ("GrowableBuffer growth", "src/libawkward/builder/GrowableBuffer.cpp")],
  "exhaustive call histories to the depth bound against a list model; snapshots re-read after later calls",
  "stateful exhaustive exploration of all call histories to a depth bound against a reference model")

p("C12", "LayoutBuilder fills exactly the requested form for every call history",
  "For forms that nest numbers, booleans, variable-length (offset) lists, records, tuples and one indexed option, and for strings, regular lists, indexed, "
  "categorical, masked and union nodes over numbers and records: after any sequence of calls the form allows, every snapshot between complete values holds exactly the "
  "values appended, in order, in the requested structure, however often buffers grew, and earlier snapshots keep their values. A value of a type that the form "
  "does not expect, or closing a list that is not open, raises an error.",
  ["histories", "configurations"], "forms x call histories",
  "the builder is a generated virtual-machine program per form; tests run one history per form",
  ["src/libawkward/layoutbuilder/" + x for x in ("LayoutBuilder.cpp", "FormBuilder.cpp", "RecordArrayBuilder.cpp", "ListOffsetArrayBuilder.cpp",
                                                 "UnionArrayBuilder.cpp", "IndexedOptionArrayBuilder.cpp", "ByteMaskedArrayBuilder.cpp", "BitMaskedArrayBuilder.cpp")],
  [("vm_func / vm_error generation", "src/libawkward/layoutbuilder")],
  "exhaustive histories per form to the depth bound",
  "stateful exhaustive exploration of all call histories to a depth bound against a reference model")

p("C13", "The Forth machine computes what its words mean, for every program",
  "Running a program leaves the stack, variables, outputs and input positions that the documented meaning of its words gives, for 32-bit and 64-bit "
  "machines, including control flow, nested definitions, every typed and byte-swapped read, and typed writes. Failures (stack under/overflow, reading or seeking "
  "beyond an input, division by zero, ...) stop the program with the documented error.",
  ["programs", "inputs"], "all programs up to a length over the word alphabet x input contents",
  "the program space is unbounded; tests run fixed programs",
  ["src/libawkward/forth/ForthMachine.cpp", "src/libawkward/forth/ForthInputBuffer.cpp", "src/libawkward/forth/ForthOutputBuffer.cpp"],
  [("compile + internal_run", "src/libawkward/forth/ForthMachine.cpp")],
  "exhaustive over programs in bound against an independent interpreter",
  "exhaustive exploration of all programs to a length bound, differential against an independent interpreter model")

p("C14", "Interrupted Forth execution equals uninterrupted execution",
  "Executing a program by single steps, by pauses and resumes, or by calls into its words passes through the same states and ends in the same state as "
  "running it, and a machine that is reset, re-run or has failed behaves like a fresh one on its next run. Its decompiled listing recompiles to a program "
  "that behaves identically.",
  ["schedules", "programs", "histories"], "programs x all interleavings of step/resume/run/reset/call up to a depth",
  "tests step a handful of programs; the schedule space of step/resume/call/reset is not sampled",
  ["src/libawkward/forth/ForthMachine.cpp", "src/python/forth.cpp"],
  [("step/resume/call/reset state", "src/libawkward/forth/ForthMachine.cpp"), ("decompiled", "src/libawkward/forth/ForthMachine.cpp")],
  "every schedule of control calls up to the bound; state compared after each",
  "stateless model checking of control-call schedules on the real machine")

p("C15", "JSON conversion is lossless and rejects malformed input",
  "Parsing a JSON document gives the same data as a standard JSON parser (all numbers, escapes, nesting, nulls, mixed types, several documents), whatever the buffer sizes, "
  "and writing then re-reading an array gives equal data. Malformed documents raise an error rather than giving partial data, and the chosen strings for NaN and infinities convert both ways.",
  ["inputs"], "all small documents over a JSON grammar; all truncations and single-character edits of them; buffer sizes",
  "a streaming parser's chunk boundaries and type transitions depend on byte positions",
  ["src/libawkward/io/json.cpp", "src/python/io.cpp", O + "convert.py"],
  [("SAX handler to builder", "src/libawkward/io/json.cpp"), ("ToJson*", "src/libawkward/io/json.cpp")],
  "exhaustive over grammar-bounded documents and edits; Python's json as oracle")

p("C16", "Buffers, pickling and copies round-trip every array",
  "Decomposing an array into a form and named buffers and rebuilding it, or pickling and unpickling it, or packing it, gives an array with the same type, parameters and values for every layout, "
  "partitioned or not, lazily rebuilt or not. Buffers never refer to data outside the array being saved beyond what the form says, and too-short buffers raise an error.",
  ["inputs", "configurations"], "layouts x key formats x partitions x lazy/eager x packed/not",
  "each node type serialises its own buffers; tests use canonical layouts",
  [O + "convert.py", O + "structure.py", "src/awkward/highlevel.py"],
  [("to_buffers/from_buffers", O + "convert.py"), ("packed", O + "structure.py"), ("__getstate__/__setstate__", "src/awkward/highlevel.py")],
  "exhaustive over the layout alphabet")

p("C17", "Arrow conversion preserves values, missing data and structure",
  "Converting any supported array to Arrow and back gives the same values, nesting, missing positions, strings, records and dates, and an Arrow array, chunked array or table "
  "(sliced with any offset) reads as exactly the values Arrow itself reports. Saving to Parquet and reading back eagerly gives the same data.",
  ["inputs"], "layouts x conversion options; Arrow arrays x slice offsets",
  "Arrow validity bitmaps have bit offsets; tests use unsliced arrays",
  [O + "convert.py"], [("to_arrow/from_arrow", O + "convert.py")],
  "exhaustive over layouts and Arrow slices in bound; pyarrow is the oracle")

p("C18", "Python, NumPy and pandas conversions preserve data",
  "from_iter/to_list, from_numpy/to_numpy (structured, masked, strided and multidimensional arrays included), and to_pandas give back the same values, types and index structure; conversions "
  "that would lose structure raise an error instead. Converting never silently changes integers, dates, missing values or strings.",
  ["inputs"], "all small nested Python values; NumPy arrays of every dtype, shape, order and mask; layouts for to_numpy and to_pandas",
  "conversions are type-directed with many branches",
  [O + "convert.py", "src/python/content.cpp", A + "NumpyArray.cpp"],
  [("from_iter/from_numpy/to_numpy/to_pandas", O + "convert.py")],
  "exhaustive over value and dtype alphabets in bound")

p("C19", "Lazy arrays materialise on demand, at most once, and to the same data",
  "A lazy array gives the same values, type and operation results as the eager array, in any order of accesses, slices and field selections. With a cache that keeps its items the generator runs at most once "
  "per array, without one it may run again but never changes the result; nothing is generated before it is needed. A generator returning the wrong length or form is reported as an error.",
  ["histories", "schedules"], "all access histories up to a depth x cache policies (keeping, dropping, evicting at any point)",
  "the cache can lose entries between any two steps; tests use one order",
  ["src/libawkward/virtual/ArrayGenerator.cpp", "src/libawkward/virtual/ArrayCache.cpp", A + "VirtualArray.cpp", "src/python/virtual.cpp"],
  [("generate_and_check", "src/libawkward/virtual/ArrayGenerator.cpp"), ("cache get/set", "src/libawkward/virtual/ArrayCache.cpp")],
  "all access histories x eviction schedules in bound",
  "stateless model checking: all access histories x all cache-eviction schedules to a bound on the real code")

p("C20", "Partitioning is transparent",
  "Every operation on a partitioned array gives the same values (and the same types, up to the regularity of lists and options without missing values) as on the same data in one piece, for every way to cut it into partitions (empty ones included). Repartitioning keeps all elements in order.",
  ["inputs", "configurations"], "arrays x all partitionings x operations",
  "partition boundaries relative to slices, reducers and pairings are not sampled",
  ["src/awkward/partition.py", "src/libawkward/partition/PartitionedArray.cpp", "src/libawkward/partition/IrregularlyPartitionedArray.cpp", O + "structure.py", O + "reducers.py"],
  [("partition-wise evaluation", "src/awkward/partition.py"), ("getitem_range", "src/libawkward/partition/PartitionedArray.cpp")],
  "all compositions of the length into partitions x operations")

p("C21", "Validity checking is exact and operations keep arrays valid",
  "Validity checking accepts an array exactly when every offset, index, tag, mask and length in it is in bounds and its nesting is canonical. Every operation applied to valid arrays yields valid arrays.",
  ["inputs", "histories"], "all small buffer contents per node type, valid or not; operations x layouts",
  "tests validate a few arrays; off-by-one limits need the boundary values",
  ALLARR + ["src/cpu-kernels/awkward_ListArray_validity.cpp", "src/cpu-kernels/awkward_IndexedArray_validity.cpp", "src/cpu-kernels/awkward_UnionArray_validity.cpp", O + "describe.py"],
  [("validityerror", A), ("*_validity kernels", "src/cpu-kernels")],
  "exhaustive over all buffer contents in bound")

p("C22", "Operations never modify their inputs",
  "No operation changes the values, type or buffers of the arrays given to it; results that share memory are views whose values equal the inputs' at the time. "
  "Only the documented in-place forms (assigning a field to a high-level array) change an array, and then not other arrays sharing its layout.",
  ["inputs", "histories"], "operations x layouts, with buffers compared byte for byte before and after",
  "tests rarely look at inputs after an operation",
  ALLARR + [O + "structure.py", O + "reducers.py", "src/awkward/highlevel.py"],
  [("copy-on-transform", A), ("setitem", "src/awkward/highlevel.py")],
  "byte comparison of every input buffer around every operation in the alphabet")

p("C23", "Types and forms describe the data and survive text round-trips",
  "An array's type and form agree with its data and with each other, printing a type (over the primitives the type grammar names) and parsing it back gives an equal type, and a form survives JSON and pickling. Types compare equal exactly when they describe the same "
  "structure (named fields in any order), array kinds and record names, and the type of a slice or element is the corresponding part of the array's type.",
  ["inputs"], "all types over the constructors to a depth, with parameters; all layouts",
  "the type grammar is recursive",
  ["src/libawkward/type", "src/awkward/_typeparser", "src/awkward/types.py", "src/libawkward/Content.cpp"],
  [("type printing", "src/libawkward/type"), ("type parser", "src/awkward/_typeparser"), ("Form::fromjson", "src/libawkward/Content.cpp")],
  "exhaustive over types/forms to the depth bound")

p("C24", "Every compute kernel equals its reference definition",
  "Each low-level kernel, for every integer-width specialisation, produces the outputs and error outcome of its reference definition in the kernel specification for every input, and writes nothing outside its outputs.",
  ["inputs"], "all small buffer contents for every specialisation of every kernel",
  "specialisations are separate instantiations; existing kernel tests use a few fixed vectors",
  ["src/cpu-kernels", "kernel-specification.yml", "include/awkward/kernels.h"],
  [("kernels", "src/cpu-kernels"), ("reference definitions", "kernel-specification.yml")],
  "exhaustive over bounded buffers; output arrays guarded by canaries",
  "exhaustive bounded input enumeration of the compiled kernels against the executable specification")

p("C25", "Compiled (Numba) access equals interpreted access",
  "Inside compiled functions, indexing, slicing, iterating, field access, length and builder calls on any array give the same results and errors as outside, and arrays returned from compiled functions equal those passed in.",
  ["inputs"], "layouts x compiled accessor functions",
  "the compiled code re-implements each node type's access",
  ["src/awkward/_connect/_numba/arrayview.py", "src/awkward/_connect/_numba/layout.py", "src/awkward/_connect/_numba/builder.py"],
  [("lookup arrays and generated IR", "src/awkward/_connect/_numba")],
  "exhaustive over the layout alphabet (one per compiled type) and all index positions",
  "exhaustive differential exploration of compiled vs interpreted access")

p("C26", "Strings and categoricals behave as values",
  "Strings and bytestrings compare, sort, merge and broadcast as whole values, and categorical arrays behave as the values they stand for while to_categorical/from_categorical round-trip. Equality of strings is exact for every length and content, including empty and non-ASCII.",
  ["inputs"], "all short strings over a small alphabet, in pairs, in every string layout",
  "string equality is implemented by masks and counts over character buffers",
  ["src/awkward/behaviors/string.py", "src/awkward/behaviors/categorical.py", O + "structure.py", A + "ListOffsetArray.cpp", A + "NumpyArray.cpp"],
  [("_string_equal", "src/awkward/behaviors/string.py"), ("to_categorical", O + "structure.py"), ("unique/is_subrange_equal", A)],
  "exhaustive over short strings and layouts")

p("C27", "Reading malformed layouts raises errors and never returns foreign data",
  "On a layout whose offsets, starts, stops, indexes or tags point outside its content, reading (integer indexing, ranges, integer arrays and masks on the first dimension, "
  "field access, iteration, to_list, to_json) either raises an error or returns only values inside the layout's buffers: every element whose own references are in bounds "
  "reads as the value it denotes, every element with a reference out of bounds raises, and no value from outside the buffers ever appears.",
  ["inputs", "fault_sequences"], "all small out-of-range contents of every buffer of every node, alone and under every other node x ways of reading",
  "tests never read corrupted buffers systematically; one missing bounds check shows only for a particular value in a particular node",
  ALLARR + ["src/cpu-kernels", "src/libawkward/Content.cpp"],
  [("bounds checks of getitem_at/getitem_range/getitem_next", "src/libawkward/array"), ("bounds checks in kernels", "src/cpu-kernels")],
  "exhaustive over the corruptions in bound, with marked guard zones around every buffer",
  "exhaustive fault enumeration on the real code, against the denotation of the buffers")

p("C28", "Record operations address fields exactly",
  "zip, unzip, with_field, with_name, field assignment and field listing add, replace and return exactly the named fields at any nesting depth and leave all other fields and the lengths unchanged (new values are broadcast to the records by the usual rules; a replaced field moves to the end). Tuples stay tuples unless names are given.",
  ["inputs", "histories"], "record layouts x field operations and histories of field assignments",
  "nested field paths and mixed tuple/record cases are not sampled",
  [O + "structure.py", "src/awkward/highlevel.py", A + "RecordArray.cpp"],
  [("with_field/zip/unzip", O + "structure.py"), ("setitem_field", A + "RecordArray.cpp")],
  "exhaustive over record layouts and assignment histories")

p("C29", "Derived statistics equal their definition on each group",
  "mean, moment, var, std, covar, corr, linear_fit and ptp along any axis (or all of them), and softmax, equal their documented formula evaluated on the values of each group that are present, with or without weights, "
  "for every layout, regular or variable-length, and for every keepdims and mask_identity: a group without values gives a missing value, or the result of the formula on no values when masking is off.",
  ["inputs", "configurations"], "numeric layouts x statistics x axes x weights x keepdims x mask_identity",
  "the statistics combine several reducers with broadcasting; a wrong pairing of group and mean shows only for particular shapes",
  [O + "reducers.py", "src/awkward/_util.py", "src/awkward/_connect/_numpy.py"],
  [("mean/var/covar/corr/linear_fit/softmax/ptp", O + "reducers.py")],
  "exhaustive over the numeric layout alphabet and the options")

p("C30", "Value conversions change each value and nothing else",
  "values_astype, strings_astype, nan_to_num, zeros_like, ones_like, full_like and isclose convert, replace or compare each value as NumPy does for the same element types (strings as whole values, complex numbers "
  "to real ones by their real part) and leave list structure, missing values, records, unions, strings that are not addressed and lengths as they are; with_parameter and without_parameters change parameters and no value.",
  ["inputs", "configurations"], "layouts x element types x conversions",
  "conversions go through a separate code path for each pair of element types and through every node type",
  [O + "structure.py", "src/libawkward/array/NumpyArray.cpp", "src/cpu-kernels/awkward_NumpyArray_fill.cpp"],
  [("values_astype/strings_astype/full_like/nan_to_num/isclose", O + "structure.py"), ("numbers_to_type of each node", "src/libawkward/array/"), ("as_type", "src/libawkward/array/NumpyArray.cpp")],
  "exhaustive over pairs of element types and over the layout alphabet")

p("C31", "Behaviors apply to exactly the arrays and records that carry their name",
  "An array or record whose name has a registered class is an object of that class, however deeply nested or laid out, and however it was reached (indexing, slicing, iteration, field access, or as the result of an operation); "
  "the array's own behavior takes precedence over the global one and is passed on to everything derived from it; overloaded functions are applied to the records of that name at every depth, with numbers, records and "
  "converted objects broadcast to them, and functions without an overload are refused.",
  ["inputs", "configurations"], "registries x layouts x operations",
  "the class of each object is worked out anew, from parameters found through every node type, by each operation",
  ["src/awkward/_util.py", "src/awkward/highlevel.py", "src/awkward/_connect/_numpy.py", "src/awkward/behaviors/mixins.py"],
  [("arrayclass/recordclass/custom_ufunc/behaviorof/broadcast_pack", "src/awkward/_util.py"), ("array_ufunc", "src/awkward/_connect/_numpy.py"), ("purelist_parameter", "src/libawkward/array/"), ("mixin_class", "src/awkward/behaviors/mixins.py")],
  "exhaustive over registries and the layout alphabet")

p("C32", "Python node classes read the same values as the compiled ones",
  "The node classes of awkward._v2 (the Python refactoring of the compiled layout nodes) hold the same arrays: for every valid combination of buffers, elements, ranges, fields and their compositions have the values that the "
  "compiled node has, positions and fields that do not exist are refused, and constructors accept exactly the index types and lengths that describe an array.",
  ["inputs"], "layouts x element, range and field access",
  "negative positions, empty ranges, mask conventions and over-long buffers are handled separately in each of 13 classes",
  ["src/awkward/_v2/"],
  [("_getitem_at/_getitem_range/_getitem_field of each node", "src/awkward/_v2/contents/"), ("Index", "src/awkward/_v2/index.py"), ("Record", "src/awkward/_v2/record.py")],
  "exhaustive over the layout alphabet and all bounds")

p("C33", "Identities name the place an element came from",
  "After setidentities, the identity attached to every node of an array is, for each of its elements, the path of positions and field names at which that element lies in the array; any slice or sequence of slices (ranges, "
  "positions, arrays, masks, jagged arrays, fields) leaves every surviving element with the identity of its original place, and no identity belongs to another element or to none.",
  ["inputs"], "layouts x slices x slices of their results",
  "each node type computes the identities of its content with its own kernel and carries them through its own slicing code",
  ["src/libawkward/Identities.cpp", "src/libawkward/array/", "src/cpu-kernels/"],
  [("setidentities of each node", "src/libawkward/array/"), ("Identities_from_*/Identities_extend", "src/cpu-kernels/"), ("IdentitiesOf::getitem_*", "src/libawkward/Identities.cpp")],
  "exhaustive over the layout alphabet and slices")

NA = {
}


def design():
    """fills the generated lists of DESIGN.md"""
    path = os.path.join(V, "DESIGN.md")
    d = open(path).read()
    found = json.load(open(os.path.join(V, "known_findings.json")))
    found = found if isinstance(found, list) else found["findings"]

    def put(name, text):
        a, b = "<!-- begin %s -->" % name, "<!-- end %s -->" % name
        i, j = d.index(a) + len(a), d.index(b)
        return d[:i] + text + d[j:]

    d = put("nfixed", str(sum(1 for x in found if x["status"] == "fixed")))
    d = put("known", "\n" + "".join("* **%s %s**: %s\n" % (x["property"], x["id"], x["what"]) for x in found if x["status"] != "fixed"))
    rows = "\n| change | property | needs | caught by |\n|---|---|---|---|\n"
    for s in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
        rows += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"], m.get("caught_by", m["property"]))
    d = put("seeded", rows)
    with open(path, "w") as f:
        f.write(d)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, "checks", q["id"].lower() + ".py")) and q["id"] not in NA:
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                           "technique": q["technique"], "level": "model_checking", "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "/opt/vp/venv/bin/python vlib/build.py plain asan", "checks": checks, "not_applicable": na,
         "notes": "All checks explore /repo's current working tree, rebuilt into /verif/.cache (content-hash keyed)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()
    for q in P:
        assert len(q["title"]) <= 80, q["title"]


main()
