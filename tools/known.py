#!/usr/bin/env python3
"""Regenerates known_findings.json: repaired defects (found by commit subject) and recorded ones."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    log[s] = h

FIXED = [
    ("read datetime64/timedelta64 scalars as signed integers", "C01", "negative datetime64/timedelta64 scalars read as huge unsigned numbers"),
    ("to_list of a multidimensional datetime array returns nested lists", "C01", "to_list of a 2-D datetime array did not nest"),
    ("merging a RecordArray shorter than its fields drops the unreachable tail", "C09", "concatenating a RecordArray shorter than its fields exposed unreachable elements"),
    ("slicing into a non-contiguous multidimensional NumpyArray below another node", "C02", "slices through a strided multidimensional leaf read wrong elements"),
    ("ellipsis slices of a partitioned array that reach the partitioned axis", "C02", "ellipsis slices of partitioned arrays"),
    ("an empty range of a partitioned array keeps its type", "C20", "empty range of a partitioned array lost its type"),
    ("an empty integer array in a slice keeps the number of lists", "C03", "x[:, []] dropped the outer lists"),
    ("paired integer-array indexes stay aligned across missing lists", "C03", "x[[..],[..]] misaligned across missing lists"),
    ("a slice with missing values applied to zero lists gives zero lists", "C03", "x[0:0, [.., None]] gave one list"),
    ("reductions across lists put each result in its own group", "C04",
     "nonlocal reductions attributed results to the wrong group when some groups had only empty lists; regular dimensions raised for empty groups; "
     "argmin/argmax positions wrong with a nonzero first offset"),
    ("argmin/argmax with axis=None of multidimensional and partitioned arrays", "C04", "argmin/argmax axis=None of a 2-D array raised IndexError; wrong offset over partitions"),
    ("sorting of strings, missing lists and lists with nonzero first offsets", "C05",
     "descending string sorts crashed or lost stability; nonzero first offsets gave invalid lists; missing lists inside lists were rearranged; nonlocal sorts "
     "overran a buffer; flat arrays lost missing values"),
    ("num below a list whose first offset is not zero", "C06", "num(axis>=2) was wrong when a list's first offset is not zero"),
    ("sorting records inside lists keeps the number of records", "C05", "sorting records inside lists gave an invalid layout"),
    ("toRegularArray of arrays with a zero-length inner dimension", "C06", "a (2, 1, 0) array became one of length 1"),
    ("run_lengths of empty lists and of unions", "C06", "run_lengths raised or merged runs across empty lists; gave nonsense for unions"),
    ("flatten of unions with missing values, records and multidimensional arrays", "C06",
     "flatten(axis=0) of unions with missing values raised or dropped the wrong elements; flatten(axis=None) exposed unreachable record elements and kept dimensions"),
    ("unflatten with leading empty groups, negative or masked counts", "C06", "unflatten lost leading empty groups, accepted negative counts and misplaced masks across partitions"),
    ("mask and firsts of regular dimensions", "C06", "firsts of regular arrays of size 0 raised; mask treated 2-D boolean masks as flat"),
    ("broadcasting of regular dimensions with lists, size-0 dimensions and unreachable tails", "C10",
     "broadcasting regular arrays with unreachable tails, of size 0, or with jagged or flat arguments raised or gave wrong lengths"),
    ("is_none below multidimensional arrays", "C07", "is_none(axis=1) of a 2-D array returned its data"),
    ("pad_none(axis=0, clip=True) of an UnmaskedArray clips", "C07", "pad_none(clip=True) did not clip an UnmaskedArray"),
    ("arrays of strings are partitioned like any other array", "C20", "pairing an array of strings with a partitioned array used the whole array in each partition"),
    ("broadcasting zero lists with a nonzero first offset", "C10", "broadcasting a zero-length list array with first offset 2 against one stored as starts/stops raised"),
    ("buffer overrun in combinations of regular lists shorter than n", "C08", "combinations of a regular array with n > size corrupted the heap and aborted"),
    ("regular dimensions of size 1 broadcast with size 0", "C08", "cartesian of a regular size-0 list with any other regular list raised"),
    ("merging real numbers into a complex array", "C09", "concatenating real with complex numbers gave garbage"),
    ("reverse_merge of IndexedArrays with 32-bit indexes", "C09", "concatenating an array with a 32-bit IndexedArray raised"),
    ("merging an option-type array with a later IndexedArray stays option-type", "C09", "None became index -1 of a non-option array"),
    ("virtual arrays are materialized before choosing how to merge them", "C09", "merging a virtual option-type or union array raised"),
    ("concatenate merges only mutually mergeable arrays", "C09", "an EmptyArray between incompatible arrays made concatenate raise"),
    ("concatenate checks the depth of partitioned arrays for negative axis", "C09", "negative axis was resolved against the first array only when partitioned"),
    ("where with a multidimensional NumPy condition", "C09", "where with a 2-D condition gave an invalid array"),
    ("strings broadcast with regular lists", "C09", "where with a regular condition and strings took the strings' characters as list structure and gave an invalid array"),
    ("merging records without fields", "C09", "concatenating records without fields raised or aborted the process"),
    ("arrays of different lengths are not cut to the partitions of another", "C09", "an array longer than a partitioned one was silently cut"),
    ("where broadcasts scalars with multidimensional arrays inside lists", "C09", "where gave a union instead of broadcasting a scalar over a 2-D array inside lists"),
    ("concatenate of missing lists and of strings at axis >= 1", "C09", "missing lists swallowed the other arrays' elements; strings were taken as lists of characters and gave invalid arrays"),
    ("ArrayBuilder converting integers to complex overran its buffer", "C11", "appending a complex number after integers overran a buffer"),
    ("ArrayBuilder end_record after a complex number raises", "C11", "end_record directly after a complex number was accepted"),
    ("ArrayBuilder keeps strings and bytestrings apart", "C11", "strings and bytestrings were merged into one type"),
    ("ArrayBuilder index of nested tuples and of negative positions", "C11", "index() of a nested tuple selected a field of the outer one; negative positions were accepted"),
    ("ArrayBuilder clear of records, tuples and open structures", "C11", "clear() left stale data or open structures"),
    ("growable buffers of size 0 grow", "C11", "ArrayBuilder(initial=0) never grew and hung"),
    ("Forth bit-width reads of more than 30 bits", "C13", "reads of 31 or more bits per item gave zeros or lost bits"),
    ("Forth division and modulo of extreme integers", "C13", "dividing the smallest integer by -1 killed the process; mod of large integers overflowed"),
    ("Forth negative counts do not move before the input or beyond the output", "C13", "a negative repeat count or rewind moved outside the buffer"),
    ("Forth inputs byte-swapped in place must be writable", "C13", "a read-only input was byte-swapped in place if the program read it again in another way"),
    ("Forth call at the recursion limit overran its buffers", "C14", "call() at the recursion limit wrote outside the recursion stack"),
    ("Forth 64-bit machines keep 64-bit values", "C13", "64-bit machines truncated values read, loop counters and abs to 32 bits"),
    ("Forth exit, single steps and calls keep the do-loop stack in step", "C14",
     "exit inside or below a do loop dropped or kept the wrong loops; stepping through a do loop never ended; call() at a pause advanced the caller's loop"),
    ("from_json parses numbers to full precision", "C15", "from_json rounded doubles wrongly by up to 3 ULP"),
    ("from_json rejects a malformed value at the end of the text", "C15", "from_json accepted \"tru\", \"-\", an open string, ... at the end of the text"),
    ("to_json of multidimensional NumpyArrays in a partition writes no extra brackets", "C15", "to_json of partitions with multidimensional NumpyArrays wrote an extra list level"),
    ("to_json of partitioned arrays accepts the string options", "C15", "to_json raised TypeError on every partitioned array"),
    ("from_json complex_record_fields builds an awkward array", "C15", "from_json(complex_record_fields=...) returned a bare NumPy array and failed on nested data"),
    ("combining missing values no longer overwrites the mask of an input", "C22", "adding, broadcasting or zipping a ByteMaskedArray (valid_when=False) with another array that has missing values wrote the other's missing positions into the first one's mask"),
    ("with_field replacing the only field keeps the structure of the array", "C28", "with_field replacing the only field of records in lists, options or lazy arrays returned a flat record array, ignored lengths and refused scalars"),
    ("zip descends to strings and no further", "C28", "zip of strings returned a single record, of lists of strings stopped one level early, and with a depth_limit tore strings apart"),
    ("forms keep the units of dates in JSON and in to_numpy", "C16", "the form of dates lost its units, so buffers could not be rebuilt"),
    ("from_buffers accepts strided buffers, empty bytes and zero-size items", "C16", "from_buffers(*to_buffers(x)) raised on strided NumpyArrays, empty bytes buffers and shapes with a 0"),
    ("to_buffers of dates", "C16", "to_buffers and pickling raised on dates and time differences"),
    ("from_buffers(lazy=True) of tuples", "C16", "lazily rebuilding an array with tuples raised AttributeError"),
    ("packed keeps parameters, categoricals and zero-size lists", "C16", "packing and pickling dropped parameters and categoricals, raised on zero-size regular lists and kept unreachable data"),
    ("validity errors of char and byte arrays that are not NumpyArrays", "C21", "validity_error crashed on __array__ = 'char'/'byte' given to anything but a NumpyArray"),
    ("combinations at axis=0 of option-type and indexed arrays yield valid arrays", "C21", "combinations(axis=0) of an indexed or option-type array put it inside another IndexedArray"),
    ("validity_error accepts a record", "C21", "validity_error of a layout-level Record raised AttributeError"),
    ("broadcast_arrays does not descend into strings", "C21", "broadcast_arrays of strings returned lists of characters marked as strings"),
    ("cartesian at axis=0 yields valid arrays", "C21", "cartesian(axis=0) of indexed or option-type arrays put them inside another IndexedArray"),
    ("nan_to_num leaves the characters of strings alone", "C21", "nan_to_num dropped the character marks of strings"),
    ("strings broadcast as strings beside lists and records", "C21", "a string and a list of the same length were broadcast character by character; a string and a record broadcast into the string"),
    ("positional reducers over missing lists yield valid arrays", "C21", "argmin/argmax over lists of missing values put an IndexedOptionArray in another"),
    ("selecting from missing records yields valid arrays", "C21", "slicing a masked RecordArray put an IndexedArray inside the option type"),
    ("uniqueness of strings beyond 256 characters and of empty strings", "C21", "is_unique read strings after byte 255 from the start of the buffer and miscounted empty strings, so valid categoricals were reported invalid and the reverse"),
    ("uniqueness of strided arrays", "C21", "is_unique of a strided NumpyArray read its buffer as contiguous"),
    ("elementwise operations on partitioned arrays of unequal lengths, and with per-node state", "C20", "a partitioned array with a length-1 array, and where() on partitioned arrays"),
    ("to_categorical of a partitioned array", "C20", "to_categorical raised on partitioned arrays"),
    ("with_parameter of a partitioned array", "C20", "with_parameter raised on partitioned arrays"),
    ("concatenate partitioned arrays of different types", "C20", "concatenate put partitions of different types in one array"),
    ("where with one argument ignores missing values in every layout", "C20", "ak.where(condition) counted missing values in unpartitioned arrays"),
    ("repartition a zero-length array", "C20", "repartitioning a zero-length array"),
    ("repartitioning with empty partitions at the end read out of bounds", "C20", "repartition to lengths with trailing zeros crashed"),
    ("values_astype of multidimensional NumPy arrays", "C11", "values_astype converted only the first rows of multidimensional NumPy arrays"),
    ("var, std, covar, corr and softmax of regular arrays", "C29", "statistics of regular arrays broadcast the group's mean the wrong way"),
    ("to_numpy and from_numpy of records with missing fields", "C18", "missing values in a record field became uninitialised numbers"),
    ("to_numpy of a lazy array with missing values honors allow_missing", "C18", "np.asarray of a lazy array with missing values gave uninitialised numbers"),
    ("to_numpy and to_pandas of records shorter than their fields", "C18", "conversion of records whose fields are longer than the record array"),
    ("concatenating the partitions of regular arrays keeps them regular", "C20", "regular arrays became ragged when their partitions were joined"),
    ("array-valued slices of partitioned arrays", "C20", "slicing a partitioned array by an empty, regular or multidimensional array"),
    ("reducers of partitioned arrays pass initial and combine records", "C20", "min/max initial was dropped, records were reduced per partition"),
    ("is_unique of a partitioned array compares the partitions with each other", "C20", "duplicates in different partitions"),
    ("operations on partitioned arrays of records whose negative axis is the partitioned one", "C20", "num, sort, pad_none, combinations and local_index with a negative axis on partitioned records of mixed depth"),
    ("ptp without masking of a one-dimensional array", "C29", "ak.ptp(x, axis=0, mask_identity=False) raised on one-dimensional arrays"),
    ("inequality of bytestring characters", "C26", "!= on a byte array raised TypeError"),
    ("records, lists and booleans as categories", "C26", "to_categorical raised on records, merged True with 1, and nested an IndexedArray in an IndexedArray"),
    ("element-wise operations on categoricals with missing values", "C26", "infinite recursion"),
    ("an array of floats is not an index", "C05", "a[ak.Array([0.5, 2.5])] truncated the numbers and took those elements"),
    ("a lazy array as an index is read before it is interpreted", "C19", "a lazy regular boolean array as an index raised"),
    ("a lazy array has the length it was declared with", "C19", "a generator giving more than the declared length: values, sums and slices included the rest, sorting crashed"),
    ("missing fields of records in unions to pandas", "C18", "to_pandas of a union with records read beyond a buffer and showed uninitialised numbers"),
    ("to_categorical of lazy, all-missing and masked arrays", "C26", "IndexError for all-missing and masked arrays; None as a category for lazy ones"),
    ("to_arrow of masked lazy arrays and of strided arrays", "C17", "missing values of options of lazy arrays became numbers; strided contents raised"),
    ("cartesian of lazy strings", "C19", "combined the characters"),
    ("run_lengths of lazy arrays", "C19", "raised NotImplementedError"),
    ("slicing with index arrays of three or more dimensions", "C03", "index arrays of three or more dimensions read uninitialised memory (awkward_slicearray_ravel)"),
    ("argmin and argmax of complex numbers", "C04", "argmin/argmax of complex numbers compared the wrong cells"),
    ("max of complex numbers does not start at zero", "C04", "max of complex numbers below zero was zero"),
    ("overlay_mask of an unsigned index keeps missing values", "C24", "awkward_IndexedArrayU32_overlay_mask8_to64 wrote 4294967295 for missing"),
    ("kernel-specification definitions that did not match their kernels", "C24", "five definitions in kernel-specification.yml differed from their kernels (missing_repeat, jagged_numvalid, ranges_next, ranges_carry_next, fill_scaled)"),
    ("only the outermost dimension of a parsed high-level type is an array length", "C23", "parsing a high-level type with a fixed-size dimension inside gave an ArrayType inside"),
    ("the type parser unescapes strings", "C23", "escaped characters in field names and string parameters did not survive parsing"),
    ("from_numpy of strided or empty arrays of strings", "C18", "from_numpy of strided S/U arrays and empty U arrays raised"),
    ("from_numpy of a field of a packed structured array is a valid layout", "C18", "from_numpy of a packed structured array gave a layout that is_valid rejects"),
    ("from_numpy of multidimensional masked strings without a mask", "C18", "from_numpy of a 2-D masked array of strings with no mask raised AttributeError"),
    ("to_numpy of dates and time differences", "C18", "to_numpy of dates returned a layout or raised"),
    ("to_numpy of lists of size zero keeps their number; unreachable elements are ignored", "C18", "to_numpy of n lists of size 0 had shape (0, 0); unreachable missing values raised"),
    ("missing time differences stay missing in to_pandas", "C18", "missing timedelta64 became large numbers in to_pandas"),
    ("run_lengths of lists of optional strings counts runs of missing values", "C06", "run_lengths([['a', None, None]]) of lists of optional strings raised an error"),
    ("to_arrow nests fixed-size dimensions as lists instead of tensors inside other arrays, and converts dates", "C17", "to_arrow of lists of 2-dimensional NumPy data and of dates raised errors"),
    ("to_arrow converts unions with missing values and unions whose contents are not used in full", "C17", "to_arrow of such unions raised errors"),
    ("from_arrow reads dictionaries with missing positions, of any index type, and as non-nullable columns", "C17", "from_arrow of a dictionary array whose indices are not int32 or have missing values gave wrong values or raised errors"),
    ("from_arrow reads a slice of a sparse union from its own offset", "C17", "from_arrow(sparse_union[1:]) gave the values of another slice"),
    ("from_arrow reads the missing values of a slice of structs from the slice's own offset", "C17", "from_arrow(structs[1:]) put the missing structs at the wrong positions"),
    ("to_parquet writes partitions whose lists differ only in offset size", "C17", "to_parquet of a partitioned array raised 'Table schema does not match' when one partition has 32-bit and another 64-bit lists"),
    ("from_arrow gives arrays of the null type their own length", "C17", "from_arrow of a slice of pyarrow.nulls raised an error"),
    ("compiled strings and builder field names use the llvmlite types that exist", "C25", "b.field('x'), b.string and every access to an array of strings failed to compile (llvmlite.llvmpy is gone)"),
    ("compiled records of multidimensional arrays get the same type as arrays of them", "C25", "a record whose fields are multidimensional NumPy arrays could not be passed to a compiled function"),
    ("compiled slices of and iteration over partitioned arrays find the right partition", "C25", "a[1:][0], loops over slices and over empty partitions of partitioned arrays read other elements or outside the partition"),
    ("compiled bit-masked arrays read the bit at the absolute position", "C25", "a[1:][i] of a bit-masked array read a bit of another element, or beyond the mask"),
    ("compiled regular lists of size zero keep their length", "C25", "an array of regular lists of size 0 came out of a compiled function with length 0"),
    ("compiled lazy NumPy arrays with strides are read in order", "C25", "a lazy array that materialises a strided NumPy array read the values in between"),
    ("compiled lazy arrays of strings give strings", "C25", "indexing a lazy array of strings crashed the process"),
    ("compiled fields of lazy records keep the field", "C25", "returning a['x'] of a lazy array of records returned the records"),
    ("compiled lazy arrays take any integer index", "C25", "indexing a lazy array with an int32 or unsigned index failed to compile"),
    ("compiled lazy option arrays are option-type", "C25", "lazy arrays of missing values said that they are not option-type, so compiled functions specialised on it chose wrongly"),
    ("record forms keep the order of their fields in Python", "C16", "records whose field names are not in alphabetical order came back from from_buffers and from pickle with their fields sorted by name, and lazy tuples of more than ten slots were mixed up in compiled code"),
    ("ending a list that was not begun in a record builder raises", "C12", "LayoutBuilder.end_list() on a record form with no open list crashed the process"),
    ("strings_astype of an array without strings", "C30", "strings_astype of an array that holds no strings (or whose lists of strings are all empty) raised TypeError"),
    ("partitioned arrays sliced by lazy, indexed or partitioned multidimensional arrays", "C03", "a partitioned array sliced by a partitioned array of regular lists of integers took each part's positions as positions in that part; by a lazy or indexed one it raised an error"),
    ("where and isclose keep the behavior of their arguments", "C31", "ak.where and ak.isclose dropped the behavior of their arguments, so results were plain arrays"),
    ("records broadcast against regular lists as single values", "C31", "an overloaded function of a record and an array of regular lists failed, or repeated every record, because the record was broadcast as a vector"),
    ("the record name of a union of lists of records", "C31", "a union of lists (or options) of records of one name had no record name, so behaviors registered for arrays of that name did not apply"),
    ("empty ranges of Python regular and record arrays", "C32", "a[2:1] of a Python RegularArray or RecordArray raised TypeError, and selecting no fields lost the length"),
    ("Python byte-masked arrays treat any nonzero mask value as set", "C32", "a Python ByteMaskedArray with a mask byte other than 0 and 1 read the element as missing whatever valid_when is"),
    ("Python list and union arrays check the type of their indexes", "C32", "ListOffsetArray, ListArray and UnionArray accepted an Index of 8-bit integers and arrays that are no Index"),
    ("content of a Python unmasked array", "C32", "UnmaskedArray had no content property (and a contents property that raised AttributeError)"),
    ("ranges of Python bit-masked arrays with an empty mask", "C32", "a range of a Python BitMaskedArray of length 0 raised TypeError"),
    ("ranges of regular arrays slice their identities", "C33", "x[2:] of a RegularArray with identities kept the identities of the elements from the start"),
    ("identities of the contents of masked arrays in deeper levels", "C33", "setidentities of lists of masked or unmasked arrays left most of the inner identities uninitialized (memory garbage)"),
    ("setidentities of records with contents longer than the array", "C33", "setidentities raised ValueError for a RecordArray shorter than one of its contents"),
    ("rows and new axes of NumpyArrays do not carry identities of another length", "C33", "x[0] of a two-dimensional array and x[np.newaxis] carried identities whose number is not the length of the array"),
    ("to_arrow and packed of unions with more index than tags", "C17", "to_arrow (and packed) of a union array whose index is longer than its tags raised IndexError"),
]

KNOWN = [
    dict(id="values-astype-bool-sign", property="C30", keys=["values-astype-bool-sign"],
         what="values_astype to booleans turns negative numbers and NaN into False (ak.values_astype([-1.0], bool) is [False], NumPy's answer is [True]): the kernel awkward_NumpyArray_fill_tobool tests "
              "for > 0, as its definition in the kernel specification and its tests (tests-cpu-kernels, tests-spec) do, so it cannot be repaired with the suite unedited"),
    dict(id="mask-of-lazy-option", property="C19", keys=["mask-of-lazy-option"],
         what="masking a lazy array that turns out to hold missing or indexed values leaves an option inside an option: is_valid(concatenate([ak.mask(lazy, m)] * 2)) is False and ak.packed raises "
              "AttributeError (the values are right); the C++ simplify_optiontype cannot see through a lazy node, and reading it there would end the laziness of ak.mask"),
    dict(id="lazy-part-bitmasked", property="C19", keys=["lazy-part-bitmasked"],
         what="a range or field of a lazy array with a known form that has a BitMaskedArray inside a record, regular list or option raises 'generated array does not conform to expected form': slicing "
              "turns the bits into bytes, which Form::getitem_range predicts only at the top; repairing it needs the prediction in five form classes"),
    dict(id="concatenate-categorical-duplicates", property="C26", keys=["concatenate-categorical-duplicates"],
         what="concatenating two categorical arrays keeps the categorical label on the joined categories, duplicates included, so the result is not a valid categorical: "
              "is_valid(concatenate([to_categorical([1]), to_categorical([1])])) is False (the values are right); repairing it means re-categorising in C++ mergemany"),
    dict(id="arg-position-rank", property="C04", keys=["arg-position-rank"],
         what="argmin/argmax along an axis two or more list levels above the leaves count positions among the lists long enough to take part, not in the "
              "whole group (e.g. argmin([[[5]],[],[[3]]], axis=0) == [[1]], not [[2]]); tests/test_0835-datetime-type.py asserts this behaviour, so it cannot "
              "be repaired with the suite unedited"),
    dict(id="negative-axis-records-in-lists", property="C06", keys=["negative-axis-records-in-lists"],
         what="a negative axis is resolved wrongly for records inside lists: local_index([[{'y': [1, 2]}, {'y': [3]}]], axis=-1) gives [[{'y': 0}, {'y': 1}]] and num "
              "raises; every node re-resolves the axis against its own depth but compares it with the absolute depth (58 call sites of "
              "Content::axis_wrap_if_negative), so the repair is not small"),
    dict(id="negative-axis-records-in-lists-c07", property="C07", keys=["negative-axis-records-in-lists"],
         what="a negative axis is resolved wrongly for records inside lists in is_none and pad_none: pad_none([[{'y': [[1, 2]]}]], 3, axis=-3) raises "
              "(same cause as negative-axis-records-in-lists of C06)"),
    dict(id="cartesian-axis0-nested", property="C08", keys=["cartesian-axis0-nested"],
         what="cartesian(axis=0, nested=...) loses empty groups, cuts partially nested groups to the wrong size and ignores or rejects 'nested' for dicts: "
              "cartesian([[1, 2], [3, 4], [5, 6]], axis=0, nested=[0]) has 4 groups of 2; tests/test_0078-argcross-and-cross.py::test_axis0 asserts the partial nesting, "
              "so it cannot be repaired with the suite unedited"),
    dict(id="negative-axis-records-in-lists-c08", property="C08", keys=["negative-axis-records-in-lists"],
         what="a negative axis is resolved wrongly for records inside lists in combinations: combinations([[{'y': [1, 2]}]], 2, axis=-1) combines at the wrong level "
              "(same cause as negative-axis-records-in-lists of C06)"),
    dict(id="decompile-nested-definition", property="C14", keys=["decompile-nested-definition"],
         what="the decompiled listing of nested word definitions does not compile: ': f : g 3 ; g g + ; f g' lists f before g; a flat listing cannot express "
              "words that call each other, so the repair is not small"),
]

out = []
for subj, pid, what in FIXED:
    h = log["fix: " + subj]
    out.append({"id": "fixed-" + h, "property": pid, "status": "fixed", "commit": h, "what": what,
                "line": "fixed: property=%s %s %s" % (pid, h, what)})
for k in KNOWN:
    out.append(dict(k, status="known"))
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
