"""Alphabets, domains and supplementary definitions for C24."""
import itertools
import re

import numpy as np

kMaxInt64 = 9223372036854775806


class _Any:
    """written by a definition where the kernel may leave anything"""


ANY = _Any()


def regularize(start, stop, step, length):
    s = slice(None if start == kMaxInt64 + 1 else start, None if stop == kMaxInt64 + 1 else stop, step)
    return range(*s.indices(length))


NAMES = {"uint8": np.uint8, "kMaxInt64": kMaxInt64, "kSliceNone": kMaxInt64 + 1, "numpy": np, "ANY": ANY, "regularize": regularize,
         "combos": itertools.combinations, "multicombos": itertools.combinations_with_replacement}
NAMES["float"] = lambda x: x        # in the definitions float(x) stands for a C cast to the output's type

# Definitions for kernels the specification leaves undefined, and for the few whose Python text there cannot run
# (they call a C helper that changes its arguments).
EXTRA = {
    "awkward_ListArray_getitem_next_range": """
def awkward_ListArray_getitem_next_range(tooffsets, tocarry, fromstarts, fromstops, lenstarts, start, stop, step):
    k = 0
    tooffsets[0] = 0
    for i in range(lenstarts):
        for j in regularize(start, stop, step, fromstops[i] - fromstarts[i]):
            tocarry[k] = fromstarts[i] + j
            k += 1
        tooffsets[i + 1] = k
""",
    "awkward_ListArray_getitem_next_range_carrylength": """
def awkward_ListArray_getitem_next_range_carrylength(carrylength, fromstarts, fromstops, lenstarts, start, stop, step):
    carrylength[0] = sum([len(regularize(start, stop, step, fromstops[i] - fromstarts[i])) for i in range(lenstarts)])
""",
    "awkward_slicearray_ravel": """
def awkward_slicearray_ravel(toptr, fromptr, ndim, shape, strides):
    where = [0]
    for d in range(ndim):
        where = [w + i * strides[d] for w in where for i in range(shape[d])]
    for k, w in enumerate(where):
        toptr[k] = fromptr[w]
""",
    "awkward_IndexedArray_local_preparenext_64": """
def awkward_IndexedArray_local_preparenext_64(tocarry, starts, parents, parentslength, nextparents, nextlen):
    j = 0
    for i in range(parentslength):
        if j < nextlen and parents[i] == nextparents[j]:
            tocarry[i] = j
            j += 1
        else:
            tocarry[i] = -1
""",
    "awkward_ListOffsetArray_local_preparenext_64": """
def awkward_ListOffsetArray_local_preparenext_64(tocarry, fromindex, length):
    for i, (_, k) in enumerate(sorted([(fromindex[i], i) for i in range(length)])):
        tocarry[i] = k
""",
    "awkward_ListOffsetArray_reduce_nonlocal_preparenext_64": """
def awkward_ListOffsetArray_reduce_nonlocal_preparenext_64(nextcarry, nextparents, nextlen, maxnextparents, distincts, distinctslen,
                                                           offsetscopy, offsets, length, parents, maxcount):
    maxnextparents[0] = 0
    for i in range(distinctslen):
        distincts[i] = -1
    k, seen = 0, {}
    for diff in range(maxcount):
        j = 0
        for i in range(length):
            if diff < offsets[i + 1] - offsets[i]:
                p = parents[i] * maxcount + diff
                nextcarry[k] = offsets[i] + diff
                nextparents[k] = p
                maxnextparents[0] = max(maxnextparents[0], p)
                if p not in seen:
                    seen[p] = j
                    distincts[p] = j
                    j += 1
                k += 1
    for i in range(length):
        offsetscopy[i] = offsets[i + 1]
""",
    "awkward_NumpyArray_copy": """
def awkward_NumpyArray_copy(toptr, fromptr, len):
    for i in range(len):
        toptr[i] = fromptr[i]
""",
    "awkward_NumpyArray_contiguous_copy": """
def awkward_NumpyArray_contiguous_copy(toptr, fromptr, len, stride, pos):
    for i in range(len):
        for j in range(stride):
            toptr[i * stride + j] = fromptr[pos[i] + j]
""",
    "awkward_NumpyArray_getitem_next_null": """
def awkward_NumpyArray_getitem_next_null(toptr, fromptr, len, stride, pos):
    for i in range(len):
        for j in range(stride):
            toptr[i * stride + j] = fromptr[pos[i] * stride + j]
""",
    "awkward_ListOffsetArray_argsort_strings": """
def awkward_ListOffsetArray_argsort_strings(tocarry, fromparents, length, stringdata, stringstarts, stringstops, is_stable, is_ascending, is_local):
    words = [bytes([stringdata[j] for j in range(stringstarts[i], stringstops[i])]) for i in range(length)]
    first = 0
    while first < length:
        last = first
        while last < length and fromparents[last] == fromparents[first]:
            last += 1
        for k, i in enumerate(sorted(range(first, last), key=lambda i: words[i], reverse=not is_ascending)):
            tocarry[first + k] = i - first if is_local else i
        first = last
""",
    "awkward_NumpyArray_sort_asstrings_uint8": """
def awkward_NumpyArray_sort_asstrings_uint8(toptr, fromptr, offsets, offsetslength, outoffsets, ascending, stable):
    words = [bytes([fromptr[j] for j in range(offsets[i], offsets[i + 1])]) for i in range(offsetslength - 1)]
    words.sort(reverse=not ascending)
    k = 0
    outoffsets[0] = 0
    for i, w in enumerate(words):
        for c in w:
            toptr[k] = c
            k += 1
        outoffsets[i + 1] = k
""",
    "awkward_ListArray_combinations": """
def awkward_ListArray_combinations(tocarry, toindex, fromindex, n, replacement, starts, stops, length):
    k = 0
    for i in range(length):
        for t in (multicombos if replacement else combos)(range(starts[i], stops[i]), n):
            for j in range(n):
                tocarry[j][k] = t[j]
            k += 1
""",
    "awkward_RegularArray_combinations_64": """
def awkward_RegularArray_combinations_64(tocarry, toindex, fromindex, n, replacement, size, length):
    k = 0
    for i in range(length):
        for t in (multicombos if replacement else combos)(range(i * size, i * size + size), n):
            for j in range(n):
                tocarry[j][k] = t[j]
            k += 1
""",
    "awkward_argsort": """
def awkward_argsort(toptr, fromptr, length, offsets, offsetslength, ascending, stable):
    for i in range(offsetslength - 1):
        x = [fromptr[j] for j in range(offsets[i], offsets[i + 1])]
        for k, j in enumerate(sorted(range(len(x)), key=lambda j: x[j], reverse=not ascending)):
            toptr[offsets[i] + k] = j
""",
    "awkward_sort": """
def awkward_sort(toptr, fromptr, length, offsets, offsetslength, parentslength, ascending, stable):
    for i in range(offsetslength - 1):
        for k, v in enumerate(sorted([fromptr[j] for j in range(offsets[i], offsets[i + 1])], reverse=not ascending)):
            toptr[offsets[i] + k] = v
""",
    "awkward_quick_sort": """
def awkward_quick_sort(tmpptr, tmpbeg, tmpend, fromstarts, fromstops, ascending, length, maxlevels):
    for i in range(length):
        for k, v in enumerate(sorted([tmpptr[j] for j in range(fromstarts[i], fromstops[i])], reverse=not ascending)):
            tmpptr[fromstarts[i] + k] = v
""",
    "awkward_unique": """
def awkward_unique(toptr, length, tolength):
    out = []
    for i in range(length):
        v = toptr[i]
        if len(out) == 0 or out[-1] != v:
            out.append(v)
    for i in range(length):
        toptr[i] = out[i] if i < len(out) else ANY
    tolength[0] = len(out)
""",
    "awkward_sorting_ranges": """
def awkward_sorting_ranges(toindex, tolength, parents, parentslength):
    cuts = [0] + [i for i in range(1, parentslength) if parents[i - 1] != parents[i]] + [parentslength]
    if len(cuts) != tolength:
        raise Prune
    for i, c in enumerate(cuts):
        toindex[i] = c
""",
    "awkward_sorting_ranges_length": """
def awkward_sorting_ranges_length(tolength, parents, parentslength):
    tolength[0] = 2 + sum([parents[i - 1] != parents[i] for i in range(1, parentslength)])
""",
    "awkward_NumpyArray_fill_tocomplex": """
def awkward_NumpyArray_fill_tocomplex(toptr, tooffset, fromptr, length):
    for i in range(length):
        toptr[tooffset + 2 * i] = fromptr[i]
        toptr[tooffset + 2 * i + 1] = 0
""",
    "awkward_reduce_countnonzero_complex": """
def awkward_reduce_countnonzero_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(outlength):
        toptr[i] = 0
    for i in range(lenparents):
        toptr[parents[i]] += 1 if fromptr[i * 2] != 0 or fromptr[i * 2 + 1] != 0 else 0
""",
    "awkward_reduce_sum_bool_complex": """
def awkward_reduce_sum_bool_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(outlength):
        toptr[i] = False
    for i in range(lenparents):
        toptr[parents[i]] = toptr[parents[i]] or fromptr[i * 2] != 0 or fromptr[i * 2 + 1] != 0
""",
    "awkward_reduce_prod_bool_complex": """
def awkward_reduce_prod_bool_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(outlength):
        toptr[i] = True
    for i in range(lenparents):
        toptr[parents[i]] = toptr[parents[i]] and (fromptr[i * 2] != 0 or fromptr[i * 2 + 1] != 0)
""",
    "awkward_reduce_sum_complex": """
def awkward_reduce_sum_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(2 * outlength):
        toptr[i] = 0
    for i in range(lenparents):
        p = parents[i]
        toptr[p * 2] += fromptr[i * 2]
        toptr[p * 2 + 1] += fromptr[i * 2 + 1]
""",
    "awkward_reduce_prod_complex": """
def awkward_reduce_prod_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(outlength):
        toptr[i * 2] = 1
        toptr[i * 2 + 1] = 0
    for i in range(lenparents):
        p = parents[i]
        z = complex(toptr[p * 2], toptr[p * 2 + 1]) * complex(fromptr[i * 2], fromptr[i * 2 + 1])
        toptr[p * 2] = z.real
        toptr[p * 2 + 1] = z.imag
""",
}
for _n, _op in (("max", ">"), ("min", "<")):
    EXTRA["awkward_reduce_%s_complex" % _n] = """
def awkward_reduce_%s_complex(toptr, fromptr, parents, lenparents, outlength, identity):
    for i in range(outlength):
        toptr[i * 2] = identity
        toptr[i * 2 + 1] = 0
    for i in range(lenparents):
        p = parents[i]
        if (fromptr[i * 2], fromptr[i * 2 + 1]) %s (toptr[p * 2], toptr[p * 2 + 1]):
            toptr[p * 2] = fromptr[i * 2]
            toptr[p * 2 + 1] = fromptr[i * 2 + 1]
""" % (_n, _op)
    EXTRA["awkward_reduce_arg%s_complex" % _n] = """
def awkward_reduce_arg%s_complex(toptr, fromptr, parents, lenparents, outlength):
    for i in range(outlength):
        toptr[i] = -1
    for i in range(lenparents):
        p = parents[i]
        j = toptr[p]
        if j == -1 or (fromptr[i * 2], fromptr[i * 2 + 1]) %s (fromptr[j * 2], fromptr[j * 2 + 1]):
            toptr[p] = i
""" % (_n, _op)

POS = [10]           # data that is only moved: every cell holds its own value
MOVES = {"awkward_slicearray_ravel", "awkward_NumpyArray_copy", "awkward_NumpyArray_contiguous_copy", "awkward_NumpyArray_getitem_next_null"}
INOUT = {("awkward_unique", "toptr")}
SCRATCH = {"tmpbeg", "tmpend"}


def scratch(kernel, name):
    return name in SCRATCH or kernel.endswith(("_combinations", "_combinations_64")) and name in ("toindex", "fromindex")


def integral(i):
    if isinstance(i, (bool, np.bool_)):
        return int(i)
    if isinstance(i, (int, np.integer)):
        return int(i)
    if isinstance(i, float) and i == int(i):
        return int(i)
    return None


NAN = float("nan")
DATA = {"bool": [False, True], "int8_t": [0, 1, -128, 100], "uint8_t": [0, 1, 255, 128], "int16_t": [0, 3, -300, 32767], "uint16_t": [0, 2, 65535, 300],
        "int32_t": [0, 2, -70000, 2147483647], "uint32_t": [0, 2, 4294967295, 70000], "int64_t": [0, 2, -3, 5000000000],
        "uint64_t": [0, 2, 5000000000, 1 << 63], "float": [0.0, 1.5, -2.0, NAN], "double": [0.0, 1.5, -2.0, NAN]}


def cells(kernel, name, typ, role, k):
    if scratch(kernel, name):
        return [0]
    if kernel in MOVES and name == "fromptr":
        return POS
    if role in ("reducer-fromptr", "NumpyArray-ptr", "NumpyArray2-ptr") or name in ("fromptr", "stringdata") or (kernel, name) in INOUT or name == "tmpptr":
        if typ == "uint8_t" and kernel.startswith("awkward_NumpyArray_getitem"):
            return [3, 4]
        if "sort" in kernel or "complex" in kernel:
            return DATA[typ][:min(2 + k, 3 if typ in ("float", "double") else 4)]
        return DATA[typ][:2 + k]
    if typ in ("float", "double"):
        return DATA[typ][:2 + k]
    if typ == "bool":
        return [False, True]
    if "BitMasked" in role:
        return [0, 0b10011010, 255, 1, 128][:2 + k]
    if "mask" in name or "mask" in role.lower() and typ == "int8_t":
        return [0, 1, 2][:1 + k]
    if "tags" in name or "Tags" in role:
        return list(range(0, min(k, 2) + 1))
    low = 0 if typ.startswith("u") or re.search("offset|start|stop|parents|shape|strides|pos", name) else -1
    vals = list(range(0, k + 1))
    return vals + ([-1] if low else [])


def scalars(kernel, name, typ, role, k):
    if typ == "bool":
        return [True] if kernel in ("awkward_argsort", "awkward_ListOffsetArray_argsort_strings") and "stable" in name else [False, True]
    if name == "identity":
        return DATA[typ][:2]
    if typ in ("float", "double"):
        return DATA[typ][:2]
    if name == "maxlevels":
        return [48]
    if name == "ndim":
        return list(range(1, k + 1))
    vals = list(range(0, k + 1))
    if name == "n" and "combinations" in kernel:
        vals = vals[:5]
    if name in ("at", "start", "stop", "regular_start", "base", "step"):
        vals = vals + [-x for x in range(1, k + 1)]
    if name in ("start", "stop") and "ListArray_getitem_next_range" in kernel:
        vals.append(kMaxInt64 + 1)
    if name == "step":
        vals.remove(0)
    return vals


def ordered(x):
    """every start is at most its stop, offsets never decrease"""
    for a, b in x.items():
        if hasattr(b, "init"):
            if "start" in a:
                c = x.get(a.replace("start", "stop"))
                if hasattr(c, "init") and any(v > c.init[i] for i, v in b.init.items() if i in c.init):
                    return False
            if "offset" in a and hasattr(b, "init"):
                last = None
                for i in sorted(b.init):
                    if last is not None and b.init[i] < last:
                        return False
                    last = b.init[i]
    return True


def checks_order(text):
    return re.search(r"stops\[i\] < |start\[i\] > stop|monoton", text) is not None


def total(x):
    n = x["offsetslength"]
    o = x["offsets"].init
    return n >= 1 and o.get(0, 0) == 0 and x["length"] == o.get(n - 1, 0) and x.get("parentslength", x["length"]) == x["length"]


def noprepare(x):
    o, n = x["offsets"].init, x["length"]
    if any(i not in o for i in range(n + 1)):
        return False
    size = [o[i + 1] - o[i] for i in range(n)]
    return n > 0 and x["maxcount"] == max(size) and x["nextlen"] == sum(size) and x["distinctslen"] == x["maxcount"] * (1 + max(x["parents"].init.values(), default=0)) and all(
        x["offsetscopy"].init.get(i, o[i]) == o[i] for i in range(n))


DOMAIN = {
    "awkward_argsort": total, "awkward_sort": total,
    "awkward_unique": lambda x: x["length"] > 0,
    "awkward_NumpyArray_sort_asstrings_uint8": lambda x: x["offsetslength"] >= 1,
    "awkward_ListOffsetArray_reduce_nonlocal_preparenext_64": noprepare,
    "awkward_ListArray_combinations": lambda x: x["n"] >= 1,
    "awkward_RegularArray_combinations_64": lambda x: x["n"] >= 1,
}
