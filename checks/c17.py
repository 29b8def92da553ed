"""C17: conversion to and from Arrow (and eager Parquet)."""
import datetime
import io
import itertools

import awkward as ak
import numpy as np
import pyarrow as pa
from vlib import gen, lay
from vlib.lay import DT64, L, decode, mk, mtype

ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError, OverflowError, AttributeError, AssertionError, ZeroDivisionError, pa.lib.ArrowException)


def untuple(v):
    """Arrow has no tuples: structs with fields "0", "1"..."""
    if isinstance(v, list):
        return [untuple(x) for x in v]
    if isinstance(v, tuple) and not isinstance(v, DT64):
        return {str(i): untuple(x) for i, x in enumerate(v)}
    if isinstance(v, dict):
        return {k: untuple(x) for k, x in v.items()}
    return v


def arrowval(a):
    """what pyarrow says the array holds; dates as (dtype, ticks)"""
    if isinstance(a, pa.Tensor):
        return lay.npdecode(a.to_numpy())
    if isinstance(a, pa.ChunkedArray):
        return [y for c in a.chunks for y in arrowval(c)]
    t = a.type
    if pa.types.is_date(t) or pa.types.is_time(t) or pa.types.is_timestamp(t) or pa.types.is_duration(t):
        kind, unit = ticks(t)
        i = a.cast(pa.int32() if t.bit_width == 32 else pa.int64())
        return [None if x is None else DT64(("%s8[%s]" % (kind, unit), x)) for x in i.to_pylist()]
    if pa.types.is_list(t) or pa.types.is_large_list(t):
        off = a.offsets.to_pylist()
        v = arrowval(a.values)
        ok = a.is_valid().to_pylist()
        return [v[off[i]:off[i + 1]] if ok[i] else None for i in range(len(a))]
    if pa.types.is_fixed_size_list(t):
        ok = a.is_valid().to_pylist()
        v = arrowval(a.values)
        n = t.list_size
        o = a.offset
        return [v[(o + i) * n:(o + i + 1) * n] if ok[i] else None for i in range(len(a))]
    if pa.types.is_struct(t):
        ok = a.is_valid().to_pylist()
        cols = [(t[i].name, arrowval(a.field(i))) for i in range(t.num_fields)]
        return [{n: c[i] for n, c in cols} if ok[i] else None for i in range(len(a))]
    if pa.types.is_dictionary(t):
        d = arrowval(a.dictionary)
        return [None if i is None else d[i] for i in a.indices.to_pylist()]
    if pa.types.is_union(t):
        codes = a.type_codes.to_pylist()
        kids = [arrowval(a.field(i)) for i in range(t.num_fields)]
        if t.mode == "dense":
            off = a.offsets.to_pylist()
            return [kids[c][o] for c, o in zip(codes, off)]
        return [kids[c][i] for i, c in enumerate(codes)]
    return a.to_pylist()


def ticks(t):
    s = str(t)
    if s.startswith("date32"):
        return "M", "D"
    if s.startswith("date64"):
        return "M", "ms"
    return ("m" if s.startswith("duration") else "M"), s[s.index("[") + 1:s.index("]")]


def leafs():
    """(type, non-null values) of Arrow leaves"""
    out = []
    for t in (pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.uint8(), pa.uint16(), pa.uint32(), pa.uint64()):
        out.append((t, [0, 1, 2, 3, 100, 101, 102, 103, 104, 127]))
    out += [(t, [0.5, -1.5, 2.0, float("inf"), 4.5, 5.5, 6.5, 7.5, 8.5, 9.5]) for t in (pa.float32(), pa.float64())]
    out.append((pa.bool_(), [True, False, False, True, True, True, False, True, False, True]))
    s = ["a", "", "\u00e9\u4e2d", "dd", "", "f", "g" * 9, "h", "i", ""]
    out += [(t, s) for t in (pa.string(), pa.large_string())]
    out += [(t, [x.encode() for x in s]) for t in (pa.binary(), pa.large_binary())]
    for t in (pa.date32(), pa.date64(), pa.timestamp("s"), pa.timestamp("ms"), pa.timestamp("us"), pa.timestamp("ns"), pa.duration("s"), pa.duration("ms"), pa.duration("us"), pa.duration("ns"),
              pa.time32("s"), pa.time32("ms"), pa.time64("us"), pa.time64("ns")):
        k = 86400000 if t == pa.date64() else 1
        out.append((t, [x * k for x in (0, 1, 2, 3, 40, 50, 60, 70, 80, 90)]))
    return out


def leafarr(t, vals, nulls):
    vals = [None if n else v for v, n in zip(vals, nulls)]
    if any(f(t) for f in (pa.types.is_date, pa.types.is_timestamp, pa.types.is_duration, pa.types.is_time)):
        return pa.array(vals, pa.int32() if t.bit_width == 32 else pa.int64()).cast(t) if t != pa.date64() else pa.array(vals, pa.int64()).cast(pa.timestamp("ms")).cast(t)
    return pa.array(vals, t)


NONE = (0,) * 10
NULLS = [NONE, (0, 1, 0, 0, 1, 0, 0, 1, 1, 0), (1,) * 10]


def wraps(c, tag, nullable):
    """Arrow containers over a child array of length 10; nullable=False marks the item field so"""
    n = len(c)
    item = pa.field("item", c.type, nullable=nullable)
    out = []
    off = [0, 2, 2, 5, 5, 6, n]
    for mask in ((0,) * 6, (0, 1, 0, 1, 0, 0)):
        m = pa.array([bool(x) for x in mask])
        o32, o64 = pa.array(off, pa.int32()), pa.array(off, pa.int64())
        bm = pa.py_buffer(np.packbits(np.array([1 - x for x in mask] + [0, 0], np.uint8), bitorder="little")) if any(mask) else None
        out.append(("list", mask, pa.Array.from_buffers(pa.list_(item), 6, [bm, pa.py_buffer(np.array(off, np.int32))], children=[c])))
        out.append(("large_list", mask, pa.Array.from_buffers(pa.large_list(item), 6, [bm, pa.py_buffer(np.array(off, np.int64))], children=[c])))
        out.append(("fixed", mask[:5], pa.Array.from_buffers(pa.list_(item, 2), 5, [bm], children=[c])))
        out.append(("struct", mask[:6], pa.Array.from_buffers(pa.struct([pa.field("x", c.type, nullable), pa.field("y", pa.int64(), False)]), 6, [bm], children=[c.slice(0, 6), pa.array(range(6), pa.int64())])))
        out.append(("struct1", mask[:6], pa.Array.from_buffers(pa.struct([pa.field("x", c.type, nullable)]), 6, [bm], children=[c.slice(2, 6)])))
    codes = np.array([0, 1, 0, 0, 1, 1, 0, 1], np.int8)
    other = pa.array(["p", None, "r", "s", "t", "u", "v", "w"]) if nullable else pa.array(["p", "q", "r", "s", "t", "u", "v", "w"])
    flds = [pa.field("0", c.type, nullable), pa.field("1", other.type, nullable)]
    out.append(("dense", (), pa.Array.from_buffers(pa.dense_union(flds, [0, 1]), 8, [None, pa.py_buffer(codes), pa.py_buffer(np.array([0, 0, 1, 3, 1, 2, 3, 0], np.int32))], children=[c, other])))
    out.append(("sparse", (), pa.Array.from_buffers(pa.sparse_union(flds, [0, 1]), 8, [None, pa.py_buffer(codes)], children=[c.slice(0, 8), other])))
    for it in (pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.uint8(), pa.uint32()):
        for idx in ([3, 0, 0, 1, 2, 5], [3, None, 0, 1, None, 5]):
            if c.null_count == 0 and tag.startswith(("int64/", "double/")):
                out.append(("dict-" + str(it), tuple(idx), pa.DictionaryArray.from_arrays(pa.array(idx, it), c)))
    return out


def describe(a):
    return "%s %s offset=%d len=%d" % (a.type, a.to_pylist() if not pa.types.is_union(a.type) else "", a.offset, len(a))


def arrows(tier):
    """[(name, thunk)]: leaves with null patterns, containers of depth 1 and 2"""
    out = []
    lv = leafs()
    one = []
    for t, vals in lv:
        for nulls in NULLS:
            one.append(("%s/%s" % (t, "".join(map(str, nulls))), leafarr(t, vals, nulls)))
    one.append(("null", pa.nulls(10)))
    out += one
    two = []
    for name, a in one:
        if name.split("/")[0] in ("int8", "int64", "double", "bool", "string", "binary", "large_string", "timestamp[s]", "date32[day]", "null") or tier == "thorough":
            for nullable in ((True, False) if a.null_count == 0 else (True,)):
                two += [("%s(%s)/%s/%s" % (k, name, "".join(map(str, m)), nullable), w) for k, m, w in wraps(a, name, nullable)]
    out += two
    three = []
    for name, a in two:
        if len(a) >= 5 and ("int64" in name or tier == "thorough" and ("string" in name or "bool" in name)):
            c = pa.concat_arrays([a, a]) if not pa.types.is_union(a.type) else a
            c = c.slice(1, min(10, len(c) - 1))
            if len(c) == 10:
                for nullable in ((True, False) if c.null_count == 0 else (True,)):
                    three += [("%s(%s)/%s/%s" % (k, name, "".join(map(str, m)), nullable), w) for k, m, w in wraps(c, name, nullable)
                              if not k.startswith("dict") and not (k in ("dense", "sparse") and name.startswith(("dense", "sparse")))]
    out += three
    return out


class Check:
    pid = "C17"
    rule = ("transition = one Arrow array, slice, chunking or table read by from_arrow, or one layout written by to_arrow and read back; state = distinct Arrow array or layout; "
            "non-trivial = distinct value")
    assumptions = ["pyarrow is the reference for what an Arrow array holds", "tuples become structs with fields '0', '1', ..."]

    def units(self, tier):
        self.tier = tier
        self.arr = arrows(tier)
        self.lays = layouts(tier)
        return ([("read", k) for k in range(0, len(self.arr), 40)] + [("chunks", k) for k in range(0, len(self.arr), 80)] + [("write", k) for k in range(0, len(self.lays), 100)] +
                [("parquet", k) for k in range(0, len(self.lays), 200)])

    def bounds(self, tier):
        return ("%d Arrow arrays (every leaf type x 3 null patterns, every container over them to depth 2) x every slice of their length; two-chunk arrays and tables at every cut; "
                "%d layouts x the to_arrow options, and (where Parquet can store them) a Parquet round trip in memory whole and in two row groups, by row group and by column" % (len(self.arr), len(self.lays)))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def read(self, rec, what, a, want):
        rec.step()
        try:
            x = ak.from_arrow(a)
            got = decode(x)
        except lay.Undecodable as e:
            rec.fail("%s: not a valid layout: %s" % (what, e))
            return
        except ERR as e:
            rec.fail("%s: raised %s: %s\nexpected %r" % (what, type(e).__name__, str(e).split("\n")[0], want))
            return
        rec.outcome(repr(got))
        if not lay.same(got, want):
            rec.fail("%s: got %r\nexpected %r" % (what, got, want))
            return
        v = ak.validity_error(x)
        # concatenated categoricals: a known finding of C26; tests/test_0674 fixes that a nullable column is UnmaskedArray(categorical)
        if v and not (what != "array" and "dictionary" in str(getattr(a, "type", getattr(a, "schema", None) or a))):
            rec.fail("%s: %s" % (what, v.split("\n")[0]))

    def u_read(self, rec, k):
        for name, a in self.arr[k:k + 40]:
            rec.state(name)
            n = len(a)
            want = arrowval(a)
            for i in range(n + 1):
                for j in (range(i, n + 1) if n <= 6 or self.tier == "thorough" else sorted({i, min(i + 1, n), (i + n) // 2, n})):
                    if rec.begin({"arrow": name, "slice": [i, j]}):
                        b = a.slice(i, j - i)
                        self.read(rec, "array", b, want[i:j])

    def u_chunks(self, rec, k):
        for name, a in self.arr[k:k + 80]:
            n = len(a)
            want = arrowval(a)
            for i in (0, 1, n // 2, n):
                if rec.begin({"arrow": name, "chunks": i}):
                    self.read(rec, "chunked", pa.chunked_array([a.slice(0, i), a.slice(i)]), want)
            if name.startswith(("dense", "sparse")) or "dense" in name or "sparse" in name:
                continue
            if rec.begin({"arrow": name, "op": "table"}):
                w = [{"a": x, "b": i} for i, x in enumerate(want)]
                t = pa.table({"a": a, "b": pa.array(range(n), pa.int64())})
                self.read(rec, "table", t, w)
                self.read(rec, "sliced table", t.slice(1, n - 2), w[1:n - 1])
                bs = t.to_batches(max_chunksize=3)
                self.read(rec, "batches", bs, w)
                self.read(rec, "table of batches", pa.Table.from_batches(bs), w)
                self.read(rec, "batch", bs[0], w[:3])
                self.read(rec, "nameless table", pa.table({"": a}), want)

    def u_write(self, rec, k):
        for d in self.lays[k:k + 100]:
            x = mk(d)
            v = untuple(decode(x))
            rec.state(repr(d))
            for kw in ({}, {"list_to32": True, "allow_tensor": False}, {"string_to32": False, "bytestring_to32": False, "allow_tensor": False}):
                if rec.begin({"layout": d, "op": "to_arrow %r" % (kw,)}):
                    self.write(rec, x, v, kw)

    def write(self, rec, x, v, kw):
        rec.step(2)
        try:
            a = ak.to_arrow(ak.Array(x), **kw)
            if isinstance(a, pa.Array):
                a.validate(full="union" not in str(a.type))      # dense unions may have any offsets
            got = arrowval(a)
        except ERR as e:
            if unsupported(mtype(x)):
                return
            rec.fail("to_arrow: raised %s: %s\nfrom %r" % (type(e).__name__, str(e).split("\n")[0], v))
            return
        rec.outcome(repr(got))
        if not lay.same(got, v):
            rec.fail("to_arrow: %r\nexpected %r" % (got, v))
            return
        if not isinstance(a, pa.Tensor):
            self.read(rec, "from_arrow(to_arrow)", a, v)

    def u_parquet(self, rec, k):
        for d in self.lays[k:k + 200]:
            x = mk(d)
            t = mtype(x)
            if any(a[0] in ("uni", "unk") or a[:1] == ("rec",) and not a[1] for a in parts(t)):
                continue                                  # Parquet has no unions and no empty structs
            v = untuple(decode(x))
            rec.state(repr(d))
            n = len(v)
            for cut in (None, 1, n // 2):
                if rec.begin({"layout": d, "op": "parquet", "cut": cut}):
                    if n == 0 or cut is not None and not 0 < cut < n:
                        continue
                    y = ak.Array(x) if cut is None else ak.Array(ak.partition.IrregularlyPartitionedArray([x[:cut], x[cut:]]))
                    self.parquet(rec, y, v, cut)

    def parquet(self, rec, y, v, cut):
        rec.step(2)
        f = io.BytesIO()
        try:
            ak.to_parquet(y, f)
        except (pa.lib.ArrowNotImplementedError, pa.lib.ArrowInvalid):
            rec.note("Parquet cannot store it")
            return
        except ERR as e:
            rec.fail("to_parquet: raised %s: %s\nfrom %r" % (type(e).__name__, str(e).split("\n")[0], v))
            return
        data = f.getvalue()
        calls = [("from_parquet", {}, v)]
        if cut is not None:
            calls += [("from_parquet(row_groups=0)", {"row_groups": 0}, v[:cut]), ("from_parquet(row_groups=[1])", {"row_groups": [1]}, v[cut:])]
        if v and all(isinstance(r, dict) for r in v) and len(v[0]) > 1:
            c = list(v[0])[:1]
            calls.append(("from_parquet(columns=%r)" % c, {"columns": c}, [{k: r[k] for k in c} for r in v]))
        for what, kw, want in calls:
            try:
                z = ak.from_parquet(io.BytesIO(data), **kw)
                got = decode(z)
            except lay.Undecodable as e:
                rec.fail("%s: not a valid layout: %s" % (what, e))
                return
            except ERR as e:
                rec.fail("%s: raised %s: %s\nexpected %r" % (what, type(e).__name__, str(e).split("\n")[0], want))
                return
            rec.outcome(repr(got))
            if not lay.same(got, want):
                rec.fail("%s: got %r\nexpected %r" % (what, got, want))
                return


def parts(t):
    if isinstance(t, tuple):
        yield t
        for a in t:
            yield from parts(a)


def unsupported(t):
    return False


def layouts(tier):
    sp = gen.node_space("quick")
    lv = gen.layouts(2, gen.leaves(6, True), [True, tier == "thorough"])
    sp += lv[0] + lv[1] + lv[2] + gen.longs()
    out, seen = [], set()
    for d in sp:
        if repr(d) not in seen:
            seen.add(repr(d))
            out.append(d)
    return out
