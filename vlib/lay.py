"""Layout descriptors: build the real layout, and (independently) what it denotes.

A descriptor is a nested tuple; mk(desc) builds the real ak.layout node,
decode(layout) reads buffers back into plain Python (never through awkward's own
getitem/iteration), mtype(layout) is the abstract type.
"""
import datetime
import itertools
import json
import math

import numpy as np
import awkward as ak

L = ak.layout

LO = {"32": L.ListOffsetArray32, "U32": L.ListOffsetArrayU32, "64": L.ListOffsetArray64}
LA = {"32": L.ListArray32, "U32": L.ListArrayU32, "64": L.ListArray64}
IA = {"32": L.IndexedArray32, "U32": L.IndexedArrayU32, "64": L.IndexedArray64}
IO = {"32": L.IndexedOptionArray32, "64": L.IndexedOptionArray64}
UA = {"32": L.UnionArray8_32, "U32": L.UnionArray8_U32, "64": L.UnionArray8_64}
IX = {"8": L.Index8, "U8": L.IndexU8, "32": L.Index32, "U32": L.IndexU32, "64": L.Index64}
DT = {"8": np.int8, "U8": np.uint8, "32": np.int32, "U32": np.uint32, "64": np.int64}

LISTOFF = tuple(LO.values())
LISTARR = tuple(LA.values())
INDEXED = tuple(IA.values())
INDEXEDOPT = tuple(IO.values())
UNIONS = tuple(UA.values())
OPTIONS = INDEXEDOPT + (L.ByteMaskedArray, L.BitMaskedArray, L.UnmaskedArray)


def ix(bits, values):
    return IX[bits](np.array(values, dtype=DT[bits]))


def npval(dtype, values):
    if dtype.startswith(("M8", "m8")):
        return np.array(values, dtype="i8").view(dtype)
    return np.array(values, dtype=dtype)


def mk(d):
    k = d[0]
    if k == "N":
        return L.NumpyArray(npval(d[1], d[2]))
    if k == "Ns":
        vals = npval(d[1], d[2])
        n = len(vals)
        how = d[3]
        if how == "off":
            base = np.concatenate([vals[:1], vals[:1], vals, vals[:1]]) if n else np.zeros(3, vals.dtype)
            return L.NumpyArray(base[2:2 + n])
        if how == "step2":
            base = np.repeat(vals, 2)
            if n:
                base[1::2] = vals[::-1]
            return L.NumpyArray(base[::2])
        if how == "rev":
            return L.NumpyArray(vals[::-1].copy()[::-1])
        raise AssertionError(how)
    if k == "N2":
        return L.NumpyArray(npval(d[1], d[3]).reshape(d[2]))
    if k == "N2s":
        a = npval(d[1], d[3]).reshape(d[2])
        how = d[4]
        if how == "F":
            return L.NumpyArray(np.asfortranarray(a))
        if how == "revlast":
            return L.NumpyArray(a[..., ::-1].copy()[..., ::-1])
        if how == "step2":
            b = np.repeat(a, 2, axis=1)
            b[:, 1::2] = 99
            return L.NumpyArray(b[:, ::2])
        if how == "bcast":
            return L.NumpyArray(np.broadcast_to(a[:1], a.shape))
        raise AssertionError(how)
    if k == "E":
        return L.EmptyArray()
    if k == "LO":
        return LO[d[1]](ix(d[1], d[2]), mk(d[3]))
    if k == "L":
        return LA[d[1]](ix(d[1], d[2]), ix(d[1], d[3]), mk(d[4]))
    if k == "R":
        return L.RegularArray(mk(d[3]), d[1], d[2])
    if k == "I":
        return IA[d[1]](ix(d[1], d[2]), mk(d[3]))
    if k == "IO":
        return IO[d[1]](ix(d[1], d[2]), mk(d[3]))
    if k == "BM":
        return L.ByteMaskedArray(ix("8", d[1]), mk(d[3]), d[2])
    if k == "bM":
        # d = (bM, bits(tuple of 0/1 padded), valid_when, length, lsb, content)
        bits = np.array(d[1], dtype=np.uint8)
        mask = np.packbits(bits, bitorder="little" if d[4] else "big")
        return L.BitMaskedArray(L.IndexU8(mask), mk(d[5]), d[2], d[3], d[4])
    if k == "UM":
        return L.UnmaskedArray(mk(d[1]))
    if k == "T":
        return L.RecordArray([mk(c) for c in d[1]], None, d[2])
    if k == "D":
        return L.RecordArray([mk(c) for c in d[2]], list(d[1]), d[3])
    if k == "U":
        return UA[d[1]](ix("8", d[2]), ix(d[1], d[3]), [mk(c) for c in d[4]])
    if k == "S":
        data = [s.encode("utf-8") for s in d[1]]
        off = np.cumsum([0] + [len(s) for s in data])
        ch = L.NumpyArray(np.frombuffer(b"".join(data) or b"", dtype=np.uint8).copy(),
                          parameters={"__array__": "char"})
        return L.ListOffsetArray64(L.Index64(off.astype(np.int64)), ch, parameters={"__array__": "string"})
    if k == "B":
        off = np.cumsum([0] + [len(s) for s in d[1]])
        ch = L.NumpyArray(np.frombuffer(b"".join(d[1]) or b"", dtype=np.uint8).copy(),
                          parameters={"__array__": "byte"})
        return L.ListOffsetArray64(L.Index64(off.astype(np.int64)), ch, parameters={"__array__": "bytestring"})
    if k == "V":
        c = mk(d[1])
        gen = L.ArrayGenerator(lambda: c, (), {}, form=c.form if d[2] else None, length=len(c))
        return L.VirtualArray(gen)
    if k == "P":
        out = mk(d[2])
        for kk, vv in d[1]:
            out.setparameter(kk, vv)
        return out
    if k == "PART":
        parts = [mk(c) for c in d[1]]
        stops = list(np.cumsum([len(p) for p in parts]))
        return ak.partition.IrregularlyPartitionedArray(parts, [int(s) for s in stops])
    raise AssertionError(d)


def dlen(d):
    k = d[0]
    if k in ("N", "Ns", ):
        return len(d[2])
    if k in ("N2", "N2s"):
        return d[2][0]
    if k == "E":
        return 0
    if k == "LO":
        return len(d[2]) - 1
    if k == "L":
        return len(d[2])
    if k == "R":
        return dlen(d[3]) // d[1] if d[1] else d[2]
    if k in ("I", "IO"):
        return len(d[2])
    if k == "BM":
        return len(d[1])
    if k == "bM":
        return d[3]
    if k == "UM":
        return dlen(d[1])
    if k == "T":
        return d[2]
    if k == "D":
        return d[3]
    if k == "U":
        return len(d[2])
    if k in ("S", "B"):
        return len(d[1])
    if k == "V":
        return dlen(d[1])
    if k == "P":
        return dlen(d[2])
    if k == "PART":
        return sum(dlen(c) for c in d[1])
    raise AssertionError(d)


class DT64(tuple):
    """datetime64/timedelta64 model scalar: (dtype string, integer ticks)"""


def npdecode(a):
    if a.dtype.kind in "Mm":
        if a.ndim == 0:
            return DT64((a.dtype.str[1:], int(a.view("i8"))))
        return [npdecode(x) for x in a]
    if a.dtype.kind == "S":
        return a.tolist()
    return a.tolist()


def scalar(x):
    """normalise one scalar that awkward handed back"""
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return DT64((x.dtype.str[1:], int(x.astype("i8"))))
    if isinstance(x, np.generic):
        return x.item()
    return x


def param(lay, k):
    p = lay.parameters
    return p.get(k)


def nparr(lay):
    if isinstance(lay, L.NumpyArray) and lay.format[:1] in "Mm":
        return np.asarray(lay.view_int64).view(lay.format)
    return np.asarray(lay)


def decode(lay):
    """what the buffers of this node denote, as plain Python"""
    if lay is None:
        return None
    if isinstance(lay, ak.highlevel.Array):
        return decode(lay.layout)
    if isinstance(lay, ak.highlevel.Record):
        return decode(lay.layout)
    if isinstance(lay, ak.behaviors.string.CharBehavior):
        return str(lay)
    if isinstance(lay, ak.partition.PartitionedArray):
        out = []
        for p in lay.partitions:
            out += decode(p)
        return out
    if isinstance(lay, L.Record):
        rec = lay.array
        i = lay.at
        if i < 0 or i >= len(rec):
            raise Undecodable("record at %d of %d" % (i, len(rec)))
        return decode(rec)[i]
    if isinstance(lay, L.NumpyArray):
        a = nparr(lay)
        kind = param(lay, "__array__")
        if kind == "char":
            return a.tobytes().decode("utf-8", "surrogateescape")
        if kind == "byte":
            return a.tobytes()
        return npdecode(a)
    if isinstance(lay, L.EmptyArray):
        return []
    if isinstance(lay, LISTOFF):
        off = nparr(lay.offsets).tolist()
        if len(off) < 1:
            raise Undecodable("no offsets")
        return declist(lay, off[:-1], off[1:])
    if isinstance(lay, LISTARR):
        st, sp = nparr(lay.starts).tolist(), nparr(lay.stops).tolist()
        if len(sp) < len(st):
            raise Undecodable("len(stops) < len(starts)")
        return declist(lay, st, sp[:len(st)])
    if isinstance(lay, L.RegularArray):
        n, size = len(lay), lay.size
        return declist(lay, [i * size for i in range(n)], [(i + 1) * size for i in range(n)])
    if isinstance(lay, INDEXED):
        c = decode(lay.content)
        out = []
        for i in nparr(lay.index).tolist():
            if not 0 <= i < len(c):
                raise Undecodable("index")
            out.append(c[i])
        return out
    if isinstance(lay, INDEXEDOPT):
        c = decode(lay.content)
        out = []
        for i in nparr(lay.index).tolist():
            if i >= len(c):
                raise Undecodable("index")
            out.append(None if i < 0 else c[i])
        return out
    if isinstance(lay, L.ByteMaskedArray):
        m = nparr(lay.mask).tolist()
        c = decode(lay.content)
        if len(c) < len(m):
            raise Undecodable("mask")
        return [c[i] if (x != 0) == lay.valid_when else None for i, x in enumerate(m)]
    if isinstance(lay, L.BitMaskedArray):
        m = np.unpackbits(nparr(lay.mask), bitorder="little" if lay.lsb_order else "big").tolist()
        c = decode(lay.content)
        n = len(lay)
        if len(c) < n or len(m) < n:
            raise Undecodable("bitmask")
        return [c[i] if bool(m[i]) == lay.valid_when else None for i in range(n)]
    if isinstance(lay, L.UnmaskedArray):
        return decode(lay.content)
    if isinstance(lay, L.RecordArray):
        n = len(lay)
        cs = [decode(c) for c in lay.contents]
        if any(len(c) < n for c in cs):
            raise Undecodable("record field too short")
        if lay.istuple:
            return [tuple(c[i] for c in cs) for i in range(n)]
        ks = lay.keys()
        return [{k: c[i] for k, c in zip(ks, cs)} for i in range(n)]
    if isinstance(lay, UNIONS):
        tags = nparr(lay.tags).tolist()
        index = nparr(lay.index).tolist()
        cs = [decode(c) for c in lay.contents]
        if len(index) < len(tags):
            raise Undecodable("union index")
        out = []
        for t, i in zip(tags, index):
            if not 0 <= t < len(cs) or not 0 <= i < len(cs[t]):
                raise Undecodable("union tag/index")
            out.append(cs[t][i])
        return out
    if isinstance(lay, L.VirtualArray):
        return decode(lay.array)
    if isinstance(lay, np.ndarray):
        if isinstance(lay, np.ma.MaskedArray):
            return [None if m else x for x, m in zip(npdecode(np.asarray(lay)), np.ma.getmaskarray(lay))] if lay.ndim == 1 else lay.tolist()
        return npdecode(lay)
    if isinstance(lay, (list, tuple)):
        return [decode(x) for x in lay]
    return scalar(lay)


class Undecodable(Exception):
    pass


def declist(lay, starts, stops):
    kind = param(lay, "__array__")
    if kind in ("string", "bytestring"):
        data = nparr(lay.content)
        n = len(data)
        out = []
        for a, b in zip(starts, stops):
            if a == b:
                s = b""
            else:
                if not 0 <= a <= b <= n:
                    raise Undecodable("string bounds")
                s = data[a:b].tobytes()
            out.append(s.decode("utf-8", "surrogateescape") if kind == "string" else s)
        return out
    c = decode(lay.content)
    n = len(c)
    out = []
    for a, b in zip(starts, stops):
        if a == b:
            out.append([])
        else:
            if not 0 <= a <= b <= n:
                raise Undecodable("list bounds")
            out.append(c[a:b])
    return out


# ---------------------------------------------------------------- equality

def same(a, b):
    """strict: value, nesting and kind (bool/int/float/complex) all agree; NaN equals NaN"""
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is list or ta is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if ta is dict:
        if list(a) != list(b):
            return False
        for k in a:
            if not same(a[k], b[k]):
                return False
        return True
    if ta is float:
        return a == b or (a != a and b != b)
    if ta is complex:
        return same(a.real, b.real) and same(a.imag, b.imag)
    return a == b


def loose(a, b):
    """as same, but 1 == 1.0 == True (values only)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(loose(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(loose(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, complex) or isinstance(b, complex):
        if isinstance(a, (bool, int, float, complex)) and isinstance(b, (bool, int, float, complex)):
            a, b = complex(a), complex(b)
            return loose(a.real, b.real) and loose(a.imag, b.imag)
        return False
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return a == b
    return type(a) is type(b) and a == b


def close(a, b, rtol=1e-9, atol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if a != a and b != b:
            return True
        if a == b:
            return True
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- types

def mtype(lay):
    """abstract type of a layout (for depth and axis arithmetic in the models)"""
    if isinstance(lay, (ak.highlevel.Array, ak.highlevel.Record)):
        lay = lay.layout
    if isinstance(lay, ak.partition.PartitionedArray):
        return mtype(lay.partitions[0])
    if isinstance(lay, L.Record):
        return mtype(lay.array)
    if isinstance(lay, L.NumpyArray):
        a = nparr(lay)
        t = ("num", a.dtype.str[1:])
        for n in reversed(a.shape[1:]):
            t = ("reg", n, t)
        return t
    if isinstance(lay, L.EmptyArray):
        return ("unk",)
    if isinstance(lay, LISTOFF + LISTARR + (L.RegularArray,)):
        kind = param(lay, "__array__")
        if kind == "string":
            return ("str",)
        if kind == "bytestring":
            return ("bytes",)
        if isinstance(lay, L.RegularArray):
            return ("reg", lay.size, mtype(lay.content))
        return ("list", mtype(lay.content))
    if isinstance(lay, INDEXED):
        return mtype(lay.content)
    if isinstance(lay, OPTIONS):
        t = mtype(lay.content)
        return t if t[0] == "opt" else ("opt", t)
    if isinstance(lay, L.RecordArray):
        return ("rec", None if lay.istuple else tuple(lay.keys()), tuple(mtype(c) for c in lay.contents))
    if isinstance(lay, UNIONS):
        return ("uni", tuple(mtype(c) for c in lay.contents))
    if isinstance(lay, L.VirtualArray):
        return mtype(lay.array)
    raise AssertionError(type(lay))
