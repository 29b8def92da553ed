"""C07: is_none, fill_none, pad_none and mask act on exactly the positions they name, in every representation of missing data."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.axis import above, depths, each, guard, has, negkey, resolve, strip
from vlib.diff import Bad, Skip, compare
from vlib.lay import decode, mk, mtype


def m_isnone(v, t, axis):
    axis = resolve(t, axis)
    if axis == 0:
        return [x is None for x in v]
    if above(t, axis - 1, "uni"):
        raise Skip
    try:
        guard(t, axis)
    except Bad:
        raise Skip
    return [each(x, t, axis - 1, lambda y, _: [z is None for z in y]) for x in v]


def m_pad(v, t, target, axis, clip):
    def pad(x):
        x = x + [None] * (target - len(x))
        return x[:target] if clip else x
    axis = resolve(t, axis)
    if axis == 0:
        return pad(v)
    if above(t, axis - 1, "uni"):
        raise Skip
    guard(t, axis)
    return [each(x, t, axis - 1, lambda y, _: pad(y)) for x in v]


class Fill:
    """the outermost missing value on each path is filled; whether a list that may be missing is descended into depends on its representation"""
    def __init__(self, value):
        self.value = value

    def ok(self, got, v, t):
        k = t[0]
        if k == "opt":
            if v is None:
                return lay.loose(got, self.value)
            return self.ok(got, v, t[1]) or (has(t[1], "opt") and lay.loose(got, v))
        if k in ("list", "reg"):
            return isinstance(got, list) and len(got) == len(v) and all(self.ok(g, x, t[-1]) for g, x in zip(got, v))
        if k == "rec":
            if t[1] is None:
                return isinstance(got, tuple) and len(got) == len(v) and all(self.ok(g, x, c) for g, x, c in zip(got, v, t[2]))
            return isinstance(got, dict) and list(got) == list(t[1]) and all(self.ok(got[n], v[n], c) for n, c in zip(t[1], t[2]))
        if k == "uni":
            return any(self.ok(got, v, c) for c in t[1] if fits(v, c))
        return lay.loose(got, v)


def fits(v, t):
    k = t[0]
    if k == "opt":
        return v is None or fits(v, t[1])
    if k == "num":
        return isinstance(v, (bool, int, float, complex, lay.DT64))
    if k in ("list", "reg"):
        return isinstance(v, list) and all(fits(x, t[-1]) for x in v)
    if k == "str":
        return isinstance(v, str)
    if k == "bytes":
        return isinstance(v, bytes)
    if k == "rec":
        return isinstance(v, tuple if t[1] is None else dict)
    if k == "uni":
        return any(fits(v, c) for c in t[1])
    return False


FILLS = [(99, 99), (-2.5, -2.5), ("hi", "hi"), ("", ""), ([7, 8], [7, 8]), ([], []), (True, True), (np.int8(3), 3)]


class Check:
    pid = "C07"
    rule = "transition = one is_none/fill_none/pad_none/mask call compared with the list model; non-trivial = distinct result"
    assumptions = ["an axis beyond the data may or may not raise in is_none", "values below a missing-capable list may be left or filled by fill_none (the documentation does not say)",
                   "filling may widen numbers (compared by value)"]

    def bounds(self, tier):
        return {"layouts": "all node compositions to depth 3, every option buffer over <=4 elements (bit masks to 10)", "targets": "0..4 and 7", "axes": "-depth-1..depth",
                "masks": "every boolean mask of length <= 4 and patterned nested masks in 6 representations"}

    def units(self, tier):
        N = ("N", "i8", (3, 1, 4, 1, 5, 9))
        lv = gen.leaves(6, True) + [("N", "M8[s]", (0, 1, 2, 3, 4, 5)), ("N2", "i8", (1, 2, 3), (1, 2, 3, 4, 5, 6))]
        sp = list(lv)
        sp += gen.layouts(1, lv, [True])[1]
        sp += gen.layouts(2, lv if tier == "thorough" else [N, ("S", ("a", "bc", "", "b", "b", "b")), ("N2", "i8", (3, 2), (1, 1, 2, 3, 3, 3)), ("E",)], [True, True])[2]
        sp += gen.layouts(3, [N], [False] * 3 if tier == "quick" else [True, False, False], unions=False)[3]
        sp += gen.node_space() + gen.longs()
        N4 = ("N", "i8", (2, 7, 1, 8))
        inner = [c for c in gen.all_listoffset(N4, 3) if lay.dlen(c) == 3]
        sp += [("LO", "64", off, c) for c in inner for off in ((0, 3), (0, 1, 3), (1, 2, 2))]
        opts = [c for n in (2, 3, 4) for c in list(gen.all_bytemask(N4, n)) + list(gen.all_bitmask(N4, n))] + list(gen.all_indexed(("N", "i8", (2, 7)), 4, True))
        sp += [("LO", "64", (0, 1, lay.dlen(c)), c) for c in opts if lay.dlen(c) > 1]
        sp += [("R", 2, 0, c) for c in opts]
        lists4 = ("LO", "64", (0, 2, 2, 3, 4), N4)
        sp += [c[:-1] + (lists4,) for c in opts if c[0] in ("BM", "bM")] + [("IO", "64", ix, lists4) for ix in itertools.product((-1, 0, 2), repeat=3)]
        sp += [("V", c, f) for c in inner[:6] for f in (True, False)] + [("PART", (a, b)) for a in (("IO", "64", (0, -1), N), ("LO", "64", (0, 1, 1), N)) for b in (a, N[:2] + ((),))if a[0] == "IO" or b is a]
        u = [("lay", sp[i:i + 40]) for i in range(0, len(sp), 40)]
        fam = [N4, ("Ns", "i8", (2, 7, 1, 8), "step2"), ("S", ("a", "", "bc", "d")), ("I", "64", (3, 0, 0, 1), N4), ("IO", "64", (0, -1, 1, 2), N4),
               ("BM", (1, 0, 1, 1), True, N4), ("bM", (1, 0, 1, 1), True, 4, True, N4), ("UM", N4), ("D", ("x", "y"), (N4, N4), 4), ("T", (N4,), 4),
               ("LO", "64", (0, 2, 2, 3, 4), N4), ("L", "64", (2, 0, 0, 1), (4, 0, 2, 3), N4), ("R", 1, 0, N4), ("N2", "i8", (4, 1), (1, 2, 3, 4)),
               ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (N4, ("S", ("p", "q")))), ("V", N4, True)]
        u += [("mask", d) for d in fam]
        js = gen.layouts(2, [N, ("IO", "64", (0, -1, 1, 2, -1, 0), N4), ("D", ("x",), (N,), 6), ("S", ("a", "b", "", "c", "d", "e"))], [True, True], unions=False, records=False)
        js = [d for l in js for d in l]
        u += [("jmask", js[i:i + 20]) for i in range(0, len(js), 20)]
        return u

    def run_unit(self, unit, rec):
        if unit[0] == "lay":
            for d in unit[1]:
                self.layout(d, rec)
        elif unit[0] == "mask":
            self.flat(unit[1], rec)
        else:
            for d in unit[1]:
                self.jagged(d, rec)

    def layout(self, d, rec):
        x = mk(d)
        v = decode(x)
        t = mtype(x.partitions[0] if d[0] == "PART" else x)
        rec.state(repr(d))
        arr = ak.Array(x)
        n = max(depths(t)) + 1
        for axis in range(-n - 1, n + 1):
            k = negkey(t, axis)
            if rec.begin(("is_none", d, axis)):
                compare(rec, lambda: ak.is_none(arr, axis=axis), lambda: m_isnone(v, t, axis), key=k)
            for target in (0, 1, 2, 3, 4, 7):
                for clip in (False, True):
                    if rec.begin(("pad_none", d, target, axis, clip)):
                        compare(rec, lambda: ak.pad_none(arr, target, axis=axis, clip=clip), lambda: m_pad(v, t, target, axis, clip), key=k)
        for value, plain in FILLS:
            if rec.begin(("fill_none", d, value)):
                f = Fill(plain)

                compare(rec, lambda: ak.fill_none(arr, value), lambda: v, cmp=lambda got, want: isinstance(got, list) and f.ok(got, want, ("list", t)))

    def flat(self, d, rec):
        x = mk(d)
        v, t = decode(x), mtype(x)
        arr = ak.Array(x)
        rec.state(repr(d))
        for bits in itertools.product((False, True), repeat=4):
            for vw in (True, False):
                want = [e if b == vw else None for e, b in zip(v, bits)]
                for i, m in enumerate(masks(bits)):
                    if rec.begin(("mask", d, bits, vw, i)):
                        compare(rec, lambda: ak.mask(arr, m, valid_when=vw), lambda: want)
                if rec.begin(("mask[]", d, bits)):
                    compare(rec, lambda: arr.mask[np.array(bits)], lambda: [e if b else None for e, b in zip(v, bits)])
                for opt in itertools.product((0, 1), repeat=2):
                    if rec.begin(("mask with missing", d, bits, vw, opt)):
                        mm = ak.Array([None if i < 2 and opt[i] else b for i, b in enumerate(bits)])
                        compare(rec, lambda: ak.mask(arr, mm, valid_when=vw), lambda: [None if i < 2 and opt[i] else w for i, w in enumerate(want)])
        for bad in ([True], [True] * 3, [True] * 5, [1, 0, 1, 0], [[True], [False], [], [True, True]]):
            if rec.begin(("bad mask", d, bad)):
                def model():
                    if bad[0] == [True] or len(bad) == 1:
                        raise Skip           # broadcasts
                    raise Bad
                compare(rec, lambda: ak.mask(arr, np.array(bad) if bad[0] != [True] else ak.Array(bad)), model)

    def jagged(self, d, rec):
        x = mk(d)
        v, t = decode(x), mtype(x)
        rec.state(repr(d))
        arr = ak.Array(x)
        for level in (1, 2):
            if not listy(t, level):
                continue
            for pat in range(4):
                f = (lambda i: True, lambda i: False, lambda i: i % 2 == 0, lambda i: (i // 2) % 2 == 0)[pat]
                c = itertools.count()
                m = shape(v, t, level, lambda: f(next(c)))
                for i, mm in enumerate(jmasks(m, level)):
                    for vw in (True, False):
                        if rec.begin(("jmask", d, level, pat, i, vw)):
                            compare(rec, lambda: ak.mask(arr, mm, valid_when=vw), lambda: [apply(a, b, level, vw) for a, b in zip(v, m)])


def listy(t, level):
    _, u = strip(t)
    if level == 0:
        return True
    return u[0] in ("list", "reg") and listy(u[-1], level - 1)


def shape(v, t, level, f):
    """boolean structure with the list structure of v down to `level`; missing lists get an empty list"""
    out = []
    for x in v:
        if level == 0:
            out.append(f())
        elif x is None:
            out.append([])
        else:
            out.append(shape(x, strip(t)[1][-1], level - 1, f))
    return out


def apply(v, m, level, vw):
    if level == 0:
        return v if m == vw else None
    if v is None:
        return None
    return [apply(a, b, level - 1, vw) for a, b in zip(v, m)]


def masks(bits):
    a = np.array(bits)
    yield a
    yield ak.Array(np.repeat(a, 2)[::2])
    yield ak.Array(ak.layout.IndexedArray64(ak.layout.Index64(np.arange(3, -1, -1)), ak.layout.NumpyArray(a[::-1].copy())))
    yield ak.Array(ak.layout.UnmaskedArray(ak.layout.NumpyArray(a)))
    n = ak.layout.NumpyArray(a)
    yield ak.Array(ak.partition.IrregularlyPartitionedArray([n[:1], n[1:]]))
    yield list(bits)


def jmasks(m, level):
    """the same nested mask, represented differently"""
    def build(m, level, kind):
        if level == 0:
            return ak.layout.NumpyArray(np.array(m, dtype=bool))
        flat = [y for x in m for y in x]
        off = np.cumsum([0] + [len(x) for x in m]).astype(np.int64)
        c = build(flat, level - 1, kind)
        if kind == 0:
            return ak.layout.ListOffsetArray64(ak.layout.Index64(off), c)
        if kind == 1:
            # reversed order of storage
            order = list(range(len(m)))[::-1]
            c = build([y for i in order for y in m[i]], level - 1, kind)
            pos, st, sp = 0, [0] * len(m), [0] * len(m)
            for i in order:
                st[i], sp[i] = pos, pos + len(m[i])
                pos = sp[i]
            return ak.layout.ListArray32(ak.layout.Index32(np.array(st, np.int32)), ak.layout.Index32(np.array(sp, np.int32)), c)
        return ak.layout.IndexedArray64(ak.layout.Index64(np.arange(len(m))), ak.layout.ListOffsetArray64(ak.layout.Index64(off), c))
    for kind in (0, 1, 2):
        yield ak.Array(build(m, level, kind))
