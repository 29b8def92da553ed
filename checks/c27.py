"""C27: reading malformed layouts.  Every buffer is placed inside a larger one filled with marked values, so a read that
leaves the buffer shows up as a marked value in the result instead of depending on what happens to lie there.  All small
malformed node contents are enumerated (alone, over and under other nodes) and read in every way."""
import itertools
import json
import awkward as ak
import numpy as np
from vlib.ops import ERR

L = ak.layout
MARK = 987654
K = 3000


class Malformed(Exception):
    pass


def guarded(vals, dt, mark):
    big = np.full(2 * K, mark, dtype=dt)
    big[K:K + len(vals)] = vals
    return big[K:K + len(vals)]


IX = {"64": (L.Index64, np.int64), "32": (L.Index32, np.int32), "U32": (L.IndexU32, np.uint32), "8": (L.Index8, np.int8)}


def ix(bits, vals):
    return IX[bits][0](guarded(vals, IX[bits][1], 1))


CLS = {("LO", "64"): L.ListOffsetArray64, ("LO", "32"): L.ListOffsetArray32, ("LO", "U32"): L.ListOffsetArrayU32, ("L", "64"): L.ListArray64, ("L", "32"): L.ListArray32,
       ("L", "U32"): L.ListArrayU32, ("I", "64"): L.IndexedArray64, ("I", "32"): L.IndexedArray32, ("I", "U32"): L.IndexedArrayU32, ("IO", "64"): L.IndexedOptionArray64,
       ("IO", "32"): L.IndexedOptionArray32, ("U", "64"): L.UnionArray8_64, ("U", "32"): L.UnionArray8_32, ("U", "U32"): L.UnionArray8_U32}


def make(d):
    k = d[0]
    if k == "N":
        return L.NumpyArray(guarded(d[1], np.int64, MARK))
    if k == "S":
        text = "".join(d[1]).encode()
        big = np.full(2 * K, ord("#"), dtype=np.uint8)
        big[K:K + len(text)] = np.frombuffer(text, np.uint8)
        c = L.NumpyArray(big[K:K + len(text)], parameters={"__array__": "char"})
        offs = np.cumsum([0] + [len(x) for x in d[1]])
        return L.ListOffsetArray64(ix("64", offs), c, parameters={"__array__": "string"})
    if k == "Sx":
        big = np.full(2 * K, ord("#"), dtype=np.uint8)
        text = d[1].encode()
        big[K:K + len(text)] = np.frombuffer(text, np.uint8)
        c = L.NumpyArray(big[K:K + len(text)], parameters={"__array__": "char"})
        return L.ListOffsetArray64(ix("64", d[2]), c, parameters={"__array__": "string"})
    if k == "LO":
        return CLS[k, d[1]](ix(d[1], d[2]), make(d[3]))
    if k == "L":
        return CLS[k, d[1]](ix(d[1], d[2]), ix(d[1], d[3]), make(d[4]))
    if k in ("I", "IO"):
        return CLS[k, d[1]](ix(d[1], d[2]), make(d[3]))
    if k == "U":
        return CLS[k, d[1]](ix("8", d[2]), ix(d[1], d[3]), [make(c) for c in d[4]])
    if k == "D":
        return L.RecordArray([make(c) for c in d[2]], list(d[1]), d[3])
    if k == "R":
        return L.RegularArray(make(d[2]), d[1], 0)
    if k == "UM":
        return L.UnmaskedArray(make(d[1]))
    if k == "BM":
        return L.ByteMaskedArray(ix("8", d[1]), make(d[2]), True)
    if k == "bM":
        return L.BitMaskedArray(L.IndexU8(guarded(d[1], np.uint8, 255)), make(d[3]), True, d[2], True)
    raise AssertionError(d)


def length(d):
    k = d[0]
    if k in ("N", "S"):
        return len(d[1])
    if k == "Sx":
        return len(d[2]) - 1
    if k == "LO":
        return len(d[2]) - 1
    if k in ("L", "I", "IO", "U"):
        return len(d[2])
    if k == "D":
        return d[3]
    if k == "R":
        return length(d[2]) // d[1]
    if k == "UM":
        return length(d[1])
    if k == "BM":
        return len(d[1])
    if k == "bM":
        return d[2]
    raise AssertionError(d)


def val(d, i):
    """element i as the layout's buffers denote it"""
    k = d[0]
    if not 0 <= i < length(d):
        raise Malformed
    if k in ("N", "S"):
        return d[1][i]
    if k == "Sx":
        a, b = d[2][i], d[2][i + 1]
        if a == b:
            return ""
        if not 0 <= a <= b <= len(d[1]):
            raise Malformed
        return d[1][a:b]
    if k in ("LO", "L"):
        a, b = (d[2][i], d[2][i + 1]) if k == "LO" else (d[2][i], d[3][i])
        if a == b:
            return []
        if not 0 <= a <= b <= length(d[-1]):
            raise Malformed
        return [val(d[-1], j) for j in range(a, b)]
    if k == "I":
        return val(d[3], d[2][i])
    if k == "IO":
        return None if d[2][i] < 0 else val(d[3], d[2][i])
    if k == "U":
        if not 0 <= d[2][i] < len(d[4]):
            raise Malformed
        return val(d[4][d[2][i]], d[3][i])
    if k == "D":
        return {n: val(c, i) for n, c in zip(d[1], d[2])}
    if k == "R":
        return [val(d[2], j) for j in range(i * d[1], (i + 1) * d[1])]
    if k == "UM":
        return val(d[1], i)
    if k == "BM":
        return val(d[2], i) if d[1][i] else None
    if k == "bM":
        return val(d[3], i) if d[1][i // 8] >> (i % 8) & 1 else None
    raise AssertionError(d)


def marked(x):
    if isinstance(x, (list, tuple)):
        return any(marked(y) for y in x)
    if isinstance(x, dict):
        return any(marked(y) for y in x.values())
    if isinstance(x, str):
        return "#" in x
    return x == MARK


C4 = ("N", (10, 11, 12, 13))
S3 = ("S", ("ab", "", "c"))
LL = ("LO", "64", (0, 2, 2, 4), C4)


def cores(tier):
    """every small content of every node with inner references, over a few contents"""
    big = (2**31 - 1, 2**31)
    for c in (C4, LL, ("D", ("x", "y"), (C4, C4), 4), S3):
        n = length(c)
        lo, hi = -1, n + 2
        few = c is not C4 and tier == "quick"
        for bits in ("64", "32", "U32"):
            if few and bits != "64":
                continue
            r = [v for v in (range(lo, hi + 1) if not few else (-1, 0, 1, n, n + 1)) if v >= 0 or bits != "U32"]
            for off in itertools.product(r, repeat=3):
                yield ("LO", bits, off, c)
            for a in itertools.product(r, repeat=2):
                yield ("L", bits, (a[0], 0), (a[1], 1), c)
                yield ("L", bits, (1, a[0]), (2, a[1]), c)
            one = list(r) + [hi + 5, 100] + [v for v in big if v < 2**31 or bits != "32"] + ([2**40] if bits == "64" else [])
            for a in itertools.product(one, repeat=2):
                yield ("I", bits, a, c)
                if bits != "U32":
                    yield ("IO", bits, a, c)
            for b in one:
                yield ("LO", bits, (0, 1, b), c)
                yield ("L", bits, (b, 0), (b, 1), c)
        for tags in itertools.product((-1, 0, 1, 2), repeat=2):
            for a in itertools.product((-1, 0, n - 1, n, n + 1, 100), repeat=2):
                for bits in ("64", "32", "U32") if not few else ("64",):
                    if bits != "U32" or min(a) >= 0:
                        yield ("U", bits, tags, a, (c, S3 if c is not S3 else C4))
    for off in itertools.product(range(-1, 8), repeat=3):
        yield ("Sx", "hello", off)


def around(d, tier):
    """the node under every other node"""
    n = length(d)
    yield d
    if n >= 1:
        flat = ("N", tuple(range(n)))
        yield ("LO", "64", (0, 1, n), d)
        yield ("L", "32", (n - 1, 0), (n, 1), d)
        yield ("D", ("x", "y"), (flat, d), n)
        yield ("R", 1, d)
        if d[0] not in ("I", "IO"):
            yield ("I", "64", (n - 1, 0, 0), d)
            yield ("IO", "64", (0, -1, n - 1), d)
            yield ("BM", (1,) * (n - 1) + (0,), d)
            yield ("bM", (255,), n, d)
            yield ("UM", d)
        if d[0] != "U":
            yield ("U", "64", (0, 1, 0), (n - 1, 0, 0), (d, S3))


PARTS = 32


class Check:
    pid = "C27"
    rule = "transition = one way of reading a malformed layout; state = distinct layout; non-trivial = distinct result"
    assumptions = ["reading means integer indexing, ranges, integer arrays and masks on the first dimension, field access, iteration, to_list, to_json and the validity check; "
                   "whole-array computations trust their input, as the library documents (is_valid is the guard)",
                   "a read that leaves its buffer by less than 24 kB lands on marked values"]

    def units(self, tier):
        self.tier = tier
        return [("core", p) for p in range(PARTS)]

    def bounds(self, tier):
        n = sum(1 for d in cores(tier) for _ in around(d, tier))
        return "%d layouts: every offset, start/stop, index and tag within and around the content (and past 2^31), 4 contents, alone and under 10 other nodes" % n

    def run_unit(self, unit, rec):
        self.tier = getattr(self, "tier", "quick")
        for i, c in enumerate(cores(self.tier)):
            if i % PARTS != unit[1]:
                continue
            for d in around(c, self.tier):
                if rec.begin(d):
                    self.one(rec, d)

    def one(self, rec, d):
        rec.state(d)
        try:
            x = make(d)
        except ERR:
            rec.outcome(("rejected", d[0]))
            rec.step()
            return
        n = length(d)
        elems = []
        for i in range(n):
            try:
                elems.append((True, val(d, i)))
            except Malformed:
                elems.append((False, None))
        good = all(g for g, _ in elems)

        def read(what, f, want):
            """want: the list of (known, value) the result is made of, or one such"""
            rec.step()
            try:
                got = f()
            except ERR as e:
                if want is not None and (want[0] if isinstance(want, tuple) else all(g for g, _ in want)):
                    rec.fail("%s raised %s although what it reads is in bounds" % (what, str(e)[:200]))
                return
            if marked(got):
                rec.fail("%s gave %s: values from outside the buffers" % (what, str(got)[:200]))
            elif want is None:
                pass
            elif isinstance(want, tuple):
                if not want[0]:
                    rec.fail("%s gave %s although it refers outside the content" % (what, str(got)[:200]))
                elif got != want[1]:
                    rec.fail("%s gave %s instead of %s" % (what, str(got)[:200], want[1]))
            elif not all(g for g, _ in want):
                rec.fail("%s gave %s although it refers outside the content" % (what, str(got)[:200]))
            elif got != [v for _, v in want]:
                rec.fail("%s gave %s instead of %s" % (what, str(got)[:200], [v for _, v in want]))
            rec.outcome((what, str(got)[:80]))

        def l(y):
            return ak.to_list(y)

        read("len", lambda: len(x), (True, n))
        read("is_valid", lambda: int(ak.is_valid(ak.Array(x))), None)
        for i in range(n):
            read("[%d]" % i, lambda i=i: l(x[i]), elems[i])
            read("[%d]" % (i - n), lambda i=i: l(x[i - n]), elems[i])
        read("to_list", lambda: l(x), elems)
        read("iteration", lambda: [l(y) for y in ak.Array(x)], elems)
        read("to_json", lambda: json.loads(ak.to_json(x)), elems)
        for s in ((1, None), (0, 1), (None, None, -1), (None, None, 2)):
            read("[%s]" % (s,), lambda s=s: l(x[slice(*s)]), elems[slice(*s)])
        if n:
            read("[ints]", lambda: l(x[np.array([n - 1, 0])]), [elems[n - 1], elems[0]])
            m = [i % 2 == 0 for i in range(n)]
            read("[mask]", lambda: l(x[np.array(m)]), [e for e, b in zip(elems, m) if b])
        if d[0] == "D":
            for k, c in zip(d[1], d[2]):
                fe = []
                for i in range(n):
                    try:
                        fe.append((True, val(c, i)))
                    except Malformed:
                        fe.append((False, None))
                read("[%r]" % k, lambda k=k: l(x[k]), fe)
