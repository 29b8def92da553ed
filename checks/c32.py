"""C32: the Python node classes (awkward._v2).  Every node of the alphabet, built both as compiled and as Python nodes: elements,
range slices, fields and their compositions have the values of Python lists; what the compiled classes refuse is refused."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.lay import decode, mk

V = ak._v2.contents
IX = ak._v2.index.Index
L = ak.layout
REFUSE = (IndexError, TypeError, ValueError)


def conv(x):
    """compiled node -> Python node over the same buffers"""
    if isinstance(x, L.NumpyArray):
        return V.numpyarray.NumpyArray(np.asarray(x))
    if isinstance(x, L.EmptyArray):
        return V.emptyarray.EmptyArray()
    if isinstance(x, L.RegularArray):
        return V.regulararray.RegularArray(conv(x.content), x.size, len(x))
    if isinstance(x, lay.LISTOFF):
        return V.listoffsetarray.ListOffsetArray(IX(np.asarray(x.offsets)), conv(x.content))
    if isinstance(x, lay.LISTARR):
        return V.listarray.ListArray(IX(np.asarray(x.starts)), IX(np.asarray(x.stops)), conv(x.content))
    if isinstance(x, L.RecordArray):
        return V.recordarray.RecordArray([conv(c) for c in x.contents], None if x.istuple else x.keys(), len(x))
    if isinstance(x, (L.IndexedArray32, L.IndexedArrayU32, L.IndexedArray64)):
        return V.indexedarray.IndexedArray(IX(np.asarray(x.index)), conv(x.content))
    if isinstance(x, (L.IndexedOptionArray32, L.IndexedOptionArray64)):
        return V.indexedoptionarray.IndexedOptionArray(IX(np.asarray(x.index)), conv(x.content))
    if isinstance(x, L.ByteMaskedArray):
        return V.bytemaskedarray.ByteMaskedArray(IX(np.asarray(x.mask)), conv(x.content), x.valid_when)
    if isinstance(x, L.BitMaskedArray):
        return V.bitmaskedarray.BitMaskedArray(IX(np.asarray(x.mask)), conv(x.content), x.valid_when, len(x), x.lsb_order)
    if isinstance(x, L.UnmaskedArray):
        return V.unmaskedarray.UnmaskedArray(conv(x.content))
    if isinstance(x, lay.UNIONS):
        return V.unionarray.UnionArray(IX(np.asarray(x.tags)), IX(np.asarray(x.index)), [conv(c) for c in x.contents])
    raise AssertionError(type(x))


def read(y):
    """the value of a Python node, by its public access only"""
    if isinstance(y, ak._v2.record.Record):
        a = y.array
        keys = [a.index_to_key(i) for i in range(len(a.contents))]
        if a.is_tuple:
            return tuple(read(y[k]) for k in keys)
        return {k: read(y[k]) for k in keys}
    if isinstance(y, V.content.Content):
        return [read(y[i]) for i in range(len(y))]
    if isinstance(y, np.ndarray):
        return [read(z) for z in y]
    return y.item() if isinstance(y, np.generic) else y


def take(v, fields):
    """the model of a[fields]; KeyError where some record lacks one"""
    if v is None:
        return None
    if isinstance(v, list):
        return [take(x, fields) for x in v]
    if isinstance(v, tuple):
        v = {str(i): x for i, x in enumerate(v)}
        if not isinstance(fields, str):
            return tuple(v[f] for f in fields)
    if not isinstance(v, dict):
        raise KeyError
    return v[fields] if isinstance(fields, str) else {f: v[f] for f in fields}


def eq(a, b):
    return lay.same(a, b) or lay.close(a, b)


class Check:
    pid = "C32"
    rule = "transition = one element, slice, field or constructor call on a Python node, compared with Python lists; state = distinct (layout, access); non-trivial = distinct value"
    assumptions = ["parameters, forms, identities and the slices that the Python classes declare as not implemented are outside: they do not exist there yet"]

    def space(self, tier):
        ok = lambda d: not any(k in repr(d) for k in ("'V'", "'PART'", "'P'", "'S'", "'B'", "M8", "m8", "'Ns'", "'N2s'"))
        rec2 = ("D", ("y", "x"), (("N", "f8", (0.5, 1.5, 2.5, 3.5, 4.5, 5.5)), ("N", "i8", (0, 1, 2, 3, 4, 5, 6, 7))), 6)
        tup = ("T", (("N", "i8", (0, 1, 2, 3, 4, 5)), ("LO", "32", (0, 2, 2, 3, 3, 5, 6), ("N", "f4", (0, 1, 2, 3, 4, 5)))), 5)
        nst = ("D", ("z", "r"), (("N", "i8", (0, 1, 2, 3, 4, 5)), rec2), 6)
        out = [d for lev in gen.layouts(2, gen.leaves(), (True, True)) for d in lev if ok(d)]
        for b in (rec2, tup, nst):
            out += [b] + [d for lev in gen.layouts(2 if tier == "thorough" else 1, [b], (True, True)) for d in lev if ok(d)]
            out += [d for c in gen.wraps(b, False) for d in gen.wraps(c, False) if ok(d)]
        N = ("N", "i8", (0, 1, 2, 3, 4, 5))
        out += [d for d in gen.node_space(tier) if ok(d)]
        out += [("BM", m, vw, N) for m in itertools.product((0, 1, 2, -1), repeat=3) for vw in (True, False)]
        out += [d for b in ("32", "U32", "64") for n in range(4) for d in gen.all_union(("N", "i8", (1, 2)), ("LO", "64", (0, 2, 3), ("N", "f8", (0.5, 1.5, 2.5))), n, b)]
        F = ("LO", "64", (0, 2, 3), ("N", "f8", (0.5, 1.5, 2.5)))
        out += [("U", b, t, (1, 0, 0, 1, 1), (N, F)) for b in ("32", "U32", "64") for n in range(4) for t in itertools.product((0, 1), repeat=n)]
        out += [("L", b, (1, 0, 2), (3, 0, 4, 5, 6), c) for b in ("32", "U32", "64") for c in (N, rec2)]
        out += [("D", (), (), n) for n in (0, 1, 4)] + [("T", (), n) for n in (0, 3)]
        out += [("R", 0, n, N) for n in (0, 1, 3)] + [("N2", "i8", (3, 2), tuple(range(6))), ("N2", "i8", (3, 0), ()), ("N2", "i4", (2, 2, 2), tuple(range(8)))]
        seen, uniq = set(), []
        for d in out:
            k = repr(d)
            if k not in seen:
                seen.add(k)
                uniq.append(d)
        return uniq

    def units(self, tier):
        self.tier = tier
        sp = self.space(tier)
        return [("read", sp[i:i + 150]) for i in range(0, len(sp), 150)] + [("make",)]

    def bounds(self, tier):
        return ("%d layouts (every node type two deep over every leaf; every offsets, starts, index, mask and tags array of the small node space) x every integer and every slice with bounds in -n-2..n+2 or open (n <= 4, "
                "else 5 bounds), slices of slices and elements of slices, every field, every pair of fields and a missing one; constructors with arguments of the wrong kind, type and length" % len(self.space(tier)))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def one(self, rec, what, real, model):
        """model: a value, or an exception class for what must be refused"""
        rec.step()
        try:
            y = real()
            got = read(y)
        except REFUSE as e:
            if model is not IndexError:
                rec.fail("%s raised %r\nexpected %r" % (what, e, model))
            return None
        except Exception as e:
            rec.fail("%s raised %r" % (what, e))
            return None
        rec.outcome(str(got)[:80])
        if model is IndexError:
            rec.fail("%s gave %r, though it does not exist" % (what, got))
            return None
        if not eq(got, model):
            rec.fail("%s gave %r\nexpected %r" % (what, got, model))
            return None
        return y

    def u_read(self, rec, ds):
        for d in ds:
            if not rec.begin(d):
                continue
            x = mk(d)
            v = decode(x)
            n = len(v)
            try:
                a = conv(x)
            except Exception as e:
                rec.fail("cannot be made of Python nodes: %r" % (e,))
                continue
            if len(a) != n:
                rec.fail("has length %d, not %d" % (len(a), n))
                continue
            rec.state(d)
            self.one(rec, "the array", lambda: a, v)
            for i in range(-n - 2, n + 3):
                self.one(rec, "[%d]" % i, lambda: a[i], v[i] if -n <= i < n else IndexError)
                self.one(rec, "[np.int64(%d)]" % i, lambda: a[np.int64(i)], v[i] if -n <= i < n else IndexError)
            bs = [None] + (list(range(-n - 2, n + 3)) if n <= 4 else [-n - 1, -2, 0, 1, n - 1, n + 1])
            for s, e in itertools.product(bs, repeat=2):
                y = self.one(rec, "[%s:%s]" % (s, e), lambda: a[s:e], v[s:e])
                if y is None or s not in (None, 1, -2) or e not in (None, 3, -1):
                    continue
                w = v[s:e]
                for i in range(-len(w) - 1, len(w) + 1):
                    self.one(rec, "[%s:%s][%d]" % (s, e, i), lambda: y[i], w[i] if -len(w) <= i < len(w) else IndexError)
                for p, q in itertools.product((None, 0, 1, -1, 5), repeat=2):
                    self.one(rec, "[%s:%s][%s:%s]" % (s, e, p, q), lambda: y[p:q], w[p:q])
            keys = [k for k in ("x", "y", "z", "r", "0", "1", "nope") if not ("0" in x.keys() and k in "xyzr")]
            for f in keys + [["x", "y"], ["y", "x"], ["y"], ["0", "1"], ["1"], ["x", "nope"], ["z", "r"]]:
                try:
                    want = take(v, f)
                    has = f in x.keys() if isinstance(f, str) else all(k in x.keys() for k in f)
                except KeyError:
                    has = False
                if not has:
                    self.one(rec, "[%r]" % (f,), lambda: a[f], IndexError)
                    continue
                y = self.one(rec, "[%r]" % (f,), lambda: a[f], want)
                if y is None:
                    continue
                for i in range(n):
                    self.one(rec, "[%d][%r]" % (i, f), lambda: (None if a[i] is None else a[i][f]), want[i])
                    self.one(rec, "[%r][%d]" % (f, i), lambda: y[i], want[i])
                self.one(rec, "[1:][%r]" % (f,), lambda: a[1:][f], want[1:])
                self.one(rec, "[%r][:-1]" % (f,), lambda: y[:-1], want[:-1])
            if x.keys() == [] and isinstance(x, L.RecordArray):
                self.one(rec, "no fields", lambda: a[[]], [() if x.istuple else {} for _ in v])
            rec.step()
            try:
                if not isinstance(repr(a), str):
                    rec.fail("has no repr")
            except Exception as e:
                rec.fail("repr raised %r" % (e,))

    def u_make(self, rec):
        N = V.numpyarray.NumpyArray(np.arange(6))
        kinds = {t: IX(np.arange(4).astype(t)) for t in ("i1", "u1", "i4", "u4", "i8")}
        plain = {"numpy": np.arange(4), "list": [0, 1, 2, 3], "float": np.arange(4.0), "none": None}
        every = list(kinds.items()) + list(plain.items())
        LI, OP = ("i4", "u4", "i8"), ("i4", "i8")
        makers = {"ListOffsetArray": (LI, lambda i: V.listoffsetarray.ListOffsetArray(i, N)), "IndexedArray": (LI, lambda i: V.indexedarray.IndexedArray(i, N)),
                  "IndexedOptionArray": (OP, lambda i: V.indexedoptionarray.IndexedOptionArray(i, N)), "ByteMaskedArray": (("i1",), lambda i: V.bytemaskedarray.ByteMaskedArray(i, N, True)),
                  "BitMaskedArray": (("u1",), lambda i: V.bitmaskedarray.BitMaskedArray(i, N, True, 4, True)), "ListArray same": (LI, lambda i: V.listarray.ListArray(i, i, N)),
                  "ListArray stops": (("i8",), lambda i: V.listarray.ListArray(kinds["i8"], i, N)), "UnionArray tags": (("i1",), lambda i: V.unionarray.UnionArray(i, kinds["i8"], [N, N, N, N])),
                  "UnionArray index": (LI, lambda i: V.unionarray.UnionArray(kinds["i1"], i, [N, N, N, N]))}
        for name in sorted(makers):
            ok, make = makers[name]
            for k, i in every:
                if not rec.begin(("make", name, k)):
                    continue
                rec.state((name, k))
                self.refuse(rec, "%s from an index of %s" % (name, k), lambda: make(i), k in ok)
        i8 = kinds["i8"]
        short = IX(np.arange(2))
        for name, make, good in [("content", lambda: V.listoffsetarray.ListOffsetArray(i8, np.arange(6)), False), ("content 2", lambda: V.indexedarray.IndexedArray(i8, [1, 2]), False),
                                 ("no offsets", lambda: V.listoffsetarray.ListOffsetArray(IX(np.array([], "i8")), N), False), ("one offset", lambda: V.listoffsetarray.ListOffsetArray(IX(np.array([0], "i8")), N), True),
                                 ("starts > stops", lambda: V.listarray.ListArray(i8, short, N), False), ("starts < stops", lambda: V.listarray.ListArray(short, i8, N), True),
                                 ("mask > content", lambda: V.bytemaskedarray.ByteMaskedArray(IX(np.zeros(7, "i1")), N, True), False), ("mask = content", lambda: V.bytemaskedarray.ByteMaskedArray(IX(np.zeros(6, "i1")), N, True), True),
                                 ("valid_when", lambda: V.bytemaskedarray.ByteMaskedArray(IX(np.zeros(6, "i1")), N, 1), False), ("bits", lambda: V.bitmaskedarray.BitMaskedArray(IX(np.zeros(1, "u1")), N, True, 7, True), False),
                                 ("bits 8", lambda: V.bitmaskedarray.BitMaskedArray(IX(np.zeros(1, "u1")), V.numpyarray.NumpyArray(np.arange(9)), True, 9, True), False),
                                 ("bits 6", lambda: V.bitmaskedarray.BitMaskedArray(IX(np.zeros(1, "u1")), N, True, 6, True), True), ("tags > index", lambda: V.unionarray.UnionArray(IX(np.zeros(5, "i1")), i8, [N]), False),
                                 ("size", lambda: V.regulararray.RegularArray(N, -1), False), ("size 1.0", lambda: V.regulararray.RegularArray(N, 1.0), False), ("zeros", lambda: V.regulararray.RegularArray(N, 0, -1), False),
                                 ("record length", lambda: V.recordarray.RecordArray([N], ["x"], 7), False), ("record length 6", lambda: V.recordarray.RecordArray([N], ["x"], 6), True), ("keys", lambda: V.recordarray.RecordArray([N], ["x", "y"]), False),
                                 ("keys 2", lambda: V.recordarray.RecordArray([N], [1]), False), ("keys 3", lambda: V.recordarray.RecordArray([N], 1), False), ("no contents", lambda: V.recordarray.RecordArray([], []), False),
                                 ("record contents", lambda: V.recordarray.RecordArray([np.arange(3)], ["x"]), False), ("record at", lambda: ak._v2.record.Record(V.recordarray.RecordArray([N], ["x"]), 6), False),
                                 ("record at -1", lambda: ak._v2.record.Record(V.recordarray.RecordArray([N], ["x"]), -1), False), ("record of", lambda: ak._v2.record.Record(N, 0), False), ("unmasked", lambda: V.unmaskedarray.UnmaskedArray([1]), False),
                                 ("unmasked content", lambda: V.unmaskedarray.UnmaskedArray(N).content, True), ("two dimensions", lambda: IX(np.zeros((2, 2), "i8")), False), ("float index", lambda: IX(np.zeros(2)), False),
                                 ("wrong index", lambda: ak._v2.index.Index32(np.zeros(2, "i4")), True)]:
            if not rec.begin(("make", name)):
                continue
            rec.state(name)
            self.refuse(rec, name, make, good)
        for t in ("i1", "u1", "i4", "u4", "i8"):
            for n in range(4):
                if not rec.begin(("index", t, n)):
                    continue
                rec.state((t, n))
                rec.step()
                i = IX(np.arange(n).astype(t))
                w = i.to64()
                if list(i) != list(range(n)) or i.dtype != np.dtype(t) or len(i) != n or w.dtype != np.int64 or list(w) != list(range(n)) or type(w).__name__ != "Index64":
                    rec.fail("the index of %s is %r and %r" % (t, i, w))
                import copy
                c = copy.copy(i)
                for k in range(n):
                    c[k] = 7
                if list(i) != list(range(n)) or list(c) != [7] * n:
                    rec.fail("a copy of an index of %s shares its data" % t)

    def refuse(self, rec, what, make, good):
        rec.step()
        try:
            make()
        except REFUSE + (AttributeError,) as e:
            rec.outcome(("refused", what))
            if good:
                rec.fail("%s raised %r" % (what, e))
            return
        if not good:
            rec.fail("%s was accepted" % what)
