"""C22: every operation of the catalogue on every layout of the bounded space, with the buffers, forms and values of all inputs compared before and after."""
import itertools

import awkward as ak
import numpy as np
from vlib import gen, lay, ops
from vlib.lay import L, decode, mk


def buffers(x, out=None):
    """every buffer reachable from a layout, as numpy views of the live memory"""
    if out is None:
        out = []
    if isinstance(x, ak.partition.PartitionedArray):
        for p in x.partitions:
            buffers(p, out)
    elif isinstance(x, L.Record):
        buffers(x.array, out)
    elif isinstance(x, L.VirtualArray):
        buffers(x.array, out)
    elif isinstance(x, L.NumpyArray):
        out.append(np.asarray(x))
    else:
        for name in ("offsets", "starts", "stops", "index", "tags", "mask"):
            if hasattr(x, name):
                out.append(np.asarray(getattr(x, name)))
        if isinstance(x, L.RecordArray) or isinstance(x, lay.UNIONS):
            for c in x.contents:
                buffers(c, out)
        elif hasattr(x, "content"):
            buffers(x.content, out)
    return out


def formof(x):
    if isinstance(x, ak.partition.PartitionedArray):
        return repr([formof(p) for p in x.partitions])
    if isinstance(x, L.Record):
        return formof(x.array) + str(x.at)
    if isinstance(x, L.VirtualArray):
        return "virtual " + repr(x.parameters)
    return x.form.tojson(False, True) + "%d" % len(x)


class Held:
    """one input and what it looked like"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.lay = None
        if isinstance(obj, (ak.Array, ak.Record)):
            self.lay = obj.layout
        elif isinstance(obj, (L.Content, L.Record, ak.partition.PartitionedArray)):
            self.lay = obj
        if self.lay is not None:
            self.bufs = buffers(self.lay)
            self.form = formof(self.lay)
            self.value = repr(decode(self.lay))
        elif isinstance(obj, np.ndarray):
            self.bufs = [obj]
        else:
            self.bufs = []
            self.value = repr(obj)
        self.bytes = [b.tobytes() for b in self.bufs]

    def changed(self, deep=True):
        for b, want in zip(self.bufs, self.bytes):
            if b.tobytes() != want:
                return "%s: a buffer changed from %r to %r" % (self.name, np.frombuffer(want, b.dtype).tolist(), b.reshape(-1).tolist())
        if self.lay is not None:
            if isinstance(self.obj, (ak.Array, ak.Record)) and self.obj.layout is not self.lay and formof(self.obj.layout) != self.form:
                return "%s: the layout was replaced" % self.name
            if formof(self.lay) != self.form:
                return "%s: the form changed from %s to %s" % (self.name, self.form, formof(self.lay))
            if deep and repr(decode(self.lay)) != self.value:
                return "%s: the values changed from %s to %r" % (self.name, self.value, decode(self.lay))
        elif not isinstance(self.obj, np.ndarray) and repr(self.obj) != self.value:
            return "%s: changed from %s to %r" % (self.name, self.value, self.obj)
        return None


def trees(tier):
    lv = gen.layouts(1, gen.leaves(6, True), [True])
    out = [d for level in lv for d in level]
    n = ("N", "f8", (2.5, 0.5, 1.5, 0.5, 3.5, -1.5))
    two = gen.layouts(2, [n], [False, True] if tier == "quick" else [True, True])[2]
    out += two
    out += gen.layouts(2, [("S", ("b", "", "a", "cc"))], [False, False])[2][:60]
    for d in list(out[:120:4]):
        out.append(("V", d, True))
    out += gen.longs(40)
    seen = set()
    return [d for d in out if not (repr(d) in seen or seen.add(repr(d)))]


def three():
    """layouts of length 3, to pair with each other"""
    n3 = ("N", "i8", (3, 1, 2))
    f3 = ("Ns", "f8", (0.5, 2.5, 1.5), "rev")
    b3 = ("N", "?", (True, False, True))
    out = [n3, f3, b3, ("N", "u1", (1, 2, 255)), ("S", ("b", "", "a")), ("N2", "i8", (3, 2), (5, 4, 3, 2, 1, 0))]
    for c in (n3, b3):
        out += [("IO", "64", (2, -1, 0), c), ("IO", "32", (0, 1, -1), c), ("BM", (1, 0, 1), True, c), ("BM", (0, 0, 1), False, c), ("bM", (1, 0, 1), True, 3, True, c), ("bM", (0, 1, 1), False, 3, False, c),
                ("UM", c), ("I", "64", (2, 0, 0), c), ("LO", "64", (0, 2, 2, 3), c), ("L", "64", (1, 0, 0), (3, 0, 1), c), ("R", 1, 0, c), ("V", c, True),
                ("LO", "64", (0, 1, 1, 3), ("BM", (1, 0, 1), True, c)), ("BM", (1, 0, 1), True, ("LO", "64", (0, 1, 1, 3), c)), ("IO", "64", (0, -1, 1), ("L", "64", (1, 0, 0), (3, 0, 1), c))]
    out += [("D", ("x", "y"), (n3, f3), 3), ("T", (n3, b3), 3), ("LO", "64", (0, 1, 1, 3), ("D", ("x",), (n3,), 3)), ("U", "64", (0, 1, 0), (0, 0, 1), (n3, ("S", ("q",)))),
            ("LO", "64", (0, 1, 1, 3), ("LO", "64", (0, 2, 2, 3), n3)), ("D", ("x", "y"), (("BM", (1, 0, 1), True, n3), ("IO", "64", (0, -1, 1), f3)), 3), ("E",)]
    return out


PAIR = [
    ("add", lambda a, b: a + b), ("equal", lambda a, b: a == b), ("logical_and", lambda a, b: np.logical_and(a, b)), ("concatenate", lambda a, b: ak.concatenate([a, b])),
    ("concatenate 1", lambda a, b: ak.concatenate([a, b], axis=1)), ("broadcast", lambda a, b: ak.broadcast_arrays(a, b)), ("zip", lambda a, b: ak.zip({"a": a, "b": b})),
    ("where", lambda a, b: ak.where(np.array([True, False, True]), a, b)), ("where cond", lambda a, b: ak.where(a, b, 5)), ("cartesian", lambda a, b: ak.cartesian([a, b])),
    ("cartesian 0", lambda a, b: ak.cartesian([a, b], axis=0)), ("fill_none", lambda a, b: ak.fill_none(a, b[0])), ("mask", lambda a, b: ak.mask(a, b)), ("getitem", lambda a, b: a[b]),
    ("with_field", lambda a, b: ak.with_field(a, b, "new")), ("covar", lambda a, b: ak.covar(a, b, axis=-1)), ("merge", lambda a, b: a.layout.merge(b.layout)),
    ("weighted mean", lambda a, b: ak.mean(a, weight=b, axis=-1)), ("isclose", lambda a, b: ak.isclose(a, b)), ("unflatten", lambda a, b: ak.unflatten(a, b)),
    ("arctan2", lambda a, b: np.arctan2(a, b)), ("three", lambda a, b: ak.broadcast_arrays(a, b, a)), ("append", lambda a, b: append(a, b)), ("partitioned", lambda a, b: ak.to_list(ak.partitioned([a, b]) + 1)),
]


def append(a, b):
    b1 = ak.ArrayBuilder()
    b1.append(a)
    b1.append(b)
    for i in range(len(a)):
        b1.append(a, i)
    b1.snapshot()


class Check:
    pid = "C22"
    rule = ("transition = one operation applied; state = distinct (operation, inputs); non-trivial = distinct operation outcome class per input; every buffer of every input is compared byte for byte, "
            "and forms and values with them, after every operation, also when it raises")
    assumptions = ["bytes in the gaps of strided buffers are not compared"]

    def units(self, tier):
        self.tier = tier
        return [("one", p) for p in range(48)] + [("two", p) for p in range(24)] + [("assign", p) for p in range(4)] + [("sequence", p) for p in range(8)]

    def bounds(self, tier):
        return "%d layouts x %d operations; all %d^2 pairs of layouts of length 3 x %d operations; field assignment on every record layout; all pairs of operations in sequence on %d arrays" % (
            len(trees(tier)), len(ops.catalogue()), len(three()), len(PAIR), len(seqbases()))

    def run_unit(self, unit, rec):
        np.seterr(all="ignore")
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def judge(self, rec, call, held):
        rec.step()
        try:
            call()
            rec.outcome("answer")
        except ops.ERR:
            rec.outcome("raise")
        except lay.Undecodable:
            pass
        for h in held:
            msg = h.changed()
            if msg:
                rec.fail(msg)
                return False
        return True

    def u_one(self, rec, part):
        cat = ops.catalogue()
        for i, d in enumerate(trees(self.tier)):
            if i % 48 != part:
                continue
            a = ak.Array(mk(d))
            held = Held(a, "the array")
            for name, group, mkargs, call in cat:
                if not rec.begin({"array": d, "operation": name}):
                    continue
                rec.state((repr(d), name))
                try:
                    args = mkargs(a)
                except ops.ERR:
                    continue
                more = [Held(x, "argument %d" % k) for k, x in enumerate(args)]
                if not self.judge(rec, lambda: call(a, *args), [held] + more):
                    a = ak.Array(mk(d))
                    held = Held(a, "the array")

    def u_two(self, rec, part):
        ds = three()
        for i, (d, e) in enumerate(itertools.product(ds, ds)):
            if i % 24 != part:
                continue
            a, b = ak.Array(mk(d)), ak.Array(mk(e))
            held = [Held(a, "the first array"), Held(b, "the second array")]
            for name, call in PAIR:
                if not rec.begin({"arrays": (d, e), "operation": name}):
                    continue
                rec.state((repr(d), repr(e), name))
                if not self.judge(rec, lambda: call(a, b), held):
                    a, b = ak.Array(mk(d)), ak.Array(mk(e))
                    held = [Held(a, "the first array"), Held(b, "the second array")]

    def u_assign(self, rec, part):
        """the documented in-place form changes one high-level array and nothing else"""
        from checks.c28 import bases
        for i, d in enumerate(bases()):
            if i % 4 != part:
                continue
            for where in ("new", "x", "y", ("a", "new"), ("a", "x"), "0"):
                for what in (("N", "i8", tuple(range(gen.dlen(d)))), ("BM", (1, 0, 1, 1)[:gen.dlen(d)], True, ("N", "i8", tuple(range(gen.dlen(d))))), 5, "text"):
                    if not rec.begin({"array": d, "where": where, "what": what}):
                        continue
                    rec.state((repr(d), repr(where), repr(what)))
                    x = mk(d)
                    twin, view, again = ak.Array(x), ak.Array(x)[:], ak.Array(x)
                    w = ak.Array(mk(what)) if isinstance(what, tuple) else what
                    held = [Held(x, "the layout"), Held(twin, "another array with the same layout"), Held(view, "a view"), Held(w, "the new value")]

                    def call():
                        again[where] = w
                    self.judge(rec, call, held)
                    # and a second assignment does not disturb the outcome of the first as seen by others
                    first = Held(ak.Array(again.layout), "the array after one assignment")
                    try:
                        again["second"] = 1
                    except ops.ERR:
                        pass
                    msg = first.changed()
                    if msg:
                        rec.fail(msg)

    def u_sequence(self, rec, part):
        """results of one operation are inputs of the next: neither the first array nor the first result changes"""
        cat = [c for c in ops.catalogue() if c[1] in ("getitem", "structure", "layout", "ufunc")]
        for i, d in enumerate(seqbases()):
            a = ak.Array(mk(d))
            held = Held(a, "the array")
            for j, (name, group, mkargs, call) in enumerate(cat):
                if j % 8 != part:
                    continue
                if self.tier == "quick" and (j // 8) % 3 != i % 3:
                    continue
                try:
                    r = call(a, *mkargs(a))
                except ops.ERR:
                    continue
                if isinstance(r, L.Content):
                    r = ak.Array(r)
                if not isinstance(r, ak.Array) or not isinstance(r.layout, L.Content):
                    continue
                try:
                    hr = Held(r, "the first result")
                except lay.Undecodable:
                    continue
                for name2, group2, mkargs2, call2 in cat:
                    if not rec.begin({"array": d, "operations": (name, name2)}):
                        continue
                    rec.state((repr(d), name, name2))
                    try:
                        args = mkargs2(r)
                    except ops.ERR:
                        continue
                    if not self.judge(rec, lambda: call2(r, *args), [held, hr]):
                        a = ak.Array(mk(d))
                        held = Held(a, "the array")
                        break


def seqbases():
    n = ("N", "i8", (3, 1, 2, 0, 5, 4))
    return [("LO", "64", (0, 2, 2, 5), n), ("L", "64", (3, 0, 1), (6, 0, 3), ("BM", (1, 0, 1, 1, 0, 1), True, n)), ("R", 2, 0, n), ("D", ("x", "y"), (n, ("LO", "64", (0, 2, 2, 5, 5, 5, 6), n)), 6),
            ("IO", "64", (2, -1, 0, 0), ("LO", "64", (0, 2, 2, 5), n)), ("U", "64", (0, 1, 0, 1), (0, 1, 2, 0), (n, ("S", ("b", "a"))))]
