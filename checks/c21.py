"""C21: (1) validity checking against an independent definition, on all small buffer contents (in and out of bounds) of every node type, alone and nested; (2) every
operation of the catalogue on valid layouts yields valid layouts."""
import itertools

import awkward as ak
import numpy as np
from checks.c22 import PAIR, three, trees
from vlib import gen, lay, ops
from vlib.lay import IX, DT, L, decode, mk

UNJUDGED = "categories other than numbers and strings"
OPTLIKE = lay.OPTIONS + lay.INDEXED


def arr(index):
    return np.asarray(index).tolist()


def problem(x, inside=None):
    """None if every offset, index, tag, mask and length is in bounds and the nesting canonical; else what is wrong"""
    if isinstance(x, ak.partition.PartitionedArray):
        for p in x.partitions:
            m = problem(p)
            if m:
                return m
        return None
    if isinstance(x, L.Record):
        return problem(x.array)
    if isinstance(x, L.VirtualArray):
        return problem(x.array)
    ap = x.parameters.get("__array__")
    if inside is None and ap in ("char", "byte"):
        return "characters outside strings"
    islist = isinstance(x, lay.LISTOFF + lay.LISTARR + (L.RegularArray,))
    if ap in ("string", "bytestring"):
        if not islist:
            return "a string that is not a list"
        c = x.content
        if not isinstance(c, L.NumpyArray) or c.parameters.get("__array__") != {"string": "char", "bytestring": "byte"}[ap]:
            return "a string without characters"
        a = np.asarray(c)
        if a.dtype != np.uint8 or a.ndim != 1:
            return "characters that are not bytes"
    if ap == "categorical":
        if not isinstance(x, lay.INDEXED + lay.INDEXEDOPT):
            return "a categorical without index"
        c = x.content
        if (isinstance(c, L.NumpyArray) and c.ndim == 1) or c.parameters.get("__array__") in ("string", "bytestring"):
            try:
                vals = [repr(v) for v in decode(c)]
            except lay.Undecodable:
                vals = []
            if len(set(vals)) != len(vals):
                return "repeated categories"
        else:
            return UNJUDGED
    if isinstance(x, L.EmptyArray):
        return None
    if isinstance(x, L.NumpyArray):
        return None
    if isinstance(x, OPTLIKE) and isinstance(x.content, OPTLIKE):
        return "%s contains %s" % (type(x).__name__, type(x.content).__name__)
    if isinstance(x, lay.LISTOFF + lay.LISTARR):
        if isinstance(x, lay.LISTOFF):
            off = arr(x.offsets)
            if not off:
                return "no offsets"
            starts, stops = off[:-1], off[1:]
        else:
            starts, stops = arr(x.starts), arr(x.stops)
        n = len(x.content)
        if len(stops) < len(starts):
            return "fewer stops than starts"
        for a, b in zip(starts, stops):
            if a != b and (a > b or a < 0 or b > n):
                return "list %d:%d of %d" % (a, b, n)
        return problem(x.content, ap if ap in ("string", "bytestring") else None)
    if isinstance(x, L.RegularArray):
        return problem(x.content, ap if ap in ("string", "bytestring") else None)
    if isinstance(x, lay.INDEXED):
        if any(i < 0 or i >= len(x.content) for i in arr(x.index)):
            return "index"
        return problem(x.content)
    if isinstance(x, lay.INDEXEDOPT):
        if any(i >= len(x.content) for i in arr(x.index)):
            return "index"
        return problem(x.content)
    if isinstance(x, L.ByteMaskedArray):
        if len(x.content) < len(x.mask):
            return "mask"
        return problem(x.content)
    if isinstance(x, L.BitMaskedArray):
        if len(x.content) < len(x) or len(x.mask) * 8 < len(x):
            return "mask"
        return problem(x.content)
    if isinstance(x, L.UnmaskedArray):
        return problem(x.content)
    if isinstance(x, L.RecordArray):
        for c in x.contents:
            if len(c) < len(x):
                return "field length"
            m = problem(c)
            if m:
                return m
        return None
    if isinstance(x, lay.UNIONS):
        tags, index = arr(x.tags), arr(x.index)
        cs = x.contents
        if any(isinstance(c, lay.UNIONS) for c in cs):
            return "union in union"
        if len(index) < len(tags):
            return "index shorter than tags"
        for t, i in zip(tags, index):
            if t < 0 or t >= len(cs) or i < 0 or i >= len(cs[t]):
                return "tag %d index %d" % (t, i)
        for c in cs:
            m = problem(c)
            if m:
                return m
        return None
    raise AssertionError(type(x))


BIG = {"32": (2**31 - 1, -2**31), "U32": (2**32 - 1, 2**31), "64": (2**63 - 1, -2**63)}


def nodes(tier):
    """every node type alone with every buffer content over values around the bounds, as thunks"""
    c = ("N", "i8", (10, 11))
    for b in ("32", "U32", "64"):
        vals = [v for v in (-1, 0, 1, 2, 3) if v >= 0 or b != "U32"] + list(BIG[b])
        for n in range(0, 4 if b == "64" or tier != "quick" else 3):
            for off in itertools.product(vals, repeat=n):
                yield ("LO", b, off, c)
        for n in (0, 1, 2):
            for m in (n - 1, n, n + 1):
                if m < 0 or m > 2:
                    continue
                if n == 2 and b != "64" and tier == "quick":
                    continue
                for s in itertools.product(vals, repeat=n):
                    for e in itertools.product(vals, repeat=m):
                        yield ("L", b, s, e, c)
        for n in range(0, 4 if tier != "quick" else 3):
            for i in itertools.product(vals, repeat=n):
                yield ("I", b, i, c)
                if b != "U32":
                    yield ("IO", b, i, c)
        for n in (0, 1, 2):
            for m in (n - 1, n, n + 1):
                if m < 0 or m > 2 or (m == 2 and b != "64" and tier == "quick"):
                    continue
                for t in itertools.product((-1, 0, 1, 2, 127), repeat=n):
                    for i in itertools.product(vals, repeat=m):
                        yield ("U", b, t, i, (c, ("S", ("x",))))
    for n in range(0, 5):
        yield ("BM", (1,) * n, True, c)
    for n in (0, 1, 2, 3, 7, 8, 9, 16, 17):
        for bits in (0, 1, 8, 9, 16):
            for cl in (0, 1, 2, 8, 9, 17):
                yield ("bM", (1,) * bits, True, n, True, ("N", "i8", tuple(range(cl))))
    for n in range(0, 5):
        yield ("D", ("x", "y"), (c, ("N", "i8", (1, 2, 3))), n)
        yield ("T", (c,), n)
        yield ("T", (), n)
    for size in (-1, 0, 1, 2, 3):
        for z in (-1, 0, 2):
            yield ("R", size, z, c)


def under(d):
    """d below one node of each type, where that node itself is in order"""
    n = 4
    try:
        n = len(mk(d))
    except ops.ERR:
        return
    z = tuple(range(n))
    other = ("S", ("p", "q"))
    yield ("LO", "64", (0, n), d)
    yield ("LO", "64", (0, 0), d)
    yield ("L", "64", (0,), (n,), d)
    yield ("R", 1, 0, d)
    yield ("I", "64", z, d)
    yield ("IO", "64", z + (-1,), d)
    yield ("BM", (1,) * n, True, d)
    yield ("bM", (1,) * (8 * ((n + 7) // 8)), True, n, True, d)
    yield ("UM", d)
    yield ("D", ("a", "b"), (("N", "i8", z), d), n)
    yield ("T", (d,), n)
    yield ("U", "64", (0,) * n, z, (d, other))
    yield ("U", "64", (1, 1), (0, 1), (d, other))
    yield ("V", d, False)


def bad_pool():
    c = ("N", "i8", (10, 11, 12))
    good = [("LO", "64", (0, 1, 3), c), ("IO", "64", (0, -1), c), ("I", "64", (0,), c), ("U", "64", (0, 1), (0, 0), (c, ("S", ("x",)))), ("S", ("a", "b")), c, ("E",), ("BM", (1,), True, c), ("UM", c), ("R", 2, 0, c),
            ("D", ("x",), (c,), 2), ("bM", (1,) * 8, True, 2, True, c), ("V", c, False)]
    bad = [("LO", "64", (0, 2, 1), c), ("LO", "64", (0, 4), c), ("LO", "64", (-1, 1), c), ("L", "32", (0, 3), (1, 4), c), ("L", "64", (2,), (1,), c), ("I", "64", (0, 3), c), ("I", "32", (-1,), c), ("IO", "64", (3,), c),
           ("U", "64", (0, 2), (0, 0), (c, ("S", ("x",)))), ("U", "64", (0, 1), (0, 1), (c, ("S", ("x",)))), ("U", "64", (1,), (-1,), (c, ("S", ("x",)))),
           ("P", (("__array__", "char"),), ("N", "u1", (1, 2))), ("P", (("__array__", "string"),), ("LO", "64", (0, 1), c)), ("P", (("__array__", "categorical"),), ("I", "64", (0, 1), ("N", "i8", (1, 1))))]
    return good, bad


# axis arguments that can address the characters of strings: whether that is allowed is left open
INSIDE = {"%s axis=%d" % (f, k) for f in ("is_none", "pad_none", "pad_none clip", "firsts", "cartesian self", "flatten", "concatenate self", "combinations", "combinations replacement",
                                          "to_regular", "from_regular") for k in (1, 2, -1)} | {"cartesian nested", "argcartesian", "rpad", "getitem", "where cond", "merge", "cartesian"}


class Check:
    pid = "C21"
    rule = ("transition = one validity verdict compared with the definition, or one operation whose results are examined; state = distinct (layout) or (operation, layout); "
            "non-trivial = distinct (verdict reason) or distinct result")
    assumptions = ["a list with start == stop is in order wherever it points; an index array longer than its tags, stops longer than starts and contents longer than needed are in order",
                   "results of operations whose axis addresses the characters of strings are not judged",
                   "the uniqueness of categories is taken over the values of the whole content"]

    def units(self, tier):
        self.tier = tier
        return [("nodes", p) for p in range(16)] + [("nested", p) for p in range(16)] + [("params", p) for p in range(4)] + [("one", p) for p in range(48)] + [("two", p) for p in range(24)]

    def bounds(self, tier):
        return ("every buffer content up to length 2-3 over values around the bounds and the ends of each integer width, for every node type and width; 27 node instances below every node type to depth 3; "
                "every string/categorical marking of every node; %d layouts x %d operations and %d^2 pairs x %d operations for the validity of results" % (len(trees(tier)), len(ops.catalogue()), len(three()), len(PAIR)))

    def run_unit(self, unit, rec):
        np.seterr(all="ignore")
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def verdict(self, rec, d):
        if not rec.begin({"layout": d}):
            return
        rec.state(repr(d))
        rec.step()
        try:
            x = mk(d)
        except ops.ERR:
            rec.outcome("refused by the constructor")
            return
        want = problem(x)
        if want == UNJUDGED:
            rec.note(want)
            return
        for how in (lambda: ak.validity_error(x), lambda: None if ak.is_valid(x) else "invalid", lambda: ak.validity_error(ak.Array(x))):
            try:
                got = how()
            except ops.ERR as e:
                rec.fail("raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
                continue
            if (got is None) != (want is None):
                rec.fail("validity error %r, expected %r" % (got, want))
        try:
            ak.validity_error(x, exception=True)
            raised = False
        except ValueError:
            raised = True
        if raised != (want is not None):
            rec.fail("with exception=True: raised is %r, expected %r" % (raised, want))
        rec.outcome(want or "valid")

    def u_nodes(self, rec, part):
        for i, d in enumerate(nodes(self.tier)):
            if i % 16 == part:
                self.verdict(rec, d)

    def u_nested(self, rec, part):
        good, bad = bad_pool()
        k = -1
        for d in good + bad:
            for e in under(d):
                for f in [e] + list(under(e)):
                    k += 1
                    if k % 16 == part:
                        self.verdict(rec, f)
                    if self.tier != "quick":
                        for g in under(f):
                            k += 1
                            if k % 16 == part:
                                self.verdict(rec, g)
        if part == 0:
            for d, e in itertools.product(good + bad, repeat=2):
                self.verdict(rec, ("PART", (d, e)))

    def u_params(self, rec, part):
        u1 = ("N", "u1", (97, 98, 97))
        k = -1
        conts = [u1, ("N", "i1", (97, 98, 99)), ("N", "i8", (97, 98, 99)), ("E",), ("LO", "64", (0, 1, 2, 3), u1), ("IO", "64", (0, 1, 2), u1), ("V", u1, True), ("Ns", "u1", (1, 2, 3), "rev"),
                 ("S", ("a", "b", "a")), ("S", ("a", "b", "c")), ("D", ("x",), (u1,), 3), ("D", ("x", "y"), (u1, ("N", "i8", (1, 2, 3))), 3)]
        marks = (None, "string", "bytestring", "char", "byte", "categorical", "other")
        for c in conts:
            for m1, m2 in itertools.product(marks, marks):
                cc = ("P", (("__array__", m1),), c) if m1 and c[0] != "V" else c
                for e in under(cc):
                    if e[0] == "V":
                        continue
                    ee = ("P", (("__array__", m2),), e) if m2 else e
                    k += 1
                    if k % 4 == part:
                        self.verdict(rec, ee)

        words = ("", "a", "aa", "ab", "b", "aba")
        big = ("x" * 300, "x" * 299 + "y", "x" * 301, "", "z")
        for n in range(0, 4 if self.tier == "quick" else 5):
            for w in itertools.chain(itertools.product(words, repeat=n), itertools.product(big, repeat=n)):
                k += 1
                if k % 4 != part:
                    continue
                for c in (("S", w), ("B", tuple(x.encode() for x in w)), ("LOs", w)):
                    if c[0] == "LOs":
                        chars = "".join(w).encode()
                        off = list(itertools.accumulate([1] + [len(x) for x in w]))
                        c = ("P", (("__array__", "string"),), ("LO", "32", tuple(off), ("P", (("__array__", "char"),), ("N", "u1", (120,) + tuple(chars)))))
                    self.verdict(rec, ("P", (("__array__", "categorical"),), ("I", "64", (0,) if n else (), c)))
                    self.verdict(rec, ("P", (("__array__", "categorical"),), ("IO", "64", (-1,), c)))
        for n in range(0, 4 if self.tier == "quick" else 5):
            for v in itertools.product((0, 1, 2), repeat=n):
                k += 1
                if k % 4 == part:
                    for dt in ("i8", "u1", "f4", "?"):
                        for m in ("N", "Ns"):
                            self.verdict(rec, ("P", (("__array__", "categorical"),), ("I", "64", (), (m, dt, v) + (("rev",) if m == "Ns" else ()))))

    # ------------------------------------------------------------ results

    def results(self, rec, call, inside=False):
        self.inside = inside
        rec.step()
        try:
            r = call()
        except ops.ERR:
            rec.outcome("raise")
            return
        except lay.Undecodable as e:
            rec.fail("undecodable %s" % e)
            return
        todo = [r]
        while todo:
            y = todo.pop()
            if isinstance(y, (tuple, list)):
                todo.extend(y[:8])
                continue
            if isinstance(y, (ak.Array, ak.Record)):
                y = y.layout
            if isinstance(y, (L.Content, L.Record, ak.partition.PartitionedArray)):
                if isinstance(y, L.NumpyArray) and y.parameters.get("__array__") in ("char", "byte"):
                    continue            # a single string
                try:
                    m = problem(y)
                except ops.ERR:
                    rec.outcome("raise on reading")     # the operation was deferred
                    return
                if m == UNJUDGED:
                    rec.note(m)
                    return
                if m and "string" in m and self.inside:
                    rec.note("inside strings")
                    return
                if m:
                    rec.fail("the result is invalid: %s" % m)
                e = ak.validity_error(y)
                if e is not None and not m:
                    rec.fail("the result is reported invalid: %s" % e.split("\n")[0])
                try:
                    rec.outcome(repr(decode(y)))
                except lay.Undecodable as e:
                    rec.fail("the result cannot be read: %s" % e)

    def u_one(self, rec, part):
        cat = ops.catalogue()
        for i, d in enumerate(trees(self.tier)):
            if i % 48 != part:
                continue
            a = ak.Array(mk(d))
            if problem(a.layout):
                raise AssertionError(d)
            for name, group, mkargs, call in cat:
                if name == "carry":         # does not check its argument
                    continue
                if not rec.begin({"array": d, "operation": name}):
                    continue
                rec.state((repr(d), name))
                try:
                    args = mkargs(a)
                except ops.ERR:
                    continue
                self.results(rec, lambda: call(a, *args), name in INSIDE or name.startswith("["))

    def u_two(self, rec, part):
        ds = three()
        for i, (d, e) in enumerate(itertools.product(ds, ds)):
            if i % 24 != part:
                continue
            a, b = ak.Array(mk(d)), ak.Array(mk(e))
            for name, call in PAIR:
                if not rec.begin({"arrays": (d, e), "operation": name}):
                    continue
                rec.state((repr(d), repr(e), name))
                self.results(rec, lambda: call(a, b), name in INSIDE)
