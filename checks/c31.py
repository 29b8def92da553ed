"""C31: behaviors.  Every registry (which keys, global, local to the array, or both) x every layout of named records: the class of
the array, of all its parts and of the results of every operation follows from the name they carry; overloaded functions are
applied to exactly the records of that name, at every depth."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay, ops
from vlib.diff import OKERR
from vlib.lay import decode, mk

A, R = ak.highlevel.Array, ak.highlevel.Record


def classes(tag):
    return {"Pt": type("Rec" + tag, (R,), {}), (".", "Pt"): type("Dot" + tag, (A,), {}), ("*", "Pt"): type("Star" + tag, (A,), {})}


G, LOC = classes("G"), classes("L")


class registry(object):
    """entries added to ak.behavior for one case"""

    def __init__(self, entries):
        self.entries = entries

    def __enter__(self):
        self.saved = {k: ak.behavior[k] for k in self.entries if k in ak.behavior}
        ak.behavior.update(self.entries)

    def __exit__(self, *args):
        for k in self.entries:
            del ak.behavior[k]
        ak.behavior.update(self.saved)


def names(x):
    """(name of the node itself, name of the records in its lists)"""
    if isinstance(x, ak.partition.PartitionedArray):
        return names(x.partitions[0])
    own = x.parameters.get("__record__")
    if own is not None:
        return own, own
    if isinstance(x, ak.layout.RecordArray) or isinstance(x, (ak.layout.NumpyArray, ak.layout.EmptyArray)):
        return None, None
    if isinstance(x, lay.UNIONS):
        ns = {names(c)[1] for c in x.contents}
        return None, (ns.pop() if len(ns) == 1 else None)
    if isinstance(x, ak.layout.VirtualArray):
        return None, names(x.array)[1]
    return None, names(x.content)[1]


def expected(x, glob, local):
    """the classes that a high-level object over this layout may have"""
    reg = dict(glob)
    reg.update(local)
    if isinstance(x, ak.layout.Record):
        n = names(x.array)[0]
        return {reg.get(n, R)} if n is not None else {R}
    if (x.partition(0) if isinstance(x, ak.partition.PartitionedArray) else x).parameters.get("__array__") in ("string", "bytestring", "char", "byte", "categorical"):
        return None
    own, deep = names(x)
    if own is not None and (".", own) in reg:
        return {reg[".", own]}
    out = {reg.get(("*", deep), A)} if deep is not None else {A}
    if deep is not None and (".", deep) in reg and not isinstance(x, lay.LISTOFF + lay.LISTARR + (ak.layout.RegularArray,)):
        out.add(reg[".", deep])   # missing, indexed, lazy, partitioned and union nodes over the records: either reading of "array of"
    return out


PT = ("P", (("__record__", "Pt"),), ("D", ("y", "x"), (("N", "f8", (0.5, 1.5, 2.5, 3.5, 4.5, 5.5)), ("N", "i8", (0, 1, 2, 3, 4, 5))), 6))
TU = ("P", (("__record__", "Pt"),), ("T", (("N", "i8", (0, 1, 2, 3, 4, 5)),), 6))
QQ = ("P", (("__record__", "Other"),), ("D", ("x",), (("N", "i8", (0, 1, 2, 3, 4, 5)),), 6))
IN = ("P", (("__record__", "Other"),), ("D", ("x", "p"), (("N", "i8", (0, 1, 2, 3, 4, 5)), PT), 6))
LI = ("P", (("__record__", "Pt"),), ("LO", "64", (0, 2, 3, 6), ("N", "i8", (0, 1, 2, 3, 4, 5))))


class P2(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


def zipped(x, y):
    return ak.zip({"x": x, "y": y}, with_name="Pt")


OVER = {(np.add, "Pt", "Pt"): lambda a, b: zipped(a.x + b.x, a.y + b.y),
        (np.subtract, "Pt", "Pt"): lambda a, b: a.x - b.x,
        (np.multiply, "Pt", np.number): lambda a, b: zipped(a.x * b, a.y * b),
        (np.multiply, np.number, "Pt"): lambda a, b: zipped(b.x * a * 10, b.y * a * 10),
        (np.multiply, "Pt", int): lambda a, b: zipped(a.x * b, a.y * b),
        (np.multiply, int, "Pt"): lambda a, b: zipped(b.x * a * 10, b.y * a * 10),
        (np.absolute, "Pt"): lambda a: np.sqrt(a.x * a.x + a.y * a.y),
        (np.negative, "Pt"): lambda a: zipped(-a.x, -a.y),
        ("__cast__", P2): lambda p: ak.with_name(ak.Array([{"x": -1, "y": -1.5}, {"x": p.x, "y": p.y}]), "Pt")[1]}


def each(v, f):
    """f on every record of a nested value"""
    if v is None:
        return None
    if isinstance(v, list):
        return [each(x, f) for x in v]
    return f(v)


def each2(v, w, f):
    if v is None or w is None:
        return None
    if isinstance(v, list):
        return [each2(x, y, f) for x, y in zip(v, w)]
    return f(v, w)


MAKES = ("round trip buffers", "round trip arrow", "virtual")   # make new arrays out of other things


def pt(x, y):
    return {"x": x, "y": y}


class Check:
    pid = "C31"
    rule = "transition = the class of one object, or one overloaded function on one array; state = distinct (registry, layout); non-trivial = distinct class or result"
    assumptions = ["the overloads that mixin classes register are checked, their class assignment is not (Python 3.12 refuses it with the installed NumPy; the repository's own mixin tests fail for that reason)", "lazy arrays declare their type (the class of one that does not is that of a plain array until it is read)", "whether an array of missing, indexed, lazy, partitioned or mixed records of one name is an 'array of records' ('.' key) is left open: both classes are accepted there",
                   "the class of strings and categoricals is their own"]

    def layouts(self, tier):
        kw = dict(records=False)
        out = [PT, TU, QQ, IN, LI, ("PART", (PT, PT)), ("V", PT, True), ("V", ("LO", "64", (0, 2, 6), PT), True), ("PART", (("LO", "64", (0, 2, 6), PT), ("LO", "64", (0, 0), PT)))]
        for b in (PT, TU, IN, LI):
            out += gen.wraps(b, True, **kw)
        out += [w for c in gen.wraps(PT, True, **kw) for w in gen.wraps(c, tier == "thorough", **kw)]
        out += [w for c in gen.wraps(QQ, False, **kw) for w in gen.wraps(c, False, **kw)]
        out += [("U", "64", (0, 1, 0, 1), (0, 0, 5, 2), (PT, PT)), ("U", "64", (0, 1, 0, 1), (0, 0, 5, 2), (PT, QQ)), ("LO", "64", (0, 2, 4), ("U", "64", (0, 1, 0, 1), (0, 0, 5, 2), (PT, QQ))),
                ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (("LO", "64", (0, 2, 3), PT), ("R", 2, 0, PT))), ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (("LO", "64", (0, 2, 3), PT), ("LO", "64", (0, 2, 3), QQ))),
                ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (PT, ("IO", "64", (5, -1, 0), PT))), ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (PT, ("LO", "64", (0, 2, 3), PT))),
                ("LO", "64", (0, 1, 1, 4), ("U", "64", (0, 1, 0, 1), (0, 0, 1, 1), (("IO", "32", (5, -1, 0), PT), ("I", "32", (5, 0), PT)))), ("U", "64", (0, 1, 2, 1), (0, 0, 1, 1), (PT, ("N", "i8", (1, 2)), PT)),
                ("D", ("b", "a"), (PT, ("LO", "64", (0, 2, 2, 3, 3, 4, 6), PT)), 6), ("N", "i8", (1, 2, 3))]
        if tier == "thorough":
            out += [w for c in gen.wraps(PT, False, **kw) for d in gen.wraps(c, False, **kw) for w in gen.wraps(d, False, **kw)]
        return out

    def units(self, tier):
        self.tier = tier
        sp = self.layouts(tier)
        some = [d for i, d in enumerate(sp) if i < 70]
        return ([("cls", sp[i:i + 12]) for i in range(0, len(sp), 12)] + [("over", sp[i:i + 12]) for i in range(0, len(sp), 12)] +
                [("ops", some[i:i + 3]) for i in range(0, len(some), 3)] + [("mixin",), ("merge",)])

    def bounds(self, tier):
        return ("%d layouts of named records x 15 registries (each subset of the record, '.' and '*' keys, global, local or a local one over a global one), every part reached by indexing, slicing, iterating "
                "and field access; 8 overloaded functions on the same layouts; the operation catalogue on 70 layouts; a hierarchy of 4 mixin classes; 14 functions of two and three arrays with every combination of 12 (thorough: 28) behaviors" % len(self.layouts(tier)))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    # ------------------------------------------------------------- classes
    def look(self, rec, h, glob, local, beh, path, depth=0):
        if not isinstance(h, (A, R)):
            return
        rec.step()
        want = expected(h.layout, glob, local)
        if want is not None:
            rec.outcome((type(h).__name__, len(path)))
            if type(h) not in want:
                rec.fail("%s is a %s, not a %s" % (path or "the array", type(h).__name__, "/".join(c.__name__ for c in want)))
                return
        if h.behavior is not beh:
            rec.fail("%s has the behavior %r" % (path or "the array", h.behavior))
            return
        if depth >= 4:
            return
        if isinstance(h, R):
            for f in ak.fields(h):
                self.look(rec, h[f], glob, local, beh, path + "[%r]" % f, depth + 1)
            return
        if isinstance(h, (ak.behaviors.string.CharBehavior, ak.behaviors.string.StringBehavior)):
            return
        for i in range(min(len(h), 3)):
            self.look(rec, h[i], glob, local, beh, path + "[%d]" % i, depth + 1)
        for f in ak.fields(h):
            self.look(rec, h[f], glob, local, beh, path + "[%r]" % f, depth + 1)
        if depth < 2:
            self.look(rec, h[1:], glob, local, beh, path + "[1:]", depth + 2)
            if len(h):
                self.look(rec, h[[0, -1]], glob, local, beh, path + "[[0, -1]]", depth + 2)
            for i, x in enumerate(h):
                self.look(rec, x, glob, local, beh, path + " item %d" % i, depth + 2)
                if i == 1:
                    break

    def u_cls(self, rec, ds):
        keys = ["Pt", (".", "Pt"), ("*", "Pt")]
        for d in ds:
            for sub in itertools.product((0, 1), repeat=3):
                for where in ("global", "local", "both"):
                    if where == "both" and not any(sub):
                        continue
                    if not rec.begin((d, sub, where)):
                        continue
                    rec.state((d, sub, where))
                    pick = [k for k, s in zip(keys, sub) if s]
                    glob = {k: G[k] for k in (pick if where == "global" else keys if where == "both" else [])}
                    local = {k: LOC[k] for k in (pick if where != "global" else [])}
                    beh = local if where != "global" else None
                    with registry(glob):
                        h = ak.Array(mk(d), behavior=beh)
                        self.look(rec, h, glob, local, beh, "")
                        n = ak.with_name(ak.Array(mk(d), behavior=beh), "Pt")
                        self.look(rec, n, glob, local, beh, "with_name", 2)

    # ------------------------------------------------------------- operations
    def u_ops(self, rec, ds):
        cat = ops.catalogue()
        local = dict(LOC)
        for d in ds:
            for name, group, args, call in cat:
                if name in MAKES or not rec.begin((d, name)):
                    continue
                try:
                    x = ak.Array(mk(d), behavior=local)
                    out = call(x, *args(x))
                except OKERR + (AssertionError, ZeroDivisionError):
                    rec.outcome("raise")
                    continue
                rec.state((d, name))
                for y in (out if isinstance(out, (list, tuple)) else [out]):
                    self.result(rec, y, local, name)

    def result(self, rec, y, local, name):
        if not isinstance(y, (A, R)):
            return
        rec.step()
        if y.behavior is not local:
            rec.fail("the result of %s has the behavior %r" % (name, y.behavior))
            return
        want = expected(y.layout, {}, local)
        rec.outcome((type(y).__name__, name))
        if want is not None and type(y) not in want:
            rec.fail("the result of %s is a %s, not a %s" % (name, type(y).__name__, "/".join(c.__name__ for c in want)))

    # ------------------------------------------------------------- overloads
    def u_over(self, rec, ds):
        for d in ds:
            for where in ("global", "local"):
                if not rec.begin((d, "overloads", where)):
                    continue
                x = mk(d)
                v = decode(x)
                pure = self.pure(x)
                if pure is None:
                    continue
                rec.state((d, where))
                with registry(OVER if where == "global" else {}):
                    h = ak.Array(x, behavior=OVER if where == "local" else None)
                    one = ak.with_name(ak.Array([{"x": -5, "y": 1.25}, {"x": 100, "y": 0.25}, {"x": 7, "y": 2.25}]), "Pt")[1]
                    cases = [("a + a", lambda: h + h, lambda: each2(v, v, lambda p, q: pt(p["x"] + q["x"], p["y"] + q["y"]))),
                             ("a - a[reversed]", lambda: h - h, lambda: each2(v, v, lambda p, q: p["x"] - q["x"])),
                             ("a * 3", lambda: h * 3, lambda: each(v, lambda p: pt(p["x"] * 3, p["y"] * 3))),
                             ("3 * a", lambda: 3 * h, lambda: each(v, lambda p: pt(p["x"] * 30, p["y"] * 30))),
                             ("abs", lambda: abs(h), lambda: each(v, lambda p: float(np.sqrt(p["x"] ** 2 + p["y"] ** 2)))),
                             ("negative", lambda: -h, lambda: each(v, lambda p: pt(-p["x"], -p["y"]))),
                             ("a + record", lambda: h + one, lambda: each(v, lambda p: pt(p["x"] + 100, p["y"] + 0.25))),
                             ("record + a", lambda: one + h, lambda: each(v, lambda p: pt(p["x"] + 100, p["y"] + 0.25))),
                             ("a + cast", lambda: np.add(h, P2(7, 0.5)), lambda: each(v, lambda p: pt(p["x"] + 7, p["y"] + 0.5))),
                             ("a * array", lambda: h * np.arange(len(v)), lambda: [each(y, lambda p: pt(p["x"] * i, p["y"] * i)) for i, y in enumerate(v)]),
                             ("array * a", lambda: ak.Array(np.arange(len(v))) * h, lambda: [each(y, lambda p: pt(p["x"] * i * 10, p["y"] * i * 10)) for i, y in enumerate(v)])]
                    for name, real, model in cases:
                        rec.step()
                        if name[:6] in ("a * ar", "array ") and self.onlyreg(x):
                            continue   # fully regular data broadcast to the right
                        try:
                            got = decode(real())
                        except Exception as e:
                            if pure:
                                rec.fail("%s raised %s: %s" % (name, type(e).__name__, str(e).split("\n")[0]))
                            continue
                        if not pure:
                            if lay.UNIONS and not any(y is not None for y in flat(v)):
                                continue
                            rec.fail("%s of records of other names gave %r" % (name, got)) if name in ("a + a", "abs", "negative") else None
                            continue
                        rec.outcome(str(got))
                        if not same(got, model()):
                            rec.fail("%s gave %r\nexpected %r" % (name, got, model()))
                    if pure and any(y is not None for y in flat(v)):
                        for name, real in [("a / a", lambda: h / h), ("a < a", lambda: h < h), ("a * 3j", lambda: np.power(h, 2)), ("sqrt", lambda: np.sqrt(h))]:
                            rec.step()
                            try:
                                got = real()
                            except Exception:
                                continue
                            rec.fail("%s has no overload and gave %r" % (name, got))

    def onlyreg(self, x):
        parts = x.partitions if isinstance(x, ak.partition.PartitionedArray) else [x]
        return all(y.purelist_depth > 1 and y.purelist_isregular for y in parts)

    def pure(self, x):
        """True: every record is a Pt with x and y; False: records, none of them a Pt; None: not a case for overloads"""
        if isinstance(x, ak.partition.PartitionedArray):
            return self.pure(x.partitions[0])
        if isinstance(x, ak.layout.VirtualArray):
            return self.pure(x.array)
        if isinstance(x, ak.layout.RecordArray):
            n = x.parameters.get("__record__")
            return True if n == "Pt" and set(x.keys()) == {"x", "y"} else False if n is None or n == "Other" else None
        if isinstance(x, lay.UNIONS):
            ps = {self.pure(c) for c in x.contents}
            return ps.pop() if len(ps) == 1 else None
        if isinstance(x, (ak.layout.NumpyArray, ak.layout.EmptyArray)) or x.parameters.get("__array__") or x.parameters.get("__record__"):
            return None
        return self.pure(x.content)

    # ------------------------------------------------------------- several behaviors
    def u_merge(self, rec):
        keys = ("a", "b", "c")
        behs = [None] + [{k: i for k, i in zip(keys, vals) if i} for vals in itertools.product((0, 1, 2), repeat=3)]
        over = {"add": lambda *x: sum(x[1:], x[0]) if len(x) > 1 else x[0] + 1, "where": lambda *x: ak.where(x[0] > 2, x[-1], x[0]), "zip": lambda *x: ak.zip(dict(zip("pqr", x))), "zip list": lambda *x: ak.zip(list(x)),
                "cartesian": lambda *x: ak.cartesian(list(x)), "cartesian dict": lambda *x: ak.cartesian(dict(zip("pqr", x))), "argcartesian": lambda *x: ak.argcartesian(list(x)), "concatenate": lambda *x: ak.concatenate(list(x)),
                "concatenate 1": lambda *x: ak.concatenate(list(x), axis=1), "broadcast": lambda *x: ak.broadcast_arrays(*x)[0], "isclose": lambda *x: ak.isclose(x[0], x[-1]), "mask": lambda *x: ak.mask(x[0], x[-1] > 0),
                "with_field": lambda *x: ak.with_field(ak.zip({"q": x[0]}), x[-1], "p"), "arctan2": lambda *x: np.arctan2(x[0], x[-1])}
        pick = behs if self.tier == "thorough" else behs[:12]
        some = behs[::4] if self.tier == "thorough" else behs[:12:3]
        for args in itertools.chain(itertools.product(pick, repeat=2), itertools.product(some, repeat=3)):
            for share in (False, True):
                if share and len(set(map(str, args))) == len(args):
                    continue
                for name in sorted(over):
                    if not rec.begin(("merge", tuple(args), share, name)):
                        continue
                    rec.state(("merge", str(args), share, name))
                    bs = [next(b for b in args if b == a) if share else a if a is None else dict(a) for a in args]
                    xs = [ak.Array([[1, 2], [], [3]], behavior=b) for b in bs]
                    keep = [None if b is None else dict(b) for b in bs]
                    use = [0, -1] if name in ("where", "isclose", "mask", "with_field", "arctan2") else range(len(args))
                    want = {}
                    for i in reversed(use):
                        want.update(bs[i] or {})
                    rec.step()
                    got = over[name](*xs).behavior
                    rec.outcome((name, str(got)))
                    if (got or {}) != want:
                        rec.fail("%s of arrays with the behaviors %r has %r, not %r" % (name, bs, got, want))
                    if bs != keep or [x.behavior for x in xs] != keep:
                        rec.fail("%s changed the behaviors %r of its arguments to %r" % (name, keep, bs))

    # ------------------------------------------------------------- mixins
    def u_mixin(self, rec):
        reg = {}

        def place(cls):
            cls.__module__ = __name__
            return ak.mixin_class(reg)(cls)

        @place
        class V2(object):
            @ak.mixin_class_method(np.add, {"V2"})
            def plus(self, other):
                return ak.zip({"x": self.x + other.x, "y": self.y + other.y}, with_name="V2")

            @ak.mixin_class_method(np.multiply, {np.number})
            def times(self, k):
                return ak.zip({"x": self.x * k, "y": self.y * k}, with_name="V2")

            @ak.mixin_class_method(np.absolute)
            def size(self):
                return self.x + self.y

        @place
        class V3(V2):
            @ak.mixin_class_method(np.subtract, {"V2"}, transpose=True)
            def minus(self, other):
                return self.x - other.x

        @place
        class V4(V3):
            @ak.mixin_class_method(np.absolute)
            def size(self):
                return self.x * 1000

        @place
        class W(object):
            pass

        for c in (V2, V3, V4, W):
            if not rec.begin(("mixin", c.__name__)):
                continue
            rec.step()
            if not (issubclass(reg[c.__name__], c) and issubclass(reg[c.__name__], R) and issubclass(reg["*", c.__name__], c) and issubclass(reg["*", c.__name__], A)):
                rec.fail("the classes of %s are %r and %r" % (c.__name__, reg[c.__name__], reg["*", c.__name__]))
        reg = {k: v for k, v in reg.items() if isinstance(k, tuple) and isinstance(k[0], np.ufunc)}   # this Python cannot turn an Array into a V2Array
        base = ("D", ("y", "x"), (("N", "i8", (5, 4, 3, 2, 1, 0)), ("N", "i8", (0, 1, 2, 3, 4, 5))), 6)
        for n1, n2 in itertools.product(("V2", "V3", "V4", "W"), repeat=2):
            for d in [base] + gen.wraps(base, False, records=False, unions=False):
                if not rec.begin(("mixin", n1, n2, d)):
                    continue
                rec.state(("mixin", n1, n2, d))
                a = ak.with_name(ak.Array(mk(d), behavior=reg), n1)
                b = ak.with_name(ak.Array(mk(d), behavior=reg), n2)
                v = decode(mk(d))
                good = n1 != "W" and n2 != "W"
                cases = [("add", lambda: a + b, lambda: each2(v, v, lambda p, q: pt(p["x"] + q["x"], p["y"] + q["y"])), good),
                         ("subtract", lambda: a - b, lambda: each2(v, v, lambda p, q: 0), None if {n1, n2} == {"V3", "V4"} else good and (n1, n2) != ("V2", "V2")),
                         ("abs", lambda: abs(a), lambda: each(v, lambda p: p["x"] * 1000 if n1 == "V4" else p["x"] + p["y"]), n1 != "W")]
                for name, real, model, ok in cases:
                    if ok is None:
                        continue
                    rec.step()
                    try:
                        got = decode(real())
                    except Exception as e:
                        if ok:
                            rec.fail("%s of %s and %s raised %r" % (name, n1, n2, e))
                        continue
                    rec.outcome(str(got))
                    if not ok:
                        rec.fail("%s of %s and %s gave %r" % (name, n1, n2, got))
                    elif not same(got, model()):
                        rec.fail("%s of %s and %s gave %r\nexpected %r" % (name, n1, n2, got, model()))


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def same(a, b):
    """equal up to the order of fields"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return lay.close(a, b)
