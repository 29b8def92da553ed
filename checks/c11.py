"""C11: ArrayBuilder call histories.  Every history up to the bounds is executed on the real builder and on a model
(a stack of open structures); the snapshot after the last call, an earlier snapshot and the length are compared."""
import awkward as ak
import numpy as np
from vlib import lay
from vlib.diff import Bad
from vlib.lay import DT64, mk

UNIT = {"s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}


def norm(v):
    """dates in nanoseconds, so that a change of unit is no difference"""
    if isinstance(v, DT64):
        u = v[0][3:-1]
        return (v[0][:2], v[1] * UNIT[u])
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return lay.loose(a, b)


class Slot:
    """one place of the type: what has been put there decides the fields of its records"""
    __slots__ = ("lst", "recs", "tups")

    def __init__(self):
        self.lst = None
        self.recs = {}
        self.tups = {}


class Model:
    def __init__(self):
        self.root = Slot()
        self.data = []
        self.stack = []

    def place(self):
        """(slot, list of values) a new value goes to"""
        if not self.stack:
            return self.root, self.data
        f = self.stack[-1]
        if f[0] == "list":
            return f[1], f[2]
        if f[3] is None:
            raise Bad
        return f[2][f[3]], f[4].setdefault(f[3], [])

    def value(self, v):
        self.place()[1].append(v)

    def begin_list(self):
        s, _ = self.place()
        if s.lst is None:
            s.lst = Slot()
        self.stack.append(["list", s.lst, []])

    def end_list(self):
        if not self.stack or self.stack[-1][0] != "list":
            raise Bad
        f = self.stack.pop()
        self.value(("list", f[1], f[2]))

    def begin_record(self, name):
        s, _ = self.place()
        self.stack.append(["rec", name, s.recs.setdefault(name, {}), None, {}])

    def field(self, k):
        if not self.stack or self.stack[-1][0] != "rec":
            raise Bad
        f = self.stack[-1]
        f[2].setdefault(k, Slot())
        f[3] = k

    def end_record(self):
        if not self.stack or self.stack[-1][0] != "rec":
            raise Bad
        f = self.stack[-1]
        if any(len(v) > 1 for v in f[4].values()):
            raise Bad
        self.stack.pop()
        self.value(("rec", f[2], {k: v[0] for k, v in f[4].items() if v}))

    def begin_tuple(self, n):
        s, _ = self.place()
        if n not in s.tups:
            s.tups[n] = {i: Slot() for i in range(n)}
        self.stack.append(["tup", n, s.tups[n], None, {}])

    def index(self, i):
        if not self.stack or self.stack[-1][0] != "tup":
            raise Bad
        if not 0 <= i < self.stack[-1][1]:
            raise Bad
        self.stack[-1][3] = i

    def end_tuple(self):
        if not self.stack or self.stack[-1][0] != "tup":
            raise Bad
        f = self.stack[-1]
        if any(len(v) > 1 for v in f[4].values()):
            raise Bad
        self.stack.pop()
        self.value(("tup", f[1], {k: v[0] for k, v in f[4].items() if v}))

    def clear(self):
        """the data goes, what is known of the type stays"""
        self.data = []
        self.stack = []

    def show(self, v):
        if isinstance(v, tuple) and v and v[0] == "list":
            return [self.show(x) for x in v[2]]
        if isinstance(v, tuple) and v and v[0] == "rec":
            return {k: self.show(v[2].get(k)) for k in v[1]}
        if isinstance(v, tuple) and v and v[0] == "tup":
            return tuple(self.show(v[2].get(i)) for i in range(v[1]))
        if isinstance(v, tuple) and v and v[0] == "raw":
            return v[1]
        return v

    def snapshot(self):
        return [self.show(v) for v in self.data]


ARR = {
    "gen": ("N", "i8", (100, 200, 300)),
    "gen2": ("LO", "64", (1, 1, 3, 4), ("N", "f8", (0.5, 1.5, 2.5, 3.5))),
    "I32": ("I", "32", (2, 0, 2), ("N", "i8", (101, 201, 301))),
    "IU32": ("I", "U32", (2, 0, 1), ("S", ("p", "", "q\u00e9"))),
    "I64": ("I", "64", (1, 1, 0), ("N", "f8", (0.25, 0.5))),
    "IO32": ("IO", "32", (1, -1, 0), ("N", "i8", (102, 202, 302))),
    "IO64": ("IO", "64", (-1, 1, 0), ("N", "i8", (103, 203))),
    "rec": ("D", ("x", "y"), (("N", "i8", (1, 2, 3)), ("S", ("a", "b", "c"))), 3),
    "uni": ("U", "64", (0, 1, 0), (1, 0, 0), (("N", "i8", (7, 8)), ("S", ("z",)))),
}
_arr = {}


def arr(name):
    if name not in _arr:
        a = ak.Array(mk(ARR[name]))
        _arr[name] = (a, lay.decode(a.layout))
    return _arr[name]


def run(ops, initial, resize, mid, high=True):
    """-> (raised at last op?, final model, builder, mid snapshot, mid expectation)"""
    b = ak.ArrayBuilder(initial=initial, resize=resize)
    m = Model()
    midsnap = midwant = None
    for i, op in enumerate(ops):
        if i == mid:
            midsnap, midwant = b.snapshot(), m.snapshot()
        k = op[0]
        bad = False
        try:
            if k == "n":
                m.value(None)
            elif k == "b":
                m.value(i % 2 == 0)
            elif k == "i":
                m.value(10 + i)
            elif k == "r":
                m.value(i + 0.5)
            elif k == "c":
                m.value(complex(i, 1.5))
            elif k == "D":
                m.value((("M8"), (i - 1) * UNIT[op[1]]))
            elif k == "d":
                m.value((("m8"), (i - 1) * UNIT[op[1]]))
            elif k == "s":
                m.value("s\u00e9" * i)
            elif k == "y":
                m.value(b"y\x00" * i)
            elif k == "[":
                m.begin_list()
            elif k == "]":
                m.end_list()
            elif k == "{":
                m.begin_record(op[1])
            elif k == "f":
                m.field(op[1])
            elif k == "}":
                m.end_record()
            elif k == "(":
                m.begin_tuple(op[1])
            elif k == "x":
                m.index(op[1])
            elif k == ")":
                m.end_tuple()
            elif k == "clear":
                m.clear()
            elif k == "at":
                a, v = arr(op[1])
                n = len(v)
                if not -n <= op[2] < n:
                    raise Bad
                m.value(("raw", v[op[2]]))
            elif k == "ext":
                m.place()
                for x in arr(op[1])[1]:
                    m.value(("raw", x))
            elif k == "app":
                m.value(("raw", list(arr(op[1])[1])))
            elif k == "py":
                frompy(m, op[1])
        except Bad:
            bad = True
        before = m.snapshot() if bad else None
        try:
            if k == "n":
                b.null()
            elif k == "b":
                b.boolean(i % 2 == 0)
            elif k == "i":
                b.integer(10 + i)
            elif k == "r":
                b.real(i + 0.5)
            elif k == "c":
                b.complex(complex(i, 1.5))
            elif k == "D":
                b.datetime(np.datetime64(i - 1, op[1]))
            elif k == "d":
                b.timedelta(np.timedelta64(i - 1, op[1]))
            elif k == "s":
                b.string("s\u00e9" * i)
            elif k == "y":
                b.bytestring(b"y\x00" * i)
            elif k == "[":
                b.begin_list()
            elif k == "]":
                b.end_list()
            elif k == "{":
                b.begin_record(op[1])
            elif k == "f":
                b.field(op[1])
            elif k == "}":
                b.end_record()
            elif k == "(":
                b.begin_tuple(op[1])
            elif k == "x":
                b.index(op[1])
            elif k == ")":
                b.end_tuple()
            elif k == "clear":
                b._layout.clear()
            elif k == "at":
                b.append(arr(op[1])[0], at=op[2])
            elif k == "ext":
                b.extend(arr(op[1])[0])
            elif k == "app":
                b.append(arr(op[1])[0])
            elif k == "py":
                b.append(op[1])
        except (ValueError, TypeError, IndexError, RuntimeError) as e:
            if not bad:
                return "raised %s at call %d: %s" % (type(e).__name__, i, str(e).split("\n")[0]), None, None
            if i != len(ops) - 1:
                return "harness: history goes on after an error", None, None
            return check(b, before, midsnap, midwant), "error", m
        if bad:
            return "call %d should have raised an error" % i, None, None
    return check(b, m.snapshot(), midsnap, midwant), "ok", m


def frompy(m, v):
    if isinstance(v, list):
        m.begin_list()
        for x in v:
            frompy(m, x)
        m.end_list()
    elif isinstance(v, tuple):
        m.begin_tuple(len(v))
        for i, x in enumerate(v):
            m.index(i)
            frompy(m, x)
        m.end_tuple()
    elif isinstance(v, dict):
        m.begin_record(None)
        for k, x in v.items():
            m.field(k)
            frompy(m, x)
        m.end_record()
    else:
        m.value(v)


def check(b, want, midsnap, midwant):
    if len(b) != len(want):
        return "length %d, expected %d: %r" % (len(b), len(want), want)
    try:
        got = norm(lay.decode(b.snapshot()))
    except lay.Undecodable as e:
        return "the snapshot is not a valid layout: %s\nexpected %r" % (e, want)
    if not eq(got, want):
        return "snapshot %r\nexpected %r" % (got, want)
    if midsnap is not None:
        try:
            got = norm(lay.decode(midsnap))
        except lay.Undecodable as e:
            return "an earlier snapshot is no longer a valid layout: %s" % e
        if not eq(got, midwant):
            return "an earlier snapshot reads %r\nit held %r" % (got, midwant)
    return None


def legal(ops):
    """does the model accept this history?"""
    m = Model()
    try:
        for op in ops:
            k = op[0]
            if k in "nbircDdsy":
                m.value(None)
            elif k == "[":
                m.begin_list()
            elif k == "]":
                m.end_list()
            elif k == "{":
                m.begin_record(op[1])
            elif k == "f":
                m.field(op[1])
            elif k == "}":
                m.end_record()
            elif k == "(":
                m.begin_tuple(op[1])
            elif k == "x":
                m.index(op[1])
            elif k == ")":
                m.end_tuple()
    except Bad:
        return False
    return True


FULL = [("n",), ("b",), ("i",), ("r",), ("c",), ("D", "s"), ("D", "ms"), ("d", "s"), ("s",), ("y",), ("[",), ("]",), ("{", None), ("{", "A"), ("{", "B"), ("f", "x"), ("f", "y"),
        ("}",), ("(", 1), ("(", 2), ("x", 0), ("x", 1), ("x", -1), (")",)]
STRUCT = [("n",), ("i",), ("[",), ("]",), ("{", None), ("f", "x"), ("f", "y"), ("}",), ("(", 2), ("x", 0), ("x", 1), (")",)]
RECS = [("i",), ("n",), ("[",), ("]",), ("{", None), ("{", "A"), ("f", "x"), ("f", "y"), ("}",)]
TUPS = [("i",), ("s",), ("[",), ("]",), ("(", 1), ("(", 2), ("x", 0), ("x", 1), (")",)]
I, R, N = ("i",), ("r",), ("n",)
VALUES = [(N,), (("b",),), (I,), (R,), (("c",),), (("D", "s"),), (("D", "us"),), (("d", "s"),), (("s",),), (("y",),), (("[",), ("]",)), (("[",), I, ("]",)), (("[",), ("s",), N, ("]",)),
          (("{", None), ("f", "x"), I, ("}",)), (("{", None), ("f", "y"), R, ("}",)), (("{", "A"), ("f", "x"), ("[",), I, ("]",), ("}",)), (("{", "A"), ("}",)),
          (("(", 2), ("x", 1), I, (")",)), (("(", 1), ("x", 0), ("s",), (")",)), (("[",), ("[",), R, ("]",), ("]",)), (("[",), ("{", None), ("f", "x"), ("b",), ("}",), ("]",))]
CTX = [((), ()), ((("[",),), (("]",),)), ((("{", None), ("f", "x"), ("[",)), (("]",), ("}",))), ((("(", 2), ("x", 0), ("[",)), (("]",), (")",)))]
APPS = [("at", n, j) for n in sorted(ARR) for j in (0, 1, -1)] + [("at", "gen", 3), ("at", "IO64", -4), ("ext", "gen"), ("ext", "rec"), ("ext", "IO32"), ("ext", "uni"), ("app", "gen2"), ("app", "rec"),
        ("py", (1, "a")), ("py", {"x": 1.5, "z": [None]}), ("py", [[1, 2], None, [2.5]]), ("py", b"q"), I, N, ("s",), ("b",)]


class Check:
    pid = "C11"
    rule = "transition = one call history executed on the real builder; state = the model's data with its open structures; non-trivial = distinct expected snapshot"
    assumptions = ["buffers start with room for 1 element and grow by 1.1 so that every append may reallocate", "after a call that raised, only the data already complete is compared"]

    def bounds(self, tier):
        t = tier == "thorough"
        return {"all calls (24)": 5 if t else 4, "structure calls (12)": 7 if t else 6, "record calls (9)": 8 if t else 7, "tuple calls (9)": 8 if t else 7,
                "complete values (21) in 4 contexts": 4 if t else 3, "appended arrays (41)": 3 if t else 2, "clear": "every pair of value sequences of length <= 2 and <= 2",
                "growth": "initial 0, 1, 2, 3 x resize 1, 1.1, 1.5, 4 x lengths 0..33 x 10 kinds"}

    def units(self, tier):
        self.tier = tier
        out = []
        for name, alpha in (("full", FULL), ("struct", STRUCT), ("recs", RECS), ("tups", TUPS)):
            out += [(name, (a, b)) for a in alpha for b in alpha]
        out += [("values", c, i) for c in range(len(CTX)) for i in range(len(VALUES))]
        out += [("apps", i) for i in range(len(APPS))]
        out += [("clear", i) for i in range(len(VALUES))]
        out += [("grow", i, r) for i in (0, 1, 2, 3) for r in (1.0, 1.1, 1.5, 4)]
        return out

    def go(self, ops, rec, initial=1, resize=1.1, mids=None):
        if not rec.begin((list(ops), initial, resize)):
            return
        for mid in ((len(ops) // 2,) if mids is None else mids):
            rec.step()
            msg, how, m = run(ops, initial, resize, mid)
            if msg:
                rec.fail(msg)
                return
        if how == "error":
            rec.note("histories ending in an error")
        s = repr(m.snapshot())
        rec.state(s + repr([f[0] for f in m.stack]))
        rec.outcome(s)

    def dfs(self, ops, alpha, depth, rec):
        self.go(ops, rec)
        if len(ops) < depth and legal(ops):
            for a in alpha:
                self.dfs(ops + (a,), alpha, depth, rec)

    def run_unit(self, unit, rec):
        k = unit[0]
        tier = self.tier
        t = tier == "thorough"
        if k in ("full", "struct", "recs", "tups"):
            alpha = {"full": FULL, "struct": STRUCT, "recs": RECS, "tups": TUPS}[k]
            depth = {"full": 4, "struct": 6, "recs": 7, "tups": 7}[k] + (1 if t else 0)
            a, b = unit[1]
            if b == alpha[0]:
                self.go((a,), rec)
            if legal((a,)):
                self.dfs((a, b), alpha, depth, rec)
        elif k == "values":
            pre, post = CTX[unit[1]]
            for b in VALUES:
                for c in VALUES:
                    for d in (VALUES if t else [()]):
                        body = VALUES[unit[2]] + b + c + d
                        self.go(pre + body + post, rec)
                        self.go(pre + VALUES[unit[2]] + post + pre + b + c + post, rec)
        elif k == "apps":
            self.go((APPS[unit[1]],), rec)
            if self.bad(APPS[unit[1]]):
                return
            for b in APPS:
                self.go((APPS[unit[1]], b), rec)
                self.go((("[",), APPS[unit[1]], ("]",), ("[",), b), rec)
                if self.bad(b):
                    continue
                self.go((("{", None), ("f", "x"), APPS[unit[1]], ("}",), ("{", None), ("f", "x"), b, ("}",)) if "ext" not in (b[0], APPS[unit[1]][0]) else (b,), rec)
                for c in APPS if t else APPS[::3] + [I, N]:
                    self.go((APPS[unit[1]], b, c), rec)
        elif k == "clear":
            C = ("clear",)
            first = VALUES[unit[1]]
            for b in VALUES:
                for c in VALUES:
                    self.go(first + (C,) + b + c, rec)
                    self.go(first + b + (C,) + c, rec)
                    self.go((("[",),) + first + (("]",), C, ("[",)) + b + c + (("]",),), rec)
                for cut in range(1, len(b)):
                    self.go(first + b[:cut] + (C,), rec)
                    self.go(first + b[:cut] + (C,) + first + b, rec)
        else:
            kinds = [(I,), (R,), (("b",),), (N,), (("s",),), (("[",), I, I, ("]",)), (("{", None), ("f", "x"), I, ("}",)), (("(", 1), ("x", 0), R, (")",)), (I, ("s",)), (N, R, I)]
            for kind in kinds:
                for n in range(34):
                    self.go(kind * n, rec, unit[1], unit[2], mids=(0, n * len(kind) // 2, max(0, n * len(kind) - 1)))

    def bad(self, op):
        return op[0] == "at" and not -3 <= op[2] < 3
