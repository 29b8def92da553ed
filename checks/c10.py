"""C10: ufuncs, operators, broadcast_arrays and zip equal the element-by-element result under the documented
broadcasting rules, for every pair (and some triples) of the layout alphabet."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import decode, mk, mtype

SC = ("scalar",)


def depth(t):
    k = t[0]
    if k in ("list", "reg"):
        return 1 + depth(t[-1])
    if k == "opt":
        return depth(t[1])
    if k == "uni":
        ds = {depth(c) for c in t[1]}
        if len(ds) != 1:
            return -1
        return ds.pop()
    return 1 if k != "scalar" else 0


def isreg(t):
    k = t[0]
    if k == "list":
        return False
    if k in ("reg", "opt"):
        return isreg(t[-1])
    if k == "uni":
        return all(isreg(c) for c in t[1])
    return k not in ("str", "bytes")


def fits(v, t):
    k = t[0]
    if k == "opt":
        return v is None or fits(v, t[1])
    if k == "num":
        return isinstance(v, (bool, int, float, complex))
    if k in ("list", "reg"):
        return isinstance(v, list) and all(fits(x, t[-1]) for x in v)
    if k == "str":
        return isinstance(v, str)
    if k == "bytes":
        return isinstance(v, bytes)
    if k == "rec":
        if t[1] is None:
            return isinstance(v, tuple) and len(v) == len(t[2]) and all(fits(x, c) for x, c in zip(v, t[2]))
        return isinstance(v, dict) and list(v) == list(t[1]) and all(fits(v[n], c) for n, c in zip(t[1], t[2]))
    if k == "uni":
        return any(fits(v, c) for c in t[1])
    return False


class Rules:
    """broadcasting rules; leaf(args) -> value"""
    def __init__(self, leaf, records, right=True, left=True, jagged=False, stop=None):
        self.leaf, self.records, self.right, self.left, self.jagged, self.stop = leaf, records, right, left, jagged, stop

    def go(self, args, level=0):
        args = list(args)
        if self.jagged:
            args = [(v, ("list", t[-1])) if t[0] == "reg" else (v, t) for v, t in args]
        if self.right and any(t[0] in ("list", "reg") for _, t in args):
            ts = [t for _, t in args if t is not SC]
            if all(isreg(t) for t in ts):
                ds = [depth(t) for t in ts]
                if -1 in ds:
                    raise Skip
                mx = max(ds)
                if any(d != mx for d in ds):
                    nxt = []
                    for v, t in args:
                        if t is not SC:
                            while depth(t) < mx:
                                v, t = [v], ("reg", 1, t)
                        nxt.append((v, t))
                    args = nxt
        if self.stop is not None and self.stop([t for _, t in args], level):
            return self.leaf(args)
        if any(t[0] == "unk" for _, t in args):
            raise Skip
        if any(t[0] == "uni" for _, t in args):
            nxt = []
            for v, t in args:
                if t[0] == "uni":
                    cand = [c for c in t[1] if fits(v, c)]
                    if len(cand) != 1:
                        raise Skip
                    t = cand[0]
                nxt.append((v, t))
            return self.go(nxt, level)
        if any(t[0] == "opt" for _, t in args):
            if any(t[0] == "opt" and v is None for v, t in args):
                if any(t[0] == "opt" and t[1][0] == "uni" and v is None for v, t in args):
                    raise Skip       # missing by the mask or within the union: they broadcast at different levels
                return None
            return self.go([(v, t[1]) if t[0] == "opt" else (v, t) for v, t in args], level)
        if any(t[0] in ("str", "bytes") for _, t in args):
            raise Skip
        lists = [(v, t) for v, t in args if t[0] in ("list", "reg")]
        if lists:
            if all(t[0] == "reg" for _, t in lists):
                n = max(t[1] for _, t in lists)
                if n == 1 and any(t[1] == 0 for _, t in lists):
                    n = 0            # as in NumPy
                if any(t[1] not in (1, n) for _, t in lists):
                    raise Bad
            else:
                n = [len(v) for v, t in lists if t[0] == "list"][0]
                for v, t in lists:
                    if t[0] == "list" and len(v) != n:
                        raise Bad
                    if t[0] == "reg" and t[1] != 1 and t[1] != n:
                        raise Bad
                if not self.left and len(lists) != len([1 for _, t in args if t is not SC]):
                    raise Bad
            out = []
            for i in range(n):
                nxt = []
                for v, t in args:
                    if t[0] == "list":
                        nxt.append((v[i], t[-1]))
                    elif t[0] == "reg":
                        nxt.append((v[0 if t[1] == 1 else i], t[-1]))
                    else:
                        nxt.append((v, t))
                out.append(self.go(nxt, level + 1))
            return out
        recs = [(v, t) for v, t in args if t[0] == "rec"]
        if recs:
            if not self.records:
                raise Bad
            keys = recs[0][1][1]
            if any((t[1] is None) != (keys is None) for _, t in recs):
                raise Skip
            names = list(range(len(recs[0][1][2]))) if keys is None else list(keys)
            for v, t in recs:
                if (len(t[2]) != len(names)) if keys is None else (set(t[1]) != set(keys)):
                    raise Bad
            out = []
            for n in names:
                out.append(self.go([(v[n], t[2][n if keys is None else t[1].index(n)]) if t[0] == "rec" else (v, t) for v, t in args], level))
            return tuple(out) if keys is None else dict(zip(names, out))
        if self.stop is not None:
            raise Skip           # depth_limit beyond the depth of the data
        return self.leaf(args)


def sizes(t):
    if t[0] == "reg":
        return {t[1]} | sizes(t[-1])
    if t[0] in ("list", "opt"):
        return sizes(t[-1])
    if t[0] == "rec":
        return set().union(set(), *[sizes(c) for c in t[2]])
    if t[0] == "uni":
        return set().union(set(), *[sizes(c) for c in t[1]])
    return set()


def kinds(t, out=None):
    out = set() if out is None else out
    out.add(t[0])
    for c in t[1:]:
        if isinstance(c, tuple) and c and isinstance(c[0], str) and t[0] != "rec":
            kinds(c, out)
    if t[0] in ("uni",):
        for c in t[1]:
            kinds(c, out)
    if t[0] == "rec":
        for c in t[2]:
            kinds(c, out)
    return out


def uf(ufunc):
    def leaf(args):
        xs = []
        for v, t in args:
            if t is SC:
                xs.append(v)
            else:
                if t[0] != "num":
                    raise Skip
                xs.append(np.array([v], dtype=t[1]))
        try:
            with np.errstate(all="ignore"):
                return ufunc(*xs).tolist()[0]
        except TypeError:
            raise Bad
    return leaf


def run_model(rules, args):
    """args: (array value, element type) or (scalar, SC)"""
    top = [(v, ("reg", len(v), t)) if t is not SC else (v, SC) for v, t in args]
    try:
        return rules.go(top)
    except Bad:
        if any(t[0] == "unk" or "unk" in kinds(t) for _, t in args):
            raise Skip
        raise


def cmpfor(args):
    # numeric branches of a result union are merged, which may widen integers to floats
    return lay.loose if any("uni" in kinds(t) for _, t in args) else lay.same


def soften(value, args):
    """values agree, but the types contain regular sizes that could clash where there is no element, or records/unions"""
    ks = set().union(*[kinds(t) for _, t in args])
    sz = set().union(*[sizes(t) for _, t in args])
    if any(t is not SC and len(v) == 0 for v, t in args):
        sz.add(0)
    if len(sz - {1}) > 1 or 0 in sz or ks & {"unk", "str", "bytes", "uni", "rec"}:
        raise Maybe(value)
    return value


def pick(v, i, k):
    if isinstance(v, Tup):
        return v[i]
    if isinstance(v, list):
        return [pick(x, i, k) for x in v]
    if isinstance(v, tuple):
        return tuple(pick(x, i, k) for x in v)
    if isinstance(v, dict):
        return {n: pick(x, i, k) for n, x in v.items()}
    return v


class Tup:
    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


def family():
    """arrays of (mostly) length 3 in many representations"""
    n3 = ("N", "i8", (1, 2, 3))
    f3 = ("N", "f8", (0.5, 1.5, 2.5))
    c3 = ("N", "i8", (10, 20, 30))
    c5 = ("N", "i8", (10, 20, 30, 40, 50))
    c6 = ("N", "i8", (10, 20, 30, 40, 50, 60))
    lst = [
        n3, f3, ("N", "?", (True, False, True)), ("Ns", "i4", (1, 2, 3), "step2"), ("I", "64", (2, 0, 1), c3),
        ("IO", "64", (0, -1, 1), c3), ("BM", (1, 0, 1), True, n3), ("bM", (0, 1, 0), False, 3, True, n3), ("UM", n3),
        ("U", "64", (0, 1, 0), (0, 0, 1), (c3, ("LO", "64", (0, 2), f3))),
        ("D", ("x", "y"), (n3, f3), 3), ("T", (n3, f3), 3), ("D", ("y", "x"), (f3, c5), 3), ("E",), ("N", "i8", ()), ("N", "i8", (7,)), ("N", "i8", (7, 8)),
        ("V", n3, True),
        # var lists with counts 2,0,1
        ("LO", "64", (0, 2, 2, 3), c3), ("LO", "32", (1, 3, 3, 4), c5), ("L", "64", (3, 0, 1), (5, 0, 2), c5), ("L", "U32", (0, 2, 2), (2, 2, 3), c3),
        ("LO", "U32", (0, 2, 2, 3), f3), ("LO", "64", (0, 2, 2, 3), c6),
        ("LO", "64", (0, 2, 2, 3), ("IO", "64", (0, -1, 1), c3)), ("IO", "64", (0, -1, 1), ("LO", "64", (0, 2, 3), c3)),
        ("BM", (1, 1, 0), True, ("LO", "64", (0, 2, 2, 3), c3)), ("I", "64", (1, 0, 2), ("LO", "64", (0, 0, 2, 3), c3)),
        ("LO", "64", (0, 2, 2, 3), ("D", ("x", "y"), (n3, f3), 3)), ("D", ("x", "y"), (("LO", "64", (0, 2, 2, 3), c3), n3), 3),
        # other counts
        ("LO", "64", (0, 1, 2, 3), c3), ("LO", "64", (0, 2, 4, 6), c6), ("LO", "64", (0, 0, 0, 0), c3), ("L", "64", (0, 0, 0), (2, 2, 2), c3),
        # regular
        ("R", 2, 0, c6), ("R", 2, 0, ("N", "i8", (1, 2, 3, 4, 5, 6, 7))), ("R", 1, 0, c3), ("R", 0, 3, c3), ("R", 3, 0, ("N", "i8", tuple(range(9)))),
        ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6)), ("N2s", "i8", (3, 2), (1, 2, 3, 4, 5, 6), "F"), ("N2", "i8", (3, 1), (1, 2, 3)), ("N2", "i8", (1, 3), (1, 2, 3)),
        ("R", 2, 0, ("IO", "64", (0, -1, 1, 2, -1, 0), c3)), ("UM", ("R", 2, 0, c6)), ("BM", (1, 0, 1), True, ("R", 2, 0, c6)),
        ("IO", "64", (0, -1, 1), ("R", 2, 0, c6)),
        # depth 3
        ("LO", "64", (0, 2, 2, 3), ("LO", "64", (0, 2, 2, 3), c3)), ("LO", "64", (0, 2, 2, 3), ("R", 2, 0, c6)), ("R", 2, 0, ("LO", "64", (0, 1, 2, 3, 3, 4, 5), c5)),
        ("R", 1, 0, ("LO", "64", (0, 2, 2, 3), c3)), ("R", 2, 0, ("R", 1, 0, c6)), ("R", 1, 0, ("R", 2, 0, c6)), ("N2", "i8", (3, 2, 2), tuple(range(12))),
        ("N2", "i8", (1, 2, 2), tuple(range(4))), ("LO", "64", (0, 2, 2, 3), ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6))), ("R", 2, 0, ("N2", "i8", (6, 1), tuple(range(6)))),
        ("LO", "64", (0, 2, 2, 3), ("IO", "64", (0, -1, 1), ("LO", "64", (0, 2, 3), c3))), ("LO", "64", (0, 1, 2, 3), ("R", 0, 3, c3)),
        ("R", 0, 3, ("R", 2, 0, c6)), ("R", 0, 3, ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6))), ("R", 0, 3, ("LO", "64", (0, 2, 3), c3)),
    ]
    return lst


SCAL = (5, 2.5)


class Check:
    pid = "C10"
    rule = "transition = one broadcasted call compared with element-by-element application; non-trivial = distinct result"
    assumptions = ["NumPy computes the single-element results (dtype rules)",
                   "broadcasting tuples with records, and sizes that clash only where no element exists may raise or not"]

    def bounds(self, tier):
        return {"pairs": "all ordered pairs of the representation family", "triples": "broadcast_arrays/zip on all triples of a sub-family",
                "alphabet": "every layout of depth <= 2 (3 in thorough) against itself, a scalar, a flat array and a new-axis array", "dtypes": "all numeric dtype pairs"}

    def units(self, tier):
        fam = family()
        u = [("pair", i) for i in range(len(fam))]
        u += [("tri", i) for i in range(18)]
        lv = [("N", "i8", tuple(range(1, 7))), ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6)), ("Ns", "f8", (0.5, 1.5, 2.5, 3.5, 4.5, 5.5), "rev")]
        sp = gen.layouts(1, lv, [True])[1] + gen.layouts(2, lv, [True, True])[2]
        sp += gen.layouts(3, lv[:1], [False] * 3)[3] if tier == "quick" else gen.layouts(3, lv[:2], [True, False, False])[3]
        sp += gen.longs(300, True, False, False)
        u += [("alpha", sp[i:i + 25]) for i in range(0, len(sp), 25)]
        u += [("dtype", a) for a in gen.ALL_DTYPES[:13]]
        return u

    def run_unit(self, unit, rec):
        if unit[0] == "pair":
            fam = family()
            a = fam[unit[1]]
            for b in fam:
                self.pair(a, b, rec, ("add", "sub", "zip", "zip1", "bc"))
            for s in SCAL:
                self.pair(a, s, rec, ("sub", "zip", "bc", "rsub"))
            self.unary(a, rec)
        elif unit[0] == "tri":
            fam = family()
            sub = [fam[i] for i in (0, 5, 10, 15, 18, 20, 24, 25, 34, 36, 41, 45, 48, 49, 51, 58, 30, 38)]
            a = sub[unit[1]]
            for b in sub:
                for c in sub:
                    self.multi((a, b, c), rec)
        elif unit[0] == "alpha":
            for d in unit[1]:
                n = lay.dlen(d)
                flat = ("N", "i8", tuple(range(100, 100 + n)))
                self.pair(d, d, rec, ("sub", "zip", "bc"))
                self.pair(d, 3, rec, ("sub", "rsub"))
                self.pair(d, flat, rec, ("sub", "zip", "bc"))
                self.pair(flat, d, rec, ("sub", "bc"))
                self.pair(d, ("R", 1, 0, flat), rec, ("sub", "bc"))
                self.unary(d, rec)
        else:
            a = unit[1]
            va = gen.dtype_values(a)
            for b in gen.ALL_DTYPES[:13]:
                vb = gen.dtype_values(b)
                if a == "?" and b == "?":
                    ops = ("add", "eq")
                else:
                    ops = ("sub", "eq", "add")
                self.pair(("N", a, va), ("N", b, vb), rec, ops)
                self.pair(("LO", "64", (0, 1, 1, 4), ("N", a, va)), ("L", "64", (0, 1, 1), (1, 1, 4), ("N", b, vb)), rec, ops)
                self.pair(("IO", "64", (0, -1, 2), ("N", a, va)), ("N", b, vb[:3]), rec, ops)

    def ops(self, name):
        return {"add": np.add, "sub": np.subtract, "eq": np.equal}[name]

    def arg(self, d):
        if isinstance(d, tuple):
            x = mk(d)
            return ak.Array(x), (decode(x), mtype(x))
        return d, (d, SC)

    def unary(self, d, rec):
        if not rec.begin(("neg", d)):
            return
        a, m = self.arg(d)
        compare(rec, lambda: np.negative(a), lambda: soften(run_model(Rules(uf(np.negative), False), [m]), [m]), errors=ERR)

    def pair(self, a, b, rec, ops):
        pa = pb = None
        for op in ops:
            if not rec.begin((op, a, b)):
                continue
            if pa is None:
                pa, pb = self.arg(a), self.arg(b)
                rec.state(repr((a, b)))
            (ra, ma), (rb, mb) = pa, pb
            if op in ("add", "sub", "eq", "rsub"):
                if op == "rsub":
                    f = np.subtract
                    args, ms = (rb, ra), (mb, ma)
                else:
                    f = self.ops(op)
                    args, ms = (ra, rb), (ma, mb)
                compare(rec, lambda: f(*args), lambda: soften(run_model(Rules(uf(f), False), ms), ms), cmp=cmpfor(ms), errors=ERR)
            elif op == "bc":
                self.bc(rec, (ra, rb), (ma, mb))
            else:
                self.zip(rec, (ra, rb), (ma, mb), 1 if op == "zip1" else None)

    def multi(self, ds, rec):
        for op in ("bc", "zip", "zip2"):
            if rec.begin((op,) + ds):
                ps = [self.arg(d) for d in ds]
                rs, ms = [p[0] for p in ps], [p[1] for p in ps]
                if op == "bc":
                    self.bc(rec, rs, ms)
                else:
                    self.zip(rec, rs, ms, 2 if op == "zip2" else None)

    def bc(self, rec, rs, ms):
        # scalars become length-1 arrays in broadcast_arrays
        ms = [([m[0]], ("num", np.asarray(m[0]).dtype.str[1:])) if m[1] is SC else m for m in ms]

        def model():
            v = run_model(Rules(lambda args: Tup([x for x, _ in args]), True), ms)
            return soften([pick(v, i, len(ms)) for i in range(len(ms))], ms)
        compare(rec, lambda: ak.broadcast_arrays(*rs), model, cmp=cmpfor(ms), errors=ERR)

    def zip(self, rec, rs, ms, limit):
        names = ["a", "b", "c"][:len(rs)]

        def stop(ts, level):
            if level == 0:
                return False
            return limit == level or (limit is None and all(depth(t) <= 1 and t[0] != "uni" for t in ts))

        def model():
            if any(m[1] is SC for m in ms):
                raise Skip
            if limit is None and any("uni" in kinds(m[1]) for m in ms):
                raise Skip
            v = run_model(Rules(lambda args: {n: x for n, (x, _) in zip(names, args)}, True, right=False, jagged=True, stop=stop), ms)
            return soften(v, ms)
        compare(rec, lambda: ak.zip(dict(zip(names, rs)), depth_limit=limit), model, cmp=cmpfor(ms), errors=ERR)


ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError)
