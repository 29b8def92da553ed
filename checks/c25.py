"""C25: compiled access. Every layout is passed into compiled functions (one compilation per layout type, executed for every buffer content and every index) and what they
return is compared with list access to what the buffers denote; builder calls are compared with the same calls outside compiled code."""
import gc
import itertools

import awkward as ak
import numba as nb
import numpy as np
from vlib import gen, lay
from vlib.lay import decode, mk, mtype

ak.numba.register()
nb.config.DISABLE_PERFORMANCE_WARNINGS = 1
ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError, OverflowError, AttributeError, AssertionError, ZeroDivisionError)
TYPING = nb.core.errors.NumbaError
FUN = {}


def fun(src):
    """compiled function from a source line 'lambda ...' or a def named f"""
    if src not in FUN:
        ns = {"np": np, "numpy": np}
        if src.startswith("lambda"):
            f = eval(src, ns)
        else:
            exec(src, ns)
            f = ns["f"]
        FUN[src] = nb.njit(f)
    return FUN[src]


def walker(t):
    """source of a function that visits every item of an array of items of type t and records it with a builder"""
    lines = ["def f(a, b, i, j):"]
    n = itertools.count()

    def item(t, x, ind):
        s = "    " * ind
        if t[0] == "opt":
            if t[1][0] in ("num", "unk"):
                lines.append(s + "b.append(%s)" % x)
                return
            y = "y%d" % next(n)
            lines.append(s + "%s = %s" % (y, x))
            lines.append(s + "if %s is None:" % y)
            lines.append(s + "    b.null()")
            lines.append(s + "else:")
            item(t[1], y, ind + 1)
        elif t[0] == "num" or t[0] == "unk":
            lines.append(s + "b.append(%s)" % x)
        elif t[0] in ("str", "bytes"):
            lines.append(s + "b.integer(len(%s))" % x)
        elif t[0] in ("list", "reg"):
            y = "y%d" % next(n)
            lines.append(s + "b.begin_list()")
            lines.append(s + "for %s in %s:" % (y, x))
            item(t[-1], y, ind + 1)
            lines.append(s + "b.end_list()")
        elif t[0] == "rec":
            if t[1] is None:
                lines.append(s + "b.begin_tuple(%d)" % len(t[2]))
                for i, u in enumerate(t[2]):
                    lines.append(s + "b.index(%d)" % i)
                    item(u, '%s["%d"]' % (x, i), ind)
                lines.append(s + "b.end_tuple()")
            else:
                lines.append(s + "b.begin_record()")
                for i, (k, u) in enumerate(zip(t[1], t[2])):
                    lines.append(s + 'b.field("%s")' % k)
                    item(u, '%s["%s"]' % (x, k) if i % 2 else "%s.%s" % (x, k), ind)
                lines.append(s + "b.end_record()")
        else:
            raise AssertionError(t)

    lines.append("    for x in a[i:j]:")
    item(t, "x", 2)
    return "\n".join(lines)


def counted(v):
    """what the walker sees of strings: their lengths; the builder's integers are int64, so the walker
    reads unsigned integers beyond them as their two's complement"""
    if isinstance(v, int) and not isinstance(v, bool) and v >= 1 << 63:
        return v - (1 << 64)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, list):
        return [counted(x) for x in v]
    if isinstance(v, tuple) and not isinstance(v, lay.DT64):
        return tuple(counted(x) for x in v)
    if isinstance(v, dict):
        return {k: counted(x) for k, x in v.items()}
    return v


def has(t, *kinds):
    return isinstance(t, tuple) and (t[:1] != () and t[0] in kinds or any(has(x, *kinds) for x in t))


def field(v, k):
    """the field of every record below lists and missing values"""
    if v is None:
        return None
    if isinstance(v, list):
        return [field(x, k) for x in v]
    return v[int(k)] if isinstance(v, tuple) else v[k]


def under(t):
    """record type below lists and options, or None"""
    while t[0] in ("list", "reg", "opt"):
        t = t[-1]
    return t if t[0] == "rec" else None


def result(r):
    return decode(r) if isinstance(r, (ak.Array, ak.Record)) else tuple(result(x) for x in r) if isinstance(r, tuple) else lay.scalar(r)


BUILD = """def f(b, ops, arr, r):
    for o in ops:
        if o == 0: b.null()
        elif o == 1: b.boolean(True)
        elif o == 2: b.integer(7)
        elif o == 3: b.real(2.5)
        elif o == 4: b.begin_list()
        elif o == 5: b.end_list()
        elif o == 6: b.begin_tuple(2)
        elif o == 7: b.index(0)
        elif o == 8: b.index(1)
        elif o == 9: b.end_tuple()
        elif o == 10: b.begin_record()
        elif o == 11: b.field("x")
        elif o == 12: b.field("y")
        elif o == 13: b.end_record()
        elif o == 14: b.begin_record("P")
        elif o == 15: b.append(3)
        elif o == 16: b.append(0.5)
        elif o == 17: b.append(False)
        elif o == 18: b.append(None)
        elif o == 19: b.append(arr, 1)
        elif o == 20: b.append(r)
        elif o == 21: b.extend(arr)
        elif o == 22: b.clear()
        elif o == 23: b.integer(len(b))
        elif o == 24: b.real(3)
        elif o == 25: b.append(arr)
        elif o == 26: b.append(arr, -1)
        elif o == 27: b.append(arr, 9)
"""
NOPS = 28
STRUCT = (0, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)


class Builder(ak.ArrayBuilder):
    def clear(self):
        self._layout.clear()


class Check:
    pid = "C25"
    rule = ("transition = one call of a compiled function (one index, range, field, walk or builder history) compared with list access to what the buffers denote; "
            "state = distinct layout or builder history; non-trivial = distinct result")
    assumptions = ["Numba compiles Python faithfully", "unions can only be passed through (the library says so)", "lazy arrays whose Form is a multidimensional NumpyForm are not lowered (the library says so)", "builder histories: the interpreted builder is the oracle (judged by C11)",
                   "where the library documents that a compiled form is not available it raises a typing error, which is accepted only for: missing records' fields, strings inside np.array, unions"]

    def bounds(self, tier):
        return {"layouts": "%d in %d compiled types: all node compositions to depth 2 and every buffer content of the node space; lazily wrapped inside and outside; all single cuts into partitions" % (self.nlay, len(self.groups)),
                "indexes": "every index -n-2..n+1, every pair of bounds at and next to the ends of ranges",
                "builder histories": "all of %d calls to length 3, structure calls to length %d" % (NOPS, self.depth)}

    def units(self, tier):
        self.tier = tier
        self.depth = 5 if tier == "thorough" else 4
        sp = list(gen.node_space("quick"))
        lv = gen.layouts(1 if tier == "quick" else 2, gen.leaves(6, True), [True, True])
        sp += lv[0] + lv[1]
        self.deep = set()
        for d in (gen.layouts(2, gen.leaves(6), [True, False])[2] + gen.layouts(2, [gen.leaves(6, True)[-2]], [False, False])[2] if tier == "quick" else lv[2]):
            self.deep.add(repr(d))
            sp.append(d)
        sp += gen.longs()
        sp += [("V", d, True) for d in gen.longs() if d[0] in "DTNU"]
        one = gen.layouts(1, gen.leaves(6), [True])[1]
        for dt in gen.ALL_DTYPES:
            if dt in NUMERIC:
                N = ("N", dt, gen.dtype_values(dt))
                sp += [N] + gen.wraps(N, rich=False)
        from checks.c19 import inner
        sp += [("V", d, True) for d in one + lv[0] if d[0] not in ("E", "N2", "N2s")] + [inner(d, True) for d in one] + [("V", d, False) for d in one]
        seen, groups = set(), {}
        for d in sp:
            if repr(d) in seen:
                continue
            seen.add(repr(d))
            groups.setdefault(shape(d), []).append(d)
        self.nlay = len(seen)
        self.groups = list(groups.values())
        big = sorted(self.groups, key=len)
        u, cur, cost = [], [], 0
        for g in big:
            cur.append(g)
            cost += 3 + len(g) / 10.0
            if cost > 60:
                u.append(("lay", cur))
                cur, cost = [], 0
        if cur:
            u.append(("lay", cur))
        small = list(lv[0]) + lv[1]
        u += [("part", small[i:i + 8]) for i in range(0, len(small), 8)]
        u += [("const", small[i:i + 12]) for i in range(0, len(small), 12)]
        u += [("build", 3, a) for a in range(NOPS)] + [("struct", self.depth, a) for a in STRUCT]
        return u

    def run_unit(self, unit, rec):
        if unit[0] == "lay":
            for g in unit[1]:
                FUN.clear()
                for d in g:
                    self.layout(d, rec)
        else:
            getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def call(self, rec, what, f, args, want, raises=False, cmp=lay.same, refuse=False):
        """want: the value; raises: must raise"""
        rec.step()
        try:
            r = f(*args)
        except TYPING as e:
            if not refuse:
                rec.fail("%s: not compiled: %s" % (what, str(e)[-300:]))
            return None
        except ERR as e:
            if not raises:
                rec.fail("%s: raised %s: %s\nexpected %r" % (what, type(e).__name__, str(e).split("\n")[0], want))
            return None
        try:
            got = result(r)
        except lay.Undecodable as e:
            rec.fail("%s: not a valid layout: %s" % (what, e))
            return None
        if raises:
            rec.fail("%s: did not raise: %r" % (what, got))
            return None
        rec.outcome(repr(got))
        if not cmp(got, want):
            rec.fail("%s: got %r\nexpected %r" % (what, got, want))
            return None
        return r

    def layout(self, d, rec):
        x = mk(d)
        v = decode(x)
        t = mtype(x)
        n = len(v)
        union = t[0] == "uni"
        anyunion = has(t, "uni")
        rec.state(repr(d))
        a = ak.Array(x)
        if rec.begin({"layout": d, "op": "through"}):
            r = self.call(rec, "a, len(a)", fun("lambda a: (a, len(a))"), (a,), (v, n))
            if r is not None and not has(t, "unk") and str(ak.type(r[0])) != str(ak.type(a)):
                rec.fail("a: type %s, was %s" % (ak.type(r[0]), ak.type(a)))
        if not union and rec.begin({"layout": d, "op": "range"}):
            self.ranges(rec, a, v, repr(d) in self.deep and self.tier == "quick")
        if not anyunion and rec.begin({"layout": d, "op": "index"}):
            self.indexes(rec, a, v, t, repr(d) in self.deep and self.tier == "quick")
        if not anyunion and rec.begin({"layout": d, "op": "walk"}):
            self.walk(rec, a, v, t)
        if not anyunion and under(t) is not None and rec.begin({"layout": d, "op": "fields"}):
            self.fields(rec, a, v, t, repr(d) in self.deep and self.tier == "quick")
        if repr(d) in self.deep and self.tier == "quick":
            return
        if t[0] == "num" and rec.begin({"layout": d, "op": "numpy"}):
            if isinstance(x, ak.layout.NumpyArray):
                self.call(rec, "np.asarray(a).copy()", fun("lambda a: np.asarray(a).copy()"), (a,), v, cmp=aslist)
            self.call(rec, "np.array(a)", fun("lambda a: np.array(a)"), (a,), v, cmp=aslist, refuse=True)
        if t[0] in ("list", "reg") and t[-1][0] == "num" and rec.begin({"layout": d, "op": "numpy2"}):
            reg = len({len(y) for y in v}) <= 1
            self.call(rec, "np.array(a)", fun("lambda a: np.array(a)"), (a,), v, raises=not reg, cmp=aslist, refuse=True)
        if not has(t, "uni", "rec", "str", "bytes", "unk") and rec.begin({"layout": d, "op": "in"}):
            items = flat(v)
            for e in (0, 1, 2, 5, 9, 0.5, True, None):
                if e is None and not has(t, "opt"):
                    continue                                  # nothing can be missing
                self.call(rec, "%r in a" % (e,), fun("lambda a, e: e in a"), (a, e), any(e is None and y is None or e is not None and y is not None and y == e for y in items))

    def ranges(self, rec, a, v, light=False):
        n = len(v)
        f = fun("lambda a, i, j: a[i:j]")
        ends = sorted({-n - 1, -n, -2, -1, 0, 1, 2, n - 1, n, n + 1})
        if self.tier == "quick" and n > 4:
            ends = sorted({-n - 1, -2, 0, 1, n - 1, n + 1})
        for i in ends:
            for j in ends:
                self.call(rec, "a[%d:%d]" % (i, j), f, (a, i, j), v[i:j])
        if not light:
            self.call(rec, "a[1:][:-1]", fun("lambda a: a[1:][:-1]"), (a,), v[1:][:-1])

    def indexes(self, rec, a, v, t, light):
        n = len(v)
        f = fun("lambda a, i: a[i]")
        for i in range(-n - 2, n + 2):
            ok = -n <= i < n
            self.call(rec, "a[%d]" % i, f, (a, i), v[i] if ok else None, raises=not ok)
        if light:
            return
        self.call(rec, "a[uint8]", f, (a, np.uint8(0)), v[0] if n else None, raises=not n)
        if n > 1:
            self.call(rec, "a[1:][i]", fun("lambda a, i: a[1:][i]"), (a, n - 2), v[n - 1])
            self.call(rec, "a[1:][i]", fun("lambda a, i: a[1:][i]"), (a, n - 1), None, raises=True)
            self.call(rec, "a[1:][-i]", fun("lambda a, i: a[1:][i]"), (a, -n), None, raises=True)
        if t[0] in ("list", "reg") and t[-1][0] != "uni":
            f = fun("lambda a, i, j: a[i][j]")
            for i in range(n):
                m = len(v[i])
                for j in range(-m - 1, m + 1):
                    ok = -m <= j < m
                    self.call(rec, "a[%d][%d]" % (i, j), f, (a, i, j), v[i][j] if ok else None, raises=not ok)
        if t[0] in ("list", "reg"):
            f = fun("lambda a, i, j, k: a[i][j:k]")
            for i in range(n):
                for j, k in ((1, 9), (0, -1), (-2, 3)):
                    self.call(rec, "a[%d][%d:%d]" % (i, j, k), f, (a, i, j, k), v[i][j:k])
        if t[0] == "opt":
            f = fun("lambda a, i: a[i] is None")
            for i in range(n):
                self.call(rec, "a[%d] is None" % i, f, (a, i), v[i] is None)
        for i in range(n):                                    # the result outlives the argument
            self.call(rec, "fresh a[%d]" % i, fun("lambda a, i: a[i]"), (ak.Array(ak.copy(a).layout), i), v[i])

    def walk(self, rec, a, v, t):
        n = len(v)
        for i, j in sorted({(0, n), (1, n), (n // 2, n - 1)}):
            rec.step()
            b = ak.ArrayBuilder()
            try:
                fun(walker(t))(a, b, i, j)
                got = decode(b.snapshot())
            except TYPING as e:
                rec.fail("walk: not compiled: %s" % str(e)[-300:])
                return
            except ERR as e:
                rec.fail("walk: raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
                return
            rec.outcome(repr(got))
            if not lay.loose(got, counted(v[i:j])):
                rec.fail("walk of a[%d:%d]: got %r\nexpected %r" % (i, j, got, counted(v[i:j])))

    def fields(self, rec, a, v, t, light):
        r = under(t)
        keys = [str(i) for i in range(len(r[2]))] if r[1] is None else r[1]
        for k in keys:
            self.call(rec, "a[%r]" % k, fun('lambda a: a["%s"]' % k), (a,), field(v, k))
            if r[1] is not None and not light:
                self.call(rec, "a.%s" % k, fun("lambda a: a.%s" % k), (a,), field(v, k))
            n = len(v)
            f, g = fun('lambda a, i, j: a[i:j]["%s"]' % k), fun('lambda a, i, j: a["%s"][i:j]' % k)
            for i, j in ((0, n), (1, n), (1, n - 1), (n, n), (-1, n), (0, 1)):
                self.call(rec, "a[%d:%d][%r]" % (i, j, k), f, (a, i, j), field(v, k)[i:j])
                self.call(rec, "a[%r][%d:%d]" % (k, i, j), g, (a, i, j), field(v, k)[i:j])
            if light:
                continue
            f, g = fun('lambda a, i: a["%s"][i]' % k), fun('lambda a, i: a[i]["%s"]' % k)
            for i in range(-n - 1, n + 1):
                ok = -n <= i < n
                if not has(t, "opt"):
                    self.call(rec, "a[%r][%d]" % (k, i), f, (a, i), field(v, k)[i] if ok else None, raises=not ok)
                    self.call(rec, "a[%d][%r]" % (i, k), g, (a, i), field(v[i], k) if ok else None, raises=not ok)
        if t[0] == "rec" and not light:
            for i in range(len(v)):
                s = a[i]
                self.call(rec, "record", fun("lambda r: r"), (s,), v[i])
                for k in keys:
                    self.call(rec, "record[%r]" % k, fun('lambda r: r["%s"]' % k), (s,), field(v[i], k))

    # ---- partitions
    def u_part(self, rec, ds):
        for d in ds:
            FUN.clear()
            x = mk(d)
            v = decode(x)
            t = mtype(x)
            n = len(v)
            rec.state("partitioned " + repr(d))
            for cuts in [(c,) for c in range(n + 1)] + [(0, n // 2), (n // 2, n // 2), (1, 2), tuple(range(1, n))]:
                if not rec.begin({"layout": d, "partitioned": cuts}) or any(c > n for c in cuts):
                    continue
                at = (0,) + cuts + (n,)
                a = ak.Array(ak.partition.IrregularlyPartitionedArray([x[i:j] for i, j in zip(at, at[1:])]))
                self.call(rec, "a", fun("lambda a: a"), (a,), v)
                self.call(rec, "len(a)", fun("lambda a: len(a)"), (a,), n)
                if t[0] != "uni":
                    self.ranges(rec, a, v)
                if not has(t, "uni"):
                    self.call(rec, "a[uint8]", fun("lambda a, i: a[i]"), (a, np.uint8(0)), v[0] if n else None, raises=not n)
                    f = fun("lambda a, i: a[i]")
                    for i in range(-n - 2, n + 2):
                        ok = -n <= i < n
                        self.call(rec, "a[%d]" % i, f, (a, i), v[i] if ok else None, raises=not ok)
                    g = fun("lambda a, i, j, k: a[i:j][k]")
                    for i, j in ((1, n), (0, n - 1), (1, n - 1), (n // 2, n)):
                        w = v[i:j]
                        for k in range(-len(w) - 1, len(w) + 1):
                            ok = -len(w) <= k < len(w)
                            self.call(rec, "a[%d:%d][%d]" % (i, j, k), g, (a, i, j, k), w[k] if ok else None, raises=not ok)
                    h = fun("lambda a, i, j: a[i][j]")
                    if n > 1:                                 # back and forth between partitions
                        f2 = fun("def f(a, order):\n    out = 0\n    for i in order:\n        out = out * 10\n        x = a[i]\n        if x is not None:\n            out = out + 1\n    return out")
                        for order in itertools.islice(itertools.permutations(range(n)), 24):
                            w = 0
                            for i in order:
                                w = w * 10 + (v[i] is not None)
                            self.call(rec, "visits %r" % (order,), f2, (a, np.array(order)), w)
                    self.walk(rec, a, v, t)
                    if t[0] == "rec":
                        for k in ([str(i) for i in range(len(t[2]))] if t[1] is None else t[1]):
                            self.call(rec, "a[%r]" % k, fun('lambda a: a["%s"]' % k), (a,), field(v, k))
                            self.call(rec, "a[%r][1:]" % k, fun('lambda a: a["%s"][1:]' % k), (a,), field(v, k)[1:])

    # ---- arrays as constants of a compiled function
    def u_const(self, rec, ds):
        for d in ds:
            x = mk(d)
            v = decode(x)
            t = mtype(x)
            rec.state("constant " + repr(d))
            if has(t, "uni") or not rec.begin({"layout": d, "constant": 1}):
                continue
            a = ak.Array(x)
            n = len(v)
            f = nb.njit(eval("lambda i: a[i]", {"a": a}))
            g = nb.njit(eval("lambda i, j: len(a[i:j])", {"a": a}))
            if not has(t, "rec") and t[0] not in ("list", "reg", "str", "bytes") and not (t[0] == "opt" and t[1][0] != "num"):
                for i in range(-n - 1, n + 1):
                    ok = -n <= i < n
                    self.call(rec, "const[%d]" % i, f, (i,), v[i] if ok else None, raises=not ok)
            for i in range(-n, n + 1):
                for j in range(-n, n + 1):
                    self.call(rec, "len(const[%d:%d])" % (i, j), g, (i, j), len(v[i:j]))
            src = walker(t).replace("def f(a, b, i, j)", "def f(b, i, j)")
            ns = {"a": a}
            exec(src, ns)
            w = nb.njit(ns["f"])
            b = ak.ArrayBuilder()
            rec.step()
            try:
                w(b, 0, n)
            except (TYPING,) + ERR as e:
                rec.fail("walk over a constant: %s: %s" % (type(e).__name__, str(e)[-300:]))
                continue
            if not lay.loose(decode(b.snapshot()), counted(v)):
                rec.fail("walk over a constant: got %r\nexpected %r" % (decode(b.snapshot()), counted(v)))

    # ---- builder
    def histories(self, rec, alphabet, depth, first):
        arr = ak.Array(mk(("LO", "64", (0, 2, 2, 3), ("N", "i8", (1, 2, 3)))))
        r = ak.Array(mk(("D", ("x", "y"), (("N", "i8", (1, 2)), ("N", "f8", (0.5, 1.5))), 2)))[1]
        f = fun(BUILD)
        for rest in itertools.chain.from_iterable(itertools.product(alphabet, repeat=k) for k in range(depth)):
            h = (first,) + rest
            if not rec.begin({"builder": h}):
                continue
            rec.state(repr(h))
            rec.step()
            b, c = ak.ArrayBuilder(), Builder()
            got = want = None
            try:
                f(b, np.array(h, dtype=np.int64), arr, r)
                got = "ok"
            except ERR:
                got = "raised"
            try:
                f.py_func(c, h, arr, r)
                want = "ok"
            except ERR:
                want = "raised"
            if got != want:
                rec.fail("%s, outside compiled code %s" % (got, want))
                continue
            if got == "ok":
                try:
                    s = c.snapshot()
                except ERR:
                    continue
                p, q = decode(b.snapshot()), decode(s)
                rec.outcome(repr(q))
                if not lay.same(p, q) or str(ak.type(b.snapshot())) != str(ak.type(s)):
                    rec.fail("%r: %s, outside compiled code %r: %s" % (p, ak.type(b.snapshot()), q, ak.type(s)))

    def u_build(self, rec, depth, first):
        self.histories(rec, range(NOPS), depth, first)

    def u_struct(self, rec, depth, first):
        self.histories(rec, STRUCT, depth, first)


NUMERIC = ("?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8")


def aslist(got, want):
    return lay.loose(got.tolist() if hasattr(got, "tolist") else got, want)


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def shape(d):
    """description without its buffers: layouts of equal shape have equal compiled types"""
    out = []
    for x in d:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS:
            out.append(shape(x))
        elif isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str) and x[0][0] in KINDS:
            out.append(tuple(shape(y) for y in x))
        elif isinstance(x, str):
            out.append(x)
    return tuple(out)


KINDS = {"N", "Ns", "N2", "N2s", "S", "B", "E", "LO", "L", "R", "I", "IO", "BM", "bM", "UM", "D", "T", "U", "V"}
