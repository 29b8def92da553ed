"""C30: conversions of values.  Every leaf of a layout is converted on its own by NumPy and the layout is built again around
the converted leaves; the operation applied to the whole array has to give the values (and element types) of that layout."""
import warnings
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.diff import Skip, compare
from vlib.lay import decode, mk, mtype, npval

NUMS = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "c8", "c16"]


def lmap(d, f, g=None):
    """the descriptor with its numeric leaves mapped by f (array -> array) and its strings by g (descriptor -> descriptor)"""
    k = d[0]
    if k in ("N", "Ns", "N2", "N2s"):
        vals = d[2] if k in ("N", "Ns") else d[3]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = f(npval(d[1], vals))
        dt = out.dtype.str[1:]
        new = tuple((out.view("i8") if dt[0] in "Mm" else out).tolist())
        dt = {"b1": "?"}.get(dt, dt)
        return (k, dt, new) + d[3:] if k in ("N", "Ns") else (k, dt, d[2], new) + d[4:]
    if k in ("S", "B"):
        return d if g is None else g(d)
    if k == "E":
        return d
    if k == "P":
        return ("P", d[1], lmap(d[2], f, g))
    at = {"LO": 3, "L": 4, "R": 3, "I": 3, "IO": 3, "BM": 3, "bM": 5, "UM": 1, "V": 1}.get(k)
    if at is not None:
        return d[:at] + (lmap(d[at], f, g),) + d[at + 1:]
    at = {"T": 1, "D": 2, "U": 4}[k]
    return d[:at] + (tuple(lmap(c, f, g) for c in d[at]),) + d[at + 1:]


def labelled(d, n=0):
    """the descriptor with a parameter on every node above the leaves"""
    k = d[0]
    if k in ("N", "Ns", "N2", "N2s", "S", "B", "E"):
        return d
    at = {"LO": 3, "L": 4, "R": 3, "I": 3, "IO": 3, "BM": 3, "bM": 5, "UM": 1, "V": 1}.get(k)
    if at is not None:
        d = d[:at] + (labelled(d[at], n + 1),) + d[at + 1:]
    else:
        at = {"T": 1, "D": 2, "U": 4}[k]
        d = d[:at] + (tuple(labelled(c, n + 1) for c in d[at]),) + d[at + 1:]
    return ("P", (("label", n),) + ((("__record__", "rec%d" % n),) if k in ("T", "D") else ()), d)


def kinds(t):
    if t[0] in ("num", "str", "bytes", "unk"):
        return {t[0]}
    cs = t[1] if t[0] == "uni" else t[2] if t[0] == "rec" else (t[-1],)
    return {t[0]}.union(*[kinds(c) for c in cs])


def values(dt, to=None):
    """edge values of a dtype, only those whose conversion to `to` is defined"""
    if dt == "?":
        return (True, False, True, True)
    if dt[0] in "iu":
        b = int(dt[1]) * 8
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if dt[0] == "i" else (0, (1 << b) - 1)
        return (lo, hi, 1, 0, hi - 1, 100)
    if dt[0] == "f":
        if to is not None and to[0] in "iu":
            return (1.75, 0.0, 100.5, 7.0, 0.25, 99.0) if to[0] == "u" else (1.75, -1.75, -100.5, 0.0, 7.0, -0.25)
        return (float("inf"), -0.5, float("nan"), 0.0, float("-inf"), 1e30)
    if to is not None and to[0] in "iu":
        return (1 + 2j, 100.5j, 3 + 0j, 0j, 7.75 - 1j, 1j)
    return (1 + 2j, -0.5j, 3 + 0j, 0j, complex(0.0, 1.5), complex(-7.25, 2))


class Check:
    pid = "C30"
    rule = "transition = one conversion of one layout, compared with NumPy's conversion of each leaf placed in the same structure; state = distinct layout; non-trivial = distinct result"
    assumptions = ["conversions whose result C++ and NumPy leave undefined (floats outside the range of an integer type) are not judged",
                   "full_like with a dtype, and comparisons of strings by isclose, are not judged"]

    def spaces(self, tier):
        rich = gen.leaves(6, True)
        F = ("N", "f8", (1.5, float("nan"), -2.0, float("inf"), float("-inf"), 0.0))
        lv = gen.layouts(1, rich + [F], [True])
        sp = lv[0] + lv[1] + gen.layouts(2, [rich[0], F], [True, True if tier == "thorough" else False])[2] + gen.longs()
        sp += gen.layouts(2, [rich[7]], [False, False])[2]
        sp += [("B", (b"a", b"", b"xyz")), ("D", ("b", "a"), (("S", ("x", "")), ("B", (b"", b"q"))), 2), ("LO", "64", (0, 2, 3), ("B", (b"a", b"", b"xyz"))), ("E",)]
        if tier == "thorough":
            sp += gen.layouts(2, rich, [True, False])[2] + gen.layouts(3, [rich[0]], [False, False, False])[3]
        return sp

    def units(self, tier):
        self.tier = tier
        sp = self.spaces(tier)
        return [("dtypes", i) for i in range(len(NUMS))] + [("dates",)] + [("str", i) for i in range(6)] + [("lay", sp[i:i + 24]) for i in range(0, len(sp), 24)] + [("par", x) for x in self.params(tier)]

    def bounds(self, tier):
        return ("values_astype between every two of %d numeric dtypes over edge values x 9 layouts; integers as dates in 4 units; strings_astype of every number text x 3 dtypes x 12 layouts; "
                "values_astype (4 dtypes), nan_to_num (2 settings), zeros_like, ones_like, full_like (5 values), isclose (4 settings), with_parameter and without_parameters on %d layouts; %d layouts with a parameter on every node" %
                (len(NUMS), len(self.spaces(tier)), sum(map(len, self.params(tier)))))

    def run_unit(self, unit, rec):
        warnings.simplefilter("ignore")
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def one(self, rec, a, real, want, key=None, alt=None):
        """real() against the layout described by want; alt is what a known finding makes of it"""
        w = mk(want)
        if alt is not None and not lay.same(decode(mk(alt)), decode(w)):
            try:
                if lay.same(decode(real()), decode(mk(alt))):
                    rec.fail("got %r\nexpected %r" % (decode(mk(alt)), decode(w)), "values-astype-bool-sign")
                    return None
            except Exception:
                pass

        def also(raw):
            wt, gt = mtype(w), mtype(raw)
            if "uni" not in kinds(wt) and wt != gt:
                return "the result has the type %s, not %s" % (gt, wt)
        return compare(rec, real, lambda: decode(w), also=also, key=key)

    def around(self, v, dt):
        N = ("N", dt, v)
        return [N, ("Ns", dt, v, "step2"), ("Ns", dt, v, "off"), ("N2", dt, (len(v) // 2, 2), v[:len(v) // 2 * 2]), ("LO", "64", (1, 3, 3, 4), N), ("IO", "64", (3, -1, 0), N),
                ("D", ("b", "a"), (N, ("S", ("x",) * len(v))), len(v)), ("U", "64", (0, 1, 0), (0, 0, 2), (N, ("S", ("12", "y")))), ("N", dt, ())]

    def u_dtypes(self, rec, i):
        dt = NUMS[i]
        for to in NUMS:
            v = values(dt, to)
            for d in self.around(v, dt):
                if not rec.begin(("values_astype", d, to)):
                    continue
                rec.state(d)
                a = mk(d)
                real = to[0] != "c" and dt[0] == "c"

                def f(x):
                    return (x.real if real else x).astype(to)
                self.one(rec, a, lambda: ak.values_astype(ak.Array(a), to), lmap(d, f), alt=lmap(d, lambda x: x > 0) if to == "?" and dt[0] != "c" else None)

    def u_dates(self, rec):
        for unit in ("D", "s", "ms", "ns"):
            for how in ("datetime64[%s]" % unit, np.dtype("M8[%s]" % unit)):
                for d in self.around((0, -1, 1567416600, 10**5), "i8"):
                    if not rec.begin(("values_astype", d, str(how))):
                        continue
                    rec.state(d)
                    a = mk(d)
                    self.one(rec, a, lambda: ak.values_astype(ak.Array(a), how), lmap(d, lambda x: x.view("M8[%s]" % unit)))

    def u_str(self, rec, i):
        texts = [("1", "2", "    3    ", "00004", "-5"), ("7",), ("12", "3", "456", "-78901", "0"), ("1", "22", "333", "4444", "55555"), ("1.5", "-2e3", "0.25", "nan", "inf"),
                 ("9007199254740993", "-9223372036854775808", "1", "2", "3")][i]
        for to in ("i4", "i8", "f8"):
            if to[0] == "i" and i == 4 or to == "i4" and i == 5:
                continue
            for raw in (False, True):
                n = len(texts)
                S = ("B", tuple(x.encode() for x in texts)) if raw else ("S", texts)
                for d in [S, ("LO", "64", (0, n // 2, n // 2, n), S), ("L", "64", (n - 1, 0), (n, 1), S), ("R", 1, 0, S), ("IO", "64", (0, -1, n - 1, 0), S), ("I", "64", (n - 1, 0), S),
                          ("D", ("s", "x"), (S, ("N", "i8", tuple(range(n)))), n), ("BM", (1,) + (0,) * (n - 1), True, S), ("LO", "64", (0, 0), S), (S[0], ()), ("LO", "64", (0, 0, 0), (S[0], ())),
                          ("U", "64", (0, 1, 0), (n - 1, 0, 0), (S, ("LO", "64", (0, 1), ("N", "i8", (3,)))))]:
                    if not rec.begin(("strings_astype", d, to)):
                        continue
                    rec.state(d)
                    a = mk(d)
                    self.one(rec, a, lambda: ak.strings_astype(ak.Array(a), to), lmap(d, lambda x: x, lambda s: ("N", to, tuple(np.array(s[1]).astype("S").astype(to).tolist()))))

    def params(self, tier):
        sp = [labelled(d) for d in gen.layouts(2, [("N", "i8", (0, 1, 2, 3, 4, 5))], [True, tier == "thorough"])[2] + gen.layouts(1, gen.leaves(6, True), [True])[1]]
        return [sp[i:i + 60] for i in range(0, len(sp), 60)]

    def u_par(self, rec, ds):
        for d in ds:
            if not rec.begin(("parameters", d)):
                continue
            rec.state(d)
            h = ak.Array(mk(d))
            for name, real, f in [("values_astype", lambda: ak.values_astype(h, "f4"), lambda x: x.astype("f4")), ("nan_to_num", lambda: ak.nan_to_num(h), lambda x: x),
                                  ("zeros_like", lambda: ak.zeros_like(h), np.zeros_like), ("full_like", lambda: ak.full_like(h, 5), lambda x: np.full_like(x, 5)),
                                  ("strings_astype", lambda: ak.strings_astype(h, "i4"), lambda x: x)]:
                if name == "strings_astype" and kinds(mtype(h)) & {"str", "bytes"}:
                    continue
                rec.step()
                want = str(ak.type(ak.Array(mk(lmap(d, f)))))
                try:
                    got = str(ak.type(real()))
                except Exception as e:
                    rec.fail("%s raised %r" % (name, e))
                    continue
                rec.outcome(got)
                if got != want:
                    rec.fail("%s: the type of the result is %s, not %s" % (name, got, want))
            rec.step()
            got = ak.without_parameters(h)
            if "label" in str(ak.type(got)) or "rec0" in str(ak.type(got)):
                rec.fail("without_parameters left parameters: %s" % ak.type(got))

    def u_lay(self, rec, ds):
        for d in ds:
            if not rec.begin(d):
                continue
            rec.state(d)
            a = mk(d)
            h = ak.Array(a)
            t = mtype(a)
            ks = kinds(t)
            for to in ("f4", "i2", "?", "c16"):
                def conv(x):
                    if x.dtype.kind == "f" and to == "i2":
                        raise Skip
                    return x.astype(to)
                try:
                    want = lmap(d, conv)
                except Skip:
                    continue
                self.one(rec, a, lambda: ak.values_astype(h, to), want, key=("values_astype", to), alt=lmap(d, lambda x: x > 0) if to == "?" else None)
            for kw in ({}, {"nan": 7.5, "posinf": 8.5, "neginf": -9.5}):
                self.one(rec, a, lambda: ak.nan_to_num(h, **kw), lmap(d, lambda x: np.nan_to_num(x, **kw)), key=("nan_to_num", str(kw)))
            for name, fn, v in [("zeros_like", lambda: ak.zeros_like(h), ""), ("ones_like", lambda: ak.ones_like(h), "1")] + [
                    ("full_like %r" % v, lambda v=v: ak.full_like(h, v), str(v)) for v in (12, 12.75, True, 0, -1)]:
                num = {"zeros_like": 0, "ones_like": 1}.get(name, None)
                if num is None:
                    num = eval(name.split()[1])
                self.one(rec, a, fn, lmap(d, lambda x: np.full_like(x, num), lambda s: (s[0], (v if s[0] == "S" else v.encode(),) * len(s[1]))), key=(name,))
            for kw in ({}, {"rtol": 0.5}, {"atol": 1.0, "rtol": 0.0}, {"equal_nan": True}):
                if "str" in ks or "bytes" in ks:
                    break
                def other(x):
                    return x ^ True if x.dtype.kind == "b" else x + np.array([0, 1, 3, 0, 2, 0] * (len(x) // 6 + 1), dtype=x.dtype)[:len(x)]
                b = ak.Array(mk(lmap(d, other)))
                want = lmap(d, lambda x: np.isclose(x, other(x), **kw))
                compare(rec, lambda: ak.isclose(h, b, **kw), lambda: decode(mk(want)), key=("isclose", str(kw)))
            before = decode(a), dict(a.parameters)
            r = compare(rec, lambda: ak.with_parameter(h, "some", {"thing": [1, None, "x"]}), lambda: before[0], key=("with_parameter",))
            if r is not None and ak.parameters(r) != dict(before[1], some={"thing": [1, None, "x"]}):
                rec.fail("with_parameter: the parameters are %s" % ak.parameters(r))
            if dict(a.parameters) != before[1]:
                rec.fail("with_parameter changed the parameters of its argument")

            def strip(s):
                data = [x.encode("utf-8") if s[0] == "S" else x for x in s[1]]
                return ("LO", "64", tuple(int(x) for x in np.cumsum([0] + [len(x) for x in data])), ("N", "u1", tuple(b"".join(data))))
            self.one(rec, a, lambda: ak.without_parameters(h), lmap(d, lambda x: x, strip), key=("without_parameters",))
