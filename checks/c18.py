"""C18: conversions to and from Python objects, NumPy arrays and pandas frames."""
import datetime
import itertools

import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import DT64, L, decode, mk, mtype
from checks.c11 import Model
from checks.c16 import parametrised

ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError, OverflowError, AttributeError)


# ------------------------------------------------------------ Python objects

ATOMS = [None, True, 2, -3, 2.5, "s\u00e9", "", b"b\x00", 1 + 2j, np.int32(7), np.uint8(250), np.float32(0.25), np.bool_(False), float("nan"), (1 << 63) - 1, -(1 << 63)]
RARE = [np.datetime64("2020-01-02T03:04:05"), np.timedelta64(5, "h"), datetime.datetime(2020, 1, 2), datetime.timedelta(1), 1 << 63, -(1 << 63) - 1, 1 << 80,
        np.uint64((1 << 64) - 1), object(), {1: 2}, {1, 2}, np.array(3), np.array([1, 2]), np.array([[1.5], [2.5]]), np.array([], "i4")]


def feed(m, x):
    """the builder calls from_iter is documented to make"""
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        m.value(x)
    elif isinstance(x, tuple):
        m.begin_tuple(len(x))
        for i, y in enumerate(x):
            m.index(i)
            feed(m, y)
        m.end_tuple()
    elif isinstance(x, dict):
        m.begin_record(None)
        for k, y in x.items():
            m.field(k)
            feed(m, y)
        m.end_record()
    else:
        m.begin_list()
        for y in x:
            feed(m, y)
        m.end_list()


def expected(x):
    m = Model()
    for y in x:
        feed(m, y)
    return m.snapshot()


def values(tier):
    """nested Python values: every list of up to 3 atoms, every pair of small containers, every container of containers"""
    out = [list(c) for n in range(3) for c in itertools.product(ATOMS, repeat=n)]
    few = ATOMS[:7] if tier == "thorough" else [None, True, 2, 2.5, "s\u00e9"]
    out += [list(c) for c in itertools.product(few, repeat=3)]
    small = [[], [1], [None, 2.5], ["x"], (), (1,), (1, "x"), (None, [1]), {}, {"x": 1}, {"x": 1.5, "y": [1]}, {"y": None, "x": 2}, {"z": {"x": (1, 2)}}, [[]], [[], [1]], [(1,), None], [{"x": 1}, {"x": 2, "y": 3}], {"x": []},
             {"x": ""}, {"a b": b"q"}]
    out += [[x] for x in small]
    out += [list(c) for c in itertools.product(small + few, repeat=2)]
    if tier == "thorough":
        out += [list(c) for c in itertools.product(small, repeat=3)]
    for x, y in itertools.product(small, repeat=2):
        out += [[[x, y]], [(x, y)], [{"p": x, "q": y}], [[x], [y]], [{"p": x}, {"p": y}], [(x,), (y,)]]
    return out


# ------------------------------------------------------------ NumPy

SHAPES = [(0,), (1,), (2,), (3,), (0, 2), (2, 0), (1, 1), (2, 3), (3, 2), (0, 0), (2, 2, 2), (2, 0, 3), (1, 3, 2), (2, 1, 2, 2)]
ORDERS = ["C", "F", "step", "rev", "revlast", "offset", "bcast"]
DTYPES = gen.ALL_DTYPES + ["S1", "S4", "U1", "U3", "f2", ">i4", ">f8", ">M8[s]"]


def base(dt, shape):
    n = int(np.prod(shape))
    d = np.dtype(dt)
    if d.kind == "S":
        v = [b"", b"a", b"bcde", b"f\x00g", b"hi"]
        return np.array([v[i % 5] for i in range(n)], dtype=d).reshape(shape)
    if d.kind == "U":
        v = ["", "a", "\u00e9\u4e2d", "\U0001f600x", "hij"]
        return np.array([v[i % 5] for i in range(n)], dtype=d).reshape(shape)
    plain = {"e": "f4", "g": "f8"}.get(d.char) or d.newbyteorder("=").str[1:].replace("b1", "?")
    v = gen.dtype_values(plain)
    a = np.array([v[i % 4] + (0 if d.kind in "bc" or v[i % 4] != v[i % 4] or i % 4 < 2 else i // 4 % 2 * -1) for i in range(n)],
                 dtype="i8" if d.kind in "Mm" else plain)
    return (a.view(plain) if d.kind in "Mm" else a).astype(d).reshape(shape)


def ordered(a, how):
    if how == "C":
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "step":
        b = np.repeat(a, 2, axis=0)
        if len(b):
            b[1::2] = b[0]
        return b[::2]
    if how == "rev":
        return a[::-1].copy()[::-1]
    if how == "revlast":
        return a[..., ::-1].copy()[..., ::-1]
    if how == "offset":
        b = np.concatenate([a[:1], a, a[:1]])
        return b[min(1, len(a)):][:len(a)]
    return np.broadcast_to(a[:1], a.shape)


def plain(a):
    """a NumPy array as nested lists; masked elements are None, structured elements dicts"""
    if isinstance(a, np.ma.core.mvoid) or a.dtype.names is not None:
        if a.ndim == 0:
            raise AssertionError
        cols = {n: plain(a[n]) for n in a.dtype.names}
        if a.ndim == 1:
            return [{n: c[i] for n, c in cols.items()} for i in range(len(a))]
        return [plain(a[i]) for i in range(len(a))]
    if isinstance(a, np.ma.MaskedArray):
        d, m = np.ma.getdata(a), np.ma.getmaskarray(a)
        return hide(lay.npdecode(d), m.tolist())
    return lay.npdecode(a)


def hide(v, m):
    if isinstance(m, list):
        return [hide(x, y) for x, y in zip(v, m)]
    return None if m else v


def allnone(v):
    return v is None or isinstance(v, dict) and all(map(allnone, v.values()))


def agree(a, b, num=lay.same):
    """values agree; a record with every field missing agrees with a missing record"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y, num) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(agree(a[k], b[k], num) for k in a)
    if isinstance(a, dict) and b is None:
        return allnone(a)
    if isinstance(b, bytes) and isinstance(a, bytes):
        return a == b.rstrip(b"\x00")           # NumPy drops trailing zeros
    if isinstance(b, str) and isinstance(a, str):
        return a == b.rstrip("\x00")
    return num(a, b)


def promoted(a, b):
    """as loose, but an integer may have become the nearest floating-point number"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(promoted(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(promoted(a[k], b[k]) for k in a)
    if isinstance(a, float) and type(b) is int:
        return a == float(b)
    if isinstance(a, complex) and type(b) is int:
        return a == complex(b)
    return lay.loose(a, b)


def odds(a, b):
    return lay.loose(np.longdouble(a).astype("f8").item() if isinstance(a, np.longdouble) else a, b)


# what to_numpy is documented to give: rectangular nested lists with None at the leaves, the inner shape and the dtype

class Mixed(Exception):
    pass


def rect(t, vals):
    k = t[0]
    if k == "num":
        return vals, (), np.dtype(t[1])
    if k == "unk":
        return [], (), None
    if k in ("str", "bytes"):
        return vals, (), k
    if k in ("list", "reg"):
        if k == "reg":
            n = t[1]
        else:
            sizes = {len(v) for v in vals}
            if len(sizes) > 1:
                raise Bad
            n = sizes.pop() if sizes else 0
        flat, shape, dt = rect(t[-1], [y for v in vals for y in v])
        return [flat[i * n:(i + 1) * n] for i in range(len(vals))], (n,) + shape, dt
    if k == "opt":
        some, shape, dt = rect(t[1], [v for v in vals if v is not None])
        it = iter(some)
        return [fill(shape) if v is None else next(it) for v in vals], shape, dt
    if k == "rec":
        cols = []
        names = t[1] if t[1] is not None else tuple(map(str, range(len(t[2]))))
        for i, c in enumerate(t[2]):
            col, shape, dt = rect(c, [v[i] if t[1] is None else v[names[i]] for v in vals])
            if shape:
                raise Bad
            cols.append((names[i], col, dt))
        return [{n: c[i] for n, c, _ in cols} for i in range(len(vals))], (), tuple((n, d) for n, _, d in cols)
    if k == "uni":
        raise Mixed
    raise AssertionError(t)


def fill(shape):
    return None if not shape else [fill(shape[1:]) for _ in range(shape[0])]


def missing(v):
    if isinstance(v, (list, tuple)):
        return any(map(missing, v))
    if isinstance(v, dict):
        return any(map(missing, v.values()))
    return v is None


def dtype_ok(got, want):
    if want is None:
        return True
    if isinstance(want, tuple):
        return got.names == tuple(n for n, _ in want) if want else got.names in ((), None)
    if want in ("str", "bytes"):
        return got.kind == ("U" if want == "str" else "S") or got == np.dtype("f8")        # no strings: no width
    return got == want


# ------------------------------------------------------------ pandas

def columns(t, rows, path=()):
    """[(column path, [(row index tuple, value)])] of documented frames; rows = [(index, value)]"""
    k = t[0]
    if k == "opt":
        if t[1][0] in ("num", "str", "bytes"):
            return [(path, rows)]
        if t[1][0] in ("list", "reg"):
            return columns(t[1], [r for r in rows if r[1] is not None], path)
        raise Mixed
    if k in ("num", "str", "bytes"):
        return [(path, rows)]
    if k == "unk":
        return [(path, [])]
    if k in ("list", "reg"):
        return columns(t[-1], [(i + (j,), y) for i, v in rows for j, y in enumerate(v)], path)
    if k == "rec":
        out = []
        for i, c in enumerate(t[2]):
            n = str(i) if t[1] is None else t[1][i]
            out += columns(c, [(r, v[i] if t[1] is None else v[n]) for r, v in rows], path + (n,))
        return out
    raise Mixed


def cell(x):
    """one cell of a frame: None when missing"""
    import pandas
    if isinstance(x, (str, bytes)):
        return x
    if x is None or x is pandas.NaT or (isinstance(x, (float, np.floating)) and x != x):
        return None
    if isinstance(x, pandas.Timestamp):
        return ("M8", x.to_datetime64().astype("M8[ns]").astype("i8").item())
    if isinstance(x, pandas.Timedelta):
        return ("m8", x.to_timedelta64().astype("m8[ns]").astype("i8").item())
    return lay.scalar(x)


def modelcell(x):
    if isinstance(x, DT64):
        return (x[0][:2], np.array(x[1]).view(x[0]).astype(x[0][:2] + "[ns]").astype("i8").item())
    if isinstance(x, float) and x != x:
        return None
    if isinstance(x, bytes):
        return x.rstrip(b"\x00")
    return x


def frame(df):
    """{column path: {index tuple: value}}"""
    out = {}
    idx = [i if isinstance(i, tuple) else (i,) for i in df.index.tolist()]
    idx = [tuple(int(j) for j in i) for i in idx]
    for k in range(df.shape[1]):
        name = df.columns[k]
        path = tuple(x for x in (name if isinstance(name, tuple) else (name,)) if x != "")
        if path in out:
            raise AssertionError("column %r twice" % (path,))
        out[path] = list(zip(idx, [cell(x) for x in df.iloc[:, k].tolist()]))
    return out


def close(a, b):
    return promoted(a, b)           # pandas has no missing integers: they become floats


class Check:
    pid = "C18"
    rule = ("transition = one conversion of one value, NumPy array or layout compared with the reference; state = distinct value, array or layout; "
            "non-trivial = distinct converted value")
    assumptions = ["NumPy is the reference for what a NumPy array contains", "to_numpy of a union and to_pandas of a union or of optional records are outside the model (only required not to crash)",
                   "an array of fixed-size records or lists all of whose elements are missing has no shape to compare"]

    def units(self, tier):
        self.tier = tier
        self.vals = values(tier)
        self.lays = self.layouts(tier)
        out = [("iter", k) for k in range(0, len(self.vals), 300)] + [("rare",)]
        out += [("numpy", d) for d in range(len(DTYPES))] + [("masked", d) for d in range(len(DTYPES))] + [("struct", k) for k in range(4)]
        out += [("tonumpy", k) for k in range(0, len(self.lays), 150)] + [("pandas", k) for k in range(0, len(self.lays), 150)] + [("join", k) for k in range(8)]
        return out

    def bounds(self, tier):
        return ("%d nested Python values of up to 3 items and 3 levels; %d dtypes x %d shapes x %d memory orders, every mask of up to 6 elements, structured arrays of "
                "up to 3 fields; %d layouts for to_numpy and to_pandas; every pair of list-length patterns for merged frames" %
                (len(self.vals), len(DTYPES), len(SHAPES), len(ORDERS), len(self.lays)))

    def layouts(self, tier):
        sp = gen.node_space("quick")
        lv = gen.layouts(2, gen.leaves(6, True), [True, tier == "thorough"])
        sp += lv[0] + lv[1] + lv[2] + gen.longs()
        if tier == "thorough":
            sp += gen.layouts(3, gen.leaves(6), [False, False, False])[3]
        for d in gen.ALL_DTYPES:
            v = gen.dtype_values(d)
            n = ("N", d, v)
            sp += [n, ("Ns", d, v, "rev"), ("LO", "64", (0, 2, 4), n), ("LO", "64", (0, 1, 4), n), ("N2", d, (2, 2), v), ("R", 2, 0, n), ("IO", "64", (1, -1, 3), n), ("I", "32", (2, 2, 0), n),
                   ("D", ("x", "y"), (n, n), 3), ("BM", (0, 1, 0, 1), True, n), ("LO", "64", (0, 2, 4), ("bM", (0, 1, 1, 0, 0, 0, 0, 0), True, 4, True, n)), ("D", ("x",), (("IO", "64", (1, -1, 3), n),), 3)]
        N = ("N", "i8", (1, 2, 3, 4, 5, 6))
        for z in range(4):
            sp += [("R", 0, z, N), ("R", 2, 0, ("R", 0, z, N)), ("R", 0, z, ("R", 2, 0, N)), ("LO", "64", (0,) * (z + 1), N), ("LO", "64", (0, z), ("R", 0, z, N)), ("R", 1, 0, ("R", 0, z, N)), ("UM", ("R", 0, z, N))]
        for c in [N, ("S", ("a", "", "ccc", "d\u00e9", "e", "")), ("B", (b"a", b"", b"c\x00", b"d", b"e", b"f"))]:
            for m in itertools.product((0, 1), repeat=4):
                sp += [("R", 2, 0, ("BM", m, True, c)), ("BM", m[:2], True, ("R", 2, 0, c)), ("BM", m[:2], True, ("R", 2, 0, ("BM", m, True, c)))]
            sp += [("LO", "64", (0, 2, 4), c), ("LO", "64", (1, 1, 1), c), ("LO", "64", (0, 0, 3), c), ("R", 3, 0, c), ("R", 2, 0, ("R", 3, 0, c))]
        out, seen = [], set()
        for d in sp + [("V", d, False) for d in lv[0] + lv[1]] + [("PART", (d, d)) for d in lv[0] + lv[1]]:
            if repr(d) not in seen:
                seen.add(repr(d))
                out.append(d)
        return out

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    # ---- Python
    def u_iter(self, rec, k):
        for v in self.vals[k:k + 300]:
            rec.state(repr(v))
            if rec.begin({"value": repr(v), "op": "from_iter"}):
                want = expected(v)
                ways = [("from_iter", lambda: ak.from_iter(v)), ("generator", lambda: ak.from_iter(iter(v))), ("ak.Array", lambda: ak.Array(v)), ("small buffers", lambda: ak.from_iter(v, initial=1, resize=1.01)),
                        ("low-level", lambda: ak.from_iter(v, highlevel=False))]
                for name, f in ways:
                    got = compare(rec, f, lambda: want, cmp=promoted, errors=ERR)
                    if got is not None:
                        back = ak.to_list(got)
                        if not promoted(back, want):
                            rec.fail("%s, to_list gives %r\nexpected %r" % (name, back, want))
                        kinds(rec, v, back)
            if len(v) == 1 and isinstance(v[0], dict) and rec.begin({"value": repr(v[0]), "op": "from_iter of a dict"}):
                want = expected(v)[0]
                got = compare(rec, lambda: ak.from_iter(v[0]), lambda: want, cmp=lay.loose)
                if got is not None and not lay.loose(ak.to_list(got), want):
                    rec.fail("to_list gives %r\nexpected %r" % (ak.to_list(got), want))
                compare(rec, lambda: ak.from_iter(v[0], allow_record=False), raising)

    def u_rare(self, rec):
        """values the documentation does not list: converted faithfully or refused"""
        for x in RARE:
            for v in ([x], [x, x], [None, x], [1, x], [[x]], [{"x": x}], [(x, 1)], ["s", x], [1.5, x]):
                if rec.begin({"value": repr(v).split(" at 0x")[0], "op": "from_iter (rare)"}):
                    rec.step()
                    try:
                        got = ak.to_list(ak.from_iter(v))
                    except ERR:
                        rec.outcome("raise")
                        continue
                    want = rare(v)
                    rec.outcome(repr(got))
                    if not promoted(norm(got), norm(want)):
                        rec.fail("got %r" % (got,))

    # ---- NumPy
    def there_and_back(self, rec, a, want, **kw):
        """from_numpy has the array's values; to_numpy gives the array back"""
        odd = a.dtype.names is None and (a.dtype.char in "eg" or a.dtype.byteorder == ">")
        rec.step()
        try:
            x = ak.from_numpy(a, **kw)
            got = decode(x)
        except ERR as e:
            if not odd:
                rec.fail("from_numpy raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
            rec.outcome("raise")
            return
        except lay.Undecodable as e:
            rec.fail("not a valid layout: %s" % e)
            return
        rec.outcome(repr(got))
        if not agree(got, want, odds if odd else lay.same):
            rec.fail("from_numpy(%r) gives %r" % (a, got))
            return
        if ak.is_valid(x) is not True:
            rec.fail("from_numpy(%r) is not valid: %s" % (a, ak.validity_error(x)))
        rec.step()
        try:
            b = ak.to_numpy(x)
        except ERR as e:
            if not odd and (a.dtype.names is None or a.ndim == 1):
                rec.fail("to_numpy(from_numpy(%r)) raised %s: %s" % (a, type(e).__name__, str(e).split("\n")[0]))
            return
        if not isinstance(b, np.ndarray):
            rec.fail("to_numpy(from_numpy(%r)) is a %s" % (a, type(b)))
            return
        if b.shape != a.shape or not agree(plain(b), want, odds if odd else lay.same):
            rec.fail("to_numpy(from_numpy(%r)) is %r" % (a, b))
        elif a.dtype.kind not in "SU" and not odd and a.dtype.names is None and b.dtype != a.dtype:
            rec.fail("to_numpy(from_numpy(%r)) has dtype %s" % (a, b.dtype))

    def u_numpy(self, rec, k):
        dt = DTYPES[k]
        for shape in SHAPES:
            a0 = base(dt, shape)
            for how in ORDERS:
                a = ordered(a0, how)
                want = plain(a)
                rec.state((dt, shape, how))
                for reg in (False, True):
                    if rec.begin({"dtype": dt, "shape": shape, "order": how, "regulararray": reg}):
                        self.there_and_back(rec, a, want, regulararray=reg)
                if rec.begin({"dtype": dt, "shape": shape, "order": how, "op": "ak.Array, np.asarray"}):
                    rec.step(2)
                    try:
                        x = ak.Array(a)
                        if not lay.same(decode(x), decode(ak.from_numpy(a))):
                            rec.fail("ak.Array(%r) is %r" % (a, decode(x)))
                        if dt[0] in "SU":
                            continue
                        b = np.asarray(x)
                        if b.shape != a.shape or b.dtype != a.dtype or not lay.same(plain(b), want):
                            rec.fail("np.asarray(ak.Array(%r)) is %r" % (a, b))
                    except ERR as e:
                        if dt in gen.ALL_DTYPES:
                            rec.fail("raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
        if rec.begin({"dtype": dt, "op": "0-d"}):
            a = base(dt, (1,)).reshape(())
            rec.step()
            try:
                got = decode(ak.from_numpy(a))
            except ERR:
                got = None
                if dt in gen.ALL_DTYPES:
                    rec.fail("raised")
            if got is not None and not agree(got, plain(a.reshape(1))):
                rec.fail("from_numpy(%r) is %r" % (a, got))

    def u_masked(self, rec, k):
        dt = DTYPES[k]
        some = dt in ("i8", "S4", "U3", "M8[s]", "?") or self.tier == "thorough"
        for shape in ((0,), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (0, 2), (2, 0), (3, 2), (1, 2, 2)):
            n = int(np.prod(shape))
            if n > 4 and not some:
                continue
            for how in ("C", "F", "rev"):
                a0 = ordered(base(dt, shape), how)
                masks = [np.array(m, dtype=bool).reshape(shape) for m in itertools.product((False, True), repeat=n)] + [np.ma.nomask, False, True]
                for i, m in enumerate(masks):
                    for mo in (("C", "F") if i < len(masks) - 3 and len(shape) > 1 else ("C",)):
                        mm = np.asfortranarray(m) if mo == "F" else m
                        rec.state((dt, shape, how, i))
                        for reg in (False, True):
                            if rec.begin({"dtype": dt, "shape": shape, "order": how, "mask": repr(m), "mask order": mo, "regulararray": reg}):
                                a = np.ma.MaskedArray(a0, mm)
                                self.there_and_back(rec, a, plain(a), regulararray=reg)

    def u_struct(self, rec, k):
        fields = [("a", "i8"), ("b", "f4"), ("c", "?"), ("s", "S4"), ("u", "U3"), ("d", "M8[s]"), ("v", "i4", (2,)), ("w", "f8", (2, 3)), ("us", "U2", (2,))]
        combos = [c for n in (1, 2, 3) for c in itertools.permutations(fields, n) if n < 3 or c[0] < c[1] < c[2]]
        for c in combos[k::4]:
            c = list(c)
            for shape in ((0,), (1,), (3,), (2, 2), (2, 0)):
                a = np.zeros(shape, dtype=c)
                for f in c:
                    a[f[0]] = base(f[1], shape + (f[2] if len(f) > 2 else ()))
                deep = any(len(f) > 2 for f in c)
                for order in ("C", "step"):
                    b = ordered(a, order)
                    rec.state((repr(c), shape, order))
                    if rec.begin({"dtype": repr(c), "shape": shape, "order": order}):
                        # the dimensions of a multidimensional structured array go inside the fields
                        want = plain(b) if len(shape) == 1 else [{f[0]: plain(b[f[0]])[i] for f in c} for i in range(len(b))]
                        if deep or len(shape) > 1:
                            compare(rec, lambda: ak.from_numpy(b), lambda: want, cmp=agree)
                        else:
                            self.there_and_back(rec, b, want)
                    if len(shape) == 1 and not deep and len(c) < 3:
                        n = shape[0] * len(c)
                        for m in itertools.product((False, True), repeat=n):
                            if rec.begin({"dtype": repr(c), "shape": shape, "order": order, "mask": m}):
                                mm = np.zeros(shape, dtype=[(f[0], bool) for f in c])
                                for j, f in enumerate(c):
                                    mm[f[0]] = m[j * shape[0]:(j + 1) * shape[0]]
                                x = np.ma.MaskedArray(b, mask=mm)
                                self.there_and_back(rec, x, plain(x))

    def u_tonumpy(self, rec, k):
        for d in self.lays[k:k + 150]:
            x = mk(d)
            v = decode(x)
            t = mtype(x)
            rec.state(repr(d))
            try:
                want = rect(t, v)
            except Bad:
                want = "bad"
            except Mixed:
                want = "mixed"
            none = missing(v)
            for name, f, am in (("to_numpy", lambda: ak.to_numpy(ak.Array(x)), True), ("to_numpy(layout)", lambda: ak.to_numpy(x), True),
                                ("to_numpy(allow_missing=False)", lambda: ak.to_numpy(ak.Array(x), allow_missing=False), False), ("np.asarray", lambda: np.asarray(ak.Array(x)), False),
                                ("to_list", None, True)):
                if rec.begin({"layout": d, "op": name}):
                    rec.step()
                    if name == "to_list":
                        got = ak.to_list(ak.Array(x))
                        if not lay.same(datefree(got), v):
                            rec.fail("got %r" % (got,))
                        continue
                    try:
                        b = f()
                    except ERR as e:
                        rec.outcome("raise")
                        if want in ("bad", "mixed") or not am and none:
                            continue
                        rec.fail("raised %s: %s\nfrom %r" % (type(e).__name__, str(e).split("\n")[0], v))
                        continue
                    if not isinstance(b, np.ndarray):
                        rec.fail("is a %s" % type(b))
                        continue
                    rec.outcome(repr(b))
                    if want == "mixed":
                        rec.note("undetermined")
                        continue
                    if want == "bad":
                        rec.fail("%r from %r" % (b, v))
                        continue
                    if not am and (none or isinstance(b, np.ma.MaskedArray)):
                        rec.fail("%r from %r" % (b, v))
                        continue
                    w, shape, dt = want
                    if b.shape != (len(v),) + shape or not dtype_ok(b.dtype, dt) or (b.dtype.names != () and not agree(plain(b), w)):
                        rec.fail("got %r\nexpected %r, shape %r, dtype %r" % (b, w, (len(v),) + shape, dt))
            if t[0] == "rec" and isinstance(want, tuple) and len(v):
                for i in range(len(v)):
                    if rec.begin({"layout": d, "op": "to_numpy of record %d" % i}):
                        rec.step()
                        e = ak.Array(x)[i]
                        b = ak.to_numpy(e)
                        got = void(b)
                        if not agree(got, want[0][i]):
                            rec.fail("got %r" % (b,))

    # ---- pandas
    def u_pandas(self, rec, k):
        for d in self.lays[k:k + 150]:
            x = mk(d)
            v = decode(x)
            rec.state(repr(d))
            try:
                want = columns(mtype(x), [((i,), y) for i, y in enumerate(v)])
            except Mixed:
                want = None
            if any(c[0] == "c" for c in leafkinds(mtype(x))):
                want = None
            if rec.begin({"layout": d, "op": "to_pandas"}):
                rec.step()
                self.frames(rec, x, want, v)
            if mtype(x)[0] == "rec" and want is not None and rec.begin({"layout": d, "op": "to_pandas of records"}):
                for i in range(min(len(v), 2)):
                    rec.step()
                    r = ak.Array(x)[i]
                    try:
                        fs = ak.to_pandas(r, how=None)
                    except ERR as e:
                        rec.fail("record %d: raised %s: %s" % (i, type(e).__name__, str(e).split("\n")[0]))
                        continue
                    got = {}
                    for df in fs:
                        got.update(frame(df))
                    for path, rows in want:
                        w = [((ix[1:] if len(ix) > 1 else (0,)), modelcell(y)) for ix, y in rows if ix[0] == i]
                        if not close([list(z) for z in got.get(path, ())], [list(z) for z in w]):
                            rec.fail("record %d column %r is %r\nexpected %r" % (i, path, got.get(path), w))

    def frames(self, rec, x, want, v):
        try:
            fs = ak.to_pandas(ak.Array(x), how=None, levelname=lambda i: "L%d" % i, anonymous="anon")
            got = {}
            for df in fs:
                f = frame(df)
                if any(p in got for p in f):
                    rec.fail("column in two frames")
                got.update(f)
                if list(df.index.names) != ["L%d" % i for i in range(df.index.nlevels)]:
                    rec.fail("level names %r" % (df.index.names,))
        except ERR as e:
            rec.outcome("raise")
            if want is not None:
                rec.fail("raised %s: %s\nfrom %r" % (type(e).__name__, str(e).split("\n")[0], v))
            return
        rec.outcome(repr(got))
        if want is None:
            rec.note("undetermined")
            return
        w = {p or ("anon",): [(i, modelcell(y)) for i, y in rows] for p, rows in want}
        if set(w) != set(got) or any(not close([list(z) for z in got[p]], [list(z) for z in w[p]]) for p in w):
            rec.fail("got %r\nexpected %r" % (got, w))

    def u_join(self, rec, k):
        """frames of different multiplicities merged into one"""
        lens = list(itertools.product((0, 1, 2), repeat=3))
        pairs = list(itertools.product(lens, lens))
        for a, b in pairs[k::8]:
            def col(ls, s):
                it = itertools.count()
                return [[next(it) * 10 + s for _ in range(n)] for n in ls]
            for kind in ("flat-first", "list-list", "list-first", "three"):
                x, y = col(a, 1), col(b, 2)
                recs = [{"list-list": lambda i: {"x": x[i], "y": y[i]}, "flat-first": lambda i: {"z": i * 100, "y": y[i]}, "list-first": lambda i: {"y": y[i], "z": i * 100},
                         "three": lambda i: {"x": x[i], "z": i * 100, "y": y[i]}}[kind](i) for i in range(3)]
                if kind in ("flat-first", "list-first") and a != lens[0]:
                    continue
                for how in ("inner", "outer", "left", "right"):
                    if rec.begin({"lists": [a, b], "kind": kind, "how": how}):
                        rec.step()
                        arr = ak.Array(L.RecordArray({n: (ak.from_iter([r[n] for r in recs], highlevel=False) if n == "z" else listcol([r[n] for r in recs])) for n in recs[0]}))
                        got = frame(ak.to_pandas(arr, how=how))
                        rec.outcome(repr(got))
                        want = join(recs, how)
                        if want is None:
                            continue
                        g = {}
                        for p, rows in got.items():
                            for i, c in rows:
                                g.setdefault(i, {})[p[0]] = c
                        if g != want:
                            rec.fail("got %r\nexpected %r" % (g, want))


def listcol(vals):
    off = np.cumsum([0] + [len(v) for v in vals])
    return L.ListOffsetArray64(L.Index64(off.astype("i8")), L.NumpyArray(np.array([y for v in vals for y in v], dtype="i8")))


def join(recs, how):
    """rows {index: {column: value}} of the merged frame; columns without lists repeat on every sub-row"""
    names = list(recs[0])
    tabs = []
    for n in names:
        if isinstance(recs[0][n], list):
            tabs.append((n, {(i, j): y for i, r in enumerate(recs) for j, y in enumerate(r[n])}))
        else:
            tabs.append((n, {(i,): r[n] for i, r in enumerate(recs)}))
    # columns of equal index share a frame
    out = None
    for n, t in tabs:
        rows = {i: {n: y} for i, y in t.items()}
        if out is None:
            out, cols, depth = rows, [n], 2 if isinstance(recs[0][n], list) else 1
            continue
        d = 2 if isinstance(recs[0][n], list) else 1
        if d != depth and how != "inner":
            return None
        if d == depth:
            if set(rows) == set(out):
                keys = set(rows)
            else:
                keys = {"inner": set(out) & set(rows), "outer": set(out) | set(rows), "left": set(out), "right": set(rows)}[how]
            out = {i: dict({c: out.get(i, {}).get(c) for c in cols}, **{n: rows.get(i, {}).get(n)}) for i in keys}
        else:
            big, small = (rows, out) if d > depth else (out, rows)
            out = {i: dict(big[i], **small[i[:1]]) for i in big if i[:1] in small}
            depth = 2
        cols = cols + [n]
    return out


def leafkinds(t):
    if t[0] == "num":
        return [t[1]]
    return [k for c in t for k in (leafkinds(c) if isinstance(c, tuple) and c and isinstance(c[0], str) and c[0] in KINDS else [k2 for e in c if isinstance(e, tuple) and e for k2 in leafkinds(e)] if isinstance(c, tuple) else [])]


KINDS = ("num", "unk", "str", "bytes", "list", "reg", "opt", "rec", "uni")


def void(b):
    """one structured NumPy element as a dict"""
    if b.dtype.names is not None:
        return {n: void(b[n]) for n in b.dtype.names}
    return None if np.ma.is_masked(b) else lay.scalar(b) if not isinstance(b, np.ndarray) else lay.npdecode(b)


def raising():
    raise Bad


def maybe(w):
    raise Maybe(w)


def datefree(v):
    if isinstance(v, list):
        return [datefree(x) for x in v]
    if isinstance(v, tuple):
        return tuple(map(datefree, v))
    if isinstance(v, dict):
        return {k: datefree(x) for k, x in v.items()}
    return lay.scalar(v)


def rare(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, list):
        return [rare(x) for x in v]
    if isinstance(v, tuple):
        return tuple(map(rare, v))
    if isinstance(v, dict) and all(isinstance(k, str) for k in v):
        return {k: rare(x) for k, x in v.items()}
    if isinstance(v, set):
        return list(v)
    return v


def norm(v):
    """dates by instant"""
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(map(norm, v))
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (datetime.datetime, np.datetime64)):
        return "M%d" % np.datetime64(v).astype("M8[us]").astype("i8")
    if isinstance(v, (datetime.timedelta, np.timedelta64)):
        return "m%d" % np.timedelta64(v).astype("m8[us]").astype("i8")
    if isinstance(v, np.generic):
        return v.item()
    return v


def kinds(rec, v, back):
    """integers without floats or complex numbers beside them come back exactly, as integers; booleans as booleans"""
    flat = [x for x in v if x is not None]
    if all(isinstance(x, (bool, np.bool_)) for x in flat) or all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in flat):
        w = [x.item() if isinstance(x, np.generic) else x for x in v]
        if not lay.same(back, w):
            rec.fail("to_list gives %r for %r" % (back, v))
