"""C03: advanced slicing (integer arrays, masks, missing, jagged) selects exactly the requested elements."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay, slicing
from vlib.lay import decode, mk, mtype, same
from vlib.slicing import Bad, Skip

S = slice
ERR = (ValueError, IndexError, TypeError)


class Arr(object):
    """an array slice item: nested lists of ints (or None)"""

    def __init__(self, data, how="ak"):
        self.data, self.how = data, how

    def __repr__(self):
        return "%s:%r" % (self.how, self.data)

    def real(self):
        if self.how == "np":
            return np.array(self.data, dtype=np.int64 if not has_bool(self.data) else bool)
        if self.how == "npF":
            return np.asfortranarray(np.array(self.data, dtype=np.int64))
        if self.how == "list":
            return self.data
        if self.how == "ak32":
            return ak.Array(ak.layout.IndexedArray64(ak.layout.Index64(np.arange(len(self.data))[::-1].copy()),
                                                     ak.layout.NumpyArray(np.array(self.data[::-1], dtype=np.int32))))
        if self.how == "akdesc":
            return ak.Array(mk(self.desc))
        if self.how[:3] == "np:":
            return np.repeat(np.array(self.data, dtype=self.how[3:]), 2, axis=-1)[..., ::2]
        return ak.from_iter(self.data)


def slicers(tier):
    """representations of index arrays: every integer type, every node type that an index array can be made of"""
    out = []
    for dt in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"):
        v = (1, 0, 2, 2) if dt[0] == "u" else (1, -1, 0, -2)
        N = ("N", dt, v)
        out += [N, ("Ns", dt, v, "step2"), ("Ns", dt, v, "rev"), ("Ns", dt, v, "off"), ("I", "32", (3, 0, 0), N), ("IO", "64", (0, -1, 3), N), ("IO", "32", (-1,), N),
                ("BM", (1, 0, 1, 0), True, ("Ns", dt, v, "step2")), ("BM", (1, 0, 1, 1), False, N), ("bM", (1, 0, 1, 1), True, 4, True, N), ("UM", N), ("V", N, True), ("PART", (N, N)),
                ("N2", dt, (2, 2), v), ("N2s", dt, (2, 2), v, "F"), ("R", 2, 0, N), ("R", 2, 0, ("Ns", dt, v, "step2")), ("R", 1, 0, N), ("LO", "64", (0, 2, 4), N), ("V", ("R", 2, 0, N), False), ("I", "64", (1, 0, 1), ("R", 2, 0, N)), ("PART", (("R", 2, 0, N), ("R", 2, 0, N))),
                ("PART", (("IO", "64", (0, -1), N), ("IO", "64", (-1,), N)))]
        out += [(("np:" + dt), v), (("np:" + dt), (v[:2], v[2:]))]
    for v in itertools.product((True, False), repeat=4):
        N = ("N", "?", v)
        out += [N, ("Ns", "?", v, "step2"), ("I", "64", (3, 2, 1, 0), N), ("IO", "64", (0, -1, 2, 3), N), ("BM", (1, 1, 0, 1), True, N), ("bM", (0, 0, 0, 1), False, 4, True, N), ("UM", N), ("V", N, True),
                ("PART", (("N", "?", v[:1]), ("N", "?", v[1:])))]
    return out


def tuples(x):
    return [tuples(y) for y in x] if isinstance(x, tuple) else x


def represented(rec, tier):
    """the same slices whatever represents them"""
    bases = [("N", "i8", (10, 11, 12, 13)), ("LO", "64", (0, 2, 2, 3, 6), ("N", "i8", (0, 1, 2, 3, 4, 5))), ("D", ("y", "x"), (("N", "i8", (1, 2, 3, 4)), ("S", ("a", "", "bb", "c"))), 4),
             ("IO", "64", (3, -1, 0, 1), ("N", "f8", (0.5, 1.5, 2.5, 3.5))), ("R", 1, 0, ("N", "i8", (0, 1, 2, 3))), ("N2", "i8", (4, 2), tuple(range(8))), ("PART", (("N", "i8", (5, 6)), ("N", "i8", (7, 8))))]
    for d in bases:
        x = ak.Array(mk(d))
        v, t = decode(x.layout), mtype(x.layout)
        for r in slicers(tier):
            if not rec.begin((d, "sliced by", r)):
                continue
            rec.step()
            if r[0][:3] == "np:":
                a = Arr(tuples(r[1]), r[0])
            else:
                if r[0] == "LO" and d[0] != "LO":
                    continue
                a = Arr(decode(mk(r)), "akdesc")
                a.desc = r
            rec.state(repr((d, r)))
            if has_bool(a.data):
                m = akmask(a)
                check(rec, x, (a,), lambda: model(v, t, (m,)) if m.data else [])
                if d[0] == "LO":
                    continue
            elif r[0] == "LO":
                j = ("LO", "64", (0, 2, 2, 2, 4), ("N", r[3][1], (0, 1, 0, 2)))
                b = Arr(decode(mk(j)), "akdesc")
                b.desc = j
                check(rec, x, (b,), lambda: [[y[i] for i in k] for y, k in zip(v, b.data)])
            else:
                check(rec, x, (a,), lambda: model(v, t, (a,)))
            if d[0] == "N2" and not has_none(a.data) and r[0] not in ("PART",) and not has_bool(a.data):
                ref = np.array(v)
                check(rec, x, (a, 1), lambda: ref[np.array(a.data, dtype=np.int64), 1].tolist())
                check(rec, x, (S(None), Arr([0], "np")), lambda: ref[:, [0]].tolist())


def has_none(d):
    return any(has_none(y) for y in d) if isinstance(d, list) else d is None


def has_bool(d):
    if isinstance(d, list):
        return any(has_bool(x) for x in d)
    return isinstance(d, bool)


def bcast(arrs):
    """broadcast the array items together (NumPy rules, 1-d or 2-d, missing allowed in 1-d)"""
    shapes = []
    for a in arrs:
        d = a.data
        sh = []
        while isinstance(d, list):
            sh.append(len(d))
            d = d[0] if d else None
        shapes.append(tuple(sh))
    try:
        shape = np.broadcast_shapes(*shapes)
    except ValueError:
        raise Bad("cannot broadcast")
    if len(set(shapes)) > 1 and (0 in shape or len(set(map(len, shapes))) > 1):
        raise Skip("broadcasting of slice arrays with an empty array or different dimensions may be rejected")
    out = []
    for a in arrs:
        o = np.empty(np.shape(np.array(a.data, dtype=object)) if a.data else (0,), dtype=object)
        o = np.array(a.data, dtype=object).reshape(shapes[arrs.index(a)])
        out.append(np.broadcast_to(o, shape))
    return shape, out


def model(v, t, items):
    arrs = [x for x in items if isinstance(x, Arr)]
    if any(isinstance(x, int) for x in items) and any(not a.data for a in arrs):
        raise Skip("integer broadcast against an empty array")
    if len(arrs) > 1 and any(None in a.data for a in arrs):
        raise Skip("several arrays with missing values")
    pos = [i for i, x in enumerate(items) if isinstance(x, (Arr, int)) and not isinstance(x, bool)]
    if arrs and pos[-1] - pos[0] + 1 != len(pos):
        first = items[pos[0]]
        if not isinstance(first, Arr):
            raise Skip("separated advanced indexes")
    shape, bs = bcast(arrs)
    if Ellipsis in [x for x in items if not isinstance(x, Arr)]:
        i = [k for k, x in enumerate(items) if x is Ellipsis][0]
        full = slicing.expand(t, tuple(S(None) if isinstance(x, Arr) else x for x in items))
        items = items[:i] + (S(None),) * (len(full) - len(items) + 1) + items[i + 1:]
    if isinstance(items[0], int) and arrs and slicing.has(t, ("rec",)):
        raise Skip("integer, then array, into records")
    return rec_(v, t, items, dict(zip(map(id, arrs), bs)), shape, None)


def rec_(v, t, items, bs, shape, at):
    if not items:
        return v
    h, rest = items[0], items[1:]
    slicing.checkdims(t, [S(None) if isinstance(x, Arr) else x for x in rest])
    if isinstance(h, Arr):
        if at is None:
            def build(prefix):
                if len(prefix) == len(shape):
                    return pick(v, t, bs[id(h)][prefix], rest, bs, shape, prefix)
                return [build(prefix + (i,)) for i in range(shape[len(prefix)])]
            return build(())
        return pick(v, t, bs[id(h)][at], rest, bs, shape, at)
    if isinstance(h, slice):
        return [into(x, t, rest, bs, shape, at, True) for x in v[h]]
    if isinstance(h, int):
        return pick(v, t, h, rest, bs, shape, at)
    raise AssertionError(h)


def pick(v, t, i, rest, bs, shape, at):
    if i is None:
        return None
    if not -len(v) <= i < len(v):
        raise Bad("out of range")
    return into(v[i], t, rest, bs, shape, at)


def into(x, t, rest, bs, shape, at, below=False):
    if not rest:
        return x
    k = t[0]
    if k == "opt":
        if x is None:
            if any(isinstance(r, Arr) for r in rest) and at is None and not below:
                raise Skip("array applied to a missing value")
            return None
        return into(x, t[1], rest, bs, shape, at, below)
    if k in ("list", "reg"):
        return rec_(x, t[-1], rest, bs, shape, at)
    if k == "rec":
        if t[1] is None:
            return tuple(into(y, tt, rest, bs, shape, at, below) for y, tt in zip(x, t[2]))
        return {n: into(x[n], tt, rest, bs, shape, at, below) for n, tt in zip(t[1], t[2])}
    if k == "uni":
        raise Skip("into a union")
    if k in ("str", "bytes", "unk"):
        raise Skip("into a string")
    raise Bad("too deep")


# ---------------------------------------------------------------- jagged

def jmodel(v, t, j):
    """array value v (items of type t) sliced by jagged j (list whose items are lists / None)"""
    if len(j) != len(v):
        raise Bad("jagged length")
    return [jin(x, t, y) for x, y in zip(v, j)]


def jin(x, t, y):
    if t[0] == "opt":
        if x is None:
            return None
        return jin(x, t[1], y)
    if t[0] == "rec":
        if t[1] is None:
            return tuple(jin(a, tt, y) for a, tt in zip(x, t[2]))
        return {n: jin(x[n], tt, y) for n, tt in zip(t[1], t[2])}
    if t[0] in ("str", "bytes", "uni", "unk"):
        raise Skip("jagged into " + t[0])
    if y is None:
        return None
    if t[0] not in ("list", "reg"):
        raise Bad("too deep")
    if any(isinstance(e, list) for e in y):
        return jmodel(x, t[-1], y)
    if has_bool(y):
        if len(y) != len(x):
            raise Bad("mask length")
        return [None if e is None else a for a, e in zip(x, y) if e is None or e]
    out = []
    for e in y:
        if e is None:
            out.append(None)
        else:
            if not -len(x) <= e < len(x):
                raise Bad("range")
            out.append(x[e])
    return out


def jag_depth(j):
    return 1 + max([jag_depth(x) for x in j if isinstance(x, list)] or [0])


# ---------------------------------------------------------------- spaces

def shaped(shape):
    """layouts of the regular array arange(prod(shape)).reshape(shape)"""
    n = int(np.prod(shape))
    vals = tuple(range(n))
    out = [("N2", "i8", shape, vals)]
    if len(shape) >= 2 and n:
        out += [("N2s", "i8", shape, vals, "F"), ("N2s", "i8", shape, vals, "revlast"), ("N2s", "i8", shape, vals, "step2")]
    base = ("N", "i8", vals)
    r = base
    lst = base
    for s in reversed(shape[1:]):
        m = lay.dlen(r)
        zl = int(np.prod(shape[:1])) if s == 0 else 0
        r = ("R", s, zl if len(shape) == 2 else 0, r)
        lst = ("LO", "64", tuple(i * s for i in range(m // s + 1)) if s else (0,) * (shape[0] + 1), lst)
    if lay.dlen(r) == shape[0]:
        out += [r, ("I", "64", tuple(range(shape[0])), r), ("UM", r)]
    if lay.dlen(lst) == shape[0]:
        out += [lst]
        if lst[0] == "LO":
            off = lst[2]
            out += [("L", "32", off[:-1], off[1:], lst[3])]
            if len(off) > 1:
                out.append(("L", "64", off[:-1][::-1], off[1:][::-1], lst[3]))
    return out


def int_arrays(n, hows=("np", "ak", "list")):
    out = []
    vals = sorted(set([0, 1, n - 1, -1, -n]))
    vals = [x for x in vals if -n <= x < n]
    for x in vals:
        out.append(Arr([x], "np"))
    for a, b in itertools.product(vals, repeat=2):
        out.append(Arr([a, b], hows[(a + b) % len(hows)]))
    out += [Arr([], "np"), Arr([n], "np"), Arr([-n - 1], "ak"), Arr([0, n], "list")]
    if n >= 2:
        out += [Arr([0, None, 1], "ak"), Arr([None], "ak"), Arr([None, -1], "ak"), Arr([1, 1, 0, 0, 1], "np"),
                Arr([[0, 1], [1, 0]], "np"), Arr([[0], [n - 1]], "np"), Arr([1, 0, 0], "ak32"),
                Arr([[[0, 1], [1, 1]], [[0, -1], [n - 1, 0]]], "np"), Arr([[[0, 1, 1]], [[1, 0, n - 1]]], "npF"), Arr([[0, 1, 1], [1, n - 1, 0]], "npF")]
    return out


def masks(n):
    if n == 0:
        return [Arr([True], "np")]
    out = []
    if n <= 4:
        out += [Arr([bool(x) for x in c], "np") for c in itertools.product((0, 1), repeat=n)]
    else:
        for c in itertools.product((0, 1), repeat=3):
            out.append(Arr([bool(c[i % 3]) for i in range(n)], "np"))
    out += [Arr([True] * n, "ak"), Arr([i % 2 == 0 for i in range(n)], "list")]
    out += [Arr([True] * (n + 1), "np"), Arr([True] * n + [False], "ak")]
    if n > 1:
        out += [Arr([True] * (n - 1), "np"), Arr([None] + [True] * (n - 1), "ak"), Arr([False, None] + [True] * (n - 2), "ak")]
    return out


def akmask(a):
    """1-d mask as the integer positions it selects (missing stays missing)"""
    return Arr([None if x is None else i for i, x in enumerate(a.data) if x is None or x], "m")


class Check:
    pid = "C03"
    rule = ("transition = one advanced slice applied to one layout, compared with NumPy (regular data) and with element-wise "
            "selection on the decoded lists (any data), including whether it must fail; non-trivial = distinct result")
    assumptions = ["NumPy indexing is the oracle for regular data", "reference selection semantics in checks/c03.py",
                   "advanced indexes separated by a range after a scalar are not compared (placement of the dimension is a documented NumPy quirk)"]

    def bounds(self, tier):
        return {"layout_depth": 2 if tier == "quick" else 3, "array_length": "<=5", "jagged_rows": 3}

    def units(self, tier):
        out = []
        for sh in [(4,), (2, 3), (3, 2), (2, 2, 2), (2, 0), (0, 2), (1, 3), (3, 1, 2)]:
            for d in shaped(sh):
                out.append(("reg", sh, d, tier))
        sp = gen.node_space(tier) + gen.longs()
        lv = gen.layouts(2, gen.leaves(6, True), [True, tier == "thorough"])
        sp += lv[0] + lv[1] + lv[2]
        if tier == "thorough":
            sp += gen.layouts(3, gen.leaves(6), [False, False, False])[3]
        out += [("any", sp[i:i + 12], None, tier) for i in range(0, len(sp), 12)]
        out.append(("how", None, None, tier))
        jl = jag_layouts(tier)
        out += [("jag", jl[i:i + 2], None, tier) for i in range(0, len(jl), 2)]
        return out

    def run_unit(self, unit, rec):
        kind = unit[0]
        if kind == "how":
            return represented(rec, unit[3])
        if kind == "reg":
            regular(rec, unit[1], unit[2], unit[3])
        elif kind == "any":
            for d in unit[1]:
                anylay(rec, d, unit[3])
        else:
            for d in unit[1]:
                jagged(rec, d, unit[3])


def regular(rec, sh, d, tier):
    x = ak.Array(mk(d))
    base = np.arange(int(np.prod(sh))).reshape(sh)
    v, t = decode(x.layout), mtype(x.layout)
    ref = np.array(v, dtype=np.int64).reshape(sh)
    rec.state(repr(d))
    per = []
    for k, n in enumerate(sh):
        A = int_arrays(n)
        per.append(A)
    few = [S(None), S(1, None), S(None, None, -1), 0, -1]
    tuples = [(a,) for a in per[0]] + [(m,) for m in masks(sh[0])]
    if len(sh) >= 2:
        tuples += [(a, f) for a in per[0] for f in few] + [(f, a) for f in few for a in per[1]]
        tuples += [(a, b) for a in per[0] for b in per[1] if not (None in a.data and None in b.data)]
        tuples += [(a, f) for a in masks(sh[0]) for f in few] + [(f, a) for f in few for a in masks(sh[1])]
        tuples += [(Ellipsis, a) for a in per[1]] if len(sh) == 2 else []
        if sh[0] and sh[1]:
            m2 = [Arr([[bool((c >> (i * sh[1] + j)) & 1) for j in range(sh[1])] for i in range(sh[0])], "np")
                  for c in range(1 << min(6, sh[0] * sh[1]))]
            tuples += [(m,) for m in m2]
    if len(sh) >= 3:
        tuples += [(a, f, g) for a in per[0][:8] for f in few for g in few]
        tuples += [(f, a, g) for a in per[1][:8] for f in few for g in few]
        tuples += [(f, g, a) for a in per[2][:8] for f in few for g in few]
        tuples += [(f, a, b) for f in few for a in per[1][:9] for b in per[2][:9]]
        tuples += [(a, b, f) for f in few for a in per[0][:9] for b in per[1][:9]]
        tuples += [(a, b, c) for a in per[0][:6] for b in per[1][:6] for c in per[2][:6]]
        tuples += [(a, f, b) for f in few for a in per[0][:7] for b in per[2][:7]]
    for s in tuples:
        if not rec.begin((d, s)):
            continue
        rec.step()
        miss = any(isinstance(i, Arr) and None in i.data for i in s)
        if miss:
            if len(s) > 1:
                rec.note("undetermined")
                continue
            if has_bool(s[0].data):
                check(rec, x, s, lambda: [None if e is None else r for e, r in zip(s[0].data, v) if e is None or e])
            else:
                check(rec, x, s, lambda: model(v, t, s))
            continue
        # scalar then range then array: placement quirk
        kinds = ["a" if isinstance(i, Arr) else "i" if isinstance(i, int) else "s" for i in s]
        if "a" in kinds:
            adv = [i for i, k in enumerate(kinds) if k in "ai"]
            if adv[-1] - adv[0] + 1 != len(adv) and kinds[adv[0]] == "i":
                rec.note("undetermined")
                continue

        def oracle():
            try:
                r = ref[tuple(np.array(i.data, dtype=bool if has_bool(i.data) else np.int64) if isinstance(i, Arr) else i for i in s)]
                if r.size == 0 and not any(isinstance(i, Arr) and has_bool(i.data) for i in s):
                    return model(v, t, s)   # NumPy does not check bounds of an empty selection
                return r.tolist()
            except IndexError as e:
                raise Bad(str(e))
        if base.size == 0 or any(isinstance(i, Arr) and not i.data for i in s):
            if not any(isinstance(i, Arr) and has_bool(i.data) for i in s):
                check(rec, x, s, lambda: model(v, t, s))
            continue
        if any(isinstance(i, Arr) and has_bool(i.data) and len(i.data) != sh[k] for k, i in enumerate(s)):
            k, m = [(k, i) for k, i in enumerate(s) if isinstance(i, Arr) and has_bool(i.data)][0]
            if not any(j >= sh[k] for j, b in enumerate(m.data) if b) or (k and not ref[s[0]].size):
                rec.note("undetermined")
                continue
        if len({np.shape(i.data) for i in s if isinstance(i, Arr)}) > 1:
            try:
                bcast([i for i in s if isinstance(i, Arr)])
            except Skip:
                rec.note("undetermined")
                continue
            except Bad:
                pass
        check(rec, x, s, oracle)


def badreg(t, s):
    """an index exceeds a regular dimension, even though nothing may be selected there"""
    i = [k for k, y in enumerate(s) if y is Ellipsis]
    if i:
        n = 1 + max(slicing.depths(t)) - (len(s) - 1)
        s = s[:i[0]] + (S(None),) * n + s[i[0] + 1:]
    opts = []
    for y in s[1:]:
        if isinstance(y, Arr):
            flat = [q for q in np.array(y.data, dtype=object).ravel() if q is not None]
            if has_bool(y.data):
                flat = [k for k, q in enumerate(y.data) if q]
            opts.append([int(min(flat)), int(max(flat))] if flat else [S(None)])
        else:
            opts.append([y])
    return any(slicing.regbad(t, c) for c in itertools.product(*opts))


def check(rec, x, s, oracle, mustfail=True):
    real = tuple(i.real() if isinstance(i, Arr) else i for i in s)
    try:
        want, bad = oracle(), None
    except Bad as e:
        bad = e
    except Skip:
        rec.note("undetermined")
        return
    try:
        got = decode(x[real if len(real) != 1 else real[0]])
    except lay.Undecodable as err:
        rec.fail("result is not a valid layout: %s" % err)
        return
    except RuntimeError as err:
        if "FIXME" in str(err):
            rec.note("unimplemented")
            return
        raise
    except ERR as err:
        if "separated by basic indexes is not permitted" in str(err):
            rec.note("unimplemented")
            return
        if bad is None and "index out of range" in str(err) and badreg(mtype(x), s):
            rec.note("undetermined")
            return
        if bad is None:
            rec.fail("raised %s: %s\nexpected %r" % (type(err).__name__, str(err).split("\n")[0], want))
        else:
            rec.outcome("error")
        return
    if bad is not None:
        rec.fail("no error (%s); got %r" % (bad, got))
        return
    rec.outcome(repr(got))
    if not same(got, want):
        rec.fail("got %r\nexpected %r" % (got, want))


def anylay(rec, d, tier):
    x = ak.Array(mk(d))
    v, t = decode(x.layout), mtype(x.layout)
    n = len(v)
    rec.state(repr(d))
    for a in int_arrays(n):
        if rec.begin((d, (a,))):
            rec.step()
            check(rec, x, (a,), lambda: model(v, t, (a,)))
    for m in masks(n):
        if rec.begin((d, (m,))):
            rec.step()

            def oracle():
                if len(m.data) != n:
                    # a mask of the wrong length may be rejected; it must not select outside the array
                    if any(i >= n for i, b in enumerate(m.data) if b):
                        raise Bad("mask length")
                    raise Skip("mask of the wrong length selecting only existing elements")
                return model(v, t, (akmask(m),)) if any(m.data) or None in m.data else []
            check(rec, x, (m,), oracle)
    dep = slicing.depths(t)
    if min(dep) >= 1 and not slicing.has(t, ("str", "bytes", "unk", "uni")):
        A0 = [Arr([0, n - 1], "np"), Arr([n - 1], "ak"), Arr([0, 0], "np")] if n else [Arr([], "np")]
        A1 = [Arr([0], "np"), Arr([-1, 0], "np"), Arr([], "np"), Arr([1], "np"), Arr([0, None], "ak")]
        few = [S(None), S(1, None), S(None, None, -1), 0, -1, S(0, 1)]
        for s in ([(a, f) for a in A0 for f in few] + [(f, a) for f in few for a in A1] + [(a, b) for a in A0 for b in A1]):
            if rec.begin((d, s)):
                rec.step()
                if has_none_level(t) and isinstance(s[1], Arr):
                    rec.note("undetermined")
                    continue
                if any(isinstance(y, Arr) and None in y.data for y in s) and len(s) > 1:
                    if not isinstance(s[0], slice):
                        rec.note("undetermined")
                        continue
                check(rec, x, s, lambda: model(v, t, s))


def has_none_level(t):
    return False


# ---------------------------------------------------------------- jagged space

ROWS = ([], [0], [0, 0], [-1], [1, 0], [0, 1, 2], [3], [None], [0, None], None)


def jag_layouts(tier):
    N = ("N", "i8", tuple(range(10, 18)))
    out = [("LO", "64", (0, 3, 3, 5), N), ("LO", "32", (1, 3, 4, 7), N), ("L", "64", (4, 0, 2), (6, 3, 2), N),
           ("L", "U32", (3, 3, 0), (5, 4, 1, 9), N), ("R", 2, 0, ("N", "i8", tuple(range(6)))), ("N2", "i8", (3, 2), tuple(range(6))),
           ("N2s", "i8", (3, 2), tuple(range(6)), "F"),
           ("I", "64", (2, 0, 1), ("LO", "64", (0, 3, 3, 5), N)),
           ("LO", "64", (0, 3, 3, 5), ("I", "64", (7, 6, 5, 4, 3), N)),
           ("LO", "64", (0, 3, 3, 5), ("IO", "64", (7, -1, 5, -1, 3), N)),
           ("LO", "64", (0, 3, 3, 5), ("BM", (1, 0, 1, 0, 1), True, N)),
           ("LO", "64", (0, 3, 3, 5), ("bM", (1, 0, 1, 0, 1), True, 5, True, N)),
           ("LO", "64", (0, 3, 3, 5), ("UM", N)),
           ("LO", "64", (0, 3, 3, 5), ("D", ("x", "y"), (N, N), 8)),
           ("D", ("x", "y"), (("LO", "64", (0, 3, 3, 5), N), ("L", "64", (4, 0, 2), (7, 0, 4), N)), 3),
           ("LO", "64", (0, 3, 3, 5), ("LO", "64", (0, 2, 2, 3, 5, 8), N)),
           ("LO", "64", (0, 3, 3, 5), ("R", 1, 0, N)),
           ("LO", "64", (0, 3, 3, 5), ("S", ("a", "bb", "", "d", "ee"))),
           ("IO", "64", (0, -1, 1), ("LO", "64", (0, 2, 3), N)),
           ("BM", (1, 0, 1), True, ("LO", "64", (0, 2, 3, 5), N)),
           ("bM", (0, 1, 0), False, 3, False, ("L", "64", (4, 0, 2), (6, 3, 2), N)),
           ("UM", ("LO", "64", (0, 3, 3, 5), N)),
           ("V", ("LO", "64", (0, 3, 3, 5), N), True)]
    return out


def jagged(rec, d, tier):
    x = ak.Array(mk(d))
    v, t = decode(x.layout), mtype(x.layout)
    rec.state(repr(d))
    rows = ROWS
    for combo in itertools.product(rows, repeat=len(v)):
        if None in combo and d[0] not in ("LO", "L"):
            continue
        if not rec.begin((d, combo)):
            continue
        j = list(combo)
        if all(not r for r in j):
            continue
        if slicing.has(t, ("opt",)) and d[0] in ("IO", "BM", "bM", "UM") and any(r is None or (r and None in r) for r in j):
            rec.note("undetermined")
            continue
        rec.step()
        check(rec, x, (Arr(j, "ak"),), lambda: jmodel(v, t, j))
    # same slicers in other layouts
    for off, cont in (((0, 2, 3, 3), (0, 0, -1)), ((1, 2, 2, 4), (9, 0, 0, 1))):
        for dd in (("LO", "32", off, ("N", "i8", cont)), ("L", "64", off[:-1], off[1:], ("N", "i4", cont)),
                   ("I", "64", (0, 1, 2), ("LO", "64", off, ("N", "i8", cont))),
                   ("LO", "U32", off, ("I", "64", tuple(range(len(cont))), ("N", "i2", cont))),
                   ("LO", "64", off, ("BM", tuple(i != 1 for i in range(len(cont))), True, ("N", "i8", cont))),
                   ("LO", "64", off, ("bM", tuple(int(i != 0) for i in range(len(cont))), True, len(cont), True, ("N", "i8", cont))),
                   ("L", "64", off[:-1][::-1], off[1:][::-1], ("N", "i8", cont))):
            if len(v) != 3 or d[0] in ("IO", "BM", "bM"):
                continue
            a = Arr(decode(mk(dd)), "akdesc")
            a.desc = dd
            if not rec.begin((d, "slicer", dd)):
                continue
            rec.step()
            check(rec, x, (a,), lambda: jmodel(v, t, a.data))
    # jagged masks of every fitting content, and a misfit
    lens = [len(r) if isinstance(r, list) else 0 for r in v] if not (v and isinstance(v[0], dict)) else None
    if lens is not None and all(isinstance(r, list) for r in v) and sum(lens) <= 6:
        for bits in itertools.product((False, True), repeat=sum(lens)):
            it = iter(bits)
            j = [[next(it) for _ in range(k)] for k in lens]
            for how in ("plain", "opt"):
                if how == "opt":
                    if not any(j):
                        continue
                    j = [[None if (not b and k == 0) else b for k, b in enumerate(r)] for r in j]
                if not rec.begin((d, "mask", how, j)):
                    continue
                rec.step()
                if not any(b is not None for r in j for b in r):
                    continue
                check(rec, x, (Arr(j, "ak"),), lambda: jmodel(v, t, j))
        j = [[True] * k for k in lens]
        j[0] = j[0] + [True]
        if rec.begin((d, "misfit")):
            rec.step()
            check(rec, x, (Arr(j, "ak"),), lambda: jmodel(v, t, j))
    if t[0] in ("list",) and t[1][0] in ("list", "reg") and all(isinstance(r, list) for r in v):
        # depth-3 jagged
        inner = ([], [0], [0, 0])
        n3 = [len(r) for r in v]
        for combo in itertools.product(inner, repeat=min(sum(n3), 5)):
            it = iter(combo + ([],) * 5)
            j = [[list(next(it)) for _ in range(k)] for k in n3]
            if not rec.begin((d, "j3", j)):
                continue
            if not any(e for r in j for e in r):
                continue
            rec.step()
            check(rec, x, (Arr(j, "ak"),), lambda: jmodel(v, t, j))
