"""C20: every operation of the catalogue on every partitioning of every layout, against the same operation on the array in one piece."""
import itertools
import re

import awkward as ak
import numpy as np
from checks.c22 import PAIR, three, trees
from vlib import gen, lay, ops
from vlib.lay import L, decode, mk

# what these return describes the memory, or is a layout method that partitioned arrays do not have
NOT = {"to_buffers", "form", "fields", "virtual", "repartition"}


def cutsof(n, full):
    """ways to cut n elements: interior boundaries as a tuple, with repeated ones for empty partitions"""
    out = []
    if full and n <= 4:
        for k in range(0, n):
            out += list(itertools.combinations(range(1, n), k))
    else:
        out += [(k,) for k in range(1, n)] + [tuple(range(1, n))]
    out += [(0,), (n,)]
    if n >= 2:
        out += [(1, 1), (0, n - 1, n)]
    seen = set()
    return [c for c in out if not (c in seen or seen.add(c))]


def cut(x, bounds):
    e = (0,) + bounds + (len(x),)
    return ak.partition.IrregularlyPartitionedArray([x[i:j] for i, j in zip(e[:-1], e[1:])])


def simple(r):
    """a comparable reading of any result"""
    if isinstance(r, (ak.Array, ak.Record)):
        r = r.layout
    if isinstance(r, (L.Content, L.Record, ak.partition.PartitionedArray)):
        return decode(r)
    if isinstance(r, tuple):
        return ("tuple",) + tuple(simple(x) for x in r)
    if isinstance(r, list):
        return [simple(x) for x in r]
    if isinstance(r, np.ma.MaskedArray):
        return ("masked", str(r.dtype), r.tolist(), np.ma.getmaskarray(r).tolist())
    if isinstance(r, np.ndarray):
        return (str(r.dtype), r.shape, lay.npdecode(r) if r.dtype.names is None else r.tolist())
    if isinstance(r, np.generic):
        return lay.scalar(r)
    if type(r).__name__ == "Tensor":
        return simple(ak.from_numpy(r.to_numpy()))
    if hasattr(r, "to_pylist"):
        return r.to_pylist()
    if type(r).__module__.startswith("pandas"):
        return (list(map(str, r.columns)), r.index.tolist(), r.values.tolist())
    return r


def typeof(r):
    if isinstance(r, ak.Array):
        try:
            t = ak.type(r)
        except (TypeError, ValueError): # (only the values of the parts can tell whether anything is missing)
            return None
        s = str(t.type if isinstance(t, ak.types.ArrayType) else t)
        # merging regular lists gives variable-length lists, and an option without missing values may be dropped
        return re.sub(r"\?|option\[|\]|\[", "", re.sub(r"\b\d+ \* ", "var * ", s))
    return None


def hasoption(d):
    return any(k in repr(d) for k in ("'IO'", "'BM'", "'bM'", "'UM'"))


# the order of the values of different fields or alternatives is left open, and so is the position in it
ORDERED = {"argmin axis=None", "argmax axis=None", "flatten all", "where one"}
SHAPED = ("'D'", "'T'", "'U'")


def exempt(name, d):
    if name in ORDERED and any(k in repr(d) for k in SHAPED):
        return True
    if "'S'" in repr(d) and name.startswith(("pad_none", "flatten axis", "sort axis", "argsort axis", "var", "std", "covar", "corr")):
        return True                     # (reaches into the characters of the strings)
    if name in ("where one", "to_numpy", "to_numpy no missing", "np.asarray", "atleast_1d") and (hasoption(d) or any(k in repr(d) for k in ("'U'", "('R', 0"))):
        return True                     # (the dtype of nothing, or of a mixture, depends on which parts are empty)
    if name == "size" and any(k in repr(d) for k in ("'R'", "'N2")):
        return True                     # (regularity)
    if "arrow" in name:
        return any(k in repr(d) for k in ("'N2", "'U'", "'I'", "'IO'")) or len(mk(d)) == 0
    return name == "unflatten"          # documented: the counts have to fit in each partition


class Check:
    pid = "C20"
    rule = "transition = one operation on one partitioning, compared with the operation on the whole array; state = distinct (array, partitioning); non-trivial = distinct result"
    assumptions = ["the operation on the array in one piece is the oracle (judged by the other properties); where it raises, the partitioned one may answer",
                   "not judged: size-1 regular lists to be stretched over an array cut elsewhere; operations that reach into the characters of strings; unflatten; float indexes; the NumPy dtype of unions",
                   "memory layout, option types without missing values, regularity of list types, buffer names and nbytes are not compared"]

    def units(self, tier):
        self.tier = tier
        return [("one", p) for p in range(64)] + [("two", p) for p in range(24)] + [("parts", p) for p in range(8)]

    def bounds(self, tier):
        return "%d layouts x %d operations x all single cuts, all-singleton and empty partitions%s; %d^2 pairs x %d operations x all cuts of each; all repartitionings of lengths to 7" % (
            len(self.trees()), len(ops.catalogue()), "" if tier == "quick" else " and all compositions to length 4", len(three()), len(PAIR))

    def trees(self):
        ts = [d for d in trees(self.tier) if d[0] != "V" or True]
        return ts[::8] if self.tier == "quick" else ts

    def run_unit(self, unit, rec):
        np.seterr(all="ignore")
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def whole(self, call):
        try:
            r = call()
            return ("ok", simple(r), typeof(r))
        except ops.ERR as e:
            return ("err", type(e).__name__ + ": " + str(e).split("\n")[0], None)

    def judge(self, rec, want, call, typed=True):
        rec.step()
        if want[0] == "err":
            try:
                simple(call())
                rec.note("answers where the whole array does not")
            except ops.ERR:
                rec.outcome("raise")
            except lay.Undecodable as e:
                rec.fail("undecodable %s" % e)
            return
        try:
            r = call()
            got = simple(r)
        except ops.ERR as e:
            rec.fail("raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
            return
        except lay.Undecodable as e:
            rec.fail("undecodable %s" % e)
            return
        if not (lay.same(got, want[1]) or lay.close(got, want[1])):
            rec.fail("got %r\nexpected %r" % (got, want[1]))
        elif want[2] is not None and "union" not in want[2] and typed and want[1] and typeof(r) not in (None, want[2]):
            rec.fail("type %s\nexpected %s" % (typeof(r), want[2]))
        rec.outcome(repr(got))

    def u_one(self, rec, part):
        cat = [o for o in ops.catalogue() if o[1] != "layout" and o[0] not in NOT]
        for i, d in enumerate(self.trees()):
            if i % 64 != part:
                continue
            x = mk(d)
            a = ak.Array(x)
            wants = {}
            typed = not any(k in repr(d) for k in ("'R'", "'N2", "'U'"))
            for c in cutsof(len(x), self.tier != "quick"):
                p = ak.Array(cut(x, c))
                rec.state((repr(d), c))
                for name, group, mkargs, call in cat:
                    if exempt(name, d) or not rec.begin({"array": d, "cuts": c, "operation": name}):
                        continue
                    try:
                        args = mkargs(a)
                    except ops.ERR:
                        continue
                    if name not in wants:
                        wants[name] = self.whole(lambda: call(a, *args))
                    self.judge(rec, wants[name], lambda: call(p, *args), typed)

    def u_two(self, rec, part):
        ds = three()
        if self.tier == "quick":
            ds = ds[:8] + ds[8::4]
        cs = [(1,), (2,), (1, 2), (0,)]
        for i, (d, e) in enumerate(itertools.product(ds, ds)):
            if i % 24 != part:
                continue
            x, y = mk(d), mk(e)
            a, b = ak.Array(x), ak.Array(y)
            for name, call in PAIR:
                if name in ("merge", "append", "partitioned", "unflatten") or (name == "getitem" and "'f8'" in repr(e)):
                    continue
                if name == "concatenate" and "'N2" in repr((d, e)) and "'?'" in repr((d, e)):      # (bools: two-dimensional NumPy arrays are merged later)
                    continue
                want = self.whole(lambda: call(a, b))
                for c1, c2 in itertools.product([None] + cs, repeat=2):
                    if c1 is c2 is None or not rec.begin({"arrays": (d, e), "cuts": (c1, c2), "operation": name}):
                        continue
                    if c1 and c2 and c1 != c2 and "('R', 1" in repr((d, e)):
                        continue        # (repartitioning merges regular lists into variable-length ones, which do not stretch)
                    if (c1 and len(x) < 3) or (c2 and len(y) < 3):
                        continue
                    rec.state((repr(d), repr(e), c1, c2))
                    p = ak.Array(cut(x, c1)) if c1 else a
                    q = ak.Array(cut(y, c2)) if c2 else b
                    self.judge(rec, want, lambda: call(p, q))

    def u_parts(self, rec, part):
        """repartitioning and building: every cut to every cut"""
        k = -1
        for n in range(0, 6 if self.tier == "quick" else 8):
            x = mk(("LO", "64", tuple(range(2, n + 3)), ("N", "i8", tuple(range(n + 4)))))
            vals = decode(x)
            cuts = [tuple(c) for m in range(0, 4) for c in itertools.combinations_with_replacement(range(0, n + 1), m)]
            for c in cuts:
                k += 1
                if k % 8 != part:
                    continue
                p = ak.Array(cut(x, c))
                rec.state((n, c))
                for size in range(1, n + 2):
                    if rec.begin({"n": n, "cuts": c, "repartition": size}):
                        rec.step()
                        r = ak.repartition(p, size)
                        want = [size] * (n // size) + ([n % size] if n % size else [])
                        got = [len(q) for q in r.layout.partitions] if ak.partitions(r) is not None else [n]
                        if decode(r.layout) != vals:
                            rec.fail("got %r" % (decode(r.layout),))
                        elif n and (got != want or ak.partitions(r) != want):
                            rec.fail("partitions %r, expected %r" % (got, want))
                        rec.outcome((tuple(got), n))
                for c2 in cuts:
                    e = (0,) + c2 + (n,)
                    sizes = [j - i for i, j in zip(e[:-1], e[1:])]
                    if rec.begin({"n": n, "cuts": c, "repartition": sizes}):
                        rec.step()
                        r = ak.repartition(p, sizes)
                        if decode(r.layout) != vals or [k for k in ak.partitions(r) if k] != [k for k in sizes if k]:
                            rec.fail("got %r in %r" % (decode(r.layout), ak.partitions(r)))
                        rec.outcome((tuple(sizes), n))
                if rec.begin({"n": n, "cuts": c, "repartition": None}):
                    rec.step()
                    r = ak.repartition(p, None)
                    if decode(r.layout) != vals or ak.partitions(r) is not None:
                        rec.fail("got %r" % (decode(r.layout),))
                if rec.begin({"n": n, "cuts": c, "partitioned": 1}):
                    rec.step()
                    r = ak.partitioned([ak.Array(q) for q in p.layout.partitions])
                    if decode(r.layout) != vals or list(ak.partitions(r)) != list(ak.partitions(p)):
                        rec.fail("got %r" % (decode(r.layout),))
                    if len(p) != n:
                        rec.fail("numpartitions %r, length %r" % (p.layout.numpartitions, len(p)))
                for i in range(-n - 1, n + 1):
                    if rec.begin({"n": n, "cuts": c, "at": i}):
                        rec.step()
                        try:
                            got = decode(p[i].layout)
                        except (ValueError, IndexError):
                            got = "error"
                        want = vals[i] if -n <= i < n else "error"
                        if got != want:
                            rec.fail("got %r expected %r" % (got, want))
                for lo, hi, st in itertools.product((None,) + tuple(range(-n - 1, n + 2)), (None,) + tuple(range(-n - 1, n + 2)), (None, 2, -1, -2, 3)):
                    if self.tier == "quick" and n > 4:
                        continue
                    if rec.begin({"n": n, "cuts": c, "slice": (lo, hi, st)}):
                        rec.step()
                        got = decode(p[lo:hi:st].layout)
                        if got != vals[lo:hi:st]:
                            rec.fail("got %r expected %r" % (got, vals[lo:hi:st]))
