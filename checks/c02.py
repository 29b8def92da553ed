"""C02: basic slicing (integers, ranges, newaxis, ellipsis, fields) has list/NumPy semantics on every layout."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay, slicing
from vlib.lay import decode, mk, mtype, same

S = slice
ONE = ([0, 1, 2, -1, -2, 5]
       + [S(a, b, c) for a in (None, 0, 1, -1, -3, 7) for b in (None, 0, 2, -1, 9) for c in (None, 2, -1)]
       + [S(5, 1, -2), S(None, None, -2), S(1, None, 3), S(0, 0, 0), None, Ellipsis])
FEW = [0, 1, -1, S(None), S(1, None), S(None, None, -1), S(None, None, 2), S(0, 1), None, Ellipsis]
FIELD = ["x", "y", "0", "1", ["x"], ["y", "x"], ["0", "1"], "nope"]


def tuples(t, tier):
    ds = max(slicing.depths(t)) + 1
    out = [(x,) for x in ONE]
    out += list(itertools.product(FEW, FEW))
    if ds >= 3:
        out += [x for x in itertools.product(FEW[:8], repeat=3)]
        out += [(a, b, c) for a in (S(None), 0) for b in (None, Ellipsis) for c in FEW[:8]]
    if hasfields(t):
        out += [(f,) for f in FIELD]
        out += [(f, x) for f in FIELD[:6] for x in FEW[:8]] + [(x, f) for f in FIELD[:6] for x in FEW[:8]]
        out += [(x, "y", y) for x in FEW[:4] for y in FEW[:6]]
        out += [("y", "x"), ("x", "y"), (["x", "y"], "x"), ("1", "0")]
    return out


def hasfields(t):
    k = t[0]
    if k == "rec":
        return True
    if k in ("list", "reg", "opt"):
        return hasfields(t[-1])
    if k == "uni":
        return any(hasfields(x) for x in t[1])
    return False


class Check:
    pid = "C02"
    rule = ("transition = one slice expression applied to one layout of the alphabet; compared with list slicing of the "
            "decoded value (and the error/no-error outcome); depth-2 histories slice the (unusual) layout a first slice "
            "produced; non-trivial = distinct resulting value")
    assumptions = ["reference semantics in vlib/slicing.py",
                   "results the documentation leaves open (positional slice into a union, newaxis under None) are not compared"]

    def bounds(self, tier):
        return {"layout_depth": 3, "slice_alphabet_1": len(ONE), "slice_alphabet_n": len(FEW), "tuple_length": 3,
                "history_depth": 2, "ranges": "every start and stop in -6..6, +-1000 or absent, with 9 steps, at every dimension of %d layouts" % len(RLAY)}

    def space(self, tier):
        out = gen.node_space(tier) + gen.longs()
        lv = gen.layouts(2, gen.leaves(6, True), [True, True] if tier == "thorough" else [True, False])
        out += lv[0] + lv[1] + lv[2]
        out += gen.layouts(2, gen.leaves(6), [True, True])[2]
        out += gen.layouts(3, gen.leaves(6), [True, True, False] if tier == "thorough" else [False, False, False])[3]
        for d in gen.layouts(1, gen.leaves(6), [True])[1]:
            out += [("V", d, True), ("LO", "64", (0, min(1, dl(d)), dl(d)), ("V", d, True)), ("PART", (d, d))]
        out += [("N2", "i8", (2, 3), tuple(range(6))), ("N2s", "i8", (3, 2), tuple(range(6)), "F"),
                ("N2s", "i8", (3, 2), tuple(range(6)), "revlast"), ("N2s", "i8", (3, 2), tuple(range(6)), "step2"),
                ("N2", "i8", (2, 2, 2), tuple(range(8))), ("N2", "i8", (2, 0), ()), ("N2", "i8", (0, 2), ()),
                ("N2", "i8", (1, 2, 0), ())]
        seen, res = set(), []
        for d in out:
            if d not in seen:
                seen.add(d)
                res.append(d)
        return res

    def units(self, tier):
        sp = self.space(tier)
        self.tier = tier
        return [(tier, sp[i:i + 12]) for i in range(0, len(sp), 12)] + [("ranges", i) for i in range(len(RLAY))]

    def run_unit(self, unit, rec):
        if unit[0] == "ranges":
            return self.ranges(RLAY[unit[1]], rec)
        tier, descs = unit
        for d in descs:
            x = mk(d)
            v, t = decode(x), mtype(x)
            rec.state(repr(d))
            arr = ak.Array(x)
            tt = tuples(t, tier)
            for s in tt:
                if rec.begin((d, s)):
                    one(rec, arr, v, t, s)
            # histories of two slices: the first one leaves offsets, carries and views behind
            for s1 in FIRST:
                try:
                    mid = arr[s1]
                    mv = slicing.getitem(v, t, s1)
                except Exception:
                    continue
                if not isinstance(mid, ak.Array):
                    continue
                mt = mtype(mid)
                if not same(decode(mid), mv):
                    continue          # already reported above
                rec.state((repr(d), repr(s1)))
                for s in SECOND:
                    if rec.begin((d, s1, s)):
                        one(rec, mid, mv, mt, s)


    def ranges(self, d, rec):
        """every start:stop:step up to and beyond both ends, at every dimension"""
        x = mk(d)
        v, t = decode(x), mtype(x)
        arr = ak.Array(x)
        rec.state(repr(d))
        lim = [None] + list(range(-6, 7)) + [-1000, 1000]
        depth = max(slicing.depths(t)) + 1
        for a in lim:
            for b in lim:
                for c in (None, 1, 2, 3, 7, -1, -2, -3, -7):
                    for pre in ((), (S(None),), (S(None), S(None)), (0,), (S(None, None, -1),)):
                        if len(pre) < depth:
                            s = pre + (S(a, b, c),)
                            if rec.begin((d, s)):
                                one(rec, arr, v, t, s)


N6 = ("N", "i8", (0, 1, 2, 3, 4, 5))
RLAY = ([("LO", k, (0, 0, 1, 3, 6), N6) for k in ("64", "32", "U32")] + [("L", k, (3, 2, 0, 1), (6, 2, 1, 3), N6) for k in ("64", "32", "U32")]
        + [("LO", "64", (1, 4, 6), N6)] + [("R", n, 2, N6) for n in range(4)] + [("N2", "i8", (2, 3), tuple(range(6))), ("N2s", "i8", (2, 3), tuple(range(6)), "F")]
        + [("IO", "64", (1, -1, 0, 2), ("LO", "64", (0, 1, 3, 6), N6)), ("I", "64", (1, 0, 2, 1), ("LO", "64", (0, 1, 3, 6), N6)),
           ("LO", "64", (0, 1, 3, 4), ("IO", "64", (1, -1, 0, 2), N6)), ("LO", "64", (0, 1, 3), ("LO", "64", (0, 1, 3, 6), N6)),
           ("LO", "64", (0, 1, 3), ("R", 2, 0, N6)), ("R", 1, 0, ("LO", "64", (0, 1, 3, 6), N6)), ("D", ("x", "y"), (("LO", "64", (0, 1, 3, 6), N6), ("LO", "64", (0, 3, 3, 4), N6)), 3),
           N6, ("Ns", "i8", tuple(range(5)), "rev"), ("S", ("a", "", "bc", "d")), ("N2", "i8", (2, 2, 2), tuple(range(8)))])


def dl(d):
    return lay.dlen(d)


FIRST = [(S(1, None),), (S(None, None, -1),), (S(None), S(1, None)), (S(None, None, 2), S(None, None, -1)), (-1,), ("y",)]
SECOND = [(0,), (-1,), (S(None, 1),), (S(None, None, -1),), (S(None), 0), (S(None), -1), (S(None), S(None, None, 2)),
          (0, S(1, None)), (S(1, None), 0), ("y",), (Ellipsis, 0)]


def one(rec, arr, v, t, s):
    rec.step()
    try:
        want = slicing.getitem(v, t, s)
        bad = None
    except slicing.Bad as e:
        bad = e
    except slicing.Skip:
        rec.note("undetermined")
        try:
            decode(arr[s])
        except (ValueError, IndexError, TypeError):
            pass
        return
    try:
        res = arr[s if len(s) != 1 else s[0]]
        got = decode(res)
    except lay.Undecodable as err:
        rec.fail("result is not a valid layout: %s" % err)
        return
    except (ValueError, IndexError, TypeError, KeyError) as err:
        if bad is None:
            rec.fail("raised %s: %s\nexpected %r" % (type(err).__name__, str(err).split("\n")[0], want))
        else:
            rec.outcome("error")
        return
    if bad is not None:
        rec.fail("no error (%s); got %r" % (bad, got))
        return
    rec.outcome(repr(got))
    if len(s) == 1 and isinstance(s[0], slice):
        rt = mtype(res)
        if rt != t:
            rec.fail("range slice changed the type: %r became %r" % (t, rt))
    if not same(got, want):
        rec.fail("got %r\nexpected %r" % (got, want))
