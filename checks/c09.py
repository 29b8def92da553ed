"""C09: concatenate (every axis), merging and where keep every selected element and its order, for all pairs and some triples of layouts."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.axis import depths, has, negkey
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import decode, mk, mtype
from checks import c10
from checks.c10 import SC, Rules, kinds, run_model, sizes


def eqv(a, b):
    """values only: numbers by value, records by field whatever the order"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return lay.loose(a, b)


def eqb(a, b):
    """as eqv, and booleans stay booleans (mergebool=False)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqb(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eqb(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqb(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return lay.loose(a, b)


def nonopt(t):
    return t[1] if t[0] == "opt" else t


def concat_rows(args):
    out = []
    for v, t in args:
        if t is SC:
            out.append(v)
        elif v is not None:
            out += list(v)
    return out


def m_concat(args, posaxis):
    if posaxis == 0:
        out = []
        for v, t in args:
            out += [v] if t is SC else v
        return out
    mx = max(max(depths(t)) for _, t in args if t is not SC) + 1
    if posaxis >= mx:
        raise Bad

    def stop(ts, level):
        if level == 0:
            return False
        if level == posaxis and all(t is SC or nonopt(t)[0] in ("list", "reg") for t in ts):
            return True
        if any(t is not SC and nonopt(t)[0] in ("str", "bytes") for t in ts):
            raise Skip           # strings are lists of characters below their own level
        if any(t is not SC and depths(t) == {0} for t in ts):
            raise Bad
        if level >= posaxis and not any(t[0] in ("uni", "rec") for t in ts):
            raise Bad
        return False
    return run_model(Rules(concat_rows, True, right=False, stop=stop), args)


def m_where(cond, a, b):
    def stop(ts, level):
        return level > 0 and ts[0][0] == "num"

    def leaf(args):
        (c, _), (x, _), (y, _) = args
        return x if c else y
    return run_model(Rules(leaf, True, stop=stop), [cond, a, b])


n3 = ("N", "i8", (1, 2, 3))
c4 = ("N", "i8", (10, 20, 30, 40))
f4 = ("N", "f8", (0.5, 1.5, 2.5, 3.5))
s4 = ("S", ("a", "", "b\u00e9", "dd"))
b4 = ("N", "?", (True, False, True, True))


def flat():
    """arrays of length 3 without lists of their own"""
    return [n3, ("Ns", "i4", (1, 2, 3), "step2"), ("N", "f4", (0.5, 1.5, -2.0)), ("N", "?", (True, False, True)), ("N", "u8", (1, 2, 3)), ("N", "c16", (1j, 2 + 0j, 3j)),
            ("N", "M8[s]", (1, 2, 3)), ("N", "m8[s]", (1, 2, 3)), ("S", ("a", "", "b\u00e9")), ("B", (b"x", b"", b"yz")), ("E",), ("N", "i8", ()),
            ("I", "64", (2, 0, 2), c4), ("I", "U32", (1, 3, 0), s4), ("IO", "64", (0, -1, 3), c4), ("IO", "32", (2, -1, 3, 0), s4), ("BM", (1, 0, 1), True, c4), ("BM", (1, 0, 1), False, b4),
            ("bM", (0, 1, 1), False, 3, True, c4), ("bM", (0, 1, 1), True, 3, False, f4), ("UM", n3),
            ("D", ("x", "y"), (c4, f4), 3), ("D", ("y", "x"), (s4, c4), 3), ("D", ("x",), (f4,), 3), ("T", (c4, s4), 3), ("T", (f4,), 3), ("T", (), 2), ("D", (), (), 3),
            ("IO", "64", (1, -1, 0), ("D", ("x", "y"), (c4, f4), 3)),
            ("U", "64", (0, 1, 0), (2, 0, 1), (c4, s4)), ("U", "32", (1, 0, 1), (2, 0, 1), (b4, c4)), ("U", "U32", (0, 2, 1), (1, 0, 3), (c4, s4, ("D", ("x",), (f4,), 3))),
            ("V", n3, True), ("V", ("IO", "64", (0, -1, 3), f4), False), ("PART", (n3, ("N", "i8", (7,)))), ("U", "64", (0, 1, 0), (2, 0, 1), (("IO", "64", (0, -1, 3), c4), s4))]


def lists():
    """arrays of three lists"""
    c6 = ("N", "i8", (10, 20, 30, 40, 50, 60))
    out = []
    for c in (c4, s4, ("N", "?", (True, False, True, False)), ("IO", "64", (3, -1, 1, 0), f4), ("D", ("x", "y"), (c4, s4), 4), ("U", "64", (0, 1, 0, 1), (3, 2, 1, 0), (c4, s4)),
              ("LO", "64", (0, 2, 2, 3, 4), f4), ("T", (b4, f4), 4), ("E",)):
        m = lay.dlen(c)
        off = (0, 2, 2, 3) if m >= 3 else (0, 0, 0, 0)
        out.append(("LO", "64", off, c))
        if m:
            out += [("LO", "U32", (1, 2, 4, 4), c), ("L", "64", (3, 0, 1), (4, 0, 3), c), ("IO", "64", (1, -1, 0), ("LO", "64", (0, 2, 3), c)), ("R", 1, 0, ("I", "64", (2, 0, 1), c) if c[0] not in ("IO",) else c)]
    out += [("R", 2, 0, c6), ("R", 0, 3, c6), ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6)), ("N2s", "i8", (3, 2), (1, 2, 3, 4, 5, 6), "F"), ("I", "64", (2, 0, 1), ("LO", "64", (0, 1, 2, 4), c4)),
            ("BM", (1, 0, 1), True, ("LO", "64", (0, 1, 2, 4), c4)), ("BM", (1, 1, 0), True, ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6))), ("bM", (1, 0, 1), True, 3, True, ("L", "32", (2, 0, 1), (4, 0, 2), s4)),
            ("UM", ("LO", "32", (0, 1, 2, 4), f4)), ("V", ("LO", "64", (0, 1, 2, 4), c4), True), ("PART", (("LO", "64", (0, 1, 2), c4), ("LO", "64", (1, 4), c4))),
            ("U", "64", (0, 1, 0), (1, 0, 0), (("LO", "64", (0, 2, 3), c4), ("LO", "64", (0, 1), s4))), ("D", ("x", "y"), (("LO", "64", (0, 2, 2, 3), c4), ("LO", "64", (1, 2, 4, 4), s4)), 3),
            ("D", ("y", "x"), (("LO", "64", (0, 1, 3, 3), s4), ("LO", "64", (0, 2, 2, 3), c4)), 3), ("N2", "i8", (3, 1, 2), (1, 2, 3, 4, 5, 6)), ("R", 1, 0, ("R", 2, 0, c6)),
            ("LO", "64", (0, 2, 3, 3), ("N2", "f8", (3, 2), (1.5, 2.5, 3.5, 4.5, 5.5, 6.5))), ("LO", "64", (0, 1, 3, 3), ("IO", "64", (1, -1, 0), ("LO", "64", (0, 2, 3), c4)))]
    return out


CONDS = [("N", "?", (True, False, True)), ("N", "i8", (0, 2, 1)), ("N", "f8", (0.0, 1.5, float("nan"))), ("Ns", "?", (True, False, True), "step2"), ("I", "64", (0, 1, 0), b4), ("IO", "64", (0, -1, 1), b4),
         ("BM", (1, 0, 1), True, b4), ("LO", "64", (0, 2, 2, 3), b4), ("L", "64", (3, 0, 1), (4, 0, 3), b4), ("R", 1, 0, ("N", "?", (True, False, True))), ("N2", "?", (3, 2), (True, False, True, True, False, False)),
         ("V", ("N", "?", (False, False, True)), True), ("PART", (("N", "?", (True,)), ("N", "?", (False, True)))), ("R", 2, 0, ("N", "i8", (0, 1, 1, 0, 2, 0)))]
DT = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "c8", "c16", "M8[s]", "M8[ns]", "M8[D]", "m8[us]", "m8[h]"]


class Check:
    pid = "C09"
    rule = "transition = one concatenate/where call compared with list concatenation or selection of the decoded inputs; non-trivial = distinct result"
    assumptions = ["numbers are compared by value (widening allowed); integers beyond a common type's precision follow NumPy's promotion",
                   "fields of merged records may take the first record's order"]

    def bounds(self, tier):
        return {"pairs": "all ordered pairs of %d flat and %d list layouts, axes 0..2 and -1, -2" % (len(flat()), len(lists())),
                "triples": "all ordered triples of 14 representatives" if tier == "quick" else "all ordered triples of 30 representatives",
                "dtypes": "all ordered pairs of %d element types with extreme values" % len(DT), "where": "%d conditions x all pairs of representatives" % len(CONDS)}

    def units(self, tier):
        n = len(flat()) + len(lists())
        out = [("pair", i) for i in range(n)] + [("tri", i) for i in range(14 if tier == "quick" else 30)] + [("dt", d) for d in DT]
        out += [("where", i, j) for i in range(len(CONDS)) for j in range(n)] + [("nodes", i) for i in range(8)]
        return out

    def run_unit(self, unit, rec):
        k = unit[0]
        fam = flat() + lists()
        if k == "pair":
            for b in fam:
                self.concat([fam[unit[1]], b], rec)
            for sc in (1.5, 7, True, "s", None):
                self.concat([fam[unit[1]], ("scalar", sc)], rec)
                self.concat([("scalar", sc), fam[unit[1]]], rec)
            self.concat([fam[unit[1]]], rec)
        elif k == "tri":
            reps = self.reps()
            for b in reps:
                for c in reps:
                    self.concat([reps[unit[1]], b, c], rec, axes=(0, 1))
        elif k == "dt":
            self.dtypes(unit[1], rec)
        elif k == "where":
            for b in ([("scalar", 1.5), ("scalar", 7)] + fam if unit[2] % 3 == 0 else self.reps()):
                self.where(CONDS[unit[1]], fam[unit[2]], b, rec)
                self.where(CONDS[unit[1]], b, fam[unit[2]], rec)
        else:
            # every small buffer content of every node type, against four partners on either side
            sp = gen.node_space() + gen.longs()
            part = [("N", "f8", (0.5, 1.5)), ("LO", "64", (1, 1, 3), c4), ("IO", "64", (1, -1), c4), ("U", "64", (0, 1), (1, 0), (c4, s4))]
            for d in sp[unit[1]::8]:
                for p in part:
                    self.concat([d, p], rec, axes=(0,), modes=((True, False),))
                    self.concat([p, d], rec, axes=(0,), modes=((True, False),))

    def reps(self):
        f, l = flat(), lists()
        r = [f[0], f[2], f[8], f[14], f[21], f[29], f[10], l[0], l[2], l[3], l[len(l) - 15], f[32], f[3], f[16]]
        return r + [x for x in f + l if x not in r][:16]

    def args(self, ds):
        xs, args = [], []
        for d in ds:
            if d[0] == "scalar":
                xs.append(d[1])
                args.append((d[1], SC))
            else:
                x = mk(d)
                xs.append(ak.Array(x))
                args.append((decode(x), mtype(x)))
        return xs, args

    def concat(self, ds, rec, axes=(0, 1, 2, -1, -2), modes=((True, False), (True, True), (False, False))):
        xs, args = self.args(ds)
        rec.state(repr(ds))
        arrs = [(v, t) for v, t in args if t is not SC]
        for axis in axes:
            for merge, mergebool in (modes if axis == 0 else modes[:1]):
                if not rec.begin(("concatenate", ds, axis, merge, mergebool)):
                    continue

                def model():
                    a = axis
                    if any(isinstance(v, str) or v is None for v, t in args if t is SC):
                        raise Skip
                    if a < 0:
                        rs = set()
                        for _, t in arrs:
                            if len(depths(t)) != 1 or has(t, "unk", "rec"):
                                raise Skip
                            rs.add(depths(t).copy().pop() + 1 + a)
                        if len(rs) != 1 or min(rs) < 0:
                            raise Bad
                        a = rs.pop()
                    if a > 0 and any(has(t, "unk") for _, t in arrs):
                        raise Skip
                    out = m_concat(args, a)
                    if a > 0:
                        ks = set().union(*[kinds(t) for _, t in arrs])
                        if 0 in set().union(*[sizes(t) for _, t in arrs]) or ks & {"str", "bytes", "uni", "rec"} and len(arrs) > 1:
                            raise Maybe(out)
                    return out
                compare(rec, lambda: ak.concatenate(xs, axis=axis, merge=merge, mergebool=mergebool), model, cmp=eqv if mergebool else eqb)

    def dtypes(self, da, rec):
        for db in DT:
            for wrap in (False, True):
                for mergebool in (False, True):
                    if not rec.begin(("dtypes", da, db, wrap, mergebool)):
                        continue
                    rec.state((da, db, wrap))
                    mks = lambda dt: ("N", dt, (0, -5, 864, 12345) if dt[0] in "mM" else gen.dtype_values(dt))
                    a, b = (mks(d) for d in (da, db))
                    x, y = mk(a), mk(b)
                    if wrap:
                        x, y = (ak.layout.ListOffsetArray64(ak.layout.Index64(np.array([0, 1, 4])), z) for z in (x, y))

                    def model():
                        va, vb = lay.nparr(mk(a)), lay.nparr(mk(b))
                        isb = [d == "?" for d in (da, db)]
                        dates = [d[0] in "mM" for d in (da, db)]
                        if dates[0] != dates[1] or dates[0] and da[0] != db[0] or (isb[0] != isb[1] and not mergebool):
                            out = lay.npdecode(va) + lay.npdecode(vb)
                        else:
                            t = np.result_type(va, vb)
                            out = lay.npdecode(np.concatenate([va.astype(t), vb.astype(t)]))
                        return [out[0:1], out[1:4], out[4:5], out[5:8]] if wrap else out
                    compare(rec, lambda: ak.concatenate([x, y], mergebool=mergebool), model, cmp=eqv if mergebool else eqb)

    def where(self, c, a, b, rec):
        if not rec.begin(("where", c, a, b)):
            return
        rec.state(repr((c, a, b)))
        xs, args = self.args([c, a, b])

        def model():
            if any(has(t, "unk") for _, t in args if t is not SC):
                raise Skip
            out = m_where(*args)
            ks = set().union(*[kinds(t) for _, t in args if t is not SC])
            if 0 in set().union(*[sizes(t) for _, t in args if t is not SC]) or ks & {"rec", "str", "bytes"}:
                raise Maybe(out)
            return out
        compare(rec, lambda: ak.where(*xs), model, cmp=eqv)
