"""C05: sort and argsort are order-respecting, stable permutations of each group."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib import reduce_model as rm
from vlib.lay import decode, mk, mtype

VALS = (3, 0, 3, -1, 2, 0)


class Skip(Exception):
    pass


def leaf(t):
    return t[0] in ("num", "unk", "str", "bytes")


def depth(t):
    if t[0] in ("list", "reg"):
        return 1 + depth(t[-1])
    if t[0] == "opt":
        return depth(t[1])
    if leaf(t):
        return 1
    raise Skip


def order(xs, asc, key=None):
    """stable order of positions"""
    k = key or (lambda x: x)
    idx = list(range(len(xs)))
    out = []
    for i in idx:            # insertion keeps equal values in their original order in both directions
        j = len(out)
        while j > 0 and (k(xs[i]) < k(xs[out[j - 1]]) if asc else k(xs[i]) > k(xs[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


def skey(x):
    return x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x


def group(items, t, asc, arg):
    """items: the things at one axis position (all of type t); returns them rearranged so that the leaves at
    each inner position are sorted among the items that have one"""
    opt = False
    while t[0] == "opt":
        opt, t = True, t[1]
    if leaf(t):
        have = [x for x in items if x is not None]
        o = order(have, asc, skey)
        out = [i if arg else have[i] for i in o]
        return out + [None] * (len(items) - len(have))
    if opt and any(x is None for x in items):
        raise Skip               # where missing lists go is not documented
    out = [[None] * len(x) for x in items]
    for k in range(max([len(x) for x in items] or [0])):
        who = [i for i, x in enumerate(items) if k < len(x)]
        got = group([items[i][k] for i in who], t[-1], asc, arg)
        for i, g in zip(who, got):
            out[i][k] = g
    return out


def model(v, t, axis, asc, arg):
    if axis == 0:
        return group(v, t, asc, arg)
    while t[0] == "opt":
        t = t[1]
    return [None if x is None else model(x, t[-1], axis - 1, asc, arg) for x in v]


class Check:
    pid = "C05"
    rule = ("transition = one sort or argsort call compared with a stable insertion sort of every group; "
            "non-trivial = distinct result")
    assumptions = ["missing values of the outermost dimension may be dropped or come last (the test suite pins dropping)",
                   "argsort positions count the values that take part in the group (pinned by the test suite)",
                   "NaN has no place in the order: only the multiset of values is compared when one is present"]

    def bounds(self, tier):
        return {"sequence_length": 5 if tier == "quick" else 6, "alphabet": 3, "long_lengths": "2..70 patterned", "depth": 3}

    def units(self, tier):
        u = []
        n = 5 if tier == "quick" else 6
        for first in range(3):
            u.append(("seq", "i8", n, first))
        for d in ("?", "i1", "u1", "i2", "u2", "i4", "u4", "u8", "f4", "f8"):
            u.append(("seq", d, 4, None))
        u.append(("optseq", 4 if tier == "quick" else 5))
        u.append(("nan", 4 if tier == "quick" else 5))
        u.append(("str", 3 if tier == "quick" else 4))
        for lo in range(2, 70 if tier == "quick" else 300, 6):
            u.append(("long", lo, lo + 6))
        N = ("N", "i8", VALS)
        kw = dict(records=False, unions=False)
        sp = [("N2", "i8", (3, 2), VALS), ("N2s", "i8", (3, 2), VALS, "F"), ("N2", "i8", (1, 2, 3), VALS), ("N2", "i8", (2, 0), ()),
              ("Ns", "i8", VALS, "rev"), ("Ns", "i4", VALS, "step2"), ("N2s", "i8", (2, 3), VALS, "step2"), ("E",)]
        S = ("S", ("b", "aa", "", "b", "\u00e9", "a"))
        for lf in (N, ("Ns", "f8", tuple(float(x) for x in VALS), "step2"), S, ("N2", "i8", (3, 2), VALS), ("E",)):
            lv = gen.layouts(2, [lf], [True, lf == N], **kw)
            sp += lv[1] + lv[2]
        lv = gen.layouts(3, [N], [tier == "thorough"] * 3, **kw)
        sp += lv[3] + gen.longs(300, False, False, True)
        N4 = ("N", "i8", (2, 0, 1, 0))
        sp += list(gen.all_listoffset(N4, 3)) + list(gen.all_listarray(("N", "i8", (1, 0, 2)), 2))
        sp += [("LO", "64", off, c) for c in list(gen.all_listoffset(N4, 3)) if lay.dlen(c) == 3
               for off in ((0, 3), (0, 1, 3), (0, 0, 2, 3))]
        sp += [("LO", "64", (0, 1, 3), c) for c in gen.all_indexed(("N", "i8", (2, 0, 1)), 3, True) if lay.dlen(c) == 3]
        u += [("lay", sp[i:i + 20]) for i in range(0, len(sp), 20)]
        R1 = ("D", ("x", "y"), (N, ("Ns", "f8", (0.5, 2.5, 0.5, -1.0, 3.0, 2.5), "rev")), 6)
        R2 = ("D", ("x", "y"), (N, ("LO", "64", (1, 3, 3, 6), ("N", "i8", VALS))), 3)
        R3 = ("T", (("IO", "64", (0, -1, 1, 2, -1, 3), N), N), 6)
        R4 = ("D", ("a",), (N,), 4)
        for r in (R1, R2, R3, R4):
            lv = gen.layouts(2, [r], [True, tier == "thorough"], **kw)
            rs = [r] + lv[1] + lv[2]
            u += [("recs", rs[i:i + 20]) for i in range(0, len(rs), 20)]
        return u

    def run_unit(self, unit, rec):
        k = unit[0]
        if k == "seq":
            _, dt, n, first = unit
            vals = {"?": (False, True), "f8": (0.5, 1.5, -2.5), "f4": (0.5, 1.5, -2.5), "u1": (0, 255, 7), "u2": (0, 65535, 7), "u4": (0, 2**32 - 1, 7),
                    "u8": (0, 2**64 - 1, 7), "i8": (-2**63, 5, 2**63 - 1), "i4": (-2**31, 5, 2**31 - 1), "i2": (-2**15, 5, 2**15 - 1), "i1": (-128, 5, 127)}[dt]
            for m in range(0, n + 1):
                for s in itertools.product(range(len(vals)), repeat=m):
                    if first is not None and (s[:1] or (0,)) != (first,):
                        continue
                    self.layout(rec, ("N", dt, tuple(vals[i] for i in s)))
        elif k == "optseq":
            for m in range(0, unit[1] + 1):
                for s in itertools.product((-1, 0, 1, 2), repeat=m):
                    c = ("N", "i8", (5, 3, 5))
                    self.layout(rec, ("IO", "64", s, c))
                    if m:
                        self.layout(rec, ("LO", "64", (0, m - 1, m), ("IO", "64", s, c)))
                        self.layout(rec, ("LO", "64", (0, 1, m), ("IO", "64", s, c)))
        elif k == "nan":
            for m in range(0, unit[1] + 1):
                for s in itertools.product((1.0, float("nan"), -1.0), repeat=m):
                    self.layout(rec, ("N", "f8", s))
                    self.layout(rec, ("LO", "64", (0, m // 2, m), ("N", "f4", s)))
        elif k == "str":
            words = ("", "a", "ab", "a\0b", "\u00e9", "a\0a")
            for m in range(0, unit[1] + 1):
                for s in itertools.product(words, repeat=m):
                    self.layout(rec, ("S", s))
                    if m > 1:
                        self.layout(rec, ("LO", "64", (0, 1, m), ("S", s)))
                        self.layout(rec, ("B", tuple(x.encode() for x in s)))
            for k in (85, 128, 300, 33000):       # byte positions beyond one and two bytes
                words = tuple(c * (k + i) + e for i, (c, e) in enumerate((("d", ""), ("b", "c"), ("b", "a"), ("", "z"))))
                for s in itertools.permutations(words):
                    self.layout(rec, ("S", s))
                    self.layout(rec, ("LO", "64", (0, 1, 4), ("S", s)))
                    self.layout(rec, ("I", "64", (3, 0, 2, 2), ("S", s)))
        elif k == "long":
            for n in range(unit[1], unit[2]):
                for p in range(8):
                    f = (lambda i: i, lambda i: -i, lambda i: 0, lambda i: i % 3, lambda i: min(i, n - i), lambda i: (i * 7) % 11,
                         lambda i: (i * i) % 13, lambda i: -(i // 4))[p]
                    vals = tuple(f(i) for i in range(n))
                    self.layout(rec, ("N", "i8", vals))
                    self.layout(rec, ("LO", "64", (0, n // 3, n), ("N", "f8", tuple(map(float, vals)))))
                    if p in (3, 5):
                        self.layout(rec, ("S", tuple("abcdefghijkl"[v] * (v % 2 + 1) for v in vals)))
        elif k == "recs":
            for d in unit[1]:
                self.records(rec, d)
        else:
            for d in unit[1]:
                self.layout(rec, d)

    def records(self, rec, d):
        """records inside lists sort field by field"""
        x = mk(d)
        v, t = decode(x), mtype(x)
        rec.state(repr(d))
        arr = ak.Array(x)
        fields = project_type(t)
        for axis in range(1, max(depth(ft) for ft in fields.values())):
            for asc in (True, False):
                for arg in (False, True):
                    if not rec.begin((d, "argsort" if arg else "sort", axis, asc)):
                        continue
                    rec.step()
                    try:
                        got = decode((ak.argsort if arg else ak.sort)(arr, axis=axis, ascending=asc, stable=True))
                    except lay.Undecodable as e:
                        rec.fail("result is not a valid layout: %s" % e)
                        continue
                    except (ValueError, TypeError, RuntimeError) as e:
                        if len({depth(ft) for ft in fields.values()}) == 1:
                            rec.fail("raised %s" % str(e).split("\n")[0])
                        continue
                    rec.outcome(repr(got))
                    for f, ft in fields.items():
                        if axis >= depth(ft):
                            continue
                        try:
                            want = model(project(v, f), ft, axis, asc, arg)
                        except Skip:
                            continue
                        g = project(got, f)
                        if g != want:
                            rec.fail("field %r: got %r\nexpected %r" % (f, g, want))

    def layout(self, rec, d):
        x = mk(d)
        v, t = decode(x), mtype(x)
        rec.state(repr(d))
        arr = ak.Array(x)
        try:
            n = depth(t)
        except Skip:
            return
        lt = rm.leaftype(t)
        for axis in range(-n, n):
            pos = axis + n if axis < 0 else axis
            if lt[0] in ("str", "bytes") and pos != n - 1:
                continue            # documented: strings sort along the last axis only
            for asc in (True, False):
                for stable in (True, False):
                    for arg in (False, True):
                        if rec.begin((d, "argsort" if arg else "sort", axis, asc, stable)):
                            one(rec, arr, v, t, n, lt, axis, pos, asc, stable, arg)


def project_type(t):
    if t[0] == "rec":
        return {k: c for k, c in zip(t[1] if t[1] is not None else range(len(t[2])), t[2])}
    return {k: t[:-1] + (c,) for k, c in project_type(t[-1]).items()}


def project(v, f):
    if isinstance(v, list):
        return [project(x, f) for x in v]
    return v[f] if isinstance(v, (dict, tuple)) else v


def strip(v):
    while v and v[-1] is None:
        v = v[:-1]
    return v


def hasnan(v):
    if isinstance(v, list):
        return any(hasnan(x) for x in v)
    return isinstance(v, float) and v != v


def sortsets(v, out):
    if isinstance(v, list):
        if v and not isinstance(v[0], list):
            out.append(sorted(map(repr, v)))
        else:
            for x in v:
                sortsets(x, out)
    return out


def one(rec, arr, v, t, n, lt, axis, pos, asc, stable, arg):
    rec.step()
    try:
        want = model(v, t, pos, asc, arg)
    except Skip:
        rec.note("undetermined")
        want = None
    f = ak.argsort if arg else ak.sort
    try:
        got = decode(f(arr, axis=axis, ascending=asc, stable=stable))
    except lay.Undecodable as e:
        rec.fail("result is not a valid layout: %s" % e)
        return
    except (ValueError, TypeError, RuntimeError) as e:
        if want is None:
            return
        rec.fail("raised %s\nexpected %r" % (str(e).split("\n")[0], want))
        return
    if want is None:
        return
    rec.outcome(repr((got, asc)))
    if hasnan(v):
        if arg:
            return
        if pos == n - 1 and sortsets(got, []) != sortsets(v, []):
            rec.fail("got %r: not a permutation of %r" % (got, v))
        return
    if arg and not stable:
        # any permutation that sorts is right
        if pos == n - 1 and ties_ok(v, t, got, want):
            return
        if pos != n - 1:
            rec.note("unstable_nonlocal_argsort_not_compared")
            return
    if got == want or (pos == 0 and strip_outer(got, want)):
        if kinds(got) != kinds(want):
            rec.fail("wrong kind of values: got %r\nexpected %r" % (got, want))
        return
    rec.fail("got %r\nexpected %r" % (got, want))


def strip_outer(got, want):
    return isinstance(got, list) and got == strip(want)


def kinds(v):
    if isinstance(v, list):
        s = set()
        for x in v:
            s |= kinds(x)
        return s
    return set() if v is None else {type(v)}


def ties_ok(v, t, got, want):
    """got and want are argsorts of v (innermost axis): equal up to ties"""
    if v is None or got is None:
        return v is None and got is None
    if not v or not isinstance(v[0] if v[0] is not None else next((x for x in v if x is not None), 0), list):
        have = [x for x in v if x is not None]
        g = [i for i in got if i is not None]
        w = [i for i in want if i is not None]
        if len(g) != len(have) or sorted(g) != list(range(len(have))):
            return False
        if None in got[:len(g)] or len(got) not in (len(want), len(g)):
            return False
        return [have[i] for i in g] == [have[i] for i in w]
    return len(v) == len(got) and all(ties_ok(a, None, b, c) for a, b, c in zip(v, got, want))
