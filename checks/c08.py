"""C08: combinations/argcombinations and cartesian/argcartesian enumerate exactly the right tuples, in order."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.axis import above, depths, each, guard, has, negkey, resolve, strip
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import decode, mk, mtype


def m_comb(v, t, n, axis, repl, arg, fields):
    def f(x, _=None):
        it = itertools.combinations_with_replacement if repl else itertools.combinations
        out = list(it(range(len(x)) if arg else x, n))
        return [dict(zip(fields, y)) for y in out] if fields else out
    if arg and axis < 0:
        raise Skip               # documented as unsupported
    axis = resolve(t, axis)
    if n < 1:
        raise Bad
    if axis == 0:
        return f(v)
    if above(t, axis - 1, "uni"):
        raise Skip
    guard(t, axis)
    return [each(x, t, axis - 1, f) for x in v]


def product(lists, nested, names):
    k = len(lists)

    def build(i, prefix):
        if i == k - 1:
            tups = [tuple(prefix + [x]) for x in lists[i]]
            return [dict(zip(names, y)) for y in tups] if names else tups
        out = []
        for x in lists[i]:
            sub = build(i + 1, prefix + [x])
            if i in nested:
                out.append(sub)
            else:
                out.extend(sub)
        return out
    return build(0, [])


NOTHING = ("no tuples here",)


def agree(got, want):
    if want is NOTHING:         # a missing list in a later argument: missing, or nothing to pair with
        return got is None or isinstance(got, list) and all(agree(g, NOTHING) for g in got)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(agree(g, w) for g, w in zip(got, want))
    return lay.same(got, want)


def m_cart(vs, ts, axis, nested, names, arg):
    """axis >= 0"""
    if axis == 0:
        return product([list(range(len(v))) if arg else v for v in vs], nested, names)
    ln = {len(v) for v in vs}
    if len(ln) != 1:
        if 1 in ln:
            raise Skip           # length-1 arrays broadcast
        raise Bad

    def go(xs, us, a):
        us = [strip(u) for u in us]
        if xs[0] is None:
            return None
        if any(x is None for x in xs):
            return NOTHING
        us = [u for _, u in us]
        if any(u[0] in ("uni", "rec", "unk") for u in us):
            raise Skip
        if any(u[0] not in ("list", "reg") for u in us):
            raise Bad if all(u[0] == "num" for u in us) else Skip
        if a == 0:
            return product([list(range(len(x))) if arg else x for x in xs], nested, names)
        n = {len(x) for x in xs}
        if len(n) != 1:
            if any(u[0] == "reg" for u in us):
                raise Skip
            raise Bad
        return [go(list(ys), [u[-1] for u in us], a - 1) for ys in zip(*xs)]
    if not vs[0]:
        ok = all(deep(t, axis) for t in ts)
        if not ok:
            raise Skip
    return [go(list(xs), list(ts), axis - 1) for xs in zip(*vs)]


def deep(t, axis):
    t = strip(t)[1]
    if t[0] not in ("list", "reg"):
        return False
    return axis == 1 or deep(t[-1], axis - 1)


class Check:
    pid = "C08"
    rule = "transition = one combinations/cartesian call compared with itertools; non-trivial = distinct result"
    assumptions = ["itertools is the reference for order and content", "arrays of unequal length where one has length 1 may broadcast or raise",
                   "a missing list in a later argument of cartesian may give a missing value or an empty list, but never a tuple"]

    def bounds(self, tier):
        return {"combinations": "list lengths 0..%d, n 0..5, all axes, all node compositions to depth 3" % (7 if tier == "quick" else 9),
                "cartesian": "all pairs of list-length patterns in 0..3 for 2 lists, all triples in 0..2, every 'nested' subset, dict and list forms, axes -2..2"}

    def units(self, tier):
        N = ("N", "i8", (3, 1, 4, 1, 5, 9))
        u = []
        mx = 7 if tier == "quick" else 9
        for k in range(mx + 1):
            u.append(("len", k, mx))
        lv = [N, ("S", ("a", "bc", "", "d", "e", "f")), ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6)), ("E",), ("Ns", "f8", (0.5, 1.5, 2.5, 3.5, 4.5, 5.5), "step2")]
        sp = list(lv) + gen.layouts(1, lv, [True])[1]
        sp += gen.layouts(2, lv if tier == "thorough" else [N, ("E",), lv[2]], [True, True], unions=False)[2]
        sp += gen.layouts(3, [N], [False] * 3, unions=False)[3]
        sp += gen.node_space() + gen.longs(40)
        u += [("lay", sp[i:i + 40]) for i in range(0, len(sp), 40)]
        pats = list(itertools.product(range(4), repeat=2))
        for p in pats:
            u.append(("pair", p))
        u += [("tri", p) for p in itertools.product(range(3), repeat=2)]
        u += [("rep", i) for i in range(len(REPS))]
        u += [("axis0",), ("deep",)]
        return u

    def run_unit(self, unit, rec):
        k = unit[0]
        if k == "len":
            self.lens(unit[1], unit[2], rec)
        elif k == "lay":
            for d in unit[1]:
                self.layout(d, rec)
        elif k == "pair":
            for q in itertools.product(range(4), repeat=2):
                self.cart([LL(unit[1], 0), LL(q, 100)], rec, axes=(1, -1))
        elif k == "tri":
            for q in itertools.product(range(3), repeat=2):
                for r in itertools.product(range(3), repeat=2):
                    self.cart([LL(unit[1], 0), LL(q, 100), LL(r, 1000)], rec, axes=(1,))
        elif k == "rep":
            for b in REPS:
                self.cart([REPS[unit[1]], b], rec, axes=(1, -1, 0))
                if unit[1] < 8:
                    for c in REPS[:8]:
                        self.cart([REPS[unit[1]], b, c], rec, axes=(1,), nesteds=[None, [0], [1]])
        elif k == "axis0":
            fl = [("N", "i8", tuple(range(n))) for n in range(4)] + [("S", ("a", "", "b")), ("IO", "64", (0, -1), N3), ("LO", "64", (0, 2, 2), N3), ("D", ("q",), (N3,), 2), ("E",)]
            for a in fl:
                for b in fl:
                    self.cart([a, b], rec, axes=(0,))
                    for c in fl[:4]:
                        self.cart([a, b, c], rec, axes=(0,))
        else:
            inn = [("LO", "64", o, N3) for o in ((0, 2, 2, 3), (0, 0, 1, 3), (0, 1, 2, 3), (1, 1, 3, 3))] + [("L", "64", (1, 0, 0), (3, 1, 0), N3), ("R", 1, 0, N3), ("IO", "64", (0, -1, 1), ("LO", "64", (0, 2, 3), N3))]
            out = [(0, 3), (0, 1, 3), (0, 0, 3), (0, 2, 2, 3)]
            for o in out:
                for a in inn:
                    for b in inn:
                        self.cart([("LO", "64", o, a), ("LO", "64", o, b)], rec, axes=(1, 2, -1, -2))

    def lens(self, k, mx, rec):
        """one list of length k among neighbours"""
        for off in ((0, k), (0, k, k), (0, 1, k + 1), (2, k + 2, k + 3)):
            m = off[-1] + 1
            d = ("LO", "64", off, ("N", "i8", tuple(10 + i for i in range(m))))
            for n in range(0, 6):
                self.comb(d, n, rec, (1,))
        for size in (k,):
            self_d = ("R", size, 2, ("N", "i8", tuple(range(2 * size))))
            for n in range(1, 5):
                self.comb(self_d, n, rec, (1,))
        flat = ("N", "i8", tuple(range(20, 20 + k)))
        for n in range(0, 6):
            self.comb(flat, n, rec, (0, -1))

    def layout(self, d, rec):
        t = mtype(mk(d))
        n = max(depths(t)) + 1
        for k in (2, 3):
            self.comb(d, k, rec, range(-n - 1, n + 1), full=k == 2)

    def comb(self, d, n, rec, axes, full=True):
        x = mk(d)
        v, t = decode(x), mtype(x)
        arr = ak.Array(x)
        rec.state(repr(d))
        for axis in axes:
            for repl in (False, True):
                for arg in (False, True):
                    for fields in ((None, "abcdef"[:n]) if full and n > 0 else (None,)):
                        if not rec.begin(("argcombinations" if arg else "combinations", d, n, axis, repl, fields)):
                            continue
                        f = ak.argcombinations if arg else ak.combinations
                        compare(rec, lambda: f(arr, n, axis=axis, replacement=repl, fields=list(fields) if fields else None),
                                lambda: m_comb(v, t, n, axis, repl, arg, fields), key=negkey(t, axis))

    def cart(self, ds, rec, axes, nesteds=None):
        xs = [mk(d) for d in ds]
        vs, ts = [decode(x) for x in xs], [mtype(x) for x in xs]
        arrs = [ak.Array(x) for x in xs]
        rec.state(repr(ds))
        k = len(ds)
        names = "xyz"[:k]
        if nesteds is None:
            nesteds = [None, True] + [list(s) for r in range(1, k) for s in itertools.combinations(range(k - 1), r)]
        for axis in axes:
            for nested in nesteds:
                for form in ("list", "dict"):
                    for arg in (False, True):
                        if not rec.begin(("argcartesian" if arg else "cartesian", ds, axis, nested, form)):
                            continue
                        f = ak.argcartesian if arg else ak.cartesian
                        ns = list(range(k - 1)) if nested is True else (nested or [])
                        if form == "dict":
                            ins = dict(zip(names, arrs))
                            nn = [names[i] for i in nested] if isinstance(nested, list) else nested
                        else:
                            ins, nn = arrs, nested

                        def model():
                            a = axis
                            if a < 0:
                                if arg:
                                    raise Skip
                                rs = {resolve(t, a) for t in ts}
                                if len(rs) != 1:
                                    raise Bad
                                a = rs.pop()
                            if any(has(t, "unk") for t in ts) and a:
                                raise Skip
                            return m_cart(vs, ts, a, ns, names if form == "dict" else None, arg)
                        # recorded finding (an existing test asserts it): axis=0 with nested lists
                        bad0 = ns and (axis == 0 or axis < 0 and all(max(depths(t)) + 1 + axis == 0 for t in ts)) and (form == "dict" or any(len(v) == 0 for v in vs) or ns != list(range(ns[0], k - 1)))
                        compare(rec, lambda: f(ins, axis=axis, nested=nn), model, cmp=agree, key="cartesian-axis0-nested" if bad0 else None)


N3 = ("N", "i8", (1, 2, 3))
N5 = ("N", "i8", (10, 20, 30, 40, 50))


def LL(p, base):
    off = [0]
    for x in p:
        off.append(off[-1] + x)
    return ("LO", "64", tuple(off), ("N", "i8", tuple(base + i for i in range(off[-1]))))


REPS = [("LO", "64", (0, 2, 2, 3), N3), ("LO", "32", (1, 3, 3, 4), N5), ("L", "64", (3, 0, 1), (5, 0, 2), N5), ("IO", "64", (0, -1, 1), ("LO", "64", (0, 2, 3), N3)),
        ("BM", (1, 1, 0), True, ("LO", "64", (0, 2, 2, 3), N3)), ("R", 1, 0, N3), ("R", 2, 0, ("N", "i8", (1, 2, 3, 4, 5, 6))), ("LO", "64", (0, 2, 2, 3), ("S", ("a", "", "c"))),
        ("N2", "i8", (3, 2), (1, 2, 3, 4, 5, 6)), ("I", "64", (1, 0, 2), ("LO", "64", (0, 0, 2, 3), N3)), ("LO", "64", (0, 2, 2, 3), ("IO", "64", (0, -1, 1), N3)),
        ("LO", "64", (0, 2, 2, 3), ("D", ("p", "q"), (N3, N3), 3)), ("LO", "64", (0, 2, 2, 3), ("LO", "64", (0, 2, 2, 3), N3)), ("R", 0, 3, N3),
        ("LO", "U32", (0, 0, 0, 0), N3), ("UM", ("LO", "64", (0, 1, 2, 3), N3)), ("bM", (1, 0, 1), True, 3, True, ("LO", "64", (0, 2, 2, 3), N3)),
        ("LO", "64", (0, 2, 2, 3), ("U", "64", (0, 1, 0), (0, 0, 1), (N3, ("S", ("p", "q"))))), ("V", ("LO", "64", (0, 2, 2, 3), N3), True), N3, ("LO", "64", (0, 1), N3)]
