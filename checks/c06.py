"""C06: num, flatten, unflatten, local_index, to_regular, from_regular, firsts, singletons, run_lengths
against their list definitions on every layout, axis and count vector of the bounded space."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import decode, mk, mtype
from vlib.axis import above, depths, each, guard, has, negkey, reaches, resolve, strip


def m_num(v, t, axis):
    axis = resolve(t, axis)
    if axis == 0:
        if has(t, "rec") and above(t, 0, "rec"):
            raise Skip          # a number per field
        return len(v)
    guard(t, axis)
    return [each(x, t, axis - 1, lambda y, _: len(y)) for x in v]


def m_local(v, t, axis):
    axis = resolve(t, axis)
    if axis == 0:
        return list(range(len(v)))
    guard(t, axis)
    return [each(x, t, axis - 1, lambda y, _: list(range(len(y)))) for x in v]


def m_flat(v, t, axis):
    axis = resolve(t, axis)
    if axis == 0:
        return [x for x in v if x is not None]
    if above(t, axis - 1, "uni"):
        raise Skip
    guard(t, axis)
    if axis == 1:
        _, u = strip(t)
        if u[0] == "rec":
            raise Skip        # documented as an error: records themselves cannot be flattened
        return [y for x in v if x is not None for y in x]

    def fl(x, elem):
        _, u = strip(elem)
        if u[0] == "rec":
            raise Skip
        return [z for y in x if y is not None for z in y]
    if above(t, axis - 1, "rec"):
        raise Maybe([each(x, t, axis - 2, fl) for x in v])      # an empty list of records may still be refused
    return [each(x, t, axis - 2, fl) for x in v]


def m_flatall(v, t):
    if has(t, "rec", "uni", "str", "bytes"):
        raise Skip

    def go(x):
        if isinstance(x, list):
            return [z for y in x for z in go(y)]
        return [] if x is None else [x]
    return go(v)


def chunks(v, counts):
    if any(c is not None and c < 0 for c in counts) or sum(c or 0 for c in counts) != len(v):
        raise Bad
    out, i = [], 0
    for c in counts:
        if c is None:
            out.append(None)
        else:
            out.append(v[i:i + c])
            i += c
    return out


def m_toreg(v, t, axis):
    """(value, ok): value is unchanged; all lists at that axis must have one length"""
    if axis < 0 and resolve(t, axis) == 0:
        raise Skip               # nothing to do, or an error
    axis = resolve(t, axis)
    if axis == 0:
        return v
    if above(t, axis - 1, "uni", "unk"):
        raise Skip
    if not reaches(t, axis - 1):
        raise Skip               # no such dimension: left as it is, or an error
    seen = set()
    for x in v:
        each(x, t, axis - 1, lambda y, _: seen.add(len(y)))
    if len(seen) > 1 and not above(t, axis - 1, "rec"):
        if regat(t, axis - 1):
            return v
        raise Bad
    if above(t, axis - 1, "rec"):
        ok = True
        for c in range(1):
            pass
        raise Maybe(v)
    return v


def regat(t, axis):
    if t[0] == "opt":
        return regat(t[1], axis)
    if t[0] in ("list", "reg"):
        return t[0] == "reg" if axis == 0 else regat(t[-1], axis - 1)
    return False


def ctype(t, axis, to):
    """expected type after to_regular/from_regular"""
    if t[0] == "opt":
        return ("opt", ctype(t[1], axis, to))
    if t[0] in ("list", "reg"):
        if axis == 0:
            return to(t)
        return t[:-1] + (ctype(t[-1], axis - 1, to),)
    if t[0] == "rec":
        return ("rec", t[1], tuple(ctype(c, axis, to) for c in t[2]))
    raise Skip


def m_single(v, t):
    if t[0] == "opt":
        return [[] if x is None else [x] for x in v]
    if t[0] in ("list", "reg"):
        return [m_single(x, t[-1]) for x in v]
    if t[0] == "rec":
        if not t[2]:
            return v
        cols = []
        for i, c in enumerate(t[2]):
            cols.append(m_single([x[i if t[1] is None else t[1][i]] for x in v], c))
        if t[1] is None:
            return [tuple(c[i] for c in cols) for i in range(len(v))]
        return [{k: c[i] for k, c in zip(t[1], cols)} for i in range(len(v))]
    if t[0] == "uni":
        raise Skip
    return v


def m_first(v, t, axis):
    axis = resolve(t, axis)
    if axis == 0:
        return v[0] if v else None
    if above(t, axis - 1, "uni", "rec"):
        raise Skip
    guard(t, axis)

    return [each(x, t, axis - 1, lambda y, _: y[0] if y else None) for x in v]


def runs(xs):
    return [len(list(g)) for _, g in itertools.groupby(xs)]


def m_runs(v, t):
    if has(t, "uni", "rec", "unk"):
        raise Skip
    ds = depths(t)
    d = ds.pop()
    if d == 0:
        return runs(v)
    if t[0] == "opt":
        t = t[1]
    return [None if x is None else m_runs(x, t[-1]) for x in v]


def unreach(d):
    """could the layout hold list elements that are not part of its value?"""
    return True


class Check:
    pid = "C06"
    rule = ("transition = one call of a list-structure operation compared with its definition over Python lists; "
            "non-trivial = distinct result")
    assumptions = ["where the documentation leaves the answer open (records flattened as elements, unions of different depth, "
                   "empty-type branches beyond their depth, which neighbour an empty inner list of unflatten(axis>=1) belongs to) any readable result is accepted",
                   "an integer count of unflatten makes a regular dimension of whole groups"]

    def bounds(self, tier):
        return {"layouts": "all node compositions to depth 3 (list-only chains to 4), every list-offset/starts-stops/option-index/mask buffer over <=4 elements",
                "axes": "every axis from -depth-1 to depth", "unflatten counts": "every count vector over 0..3 of length <= 4 (None included)",
                "partitions": "every cut of the outer length for unflatten"}

    def units(self, tier):
        N = ("N", "i8", (3, 3, 4, 4, 3, 3))
        lv = gen.leaves(6, True)
        sp = list(lv)
        sp += gen.layouts(1, lv, [True])[1]
        l2 = gen.layouts(2, lv if tier == "thorough" else [N, ("S", ("a", "a", "", "b", "b", "b")), ("N2", "i8", (3, 2), (1, 1, 2, 3, 3, 3)), ("E",)], [True, True])[2]
        sp += l2
        sp += gen.layouts(3, [N], [False, False, False], unions=False)[3]
        sp += gen.layouts(4, [N], [False] * 4, unions=False, records=False, indexed=False, options=tier == "thorough")[4]
        sp += gen.node_space() + gen.longs()
        N4 = ("N", "i8", (2, 2, 1, 1))
        inner = [c for c in gen.all_listoffset(N4, 3) if lay.dlen(c) == 3]
        sp += [("LO", "64", off, c) for c in inner for off in ((0, 3), (0, 1, 3), (0, 0, 2, 3), (1, 2, 2), (0, 0, 3, 3))]
        sp += [("IO", "64", ix, ("LO", "64", (0, 2, 2, 4), N4)) for n in (1, 2, 3) for ix in itertools.product((-1, 0, 1, 2), repeat=n)]
        sp += [("LO", "64", off, c) for c in gen.all_indexed(("N", "i8", (2, 2, 1)), 3, True) if lay.dlen(c) == 3 for off in ((0, 1, 3), (0, 0, 3), (0, 2, 2, 3))]
        u = [("lay", sp[i:i + 40]) for i in range(0, len(sp), 40)]
        # unflatten: every count vector
        targets = [("N", "i8", (1, 2, 3)), ("Ns", "i8", (1, 2, 3, 4), "step2"), ("I", "64", (2, 0, 0), ("N", "i8", (1, 2, 3))),
                   ("IO", "64", (0, -1, 1), ("N", "i8", (5, 6))), ("S", ("ab", "", "c")), ("E",),
                   ("bM", (1, 0, 1), True, 3, True, ("N", "i8", (1, 2, 3))), ("D", ("x",), (("N", "i8", (1, 2, 3, 4)),), 3),
                   ("LO", "64", (1, 1, 3, 4), ("N", "i8", (9, 8, 7, 6)))]
        for t in targets:
            u.append(("unflat0", t))
        lists = list(gen.all_listoffset(("N", "i8", (1, 2, 3)), 3)) + [
            c for c in gen.all_listarray(("N", "i8", (1, 2, 3)), 2)] + [
            ("R", 2, 0, ("N", "i8", (1, 2, 3, 4))), ("R", 1, 0, ("N", "i8", (1, 2, 3))), ("R", 3, 0, ("N", "i8", (1, 2, 3))),
            ("N2", "i8", (2, 2), (1, 2, 3, 4)),
            ("I", "64", (1, 0), ("LO", "64", (0, 1, 3), ("N", "i8", (1, 2, 3)))),
            ("IO", "64", (1, -1, 0), ("LO", "64", (0, 1, 3), ("N", "i8", (1, 2, 3)))),
            ("BM", (1, 0, 1), True, ("LO", "64", (0, 1, 2, 3), ("N", "i8", (1, 2, 3))))]
        for i in range(0, len(lists), 4):
            u.append(("unflat1", lists[i:i + 4]))
        deep = [("LO", "64", off, ("LO", "64", (0, 1, 1, 3), ("N", "i8", (1, 2, 3)))) for off in ((0, 3), (0, 0, 2, 3), (0, 1, 3, 3), (1, 1, 3))]
        u.append(("unflat2", deep))
        return u

    def run_unit(self, unit, rec):
        if unit[0] == "lay":
            for d in unit[1]:
                self.layout(d, rec)
        elif unit[0] == "unflat0":
            self.unflat0(unit[1], rec)
        else:
            for d in unit[1]:
                self.unflat1(d, rec, 1 if unit[0] == "unflat1" else 2)

    def layout(self, d, rec):
        x = mk(d)
        v, t = decode(x), mtype(x)
        rec.state(repr(d))
        arr = ak.Array(x)
        n = max(depths(t)) + 1
        for axis in range(-n - 1, n + 1):
            for name, model in (("num", m_num), ("local_index", m_local), ("flatten", m_flat), ("firsts", m_first)):
                if rec.begin((name, d, axis)):
                    compare(rec, lambda: getattr(ak, name)(arr, axis=axis), lambda: model(v, t, axis), key=negkey(t, axis))
            if rec.begin(("to_regular", d, axis)):
                compare(rec, lambda: ak.to_regular(arr, axis=axis), lambda: hidden(d, v, m_toreg, v, t, axis),
                        also=lambda r: regular(r, t, axis, v), key=negkey(t, axis))
            if rec.begin(("from_regular", d, axis)):
                def fr():
                    a = resolve(t, axis)
                    if a == 0 and axis < 0:
                        raise Skip
                    if a and (above(t, a - 1, "uni", "unk") or not reaches(t, a - 1)):
                        raise Skip
                    return v
                compare(rec, lambda: ak.from_regular(arr, axis=axis), fr, also=lambda r: irregular(r, t, axis), key=negkey(t, axis))
            if axis >= 0 and rec.begin(("from_regular(to_regular)", d, axis)):
                try:
                    y = ak.to_regular(arr, axis=axis)
                except ValueError:
                    y = None
                if y is not None:
                    compare(rec, lambda: ak.from_regular(y, axis=axis), lambda: v)
        if rec.begin(("flatten", d, None)):
            compare(rec, lambda: ak.flatten(arr, axis=None), lambda: m_flatall(v, t), cmp=lay.loose)
        if rec.begin(("singletons", d)):
            s = compare(rec, lambda: ak.singletons(arr), lambda: m_single(v, t))
            if s is not None and t[0] == "opt":
                compare(rec, lambda: ak.firsts(s), lambda: v)
        if rec.begin(("run_lengths", d)):
            try:
                r = ak.run_lengths(arr)
            except NotImplementedError:
                rec.note("declared not implemented")
            else:
                compare(rec, lambda: r, lambda: m_runs(v, t))
        if rec.begin(("unflatten(flatten)", d)):
            if strip(t)[1][0] in ("list", "reg"):
                compare(rec, lambda: ak.unflatten(ak.flatten(arr), ak.num(arr)), lambda: v)

    def unflat0(self, d, rec):
        x = mk(d)
        v = decode(x)
        rec.state(repr(d))
        L = len(v)
        for cuts in cutsof(L):
            if len(cuts) == 1:
                a = ak.Array(x)
            else:
                parts, i = [], 0
                for c in cuts:
                    parts.append(x[i:i + c])
                    i += c
                a = ak.Array(ak.partition.IrregularlyPartitionedArray(parts))
            bounds = set(itertools.accumulate(cuts))
            for k in range(0, 5):
                for counts in itertools.product((0, 1, 2, 3), repeat=k):
                    if rec.begin(("unflatten", d, cuts, counts)):
                        def m():
                            w = chunks(v, counts)
                            if len(cuts) > 1 and not bounds <= ({0} | set(itertools.accumulate(counts))):
                                raise Bad
                            return w
                        compare(rec, lambda: ak.unflatten(a, np.array(counts, dtype=np.int64)), m)
                if k and k < 4:
                    for counts in itertools.product((0, 1, 2, None), repeat=k):
                        if None in counts and rec.begin(("unflatten", d, cuts, counts)):
                            def m():
                                w = chunks(v, counts)
                                if len(cuts) > 1 and not bounds <= ({0} | set(itertools.accumulate(c or 0 for c in counts))):
                                    raise Bad
                                return w
                            ca = np.ma.MaskedArray([c or 0 for c in counts], [c is None for c in counts], dtype=np.int64)
                            compare(rec, lambda: ak.unflatten(a, ca), m)
            if len(cuts) == 1:
                for c in range(-1, L + 2):
                    if rec.begin(("unflatten int", d, c)):
                        def m():
                            if c < 0 or c > L:
                                raise Bad
                            if c == 0:
                                raise Skip
                            return [v[i:i + c] for i in range(0, L - c + 1, c)]
                        compare(rec, lambda: ak.unflatten(a, c), m)
        for counts in ((-1,) + (L + 1,), (1.5, L - 1.5)):
            if rec.begin(("unflatten", d, counts)):
                compare(rec, lambda: ak.unflatten(ak.Array(x), np.array(counts)), bad)

    def unflat1(self, d, rec, axis):
        x = mk(d)
        v, t = decode(x), mtype(x)
        rec.state(repr(d))
        a = ak.Array(x)
        total = 0

        def tot(x):
            nonlocal total
            if isinstance(x, list) and x and not isinstance(x[0], list):
                pass
        if axis == 1:
            lists = [y for y in v if y is not None]
        else:
            lists = [z for y in v if y is not None for z in y]
        total = sum(len(y) for y in lists)
        for k in range(0, 5):
            for counts in itertools.product((0, 1, 2, 3), repeat=k):
                if abs(sum(counts) - total) > 1:
                    continue
                self.unf1(rec, d, a, v, lists, counts, axis)
            if 0 < k < 4:
                for counts in itertools.product((0, 1, 2, None), repeat=k):
                    if None in counts and abs(sum(c or 0 for c in counts) - total) <= 1:
                        self.unf1(rec, d, a, v, lists, counts, axis)

    def unf1(self, rec, d, a, v, lists, counts, axis):
        for ax in (axis, -1):
            if not rec.begin(("unflatten", d, counts, ax)):
                continue
            rec.step()
            flat = [z for y in lists for z in y]
            edges = {0} | set(itertools.accumulate(c or 0 for c in counts))
            ok = sum(c or 0 for c in counts) == len(flat) and set(itertools.accumulate(len(y) for y in lists)) <= edges
            ca = np.ma.MaskedArray([c or 0 for c in counts], [c is None for c in counts], dtype=np.int64) if None in counts else np.array(counts, dtype=np.int64)
            try:
                got = decode(ak.unflatten(a, ca, axis=ax))
            except lay.Undecodable as e:
                rec.fail("result is not a valid layout: %s" % e)
                continue
            except ValueError as e:
                rec.outcome("raise")
                if ok:
                    rec.fail("raised %s\nalthough counts fit %r" % (str(e).split("\n")[0], v))
                continue
            rec.outcome(repr(got))
            if not ok:
                rec.fail("got %r\nexpected an error: counts do not fit %r" % (got, v))
                continue
            glists = [y for y in got if y is not None] if axis == 1 else [z for y in got if y is not None for z in y]
            if not lists:
                continue              # nowhere to put the empty groups
            allch = [c for y in glists for c in y]
            back = undo(got, axis)
            if not lay.same(back, v) or not lay.same(allch, chunks(flat, counts)):
                rec.fail("got %r\nexpected %r split as %r" % (got, v, chunks(flat, counts)))


def undo(v, axis):
    if v is None:
        return None
    if axis == 0:
        return [y for c in v if c is not None for y in c]
    return [undo(x, axis - 1) for x in v]


def bad():
    raise Bad


def cutsof(n):
    out = [(n,)]
    for a in range(n + 1):
        out.append((a, n - a))
    return out


def hidden(d, v, f, *args):
    """to_regular looks at stored lists, also ones hidden below masks and indexes; then it may refuse"""
    w = f(*args)
    if hides(d):
        raise Maybe(w)
    return w


def hides(d):
    k = d[0]
    if k in ("N", "Ns", "N2", "N2s", "E", "S", "B"):
        return False
    if k in ("IO", "I", "BM", "bM"):
        return True
    if k in ("LO", "L"):
        return True
    if k in ("T", "D"):
        return True
    return any(hides(c) for c in d if isinstance(c, tuple) and c and isinstance(c[0], str)) or k == "U"


def regular(r, t, axis, v):
    try:
        a = resolve(t, axis)
    except Skip:
        return None
    if a == 0:
        return None
    ok = []

    def go(u, k):
        if u[0] == "opt":
            return go(u[1], k)
        if u[0] in ("list", "reg"):
            if k == 0:
                ok.append(u[0] == "reg")
            else:
                go(u[-1], k - 1)
        if u[0] == "rec":
            for c in u[2]:
                go(c, k)
    go(mtype(r), a - 1)
    if not all(ok):
        return "to_regular left a variable-length dimension at axis %d: %s" % (axis, ak.type(r))


def irregular(r, t, axis):
    try:
        a = resolve(t, axis)
        if a == 0:
            return None
        want = ctype(t, a - 1, lambda u: ("list", u[-1]))
    except Skip:
        return None
    got = mtype(r)
    if got != want:
        return "type after from_regular: %r, expected %r" % (got, want)
