"""C04: reducers equal a per-group fold, for every layout, axis and option."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib import reduce_model as rm
from vlib.lay import decode, mk, mtype

VALS = (3, 0, 3, -1, 2, 0)


def ident(dt):
    k = np.dtype(dt).kind
    if k == "b":
        return False, True
    if k in "iu":
        i = np.iinfo(dt)
        return int(i.min), int(i.max)
    if k == "f":
        return float("-inf"), float("inf")
    return None, None


def kindok(name, dt, got):
    k = np.dtype(dt).kind
    if got is None:
        return True
    if isinstance(got, list):
        return all(kindok(name, dt, x) for x in got)
    if name in ("any", "all"):
        return isinstance(got, bool)
    if name in ("count", "count_nonzero", "argmin", "argmax"):
        return type(got) is int
    if name in ("sum", "prod"):
        return type(got) is {"b": int, "i": int, "u": int, "f": float, "c": complex}.get(k, type(got))
    return type(got) is {"b": bool, "i": int, "u": int, "f": float, "c": complex}.get(k, type(got))


class Lex(complex):
    """complex numbers in NumPy's (lexicographic) order"""
    __slots__ = ()
    k = property(lambda s: (s.real, s.imag))
    __lt__ = lambda s, o: s.k < Lex(o).k        # noqa: E731
    __gt__ = lambda s, o: s.k > Lex(o).k        # noqa: E731


def lex(v):
    return [lex(x) for x in v] if isinstance(v, list) else Lex(v) if type(v) is complex else v


def unlex(v):
    return [unlex(x) for x in v] if isinstance(v, list) else complex(v) if type(v) is Lex else v


class Check:
    pid = "C04"
    rule = ("transition = one reducer call (name, axis, keepdims, mask_identity) on one layout, compared with a fold over "
            "the decoded lists; non-trivial = distinct result value")
    assumptions = ["fold semantics in vlib/reduce_model.py (NumPy semantics for regular data, positions kept for arg*)",
                   "record, string and union reductions are outside the property"]

    def bounds(self, tier):
        return {"depth": 3 if tier == "quick" else 4, "leaf_values": list(VALS), "reducers": rm.NAMES}

    def units(self, tier):
        kw = dict(records=False, unions=False)
        N = ("N", "i8", VALS)
        F = ("Ns", "f8", tuple(float(x) for x in VALS), "step2")
        sp = [N, F, ("N2", "i8", (3, 2), VALS), ("N2s", "i8", (3, 2), VALS, "F"), ("E",), ("N", "i8", ()),
              ("N2", "i8", (2, 0), ()), ("N2", "i8", (0, 2), ()), ("N2", "i8", (1, 2, 3), VALS), ("N2s", "i8", (2, 3), VALS, "revlast"),
              ("Ns", "i8", VALS, "rev"), ("N2s", "i8", (2, 3), VALS, "step2")]
        sp += gen.layouts(2, [N], [True, True], **kw)[1] + gen.layouts(2, [N], [True, True], **kw)[2]
        sp += gen.layouts(2, [F, ("N2", "i8", (3, 2), VALS), ("N2s", "i8", (3, 2), VALS, "F"), ("E",)], [True, False], **kw)[1]
        sp += gen.layouts(2, [F, ("N2", "i8", (3, 2), VALS), ("N2s", "i8", (3, 2), VALS, "F"), ("E",)], [True, False], **kw)[2]
        sp += gen.layouts(3, [N], [True, True, True] if tier == "thorough" else [False, False, False], **kw)[3]
        if tier == "thorough":
            sp += gen.layouts(4, [N], [False] * 4, **kw)[4]
        # every small list shape, in both list forms
        N4 = ("N", "i8", (2, 0, 1, 2))
        shapes = list(gen.all_listoffset(N4, 3)) + list(gen.all_listarray(("N", "i8", (1, 0, 2)), 2))
        sp += shapes + gen.longs(300, False, False, False)
        sp += [("LO", "64", off, c) for c in list(gen.all_listoffset(N4, 3)) if lay.dlen(c) == 3
               for off in ((0, 3), (0, 1, 3), (0, 0, 2, 3), (1, 2, 2))]
        sp += list(gen.all_indexed(("N", "i8", (2, 0, 1)), 4, True))
        sp += [("LO", "64", (0, 1, 3), c) for c in gen.all_indexed(("N", "i8", (2, 0, 1)), 3, True) if lay.dlen(c) == 3]
        sp += [("IO", "64", ix, ("LO", "64", (0, 2, 2, 3), ("N", "i8", (2, 0, 1)))) for n in (1, 2, 3) for ix in itertools.product((-1, 0, 1, 2), repeat=n)]
        dt = []
        for d in gen.ALL_DTYPES:
            if d[0] == "c" or d[0] in "Mm":
                vals = gen.dtype_values(d)
            else:
                vals = tuple(0.5 if x != x else x for x in gen.dtype_values(d))
            if d[0] == "c":
                tie = (1 + 2j, 1 - 1j, 1 + 3j, 0 + 9j, 1 + 2j, 2 - 9j)
                dt += [("LO", "64", (0, 3, 3, 6), ("N", d, tie)), ("LO", "64", (0, 1, 2, 4, 6), ("N", d, tie)), ("IO", "64", (5, -1, 0, 1, 2), ("N", d, tie)),
                       ("N2", d, (2, 3), tie), ("LO", "64", (0, 2, 3), ("LO", "64", (0, 2, 4, 6), ("N", d, tie)))]
            dt += [("N", d, vals), ("LO", "64", (0, 1, 1, 4), ("N", d, vals)), ("L", "64", (2, 0), (4, 2), ("N", d, vals)),
                   ("LO", "64", (0, 1, 3), ("LO", "64", (0, 2, 2, 4), ("N", d, vals))),
                   ("IO", "64", (3, -1, 0, 1), ("N", d, vals))]
        u = [("lay", sp[i:i + 10]) for i in range(0, len(sp), 10)]
        u += [("dt", dt[i:i + 5]) for i in range(0, len(dt), 5)]
        return u

    def run_unit(self, unit, rec):
        for d in unit[1]:
            x = mk(d)
            v, t = decode(x), mtype(x)
            rec.state(repr(d))
            n = rm.depth(("list", t)) - 1
            lt = rm.leaftype(t)
            dt = lt[1] if lt[0] == "num" else "f8"
            arr = ak.Array(x)
            for name in rm.NAMES:
                k = np.dtype(dt).kind
                if k in "cMm" and unit[0] == "dt" and not supported(name, k):
                    continue
                for axis in [None] + list(range(-n, n)):
                    for keep in (False, True):
                        for mask in (False, True, "default"):
                            if axis is None and (keep or mask != "default"):
                                continue
                            if axis is not None and mask == "default" and (keep or axis >= 0):
                                continue
                            if rec.begin((d, name, axis, keep, mask)):
                                one(rec, arr, v, t, n, dt, name, axis, keep, mask)


def supported(name, k):
    if k == "c":
        return True
    if k == "M":
        return name in ("count", "min", "max", "argmin", "argmax")
    return name in ("count", "min", "max", "argmin", "argmax", "sum")


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [] if v is None else [v]


def one(rec, arr, v, t, n, dt, name, axis, keep, mask):
    rec.step()
    f = getattr(ak, name)
    m = rm.DEFMASK.get(name, False) if mask == "default" else mask
    lo, hi = ident(dt)
    if name in ("min", "max") and not m and np.dtype(dt).kind in "Mmc":
        rec.note("undetermined")
        return
    red = rm.reducer(name, m, lo, hi)
    if name == "sum" and np.dtype(dt).kind == "m":
        base, zero = red, lay.DT64((np.dtype(dt).str[1:], 0))
        red = lambda pairs: zero if not pairs and not m else base(pairs)   # noqa: E731
    other = None
    if np.dtype(dt).kind == "c":
        v = lex(v)
    if axis is None:
        fl = flat(v)
        if not fl and name in ("min", "max", "argmin", "argmax"):
            rec.note("undetermined")   # reducing nothing at all with axis=None is left to NumPy (which raises)
            return
        want = red(list(enumerate(fl)))
        if name in ("argmin", "argmax") and has_opt(t):
            rec.note("undetermined")   # position in which flattening (with or without missing) is not documented
            return
    else:
        pos = axis + n if axis < 0 else axis
        want = rm.reduce(v, t, pos, red, keep)
        # a regular dimension of (or over) missing values becomes variable-length, so an
        # empty group may have no items there
        other = rm.reduce(v, rm.unreg(t), pos, red, keep)
    if name in ("sum", "prod") and axis is None and np.dtype(dt).kind in "iub" and isinstance(want, int):
        want = wrap(want, dt)
    elif name in ("sum", "prod") and np.dtype(dt).kind in "iub":
        want, other = wrap(want, dt), wrap(other, dt)
    want, other = unlex(want), unlex(other)
    kw = {} if mask == "default" else {"mask_identity": mask}
    try:
        if axis is None:
            got = decode(f(arr))
        else:
            got = decode(f(arr, axis=axis, keepdims=keep, **kw))
    except lay.Undecodable as e:
        rec.fail("result is not a valid layout: %s" % e)
        return
    except (ValueError, TypeError) as e:
        rec.fail("raised %s\nexpected %r" % (str(e).split("\n")[0], want))
        return
    rec.outcome(repr(got))
    tol = 1e-6 if np.dtype(dt).itemsize <= 4 and np.dtype(dt).kind == "f" or dt == "c8" else 1e-12
    if not lay.close(got, want, tol, 0) and not (axis is not None and lay.close(got, other, tol, 0)):
        if name in ("argmin", "argmax") and axis is not None and n - pos > 2 and got in (
                rm.reduce(v, t, pos, red, keep, True), rm.reduce(v, rm.unreg(t), pos, red, keep, True)):
            rec.fail("got %r\nexpected %r" % (got, want), key="arg-position-rank")
            return
        rec.fail("got %r\nexpected %r" % (got, want))
    elif not (axis is None) and rm.leaftype(t)[0] == "num" and not kindok(name, dt, got):
        rec.fail("wrong element kind: got %r for dtype %s" % (got, dt))


def has_opt(t):
    return t[0] == "opt" or (t[0] in ("list", "reg") and has_opt(t[-1]))


def wrap(w, dt):
    if isinstance(w, list):
        return [wrap(x, dt) for x in w]
    if type(w) is not int:
        return w
    if np.dtype(dt).kind == "u":
        return w % (1 << 64)
    w %= 1 << 64
    return w - (1 << 64) if w >= 1 << 63 else w
