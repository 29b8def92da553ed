"""C29: mean, moment, var, std, covar, corr, linear_fit, ptp and softmax equal their definitions on each group of values."""
import math

import awkward as ak
import numpy as np
from vlib import gen, lay, ops
from vlib import reduce_model as rm
from vlib.lay import decode, mk, mtype

VALS = (3, 0, 3, -1, 2, 5)
NAN = float("nan")


def relabel(d, f):
    """the same layout with other numbers in its leaves"""
    if d[0] in ("N", "Ns"):
        return (d[0], f[1] or d[1], tuple(f[0](x) for x in d[2])) + d[3:]
    if d[0] in ("N2", "N2s"):
        return (d[0], f[1] or d[1], d[2], tuple(f[0](x) for x in d[3])) + d[4:]
    return tuple(relabel(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in d)


YOF = (lambda x: x * x - 3 * x + 1, None)
WOF = (lambda x: (1.0, 0.5, 2.0)[int(x) % 3], "f8")


def zipped(*vs):
    if vs[0] is None:
        return None
    if isinstance(vs[0], list):
        return [zipped(*x) for x in zip(*vs)]
    return vs


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def root(a):
    return NAN if a != a or a < 0 else math.sqrt(a)


def fold(name, mask, arg):
    def f(pairs):
        xs = [x for _, x in pairs]
        if name == "ptp":
            if not xs:
                return None if mask else 0
            return max(x[0] for x in xs) - min(x[0] for x in xs)
        if mask and not xs:
            return None
        sw = sum(w for _, _, w in xs)
        if name == "mean":
            return div(sum(x * w for x, _, w in xs), sw)
        if name == "moment":
            return div(sum((x * w) ** arg for x, _, w in xs), sw)
        mx, my = div(sum(x * w for x, _, w in xs), sw), div(sum(y * w for _, y, w in xs), sw)
        sxx = sum((x - mx) ** 2 * w for x, _, w in xs)
        syy = sum((y - my) ** 2 * w for _, y, w in xs)
        sxy = sum((x - mx) * (y - my) * w for x, y, w in xs)
        if name in ("var", "std"):
            v = div(sxx, sw)
            if arg:
                v = v * div(sw, sw - arg)
            return v if name == "var" else root(v)
        if name == "covar":
            return div(sxy, sw)
        if name == "corr":
            return div(sxy, root(sxx * syy))
        if name == "linear_fit":
            sx, sy = sum(x * w for x, _, w in xs), sum(y * w for _, y, w in xs)
            sx2, s2 = sum(x * x * w for x, _, w in xs), sum(x * y * w for x, y, w in xs)
            delta = sw * sx2 - sx * sx
            return {"intercept": div(sx2 * sy - sx * s2, delta), "slope": div(sw * s2 - sx * sy, delta),
                    "intercept_error": root(div(sx2, delta)), "slope_error": root(div(sw, delta))}
        raise AssertionError(name)
    return f


def regular(t):
    while t[0] in ("reg", "opt", "list"):
        if t[0] != "reg":
            return False
        t = t[-1]
    return True


def noreg(t):
    """(in an empty group, regular lists may have lost their size)"""
    if t[0] == "reg":
        return [k for c in noreg(t[2]) for k in (("reg", t[1], c), ("list", c))]
    return [(t[0], c) for c in noreg(t[1])] if t[0] in ("list", "opt") else [t]


def has_reg(t):
    return t[0] == "reg" or t[0] in ("list", "opt") and has_reg(t[-1])


def norm(r):
    """missing results of linear_fit: a missing record, or a record of missing numbers"""
    if isinstance(r, dict) and all(x is None for x in r.values()):
        return None
    if isinstance(r, dict) and any(isinstance(x, list) for x in r.values()):
        n = len(next(iter(r.values())))
        return [norm({k: x[i] for k, x in r.items()}) for i in range(n)]
    return [norm(x) for x in r] if isinstance(r, list) else r


def usual(name, arg, axis, wt, keep, mask):
    """the quick tier leaves out repetitions of options that act independently of each other"""
    if (name, arg) in (("moment", 1), ("moment", 3), ("std", 0), ("var", 1)) and not (wt == "yes" and mask and not keep):
        return False
    if axis is not None and axis < 0 and (keep or not mask or wt != "no"):
        return False
    if wt == 2.0 and (keep or not mask):
        return False
    return not (keep and not mask)


NAMES = [("mean", None), ("moment", 1), ("moment", 2), ("moment", 3), ("var", 0), ("var", 1), ("std", 0), ("std", 1), ("covar", None), ("corr", None),
         ("linear_fit", None), ("ptp", None), ("softmax", None)]
CENTRED = ("var", "std", "covar", "corr", "softmax")


class Check:
    pid = "C29"
    rule = "transition = one statistic (name, axis, keepdims, mask_identity, weights) on one layout, compared with the textbook formula over the values of each group; state = distinct layout; non-trivial = distinct result"
    assumptions = ["formulas as documented (moment uses powers of the weighted values); comparison to a relative tolerance of 1e-9",
                   "the second coordinate and the weights have the structure and the missing values of the first",
                   "the statistic of no numbers at all as a scalar, and regular dimensions of no items, are not judged",
                   "statistics that subtract a group's mean (and softmax) may raise where the mean cannot be broadcast: an axis that is not the innermost of variable-length lists"]

    def bounds(self, tier):
        return "%d layouts (depth %d) x %d statistics x every axis x keepdims x mask_identity x {no weights, weights, scalar weight}" % (
            len(self.layouts(tier)), 2 if tier == "quick" else 3, len(NAMES))

    def layouts(self, tier):
        kw = dict(records=False, unions=False)
        N = ("N", "i8", VALS)
        F = ("Ns", "f8", tuple(x + 0.5 for x in VALS), "step2")
        two = [("N2", "i8", (3, 2), VALS), ("N2s", "f8", (2, 3), tuple(float(x) for x in VALS), "F")]
        sp = [N, F, ("N", "f4", (1.0, 4.0, -2.0)), ("N", "i4", VALS), ("N", "f8", (2.5,)), ("N2", "i8", (1, 2, 3), VALS)] + two
        sp += gen.layouts(1, [N, F] + two, [True], **kw)[1]
        sp += gen.layouts(2, [N], [True, False], **kw)[2]
        sp += gen.layouts(2, two, [False, False], **kw)[2]
        sp += list(gen.all_listoffset(("N", "i8", (2, 0, 1, 2)), 3))
        sp += list(gen.all_indexed(("N", "f8", (2.5, 0.0, 1.0)), 3, True))
        sp += gen.longs(60, False, False, False)
        if tier == "thorough":
            sp += gen.layouts(2, [N, F], [True, True], **kw)[2]
            sp += gen.layouts(3, [N], [False, False, False], **kw)[3]
            sp += list(gen.all_listarray(("N", "i8", (1, 0, 2)), 2))
        return sp

    def units(self, tier):
        self.tier = tier
        sp = self.layouts(tier)
        return [sp[i:i + 4] for i in range(0, len(sp), 4)]

    def run_unit(self, unit, rec):
        np.seterr(all="ignore")
        for d in unit:
            x, y, w = mk(d), mk(relabel(d, YOF)), mk(relabel(d, WOF))
            t = mtype(x)
            vs = [decode(k) for k in (x, y, w)]
            n = rm.depth(("list", t)) - 1
            arrs = [ak.Array(k) for k in (x, y, w)]
            rec.state(repr(d))
            for name, arg in NAMES:
                for axis in [None] + list(range(-n, n)):
                    for wt in ("no", "yes", 2.0):
                        if name in ("ptp", "softmax") and wt != "no":
                            continue
                        for keep in (False, True):
                            for mask in (True, False):
                                if axis is None and (keep or not mask) or name == "softmax" and (keep or mask):
                                    continue
                                if self.tier == "quick" and not usual(name, arg, axis, wt, keep, mask):
                                    continue
                                if rec.begin((d, name, arg, axis, wt, keep, mask)):
                                    self.one(rec, arrs, vs, t, n, name, arg, axis, wt, keep, mask)

    def call(self, arrs, name, arg, axis, wt, keep, mask):
        x, y, w = arrs
        kw = {"axis": axis}
        if name != "softmax" and axis is not None:
            kw.update(keepdims=keep, mask_identity=mask)
        if wt != "no":
            kw["weight"] = w if wt == "yes" else wt
        if name == "moment":
            return ak.moment(x, arg, **kw)
        if name in ("var", "std"):
            return getattr(ak, name)(x, ddof=arg, **kw)
        if name in ("covar", "corr", "linear_fit"):
            return getattr(ak, name)(x, y, **kw)
        return getattr(ak, name)(x, **kw)

    def one(self, rec, arrs, vs, t, n, name, arg, axis, wt, keep, mask):
        rec.step()
        x, y, w = vs
        ones = zipped(x)

        def const(v, c):
            return None if v is None else [const(k, c) for k in v] if isinstance(v, list) else c
        z = zipped(x, y, w if wt == "yes" else const(x, 1 if wt == "no" else wt))
        pos = axis if axis is None or axis >= 0 else axis + n
        if name == "softmax":
            want = [self.softmax(x, t, pos)]
        elif axis is None:
            fl = flat(z)
            if not fl:
                rec.note("undetermined")
                return
            want = [fold(name, mask, arg)([(0, k) for k in fl])]
        else:
            f = fold(name, mask, arg)
            want = [rm.reduce(z, k, pos, f, keep) for k in noreg(t)]
        if not flat(z) and (want[0] is None or has_reg(t)):
            rec.note("undetermined")    # nothing at all: no numbers, or regular dimensions of no items
            return
        if name == "ptp" and not mask:
            if not flat(z):
                rec.note("undetermined")
                return
        try:
            r = self.call(arrs, name, arg, axis, wt, keep, mask)
            got = decode(r.layout if isinstance(r, (ak.Array, ak.Record)) else r)
        except lay.Undecodable as e:
            rec.fail("result is not a valid layout: %s" % e)
            return
        except ops.ERR as e:
            if name in CENTRED and pos is not None and pos != n - 1 and not regular(t):
                rec.outcome("raise")
                return
            rec.fail("raised %s\nexpected %r" % (str(e).split("\n")[0], want[0]))
            return
        rec.outcome(repr(got))
        if name == "ptp" and not mask:      # fill_none: only the outermost missing values, those of the array included
            got, want = zeros(got), [zeros(k) for k in want]
        if not any(lay.close(norm(floats(got)), norm(floats(k)), 1e-6 if "f4" in str(t) else 1e-9, 1e-9) for k in want if k is not Skip):
            if Skip in want:
                rec.note("undetermined")
                return
            rec.fail("got %r\nexpected %r" % (norm(got), want[0]))

    def softmax(self, v, t, pos):
        e = lambda k: None if k is None else [e(j) for j in k] if isinstance(k, list) else math.exp(k)   # noqa: E731
        ev = e(v)
        if pos is None:
            s = sum(flat1(ev))
            g = lambda k: None if k is None else [g(j) for j in k] if isinstance(k, list) else k / s     # noqa: E731
            return g(ev)
        sums = rm.reduce(ev, t, pos, lambda pairs: sum(x for _, x in pairs), True)

        def h(k, s, lev):
            if k is None:
                return None
            if not isinstance(k, list):
                return div(k, s)
            return [h(j, s[0] if lev == pos else s[i], lev + 1) for i, j in enumerate(k)]
        return h(ev, sums, 0)


Skip = object()


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [] if v is None else [v]


flat1 = flat


def zeros(v):
    return [zeros(x) for x in v] if isinstance(v, list) else 0 if v is None else v


def floats(v):
    if isinstance(v, list):
        return [floats(x) for x in v]
    if isinstance(v, dict):
        return {k: floats(x) for k, x in v.items()}
    return float(v) if isinstance(v, (int, float)) else v
