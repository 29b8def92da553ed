"""C19: (1) every operation of the catalogue on lazy arrays (whole, nested, with and without known form and length) against the eager array; (2) all access histories x cache
policies x all schedules of cache misses, with the number of generator runs counted; (3) misbehaving generators; (4) lazily read buffers: what is read, and when."""
import itertools
import re

import awkward as ak
import numpy as np
from checks.c20 import simple
from checks.c22 import PAIR, three, trees
from vlib import lay, ops
from vlib.lay import L, decode, mk

# what these return describes the memory, or labels the lazy node itself
NOT = {"to_buffers", "form", "virtual", "fields", "with_parameter"}


class Gen:
    """a generator that counts its runs"""

    def __init__(self, layout):
        self.layout, self.runs = layout, 0

    def __call__(self):
        self.runs += 1
        return self.layout


class Forgetful:
    """a cache that may lose any entry at any time: a schedule says which lookups of present keys miss"""

    def __init__(self, schedule):
        self.d, self.schedule, self.at = {}, schedule, 0

    def __getitem__(self, k):
        out = self.d[k]
        miss = self.at < len(self.schedule) and self.schedule[self.at]
        self.at += 1
        if miss:
            del self.d[k]
            raise KeyError(k)
        return out

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Dropping(Forgetful):
    def __init__(self):
        Forgetful.__init__(self, ())

    def __setitem__(self, k, v):
        pass


def lazy(layout, form=True, length=True, cache="new"):
    g = Gen(layout)
    return g, ak.virtual(g, form=layout.form if form else None, length=len(layout) if length else None, cache=cache)


def inner(d, known):
    """d with its leaves (and its whole) replaced by lazy ones, as descriptions"""
    if d[0] in ("N", "N2", "S", "Ns"):
        return ("V", d, known)
    out = []
    for x in d:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in lay_kinds and d[0] not in ("N", "S", "N2", "Ns"):
            out.append(inner(x, known))
        elif isinstance(x, tuple) and x and all(isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in lay_kinds for y in x):
            out.append(tuple(inner(y, known) for y in x))
        else:
            out.append(x)
    return tuple(out)


lay_kinds = {"N", "N2", "Ns", "S", "E", "LO", "L", "R", "I", "IO", "BM", "bM", "UM", "D", "T", "U", "V"}


def typeof(x):
    """the type, without the length; an option of an option is an option"""
    t = re.sub(r"^\d+ \* ", "", str(ak.type(x)))
    t = re.sub(r"\?(option\[)", r"\1", re.sub(r"\?\?+", "?", t))
    return re.sub(r"\b\d+ \* ", "var * ", t)  # (merging and zipping make regular lists variable)


def outcome(call):
    try:
        r = call()
        return ("ok", simple(r)), r
    except ops.ERR as e:
        return ("error", type(e).__name__), None


# ---------------------------------------------------------------- histories
# derive(array) -> array
DERIVE = [
    ("[1:]", lambda a: a[1:]), ("[:-1]", lambda a: a[:-1]), ("[::-1]", lambda a: a[::-1]), ("[[1, 0]]", lambda a: a[[1, 0]]), ("[mask]", lambda a: a[np.arange(len(a)) % 2 == 0]),
    ("x", lambda a: a["x"]), ("[[x, y]]", lambda a: a[["x", "y"]]), ("[1:, x]", lambda a: a[1:, "x"]), ("[..., 0:1]", lambda a: a[..., 0:1]), ("[-1]", lambda a: a[-1]),
    ("+1", lambda a: a + 1), ("zip", lambda a: ak.zip({"x": a, "y": a}, depth_limit=1)), ("flatten", lambda a: ak.flatten(a, axis=1)), ("concat", lambda a: ak.concatenate([a, a])),
    ("mask", lambda a: ak.mask(a, np.arange(len(a)) % 2 == 0)), ("with z", lambda a: ak.with_field(a, a, "x")), ("packed", lambda a: ak.packed(a)),
]
LOOK = [
    ("len", lambda a: len(a)), ("list", lambda a: ak.to_list(a)), ("type", lambda a: typeof(a)), ("fields", lambda a: ak.fields(a)), ("sum", lambda a: ak.sum(a, axis=None)),
    ("num", lambda a: ak.num(a, axis=0)), ("iter", lambda a: [ak.to_list(x) for x in a]), ("[0]", lambda a: a[0]), ("repr", lambda a: re.sub(r"\?\?+", "?", re.sub(r"<[^ >]*", "", repr(a)))[:24]), ("valid", lambda a: ak.is_valid(a)),
    ("count", lambda a: ak.count(a, axis=-1)), ("materialized", lambda a: ak.materialized(a)), ("ndim", lambda a: a.ndim),
]
# with a known form and length, none of these needs the data
FREE = {"[1:]", "[:-1]", "x", "[[x, y]]", "len", "type", "fields", "zip", "ndim"}
RAISED = object()

BASES = [
    ("N", "i8", (3, 1, 2)), ("S", ("b", "", "a")), ("LO", "64", (0, 2, 2, 3), ("N", "f8", (0.5, 1.5, 2.5))), ("L", "32", (1, 0, 0), (3, 0, 1), ("N", "i8", (3, 1, 2))),
    ("D", ("x", "y"), (("N", "i8", (3, 1, 2)), ("LO", "64", (0, 2, 2, 3), ("N", "i8", (7, 8, 9)))), 3),
    ("LO", "64", (0, 2, 2, 3), ("D", ("x", "y"), (("N", "i8", (3, 1, 2)), ("N", "f8", (0.5, 1.5, 2.5))), 3)),
    ("BM", (1, 0, 1), True, ("N", "i8", (3, 1, 2))), ("bM", (1, 0, 1), True, 3, True, ("N", "i8", (3, 1, 2))), ("IO", "64", (2, -1, 0), ("D", ("x", "y"), (("N", "i8", (3, 1, 2)), ("N", "i8", (4, 5, 6))), 3)),
    ("R", 2, 0, ("N", "i8", (0, 1, 2, 3, 4, 5))), ("N2", "i8", (3, 2), (5, 4, 3, 2, 1, 0)), ("U", "64", (0, 1, 0), (0, 0, 1), (("N", "i8", (3, 1)), ("S", ("q",)))), ("I", "64", (2, 0, 0), ("N", "i8", (3, 1, 2))),
]


class Check:
    pid = "C19"
    rule = "a lazy array gives the values, type and results of the eager one on every history and miss schedule; generator runs are counted"
    assumptions = ["generators are pure: they return equal arrays each time they run", "whether an operation that could be satisfied from the form alone generates is judged for length, type, fields, ranges and fields selection",
                   "the text of error messages is not compared, nor the class of the error"]

    def bounds(self, tier):
        d = "3 steps" if tier != "quick" else "2 steps, and of 2 derivations and a step,"
        return {"histories": "all sequences of %s over %d derivations and %d observations of the current or the original array, %d base layouts, 4 cache policies, form/length known or not" % (
            d, len(DERIVE), len(LOOK), len(BASES)), "schedules": "all schedules of lost cache entries with at most %d losses among the first 12 lookups" % (1 if tier == "quick" else 2)}

    def units(self, tier):
        self.tier = tier
        n = len(trees(tier))
        out = [("ops", i, 64) for i in range(64)]
        out += [("pair", i, 16) for i in range(16)]
        out += [("hist", b, m) for b in range(len(BASES)) for m in range(6)]
        out += [("lost", b, k) for b in range(len(BASES)) for k in (True, False)]
        out += [("bad", b, 0) for b in range(len(BASES))]
        out += [("buffers", b, 0) for b in range(len(BASES))]
        return out

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    # ---- every operation
    def u_ops(self, rec, part, of):
        cat = [o for o in ops.catalogue() if o[0] not in NOT and o[1] != "layout"]
        ts = [d for d in trees(self.tier) if "'V'" not in repr(d)]
        if self.tier == "quick":
            ts = ts[::3]
        for k, d in enumerate(ts):
            if k % of != part:
                continue
            variants = [("whole, all known", lambda: lazy(mk(d))[1]), ("whole, nothing known", lambda: lazy(mk(d), False, False)[1])]
            if inner(d, True) != ("V", d, True):
                variants += [("inside", lambda: ak.Array(mk(inner(d, True)))), ("inside unknown", lambda: ak.Array(mk(inner(d, False))))]
            for name, group, args, call in cat:
                want = None
                for vname, make in variants:
                    if not rec.begin(lambda: {"layout": d, "lazy": vname, "op": name}):
                        continue
                    rec.state((repr(d), vname))
                    rec.step()
                    if want is None:
                        a = ak.Array(mk(d))
                        want, er = outcome(lambda: call(a, *args(a)))
                        wt = typeof(er) if isinstance(er, ak.Array) else None
                    b = make()
                    got, lr = outcome(lambda: call(b, *args(b)))
                    rec.outcome(repr(got)[:200])
                    m = self.differ(got, want)
                    if m is not None and want[0] == "error" and got[0] == "ok" and "sort" in name and "'S'" in repr(d):
                        m = None  # strings across lists: not implemented, except where the string is lazy
                    if m is not None and name in ("concatenate self axis=1", "concatenate self axis=-1") and any(k in repr(d) for k in ("'BM'", "'bM'", "'IO'", "'UM'")):
                        m = None  # joining a missing list with a missing list is left open
                    if m is None and isinstance(lr, ak.Array) and wt is not None and vname.startswith("whole") and not (name.startswith("where") and "'U'" in repr(d)):
                        t = typeof(lr)
                        if t != wt:
                            m = "type %s instead of %s" % (t, wt)
                    if m is not None:
                        # (a recorded defect: the predicted form of a part of a lazy array still has bits where the part has bytes)
                        rec.fail(m, key="lazy-part-bitmasked" if "'bM'" in repr(d) and vname == "whole, all known" and got == ("error", "ValueError") and want[0] == "ok" else None)

    @staticmethod
    def differ(got, want):
        if got[0] != want[0]:
            return "got %r\nthe eager array gives %r" % (got, want)
        if got[0] == "ok":
            try:
                # NumPy's vector and scalar loops may differ in the last digit
                if not (lay.loose(got[1], want[1]) or lay.close(got[1], want[1], 1e-13, 0)):
                    return "got %r\nthe eager array gives %r" % (got[1], want[1])
            except Exception:
                if repr(got[1]) != repr(want[1]):
                    return "got %r\nthe eager array gives %r" % (got[1], want[1])
        return None

    def u_pair(self, rec, part, of):
        ts = three()
        for k, (d, e) in enumerate(itertools.product(ts, ts)):
            if k % of != part:
                continue
            for name, call in PAIR:
                want = None
                for vname in ("left", "right", "both"):
                    if not rec.begin(lambda: {"left": d, "right": e, "lazy": vname, "op": name}):
                        continue
                    rec.state((repr(d), repr(e), vname))
                    rec.step()
                    if want is None:
                        want, _ = outcome(lambda: call(ak.Array(mk(d)), ak.Array(mk(e))))
                    a = lazy(mk(d))[1] if vname != "right" else ak.Array(mk(d))
                    b = lazy(mk(e))[1] if vname != "left" else ak.Array(mk(e))
                    got, _ = outcome(lambda: call(a, b))
                    m = self.differ(got, want)
                    if m is not None:
                        rec.fail(m)

    @staticmethod
    def optmask(hist, m):
        """the recorded defect: masking a lazy array that turns out to be of option type"""
        names = [n for _, n, _ in hist]
        if "mask" in names[:-1] and any(n in names[names.index("mask") + 1:] for n in ("packed", "valid")) and ("(valid): got False" in m or "(packed) raised AttributeError" in m):
            return "mask-of-lazy-option"
        return None

    # ---- histories
    def steps(self):
        return [("d", n, f) for n, f in DERIVE] + [("l", n, f) for n, f in LOOK] + [("o", n, f) for n, f in LOOK if n in ("list", "len", "[0]")]

    def u_hist(self, rec, b, mode):
        base = mk(BASES[b])
        known = mode not in (1, 5)
        cache = {0: lambda: "new", 1: lambda: "new", 2: lambda: {}, 3: lambda: None, 4: Dropping, 5: lambda: None}[mode]
        atmost = mode in (0, 1, 2)

        def check(g, free):
            if known and free and g.runs:
                return "the generator ran although nothing needed the data"
            if atmost and g.runs > 1:
                return "the generator ran %d times with a cache that keeps its items" % g.runs
            return None

        holder = []

        def make():
            c = cache()
            holder[:] = [c]
            return lazy(base, known, known, c)

        s = self.steps()
        if self.tier != "quick":
            space = itertools.product(s, repeat=3)
        elif mode in (0, 1):
            der = [x for x in s if x[0] == "d"]
            space = itertools.chain(itertools.product(s, repeat=2), itertools.product(der, der, s))
        else:
            space = itertools.product(s, repeat=2)
        for hist in space:
            depth = len(hist)
            if not rec.begin(lambda: {"layout": BASES[b], "mode": mode, "history": [(k, n) for k, n, _ in hist]}):
                continue
            rec.step(depth)
            rec.state((b, mode, tuple(n for k, n, _ in hist if k == "d")))
            m = self.play(hist, base, make, check)
            if m is not None:
                rec.fail(m, key=self.optmask(hist, m))

    def play(self, hist, base, make, check):
        g, cur = make()
        eager = orig = ak.Array(base)
        keep = cur if any(k == "o" for k, _, _ in hist) else None
        free = True
        for i, (kind, name, f) in enumerate(hist):
            if kind == "d":
                try:
                    wr = f(eager)
                except ops.ERR:
                    wr = RAISED
                try:
                    gr = f(cur)
                except ops.ERR as e:
                    if wr is RAISED:
                        return check(g, False)
                    return "step %d (%s) raised %s: %s" % (i + 1, name, type(e).__name__, str(e).split("\n")[0][:200])
                free = free and name in FREE
                m = check(g, free)
                if m is not None:
                    return "step %d (%s): %s" % (i + 1, name, m)
                if wr is RAISED:
                    # a mistake may be reported when the data are needed
                    try:
                        simple(gr)
                    except ops.ERR:
                        return None
                    return "step %d (%s): got %r, the eager array raises" % (i + 1, name, simple(gr))
                if not isinstance(wr, ak.Array):
                    return self.differ(("ok", simple(gr)), ("ok", simple(wr))) or check(g, False)
                cur, eager = gr, wr
                gr = None
            else:
                a, w = (keep, orig) if kind == "o" else (cur, eager)
                want, _ = outcome(lambda: f(w))
                got, _ = outcome(lambda: f(a))
                a = None
                free = free and name in FREE
                m = self.differ(got, want) or check(g, free)
                if m is not None:
                    return "step %d (%s): %s" % (i + 1, name, m)
        return self.differ(outcome(lambda: ak.to_list(cur))[0], outcome(lambda: ak.to_list(eager))[0]) or check(g, False)

    # ---- entries lost at any lookup
    def u_lost(self, rec, b, known):
        base = mk(BASES[b])
        most = 1 if self.tier == "quick" else 2
        for hist in itertools.product(self.steps(), repeat=2):
            if not rec.begin(lambda: {"layout": BASES[b], "known": known, "history": [(k, n) for k, n, _ in hist]}):
                continue
            todo = [()]
            while todo:
                sch = todo.pop()
                used = []

                def make():
                    c = Forgetful(sch)
                    used.append(c)
                    return lazy(base, known, known, c)

                rec.step(2)
                rec.note("schedules")
                m = self.play(hist, base, make, lambda g, free: "the generator ran %d times for %d losses" % (g.runs, sum(sch)) if g.runs > 1 + sum(sch) else None)
                rec.state((b, known, hist[0][1], hist[1][1], used[0].at, sch))
                if m is not None:
                    rec.fail("losing lookups %s: %s" % ([i for i, x in enumerate(sch) if x], m), key=self.optmask(hist, m))
                    break
                if sum(sch) < most:
                    todo += [sch + (0,) * (i - len(sch)) + (1,) for i in range(len(sch), min(used[0].at, 12))]

    # ---- generators that do not keep their promise
    def u_bad(self, rec, b, _):
        good = mk(BASES[b])
        n = len(good)
        other = L.NumpyArray(np.arange(n).astype("c16")) if b else L.ListOffsetArray64(L.Index64(np.arange(n + 1)), L.NumpyArray(np.arange(n) * 1.5))
        faults = {"other form": lambda: other, "shorter": lambda: good[: n - 1], "empty": lambda: good[0:0], "longer": lambda: ak.concatenate([ak.Array(good), ak.Array(good)], highlevel=False),
                  "not an array": lambda: None, "raises": lambda: (_ for _ in ()).throw(OSError("gone"))}
        kinds = [("f", n, f) for n, f in LOOK + DERIVE]
        for fname, fault in faults.items():
            for form, length in itertools.product((True, False), repeat=2):
                if fname == "other form" and not form or fname in ("shorter", "empty", "longer") and not length:
                    continue
                if fname == "longer" and good.form != fault().form:
                    continue
                for cachekind in ("keep", "none"):
                    for (_, n1, f1), times in itertools.product(kinds, (1, 2)):
                        if not rec.begin({"layout": BASES[b], "generator": fname, "form known": form, "length known": length, "cache": cachekind, "access": n1, "bad runs": times}):
                            continue
                        rec.step()
                        rec.state((b, fname, form, length, n1))
                        state = {"runs": 0}

                        def generate():
                            state["runs"] += 1
                            return fault() if state["runs"] <= times else good

                        cache = {} if cachekind == "keep" else None
                        a = ak.virtual(generate, form=good.form if form else None, length=n if length else None, cache=cache)
                        want, _ = outcome(lambda: f1(ak.Array(good)))
                        try:
                            got = ("ok", simple(f1(a)))
                        except ops.ERR + (OSError,) as e:
                            got = ("error", type(e).__name__)
                        if state["runs"] == 0:
                            continue  # (not needed)
                        if fname == "longer":
                            # more elements than announced: an error, or only the announced ones
                            m = None if got[0] == "error" else self.differ(got, want)
                        elif got[0] == "ok" and want[0] == "ok" and state["runs"] <= times and n1 != "repr":
                            m = "gave %r from a generator that broke its promise" % (got[1],)
                        else:
                            m = None
                        if m is None and fname != "longer":
                            # the failure leaves nothing behind
                            for _ in range(3):
                                try:
                                    again = ("ok", ak.to_list(a))
                                except ops.ERR + (OSError,):
                                    again = None
                                if again is not None:
                                    break
                            if again is None:
                                m = "still fails when the generator works again"
                            else:
                                m = self.differ(again, ("ok", ak.to_list(good)))
                        if m is not None:
                            rec.fail(m)

    # ---- buffers read lazily
    def u_buffers(self, rec, b, _):
        base = mk(BASES[b])
        form, length, container = ak.to_buffers(base, form_key="n{id}")
        owner = {}
        for k in container:
            owner.setdefault(k.split("-", 1)[1].split("-")[0], []).append(k)

        class Container:
            def __init__(self):
                self.read = []

            def __getitem__(self, k):
                self.read.append(k)
                return container[k]

        depth = 2 if self.tier == "quick" else 3
        for hist in itertools.product(self.steps(), repeat=depth):
            for key in (None, "k"):
                if not rec.begin(lambda: {"layout": BASES[b], "history": [(k, n) for k, n, _ in hist], "lazy_cache_key": key}):
                    continue
                rec.step(depth)
                held = []

                def make():
                    c = Container()
                    held[:] = [c]
                    a = ak.from_buffers(form, length, c, lazy=True, lazy_cache={}, lazy_cache_key=key)
                    return c, a

                def check(c, free):
                    if free and c.read:
                        return "read %s although nothing needed the data" % (c.read,)
                    twice = {k for k in c.read if c.read.count(k) > 1}
                    if twice:
                        return "read %s more than once" % (sorted(twice),)
                    return None

                m = self.play(hist, base, make, check)
                rec.state((b, hist[0][1], hist[1][1], tuple(sorted(held[0].read))))
                if m is not None:
                    rec.fail(m, key=self.optmask(hist, m))
