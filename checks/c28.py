"""C28: zip, unzip, with_field, field assignment, with_name and fields, on every layout of the bounded space that contains records,
every field position, nesting path and kind of new value."""
import itertools

import awkward as ak
import numpy as np
from checks.c10 import Rules, SC
from vlib import gen, lay, slicing
from vlib.diff import Bad, Maybe, Skip, compare
from vlib.lay import L, decode, mk, mtype


def recof(t):
    """the outermost record type and whether a union lies above it"""
    k = t[0]
    if k == "rec":
        return t
    if k in ("list", "reg", "opt"):
        return recof(t[-1])
    if k == "uni":
        raise Skip
    return None


def names(t):
    r = recof(t)
    if r is None:
        return []
    return list(r[1]) if r[1] is not None else [str(i) for i in range(len(r[2]))]


def m_with_field(v, t, what, wt, where):
    """what, wt: value and element type (or scalar, SC)"""
    r = recof(t)
    if r is None:
        raise Bad
    tup = r[1] is None

    def leaf(args):
        (b, bt), (w, _) = args
        if tup:
            if where is None:
                return b + (w,)
            d = {str(i): x for i, x in enumerate(b)}
        else:
            d = dict(b)
        key = where
        if where is None:
            key = str(len(d))
            if key in d:
                raise Skip
        d.pop(key, None)
        d[key] = w
        return d

    def stop(ts, level):
        return ts[0][0] == "rec"
    # a missing new value above the records makes them missing, as in any broadcasting: left open
    if wt is not SC and optabove(wt, t):
        raise Skip
    rules = Rules(leaf, records=False, right=False, stop=stop)
    top = [(v, ("reg", len(v), t)), (what, ("reg", len(what), wt) if wt is not SC else SC)]
    if wt is not SC and len(what) != len(v):
        if len(what) == 1 or len(v) == 1:
            raise Skip          # broadcasts a length of one
        raise Bad
    return rules.go(top)


def optabove(wt, t):
    while True:
        if t[0] == "rec":
            return False
        if t[0] == "opt":
            t = t[1]
            if wt[0] == "opt":
                return True
            continue
        if wt[0] == "opt":
            return True
        t = t[-1]
        if wt[0] in ("list", "reg"):
            wt = wt[-1]


def typeof(t, wt, where):
    """element type after with_field (record node replaced); used to go on along a path"""
    k = t[0]
    if k == "rec":
        ks = names(t)
        cs = list(t[2])
        key = where if where is not None else str(len(ks))
        if key in ks:
            i = ks.index(key)
            del ks[i], cs[i]
        return ("rec", tuple(ks) + (key,) if not (t[1] is None and where is None) else None, tuple(cs) + (wt,))
    return t[:-1] + (typeof(t[-1], wt, where),)


def bases():
    n3 = ("N", "i8", (1, 2, 3))
    f3 = ("N", "f8", (0.5, 1.5, 2.5))
    s3 = ("S", ("a", "", "ccc"))
    n4 = ("N", "i8", (1, 2, 3, 4))
    recs = [
        ("D", ("x",), (n3,), 3), ("D", ("x", "y"), (n3, f3), 3), ("D", ("x", "y", "z"), (n4, f3, s3), 3), ("T", (n3, f3), 3), ("T", (n4,), 3), ("D", ("x", "y"), (n4, f3), 2),
        ("D", ("y", "x"), (("LO", "64", (0, 2, 2, 3), n3), n3), 3), ("T", (("LO", "64", (0, 2, 2, 3), n3), n3), 3),
        ("D", ("a", "b"), (("D", ("x", "y"), (n3, f3), 3), n3), 3), ("D", ("a",), (("T", (n3, f3), 3),), 3),
        ("D", ("a", "b"), (("LO", "64", (0, 2, 2, 3), ("D", ("x", "y"), (n3, f3), 3)), n3), 3),
        ("D", ("0", "x"), (n3, f3), 3),
        ("D", ("a", "b"), (("IO", "64", (0, -1, 1), ("D", ("x", "y"), (n3, f3), 3)), n3), 3),
        ("D", ("x", "y"), (("IO", "64", (0, -1, 1), n3), ("R", 1, 0, f3)), 3),
    ]
    out = []
    for r in recs:
        m = gen.dlen(r)
        out += [r, ("P", (("__record__", "Point"), ("doc", "about")), r), ("I", "64", (m - 1, 0, 0), r), ("LO", "64", (0, 1, 1, m), r), ("L", "32", (m - 1, 0, 0), (m, 0, 2), r),
                ("R", m - 1, 0, r), ("R", 1, 0, r), ("IO", "64", (0, -1, m - 1), r), ("BM", (1, 0, 1)[:m], True, r), ("bM", (1, 0, 1)[:m], True, m, True, r), ("UM", r),
                ("V", r, True), ("V", r, False), ("LO", "64", (0, 1, 1, 3), ("IO", "64", (0, -1, m - 1), r)), ("IO", "64", (0, -1, 1), ("LO", "64", (0, 1, m), r)),
                ("LO", "64", (0, 1, 1, 2), ("LO", "64", (0, 1, m), r)), ("LO", "64", (1, 1, m, m), r), ("N", "i8", (1, 2, 3)), ("LO", "64", (0, 0, 0, 3), n3)]
    seen = set()
    return [d for d in out if not (d in seen or seen.add(d))]


def whats(d):
    """new values for base d (a top-level length n and, where it has lists, matching structure)"""
    n = gen.dlen(d)
    out = [("scalar", 5), ("scalar", 2.5), ("scalar", True), ("scalar", None), ("scalar", "text")]
    flat = ("N", "i8", tuple(100 + i for i in range(n)))
    out += [flat, ("Ns", "f8", tuple(100.5 + i for i in range(n)), "step2"), ("S", tuple("s%d" % i for i in range(n)))]
    out += [("IO", "64", tuple(-1 if i == 1 else i for i in range(n)), flat) if n else ("IO", "64", (), flat)]
    out += [("N", "i8", tuple(range(n + 1))), ("N", "i8", tuple(range(n + 2)))]
    out += [("D", ("p", "q"), (flat, flat), n), ("T", (flat,), n), ("I", "64", tuple(reversed(range(n))), flat), ("V", flat, True)]
    out += [("LO", "64", tuple(range(n + 1)), flat), ("R", 2, 0, ("N", "i8", tuple(range(2 * n)))), ("N2", "i8", (n, 2), tuple(range(2 * n)))]
    # the structure of the base itself, with numbers for records
    c = gen.core(d)
    if c[0] in ("LO", "L") and gen.core(c[-1])[0] in ("D", "T", "P"):
        m = gen.dlen(c[-1])
        leaf = ("N", "i8", tuple(1000 + i for i in range(m)))
        out += [c[:-1] + (leaf,), c[:-1] + (("S", tuple("t%d" % i for i in range(m))),)]
        out += [c[:-1] + (("LO", "64", tuple(range(m + 1)), leaf),)]
        if m:
            out += [c[:-1] + (("IO", "64", tuple(-1 if i == 0 else i for i in range(m)), leaf),)]
    if c[0] == "R":
        m = gen.dlen(c[3])
        out += [("R", c[1], c[2], ("N", "i8", tuple(1000 + i for i in range(m))))]
    return out


def wmake(w):
    if w[0] == "scalar":
        return w[1], w[1], SC
    x = mk(w)
    return ak.Array(x), decode(x), mtype(x)


def recparams(x, depth=0):
    """record names/parameters by nesting of records, outermost first"""
    if isinstance(x, L.RecordArray):
        return [(depth, dict(x.parameters))] + [p for c in x.contents for p in recparams(c, depth + 1)]
    if isinstance(x, lay.UNIONS):
        return [p for c in x.contents for p in recparams(c, depth)]
    if isinstance(x, L.VirtualArray):
        return recparams(x.array, depth)
    if hasattr(x, "content"):
        return recparams(x.content, depth)
    return []


class Check:
    pid = "C28"
    rule = ("transition = one record operation compared with its effect on the list of records; state = distinct (array, operation); non-trivial = distinct result")
    assumptions = ["a new value is broadcast to the records by the rules of C10; where it may be missing at or above the records, or has length 1, nothing is compared",
                   "a replaced field moves to the end; naming a slot of a tuple turns it into a record"]

    def units(self, tier):
        self.tier = tier
        nb = len(bases())
        out = [("field", i) for i in range(nb)] + [("path", p) for p in range(4)] + [("zip", p) for p in range(8)] + [("name", p) for p in range(8)]
        return out + [("record",), ("seq", 0), ("seq", 1), ("seq", 2)]

    def bounds(self, tier):
        return ("%d record layouts (14 record types under lists, options, indexes, regular and lazy nodes) x 13-22 new values x every field position; all paths into nested "
                "records; zip of all pairs and triples of 12 arrays x depth limits; sequences of 3 assignments; all layouts of depth 2 for fields/unzip/with_name" % len(bases()))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    # ------------------------------------------------------------ with_field / assignment

    def one(self, rec, d, x, w, where):
        what, wv, wt = wmake(w)
        v, t = decode(x), mtype(x)
        a = ak.Array(x)
        other = ak.Array(x)
        ks = names(t)

        def model():
            return m_with_field(v, t, wv, wt, where)

        def also(raw):
            if decode(other) != v and not lay.same(decode(other), v):
                rec.fail("the array given to with_field changed to %r" % (decode(other),))
            want = [k for k in ks if k != where] + [where if where is not None else str(len(ks))]
            if ak.fields(raw) != want:
                rec.fail("fields are %r, expected %r" % (ak.fields(raw), want))
            p0, p1 = [p for k, p in recparams(x) if k == 0], [p for k, p in recparams(raw.layout) if k == 0]
            if p0[:1] != p1[:1]:
                rec.fail("record parameters became %r, expected %r" % (p1, p0))
        compare(rec, lambda: ak.with_field(a, what, where), model, also=also)

        if where is None:
            return
        rec.step()
        b = ak.Array(x)
        try:
            exp = model()
        except Bad:
            exp = Bad
        except (Skip, Maybe):
            return
        try:
            b[where] = what
        except (ValueError, TypeError) as e:
            if exp is not Bad:
                rec.fail("assignment raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
            elif not lay.same(decode(b), v):
                rec.fail("failed assignment changed the array to %r" % (decode(b),))
            return
        if exp is Bad:
            rec.fail("assignment gave %r, expected an error" % (decode(b),))
        elif not lay.same(decode(b), exp):
            rec.fail("assignment gave %r\nexpected %r" % (decode(b), exp))
        elif not lay.same(decode(other), v) or not lay.same(decode(x), v):
            rec.fail("assignment changed another array with the same layout")
        else:
            got = decode(b[where]) if ks is not None else None
            try:
                w2 = slicing.project(exp, ("list", typeof(t, ("num", "i8"), where)), where)[0]
            except (Skip, Bad):
                return
            if not lay.same(got, w2):
                rec.fail("reading the new field gave %r, expected %r" % (got, w2))

    def u_field(self, rec, i):
        d = bases()[i]
        t = mtype(mk(d))
        ks = names(t)
        for w in whats(d):
            for where in [None, "new", "0", "1"] + [k for k in ks if k not in ("0", "1")]:
                e = {"base": d, "what": w, "where": where}
                if not rec.begin(e):
                    continue
                rec.state(repr(e))
                self.one(rec, d, mk(d), w, where)

    def u_path(self, rec, part):
        i = -1
        for d in bases():
            x0 = mk(d)
            r = None
            try:
                r = recof(mtype(x0))
            except Skip:
                pass
            if r is None or r[1] is None or "a" not in r[1]:
                continue
            try:
                inner = recof(r[2][r[1].index("a")])
            except Skip:
                continue
            if inner is None:
                continue
            for where in ([("a", "new")] + [("a", k) for k in names(inner)] + [("b", "x"), ("a", "x", "y"), ("a",)]):
                for w in whats(d):
                    i += 1
                    if i % 4 != part:
                        continue
                    e = {"base": d, "what": w, "where": where}
                    if not rec.begin(e):
                        continue
                    rec.state(repr(e))
                    x = mk(d)
                    what, wv, wt = wmake(w)
                    v, t = decode(x), mtype(x)

                    def model(v=v, t=t, where=where):
                        if len(where) == 1:
                            return m_with_field(v, t, wv, wt, where[0])
                        sub, st = slicing.project(v, ("list", t), where[0])
                        if optabove(st[-1], t):
                            raise Skip
                        if wt is not SC and wt[0] == "reg" and wt[1] != 1 and t[0] == "reg" and t[1] == 1:
                            raise Skip          # the records themselves are broadcast: not composable here
                        try:
                            new = model(sub, st[-1], where[1:])
                        except slicing.Bad:
                            raise Bad
                        return m_with_field(v, t, new, typeof(st[-1], ("num", "i8") if wt is SC else strip_to(wt, st[-1]), where[1]) if len(where) == 2 else st[-1], where[0])

                    def mod():
                        try:
                            return model()
                        except slicing.Bad:
                            raise Bad
                        except slicing.Skip:
                            raise Skip
                    a = ak.Array(x)
                    compare(rec, lambda: ak.with_field(a, what, where), mod)

                    def assign():
                        b = ak.Array(x)
                        b[where] = what
                        return b
                    compare(rec, assign, mod)
                    if not lay.same(decode(a), v):
                        rec.fail("the base changed")

    # ------------------------------------------------------------ sequences of assignments (states of one high-level array)

    def u_seq(self, rec, first):
        d = ("D", ("x", "y"), (("N", "i8", (1, 2, 3)), ("LO", "64", (0, 2, 2, 3), ("N", "f8", (0.5, 1.5, 2.5)))), 3)
        ops = [("x", ("N", "i8", (7, 8, 9))), ("y", ("scalar", 4)), ("z", ("S", ("p", "q", "r"))), (("r", "x"), ("N", "i8", (4, 5, 6))), ("r", ("D", ("x",), (("N", "i8", (0, 0, 1)),), 3)),
               ("x", ("scalar", None)), ("bad", ("N", "i8", (1, 2))), (("y", "q"), ("scalar", 1))]
        for seq in itertools.product(range(len(ops)), repeat=3 if self.tier == "quick" else 4):
            if seq[0] % 3 != first:
                continue
            if not rec.begin({"assignments": [ops[i] for i in seq]}):
                continue
            x = mk(d)
            v = decode(x)
            a = ak.Array(x)
            kept = []
            for i in seq:
                where, w = ops[i]
                what, wv, wt = wmake(w)
                kept.append((ak.Array(a.layout), [dict(r) for r in v]))
                path = where if isinstance(where, tuple) else (where,)
                ok = True
                if wt is not SC and len(wv) != 3:
                    ok = False
                if len(path) == 2 and not (path[0] in v[0] and isinstance(v[0][path[0]], dict)):
                    ok = False
                rec.step()
                try:
                    a[where] = what
                    if not ok:
                        rec.fail("assignment %r gave %r, expected an error" % (where, decode(a)))
                        break
                except (ValueError, TypeError) as e:
                    if ok:
                        rec.fail("assignment %r raised %s" % (where, str(e).split("\n")[0]))
                        break
                    ok = False
                if ok:
                    nv = []
                    for k, r in enumerate(v):
                        r = dict(r)
                        new = wv if wt is SC else wv[k]
                        if len(path) == 2:
                            sub = dict(r[path[0]])
                            sub.pop(path[1], None)
                            sub[path[1]] = new
                            new = sub
                        r.pop(path[0], None)
                        r[path[0]] = new
                        nv.append(r)
                    v = nv
                if not lay.same(decode(a), v):
                    rec.fail("after %r: %r\nexpected %r" % (where, decode(a), v))
                    break
                rec.state(repr(v))
            for k, (b, bv) in enumerate(kept):
                if not lay.same(decode(b), bv):
                    rec.fail("an array taken before assignment %d changed to %r" % (k, decode(b)))
            rec.outcome(repr(v))

    # ------------------------------------------------------------ zip

    def u_zip(self, rec, part):
        n3 = ("N", "i8", (1, 2, 3))
        fam = [n3, ("Ns", "f8", (0.5, 1.5, 2.5), "rev"), ("S", ("a", "", "cc")), ("LO", "64", (0, 2, 2, 3), n3), ("L", "32", (1, 0, 0), (3, 0, 1), n3), ("R", 1, 0, n3),
               ("IO", "64", (0, -1, 2), n3), ("D", ("p", "q"), (n3, n3), 3), ("T", (n3,), 3), ("LO", "64", (0, 2, 2, 3), ("S", ("x", "yy", ""))),
               ("I", "64", (2, 2, 0), n3), ("V", n3, True)]
        pool = [(a,) for a in fam] + list(itertools.product(fam, repeat=2)) + list(itertools.product(fam[:7], repeat=3))
        for i, args in enumerate(pool):
            if i % 8 != part:
                continue
            for kind in ("dict", "list", "named"):
                for lim in (1, 2, None):
                    if not rec.begin({"zip": args, "as": kind, "depth_limit": lim}):
                        continue
                    xs = [mk(a) for a in args]
                    vs = [decode(x) for x in xs]
                    ks = ["n%d" % k for k in range(len(xs))]
                    if kind == "named":
                        ks = ks[::-1]
                    given = dict(zip(ks, [ak.Array(x) for x in xs])) if kind != "list" else [ak.Array(x) for x in xs]
                    kw = {"with_name": "Thing", "parameters": {"doc": "text", "__record__": "Other"}} if kind == "named" else {}
                    rec.step()
                    rec.state((repr(args), kind, lim))
                    try:
                        z = ak.zip(given, depth_limit=lim, **kw)
                    except (ValueError, TypeError) as e:
                        if lim == 1:
                            rec.fail("zip raised %s" % str(e).split("\n")[0])
                        continue
                    want = ks if kind != "list" else [str(k) for k in range(len(xs))]
                    if ak.fields(z) != want:
                        rec.fail("fields %r, expected %r" % (ak.fields(z), want))
                    tup = [p for p in recs(z.layout)][0]
                    if tup.istuple != (kind == "list"):
                        rec.fail("istuple is %r" % tup.istuple)
                    if kind == "named" and tup.parameters != {"doc": "text", "__record__": "Thing"}:
                        rec.fail("parameters %r" % (tup.parameters,))
                    if kind != "named" and tup.parameters != {}:
                        rec.fail("parameters %r" % (tup.parameters,))
                    if lim == 1:
                        exp = [tuple(c) if kind == "list" else dict(zip(ks, c)) for c in zip(*vs)]
                        if not lay.same(decode(z), exp):
                            rec.fail("got %r\nexpected %r" % (decode(z), exp))
                        un = ak.unzip(z)
                        if len(un) != len(vs) or not all(lay.same(decode(u), w) for u, w in zip(un, vs)):
                            rec.fail("unzip gave %r, expected %r" % ([decode(u) for u in un], vs))
                    elif len({repr(shape(v)) for v in vs}) == 1:
                        # same structure: unzip inverts zip, and the records lie at the innermost lists
                        if "None" not in repr(vs):
                            def down(ws, depth):
                                if all(isinstance(w, list) for w in ws) and (lim is None or depth < lim):
                                    return [down(c, depth + 1) for c in zip(*ws)]
                                return tuple(ws) if kind == "list" else dict(zip(ks, ws))
                            exp = down(vs, 0)
                            if not lay.same(decode(z), exp):
                                rec.fail("got %r\nexpected %r" % (decode(z), exp))
                        un = ak.unzip(z)
                        if len(un) != len(vs) or not all(lay.same(decode(u), w) for u, w in zip(un, vs)):
                            rec.fail("unzip gave %r, expected %r" % ([decode(u) for u in un], vs))
                    rec.outcome(repr(decode(z)))
        if part == 0:
            for vals in itertools.product((1, 2.5, True, "s", None), repeat=2):
                if rec.begin({"zip scalars": repr(vals)}):
                    rec.step()
                    if vals[0] is None or vals[1] is None or isinstance(vals[0], str) or isinstance(vals[1], str):
                        continue
                    z = ak.zip({"a": vals[0], "b": vals[1]})
                    if not isinstance(z, ak.Record) or z.tolist() != {"a": vals[0], "b": vals[1]}:
                        rec.fail("got %r" % (z,))

    # ------------------------------------------------------------ fields, unzip, with_name on the whole alphabet

    def u_name(self, rec, part):
        todo = [d for lv in gen.layouts(3 if self.tier == "thorough" else 2, gen.leaves(6, True), [True, True, False]) for d in lv] + bases() + gen.longs()
        for i, d in enumerate(todo):
            if i % 8 != part or not rec.begin(d):
                continue
            x = mk(d)
            v, t = decode(x), mtype(x)
            a = ak.Array(x)
            rec.state(repr(d))
            rec.step()
            try:
                ks = names(t)
            except Skip:
                continue
            if ak.fields(a) != ks or a.fields != ks:
                rec.fail("fields are %r / %r, expected %r" % (ak.fields(a), a.fields, ks))
            un = ak.unzip(a)
            if not ks:
                if len(un) != 1 or not lay.same(decode(un[0]), v):
                    rec.fail("unzip gave %r" % (un,))
            else:
                for k, u in zip(ks, un):
                    w = slicing.project(v, ("list", t), k)[0]
                    if not lay.same(decode(u), w):
                        rec.fail("unzip field %s gave %r\nexpected %r" % (k, decode(u), w))
                if len(un) != len(ks):
                    rec.fail("unzip gave %d arrays" % len(un))
            try:
                b = ak.with_name(a, "Named")
            except (ValueError, TypeError, RuntimeError) as e:
                rec.fail("with_name raised %s" % str(e).split("\n")[0])
                continue
            rec.step()
            if not lay.same(decode(b), v):
                rec.fail("with_name gave %r\nexpected %r" % (decode(b), v))
            p0, p1 = recparams(x), recparams(b.layout)
            exp = [(k, dict(p, __record__="Named") if k == 0 else p) for k, p in p0]
            if p1 != exp:
                rec.fail("with_name gave record parameters %r\nexpected %r" % (p1, exp))
            if recparams(x) != p0:
                rec.fail("with_name changed its argument")
            rec.outcome(repr((ks, v)))

    # ------------------------------------------------------------ Record objects

    def u_record(self, rec):
        for d in bases():
            t = mtype(mk(d))
            if t[0] != "rec":
                continue
            for i in range(gen.dlen(d)):
                for where in ["new", "0"] + [k for k in names(t) if k != "0"]:
                    for new in (5, 2.5, None):
                        if not rec.begin({"base": d, "at": i, "where": where, "what": new}):
                            continue
                        a = ak.Array(mk(d))
                        v = decode(a)
                        r = a[i]
                        r2 = a[i]
                        rec.step()
                        rec.state(repr(rec.desc))
                        if ak.fields(r) != names(t):
                            rec.fail("fields %r" % (ak.fields(r),))
                        exp = {str(k): y for k, y in enumerate(v[i])} if isinstance(v[i], tuple) else dict(v[i])
                        exp.pop(where, None)
                        exp[where] = new
                        try:
                            r[where] = new
                        except (ValueError, TypeError, AttributeError) as e:
                            rec.fail("assignment raised %s: %s" % (type(e).__name__, str(e).split("\n")[0]))
                            continue
                        if not lay.same(decode(r), exp):
                            rec.fail("got %r\nexpected %r" % (decode(r), exp))
                        if not lay.same(decode(r2), v[i]) or not lay.same(decode(a), v):
                            rec.fail("assigning to a record changed other objects")
                        rec.outcome(repr(exp))


def strip_to(wt, t):
    """what remains of wt's type at the records of t"""
    while t[0] != "rec":
        if t[0] in ("list", "reg") and wt[0] in ("list", "reg"):
            wt = wt[-1]
        t = t[-1]
    return wt


def recs(x):
    if isinstance(x, L.RecordArray):
        return [x]
    if isinstance(x, L.Record):
        return [x.array]
    if isinstance(x, L.VirtualArray):
        return recs(x.array)
    if isinstance(x, lay.UNIONS):
        return [r for c in x.contents for r in recs(c)]
    return recs(x.content)


def shape(v):
    if isinstance(v, list):
        return [shape(x) for x in v]
    return None if v is None else 0
