"""C26: strings, bytestrings and categoricals compare and combine as whole values."""
import itertools

import awkward as ak
import numpy as np
from vlib import lay, ops
from vlib.lay import L, decode, mk

WORDS = ("", "a", "b", "ab", "ba", "aa", "\u00e9", "a\u0000", "\U0001f600")
LONG = ("x" * 7, "x" * 8, "x" * 7 + "y", "abcdefgh", "abcdefghi", "\u00e9" * 4)


def forms(words, byte=False):
    """every layout that holds these strings"""
    enc = [w if byte else w.encode("utf-8", "surrogateescape") for w in words]
    p = {"__array__": "bytestring" if byte else "string"}
    q = {"__array__": "byte" if byte else "char"}
    sp = lambda *xs: np.frombuffer(b"".join(xs), dtype=np.uint8)     # noqa: E731
    leaf = lambda b: L.NumpyArray(b, parameters=q)                  # noqa: E731
    off = np.cumsum([0] + [len(e) for e in enc])
    out = []
    for cls, ix, dt in ((L.ListOffsetArray64, L.Index64, "i8"), (L.ListOffsetArray32, L.Index32, "i4"), (L.ListOffsetArrayU32, L.IndexU32, "u4")):
        out.append(cls(ix((off + 2).astype(dt)), leaf(sp(b"zz", *enc, b"z")), parameters=p))
    # backwards with gaps
    rev, starts, pos = [b"#"], {}, 1
    for i in reversed(range(len(enc))):
        starts[i] = pos
        rev += [enc[i], b"#"]
        pos += len(enc[i]) + 1
    st = np.array([starts[i] for i in range(len(enc))], dtype="i8")
    sz = np.array([len(e) for e in enc], dtype="i8")
    out.append(L.ListArray64(L.Index64(st), L.Index64(st + sz), leaf(sp(*rev)), parameters=p))
    out.append(L.ListArray32(L.Index32(st.astype("i4")), L.Index32((st + sz).astype("i4")), leaf(np.repeat(sp(*rev), 2)[::2]), parameters=p))
    if len(set(map(len, enc))) == 1 and enc[0]:
        out.append(L.RegularArray(leaf(sp(*enc)), len(enc[0]), 0, parameters=p))
    order = list(range(len(enc)))[::-1]
    base = L.ListOffsetArray64(L.Index64(np.cumsum([0] + [len(enc[i]) for i in order])), leaf(sp(*[enc[i] for i in order])), parameters=p)
    out.append(L.IndexedArray64(L.Index64(np.array(order, dtype="i8")), base))
    return out


def optional(words, form):
    have = [w for w in words if w is not None]
    c = forms(have)[form % 4]
    ix = np.cumsum([w is not None for w in words]) - 1
    ix = np.where([w is None for w in words], -1, ix).astype("i8")
    if form % 2:
        return L.IndexedOptionArray64(L.Index64(ix), c)
    full = forms([w or "?" for w in words])[form % 4]
    return L.ByteMaskedArray(L.Index8(np.array([w is None for w in words], dtype="i1")), full, valid_when=False)


def eq(a, b):
    return None if a is None or b is None else a == b


def ne(a, b):
    return None if a is None or b is None else a != b


class Check:
    pid = "C26"
    rule = "transition = one comparison, conversion or combination of string or categorical arrays, compared with the same on Python values; state = distinct pair of arrays; non-trivial = distinct result"
    assumptions = ["Python's str, bytes and values are the reference; a missing value compared with anything is missing, except that two categoricals are equal where both are missing and unequal where one is (fixed by the repository's tests)",
                   "comparisons between strings and numbers are not judged"]

    def units(self, tier):
        self.tier = tier
        return [("pairs", k) for k in range(27)] + [("layouts", k) for k in range(8)] + [("nested", k) for k in range(8)] + [("read", 0)] + [
            ("cat", k) for k in range(24)] + [("catpair", k) for k in range(24)]

    def bounds(self, tier):
        return "all ordered pairs of two-string arrays over %d short and %d long strings; all pairs of layouts of fixed arrays; categoricals of all sequences to length %d over 3 values of 8 kinds, and all their pairs" % (
            len(WORDS), len(LONG), 4 if tier == "quick" else 5)

    def run_unit(self, unit, rec):
        np.seterr(all="ignore")
        getattr(self, "u_" + unit[0])(rec, unit[1])

    def judge(self, rec, call, want, values=None):
        rec.step()
        try:
            r = call()
            got = decode(r.layout) if isinstance(r, (ak.Array, ak.Record)) else values(r) if values else lay.scalar(r) if isinstance(r, np.generic) else r
        except ops.ERR + (RecursionError,) as e:
            rec.fail("raised %s: %s\nexpected %r" % (type(e).__name__, str(e).split("\n")[0], want))
            return
        except lay.Undecodable as e:
            rec.fail("undecodable %s" % e)
            return
        if not lay.same(got, want):
            rec.fail("got %r\nexpected %r" % (got, want))
        rec.outcome(repr(got))

    # ---- equality
    def u_pairs(self, rec, part):
        """every pair of two-element arrays (so that each position sees its own verdict)"""
        words = WORDS + (LONG if self.tier != "quick" else LONG[:3])
        twos = list(itertools.product(words, repeat=2))
        for i, (p, q) in enumerate(itertools.product(twos, twos)):
            if i % 27 != part:
                continue
            if self.tier == "quick" and len(set(p + q)) > 3:
                continue
            rec.state((p, q))
            for name, op, f in (("==", np.equal, eq), ("!=", np.not_equal, ne)):
                if rec.begin({"left": p, "right": q, "op": name}):
                    fp, fq = forms(p), forms(q)
                    a, b = ak.Array(fp[i % len(fp)]), ak.Array(fq[(i // 7) % len(fq)])
                    self.judge(rec, lambda: op(a, b), [f(x, y) for x, y in zip(p, q)])

    def u_layouts(self, rec, part):
        """every pair of layouts, strings and bytestrings, with missing values, with scalars"""
        seqs = [("a", "", "ab"), ("ba", "ab", "ab"), ("aa", "aa", "ab"), ("\u00e9", "", "\u00e9a"), ("abcdefgh", "abcdefgh", "abcdefgX"), ("", "", "")]
        k = 0
        for p, q in itertools.product(seqs, repeat=2):
            for byte in (False, True):
                pp = [w.encode() for w in p] if byte else p
                qq = [w.encode() for w in q] if byte else q
                fp, fq = forms(pp, byte), forms(qq, byte)
                for (i, x), (j, y) in itertools.product(enumerate(fp), enumerate(fq)):
                    k += 1
                    if k % 8 != part:
                        continue
                    rec.state((p, q, byte, i, j))
                    a, b = ak.Array(x), ak.Array(y)
                    for name, op, f in (("==", np.equal, eq), ("!=", np.not_equal, ne)):
                        if rec.begin({"left": pp, "right": qq, "forms": (i, j), "op": name}):
                            self.judge(rec, lambda: op(a, b), [f(u, v) for u, v in zip(pp, qq)])
                    if rec.begin({"left": pp, "right": qq, "forms": (i, j), "op": "concatenate"}):
                        self.judge(rec, lambda: ak.concatenate([a, b]), list(pp) + list(qq))
                    if rec.begin({"left": pp, "right": qq, "forms": (i, j), "op": "where"}):
                        self.judge(rec, lambda: ak.where(np.array([True, False, True]), a, b), [pp[0], qq[1], pp[2]])
                    if j == 0:
                        for w in qq:
                            for name, op, f in (("==", np.equal, eq), ("!=", np.not_equal, ne)):
                                if rec.begin({"left": pp, "scalar": w, "forms": i, "op": name}):
                                    self.judge(rec, lambda: (a == w) if op is np.equal else (a != w), [f(u, w) for u in pp])
                                if rec.begin({"scalar left": w, "right": pp, "forms": i, "op": name}):
                                    self.judge(rec, lambda: (w == a) if op is np.equal else (w != a), [f(u, w) for u in pp])
            if part == 0:
                for i, j in itertools.product(range(4), repeat=2):
                    for mp, mq in itertools.product(itertools.product((False, True), repeat=3), repeat=2):
                        pm = [None if m else w for w, m in zip(p, mp)]
                        qm = [None if m else w for w, m in zip(q, mq)]
                        if (None not in pm and None not in qm) or (self.tier == "quick" and i != j):
                            continue
                        for name, op, f in (("==", np.equal, eq), ("!=", np.not_equal, ne)):
                            if rec.begin({"left": pm, "right": qm, "forms": (i, j), "op": name}):
                                a, b = ak.Array(optional(pm, i)), ak.Array(optional(qm, j))
                                self.judge(rec, lambda: op(a, b), [f(u, v) for u, v in zip(pm, qm)])

    def u_nested(self, rec, part):
        """strings inside lists, broadcast against strings outside them, for every list structure"""
        ws = ("a", "b", "", "ab", "a", "b")
        k = 0
        for counts in itertools.product(range(3), repeat=3):
            n = sum(counts)
            for start in range(6):
                inner = [ws[(start + i) % 6] for i in range(n)]
                off = np.cumsum((0,) + counts)
                lists = [inner[off[i]:off[i + 1]] for i in range(3)]
                for outer in itertools.product(("a", "", "ab"), repeat=3):
                    k += 1
                    if k % 8 != part:
                        continue
                    fi, fo = forms(inner), forms(outer)
                    x = L.ListOffsetArray64(L.Index64(off), fi[k % len(fi)])
                    y = fo[k // 3 % len(fo)]
                    rec.state((counts, start, outer))
                    a, b = ak.Array(x), ak.Array(y)
                    want = [[u == o for u in us] for us, o in zip(lists, outer)]
                    if rec.begin({"lists": lists, "outer": outer, "op": "=="}):
                        self.judge(rec, lambda: a == b, want)
                    if rec.begin({"lists": lists, "outer": outer, "op": "== reversed"}):
                        self.judge(rec, lambda: b == a, want)
                    if rec.begin({"lists": lists, "outer": outer, "op": "broadcast"}):
                        self.judge(rec, lambda: ak.broadcast_arrays(a, b)[1], [[o] * len(us) for us, o in zip(lists, outer)])
                    if rec.begin({"lists": lists, "outer": outer, "op": "zip"}):
                        self.judge(rec, lambda: ak.zip({"x": a, "y": b}), [[{"x": u, "y": o} for u in us] for us, o in zip(lists, outer)])
                    if rec.begin({"lists": lists, "outer": outer, "op": "cartesian"}):
                        self.judge(rec, lambda: ak.cartesian([a, a]), [[(u, v) for u in us for v in us] for us in lists])
                    if rec.begin({"lists": lists, "outer": outer, "op": "filter"}):
                        self.judge(rec, lambda: a[a == "a"], [[u for u in us if u == "a"] for us in lists])

    def u_read(self, rec, part):
        """single strings and characters"""
        for w in WORDS + LONG:
            for byte in (False, True):
                v = w.encode() if byte else w
                for i, x in enumerate(forms([v, v], byte)):
                    a = ak.Array(x)
                    if rec.begin({"string": v, "form": i, "op": "read"}):
                        self.judge(rec, lambda: [a[0], a[-1], a.tolist(), [bytes(k) if byte else str(k) for k in a], ak.to_list(a[1:])], [v, v, [v, v], [v, v], [v]], values=lambda r: r)
                    if rec.begin({"string": v, "form": i, "op": "num"}):
                        self.judge(rec, lambda: ak.num(a, axis=1), [len(w.encode())] * 2)
                    if rec.begin({"string": v, "form": i, "op": "to_numpy"}) and not (w and w[-1] == "\u0000"):
                        self.judge(rec, lambda: ak.to_numpy(a).tolist(), [v, v], values=lambda r: r)
                    for u in WORDS:
                        z = u.encode() if byte else u
                        ch, cz = (ak.Array(forms([k], byte)[0].content[2:-1]) for k in (v, z))
                        if i == 0 and rec.begin({"string": v, "other": z, "op": "characters"}):
                            self.judge(rec, lambda: [ch == cz, ch != cz, ch == z, ch != z, z == ch, z != ch, ch + cz, ch + z, z + ch],
                                       [v == z, v != z, v == z, v != z, v == z, v != z, v + z, v + z, z + v], values=lambda r: r)

    # ---- categoricals
    KINDS = {
        "int": (3, 1, 2), "float": (0.5, 2.5, -0.5), "bool": (True, False, True), "str": ("b", "", "ab"), "bytes": (b"b", b"", b"ab"),
        "record": ({"x": 1, "y": "a"}, {"x": 1, "y": "b"}, {"x": 2, "y": "a"}), "tuple": ((1, 2), (2, 1), (1, 1)), "mixed": (1, "1", True),
    }

    def sequences(self, n):
        for kind, vals in self.KINDS.items():
            for m in range(1, n + 1):
                for ix in itertools.product((None, 0, 1, 2), repeat=m):
                    if all(i is None for i in ix):
                        continue
                    yield kind, [None if i is None else vals[i] for i in ix]

    def arrays(self, kind, vals, d):
        """the sequence in several layouts"""
        base = ak.Array(vals).layout
        if d == 0:
            return base
        have = list(self.KINDS[kind]) + [self.KINDS[kind][0]]
        c = ak.Array(have).layout
        ix = np.array([-1 if v is None else next(i for i in ((3, 2, 1, 0) if d == 1 else (0, 1, 2)) if type(have[i]) is type(v) and have[i] == v) for v in vals], dtype="i8")
        if any(ix < 0):
            return L.IndexedOptionArray64(L.Index64(ix), c) if d == 1 else L.IndexedOptionArray32(L.Index32(ix.astype("i4")), c)
        return L.IndexedArray64(L.Index64(ix), c) if d == 1 else L.IndexedArrayU32(L.IndexU32(ix.astype("u4")), c)

    def u_cat(self, rec, part):
        for i, (kind, vals) in enumerate(self.sequences(4 if self.tier == "quick" else 5)):
            if i % 24 != part:
                continue
            for d in range(3):
                x = self.arrays(kind, vals, d)
                a = ak.Array(x)
                rec.state((kind, tuple(map(repr, vals)), d))
                desc = {"values": vals, "form": d}
                if not rec.begin(dict(desc, op="to_categorical")):
                    continue
                want = decode(x)
                self.judge(rec, lambda: ak.to_categorical(a), want)
                try:
                    c = ak.to_categorical(a)
                except ops.ERR:
                    continue
                if not ak.is_categorical(c) or ak.is_categorical(a) or kind not in ("record", "tuple", "mixed") and not ak.is_valid(c):
                    rec.fail("is_categorical %r, valid %r" % (ak.is_categorical(c), kind not in ("record", "tuple", "mixed") and ak.validity_error(c)))
                cats = decode(ak.categories(c).layout)
                there = decode((x.content if d else x if None not in vals else x.project()))
                uniq = []
                for v in there:
                    if not any(type(v) is type(u) and v == u for u in uniq):
                        uniq.append(v)
                if not lay.same(cats, uniq) and rec.begin(dict(desc, op="categories")):
                    rec.fail("categories %r\nexpected %r" % (cats, uniq))
                for op, call, w in (
                        ("from_categorical", lambda: ak.from_categorical(c), want), ("again", lambda: ak.to_categorical(c), want),
                        ("slice", lambda: c[::-1], want[::-1]), ("take", lambda: c[[0, -1]], [want[0], want[-1]]), ("is_none", lambda: ak.is_none(c), [v is None for v in want]),
                        ("fill", lambda: ak.drop_none(c) if hasattr(ak, "drop_none") else c[~ak.is_none(c)], [v for v in want if v is not None]),
                        ("nested", lambda: ak.to_categorical(ak.unflatten(a, [len(vals)])), [want]), ("packed", lambda: ak.packed(c), want),
                        ("buffers", lambda: ak.from_buffers(*ak.to_buffers(c)), want)):
                    if rec.begin(dict(desc, op=op)):
                        self.judge(rec, call, w)
                if rec.begin(dict(desc, op="from_categorical is not")):
                    rec.step()
                    if ak.is_categorical(ak.from_categorical(c)):
                        rec.fail("still categorical")
                if kind in ("int", "float"):
                    for op, call, f in (("+1", lambda z: z + 1, lambda v: v + 1), ("-", lambda z: -z, lambda v: -v), ("<2", lambda z: z < 2, lambda v: v < 2),
                                        ("+self", lambda z: z + z, lambda v: v + v), ("2*", lambda z: 2 * z, lambda v: 2 * v)):
                        if rec.begin(dict(desc, op=op)):
                            self.judge(rec, lambda: call(c), [None if v is None else f(v) for v in want])
                    if rec.begin(dict(desc, op="sum")):
                        self.judge(rec, lambda: ak.sum(c), sum(v for v in want if v is not None))

    def u_catpair(self, rec, part):
        """equality and concatenation of all pairs of categoricals of the same kind, also with plain arrays"""
        k = 0
        for kind in ("int", "str", "float", "bytes"):
            vals = self.KINDS[kind]
            seqs = [[None if i is None else vals[i] for i in ix] for ix in itertools.product((None, 0, 1, 2), repeat=2 if self.tier == "quick" else 3)]
            seqs += [[vals[i] for i in ix] for ix in itertools.product((0, 1, 2), repeat=3)] if self.tier == "quick" else []
            seqs = [s for s in seqs if any(v is not None for v in s)]
            for p, q in itertools.product(seqs, seqs):
                k += 1
                if k % 24 != part or len(p) != len(q):
                    continue
                rec.state((kind, tuple(p), tuple(q)))
                for d, e in ((0, 0), (1, 2), (2, 0)):
                    a, b = ak.Array(self.arrays(kind, p, d)), ak.Array(self.arrays(kind, q, e))
                    c, f = ak.to_categorical(a), ak.to_categorical(b)
                    want = [eq(u, v) for u, v in zip(p, q)]
                    # two categoricals are compared by category, where two missing values are the same
                    both = [u == v for u, v in zip(p, q)]
                    unwant = [ne(u, v) for u, v in zip(p, q)]
                    desc = {"left": p, "right": q, "forms": (d, e)}
                    for op, call, w in (("cat == cat", lambda: c == f, both), ("cat != cat", lambda: c != f, unwant), ("cat == plain", lambda: c == b, want),
                                        ("plain == cat", lambda: a == f, want), ("plain != cat", lambda: a != f, unwant),
                                        ("cat == scalar", lambda: c == q[0], [eq(u, q[0]) for u in p]),
                                        ("nested cat == nested cat", lambda: ak.unflatten(c, [len(p)]) == ak.unflatten(f, [len(q)]), [both]),
                                        ("concatenate", lambda: ak.concatenate([c, f]), p + q), ("concatenate plain", lambda: ak.concatenate([c, b]), p + q)):
                        if op == "cat == scalar" and q[0] is None:
                            continue
                        if rec.begin(dict(desc, op=op)):
                            self.judge(rec, call, w)
                    if rec.begin(dict(desc, op="concatenate valid")):
                        rec.step()
                        m = ak.validity_error(ak.concatenate([c, f]))
                        if m:
                            rec.fail(m, key="concatenate-categorical-duplicates" if "unique" in m else None)
