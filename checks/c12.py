"""C12: LayoutBuilder call histories.  Every form of the supported grammar up to the bounds is given every history of
values up to the bounds; the snapshot after each complete value, the snapshots taken earlier and the form are compared
with the values appended, and calls that the form does not allow are tried after every history."""
import itertools
import json
import awkward as ak
from vlib import lay
from vlib.lay import decode

NUM = {"f8": (8, "d", "float64", (1.5, -2.5, 1e300)), "i8": (8, "q", "int64", (3, -4, 2**62)), "?": (1, "?", "boolean", (True, False, True))}
STR = ('{"class":"ListOffsetArray64","offsets":"i64","content":{"class":"NumpyArray","itemsize":1,"format":"B","primitive":"uint8","parameters":{"__array__":"%s"},'
       '"form_key":"%s"},"parameters":{"__array__":"%s"},"form_key":"%s"}')


def form(t, keys):
    k = t[0]
    if k == "n":
        return ak.forms.NumpyForm([], NUM[t[1]][0], NUM[t[1]][1], form_key=next(keys))
    if k == "s":
        return ak.forms.Form.fromjson(STR % ("char" if t[1] == "string" else "byte", next(keys), t[1], next(keys)))
    key = next(keys)
    cs = [form(c, keys) for c in kids(t)]
    if k == "LO":
        return ak.forms.ListOffsetForm(t[2], cs[0], form_key=key)
    if k == "R":
        return ak.forms.RegularForm(cs[0], 2, form_key=key)
    if k == "I":
        return ak.forms.IndexedForm(t[2], cs[0], parameters={"__array__": "categorical"} if len(t) > 3 else None, form_key=key)
    if k == "IO":
        return ak.forms.IndexedOptionForm(t[2], cs[0], form_key=key)
    if k == "UM":
        return ak.forms.UnmaskedForm(cs[0], form_key=key)
    if k == "BM":
        return ak.forms.ByteMaskedForm("i8", cs[0], True, form_key=key)
    if k == "bM":
        return ak.forms.BitMaskedForm("u8", cs[0], True, True, form_key=key)
    if k == "D":
        return ak.forms.RecordForm(cs, keys=["b", "a", "c"][:len(cs)], form_key=key)
    if k == "T":
        return ak.forms.RecordForm(cs, form_key=key)
    if k == "U":
        return ak.forms.UnionForm("i8", t[-1], cs, form_key=key)
    raise AssertionError(t)


def kids(t):
    return [x for x in t[1:] if isinstance(x, tuple)]


def has(t, ks):
    return t[0] in ks or any(has(c, ks) for c in kids(t))


def iscat(t):
    return t[0] == "I" and len(t) > 3 or any(iscat(c) for c in kids(t))


def count(t, ks):
    return (t[0] in ks) + sum(count(c, ks) for c in kids(t))


def supported(t, top=True):
    """the forms that the statement is about"""
    k, cs = t[0], kids(t)
    if top and count(t, ("I", "IO")) > 1:
        return False
    if k in ("n", "s"):
        return True
    if not all(supported(c, False) for c in cs):
        return False
    if k == "R" and not top:
        return False
    if k != "LO" and any(iscat(c) for c in cs):
        return False
    if k in ("D", "T"):
        for c in cs:
            if has(c, ("s",)) or (c[0] == "LO" and has(c[1], ("LO",))) or (c[0] != "LO" and has(c, ("LO",))):
                return False
    if k == "U" and any(has(c, ("s", "LO", "U")) for c in cs):
        return False
    if k in ("I", "UM", "BM", "bM", "R") and any(has(c, ("s", "LO", "IO", "I")) for c in cs):
        return False
    if k == "IO" and (has(cs[0], ("I", "IO")) or (not top and has(cs[0], ("LO", "s")))):
        return False
    return True


def wraps(c, rich):
    out = [("LO", c, "i64"), ("IO", c, "i64"), ("D", c, ("n", "f8")), ("D", ("n", "i8"), c), ("T", c, ("n", "f8")), ("U", c, ("n", "?"), "i64"), ("R", c), ("I", c, "i64"), ("UM", c)]
    if rich:
        out += [("LO", c, "i32"), ("LO", c, "u32"), ("IO", c, "i32"), ("I", c, "i32"), ("I", c, "u32"), ("BM", c), ("bM", c), ("U", ("n", "f8"), c, "i32"), ("U", c, c, "u32"), ("D", c, c, c), ("D", c), ("D", c, c, ("n", "i8")), ("D", c, ("n", "f8"), c), ("T", ("n", "?"), c, ("n", "f8"))]
    return out


def forms(tier):
    leaf = [("n", "f8"), ("n", "i8"), ("n", "?"), ("s", "string"), ("s", "bytestring")]
    d1 = [w for c in leaf for w in wraps(c, True)]
    d1 += [("I", c, i, "categorical") for c in leaf[:3] for i in ("i64", "i32", "u32")]
    d2 = [w for c in d1 for w in wraps(c, True)]
    d3 = [w for c in d2 for w in wraps(c, False)] if tier == "quick" else [w for c in d2 for w in wraps(c, True)]
    return [t for t in leaf + d1 + d2 if supported(t)], [t for t in d3 if supported(t)]


def vals(t):
    k = t[0]
    if k == "n":
        return [(NUM[t[1]][2], v) for v in NUM[t[1]][3]]
    if k == "s":
        return [("string", "hi"), ("string", ""), ("string", "h\u00e9llo")] if t[1] == "string" else [("bytestring", b"a\x00\xff"), ("bytestring", b""), ("bytestring", b"b")]
    if k == "LO":
        v = vals(t[1])
        return [("list", tuple(v[:2])), ("list", ()), ("list", (v[-1],)), ("list", tuple(v[1:3]) + tuple(v[:2]))]
    if k == "R":
        v = vals(t[1])
        return [("reg", tuple(v[:2])), ("reg", tuple(v[1:3])), ("reg", (v[-1], v[0]))]
    if k == "IO":
        v = vals(t[1])
        return [v[0], None] + v[1:]
    if k in ("I", "UM", "BM", "bM"):
        return vals(t[1])
    if k in ("D", "T"):
        v = [vals(c) for c in kids(t)]
        return [("rec" if k == "D" else "tup", tuple(x[(i + j * 2) % len(x)] for j, x in enumerate(v))) for i in range(max(map(len, v)))]
    if k == "U":
        return [("tag", i, v) for v3 in zip(*[[(i, v) for v in (vals(c) * 3)[:4]] for i, c in enumerate(kids(t))]) for i, v in v3]
    raise AssertionError(t)


def put(b, v):
    if v is None:
        b.null()
    elif v[0] == "list":
        b.begin_list()
        for x in v[1]:
            put(b, x)
        b.end_list()
    elif v[0] in ("reg", "tup", "rec"):
        for x in v[1]:
            put(b, x)
    elif v[0] == "tag":
        b.tag(v[1])
        put(b, v[2])
    else:
        getattr(b, v[0])(v[1])


def py(v):
    if v is None:
        return None
    if v[0] in ("list", "reg"):
        return [py(x) for x in v[1]]
    if v[0] == "tup":
        return tuple(py(x) for x in v[1])
    if v[0] == "rec":
        return dict(zip("bac", [py(x) for x in v[1]]))
    if v[0] == "tag":
        return py(v[2])
    return v[1]


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def plain(j):
    """a form as text without keys"""
    if isinstance(j, list):
        return [plain(x) for x in j]
    if isinstance(j, dict):
        if j.get("class") in ("UnmaskedArray", "ByteMaskedArray", "BitMaskedArray"):
            return plain(j["content"])   # nothing can be missing in them, and their snapshot is that of the content
        return {k: plain(v) for k, v in j.items() if k not in ("form_key", "has_identities", "format", "itemsize", "inner_shape")}
    return j


CALLS = [("float64", 0.5), ("int64", 7), ("boolean", True), ("string", "x"), ("end_list",)]


def wrong(t):
    """calls that no value of the form may start with"""
    k = t[0]
    if k == "n":
        return [c for c in CALLS if c[0] != NUM[t[1]][2]]
    if k == "LO":
        return [] if iscat(t) else [c for c in CALLS if c[0] not in ("string",)]
    if k in ("D", "T", "I", "UM", "BM", "bM", "R"):
        return wrong(t[1]) if t[1][0] == "n" else []
    if k == "IO":
        return [c for c in wrong(t[1]) if c[0] != "end_list"] if t[1][0] == "n" else []
    return []


class Check:
    pid = "C12"
    rule = "transition = one builder call sequence compared after each complete value; state = distinct (form, history); non-trivial = distinct snapshot"
    assumptions = ["snapshots are compared between complete values; the middle of a value is not compared",
                   "the forms are those of the statement (numbers, strings, offset lists, records, tuples, indexed options; regular, indexed, masked and union nodes over numbers and records); "
                   "all nodes have distinct form keys"]

    def units(self, tier):
        self.tier = tier
        a, b = forms(tier)
        return ([("hist", a[i::40], 3 if tier == "quick" else 4) for i in range(40)] + [("hist", b[i::40], 2 if tier == "quick" else 3) for i in range(40)] +
                [("grow", a[i::16]) for i in range(16)] + [("wrong", a[i::8]) for i in range(8)])

    def bounds(self, tier):
        a, b = forms(tier)
        return ("%d forms of depth <= 2 x every history of up to %d values from an alphabet of 4, %d forms of depth 3 x histories of up to %d; 300 values (past the growth of "
                "every buffer) and initial sizes 8, 16 and 1024 for each form of depth <= 2; every call that cannot start a value, after every history of up to 2 values" %
                (len(a), 3 if tier == "quick" else 4, len(b), 2 if tier == "quick" else 3))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def builder(self, t, **kw):
        f = form(t, ("node%d" % i for i in itertools.count()))
        return ak.layout.LayoutBuilder(f, **kw), f

    def same(self, rec, snap, h, what):
        try:
            got = decode(snap)
        except Exception as e:
            rec.fail("%s cannot be read: %r" % (what, e))
            return False
        want = [py(x) for x in h]
        if not eq(want, ak.to_list(snap)) or len(snap) != len(h):
            rec.fail("%s is %s, the values appended are %s" % (what, str(ak.to_list(snap))[:400], str(want)[:400]))
            return False
        return True

    def u_hist(self, rec, ts, n):
        for t in ts:
            vv = vals(t)[:4]
            for h in itertools.product(vv, repeat=n):
                if not rec.begin((t, h)):
                    continue
                b, f = self.builder(t)
                rec.state((t, h))
                rec.step(n + 1)
                snaps = []
                for i in range(n + 1):
                    s = b.snapshot()
                    snaps.append(s)
                    if not self.same(rec, s, h[:i], "the snapshot after %d values" % i):
                        break
                    if i < n:
                        try:
                            put(b, h[i])
                        except Exception as e:
                            rec.fail("appending %r after %r raised %r" % (h[i], h[:i], e))
                            break
                else:
                    for i, s in enumerate(snaps):
                        if not self.same(rec, s, h[:i], "the snapshot taken after %d values, read after %d" % (i, n)):
                            break
                    if not has(t, ("U",)):
                        want, got = plain(json.loads(f.tojson(False, True))), plain(json.loads(snaps[-1].form.tojson(False, True)))
                        if want != got:
                            rec.fail("the snapshot has the form %s, not %s" % (got, want))
                    if b.form() != f:
                        rec.fail("the builder's form is not the one given")
                    rec.outcome((t, str(py(h[-1]))))
                    if t[0] == "I" and len(t) > 3 and len(b.snapshot().content) != len(set(py(x) for x in h)):
                        rec.fail("%d categories for the values %s" % (len(b.snapshot().content), [py(x) for x in h]))

    def u_grow(self, rec, ts):
        for t in ts:
            for kw in ({}, {"initial": 16}, {"initial": 1024, "resize": 2.0}):
                if not rec.begin((t, "300 values", sorted(kw.items()))):
                    continue
                b, f = self.builder(t, **kw)
                rec.state((t, "grow", sorted(kw.items())))
                rec.step(2)
                vv = vals(t)
                h = [vv[i * 7 % len(vv)] for i in range(300)]
                mid = None
                try:
                    for i, v in enumerate(h):
                        if i == 100:
                            mid = b.snapshot()
                        put(b, v)
                except Exception as e:
                    rec.fail("appending value %d raised %r" % (i, e))
                    continue
                if self.same(rec, b.snapshot(), h, "the snapshot after 300 values"):
                    self.same(rec, mid, h[:100], "the snapshot taken after 100 values, read after 300")
                rec.outcome((t, "grow"))

    def u_wrong(self, rec, ts):
        for t in ts:
            for c in wrong(t):
                vv = vals(t)[:4]
                for n in (0, 1, 2):
                    for h in itertools.product(vv, repeat=n):
                        if not rec.begin((t, h, c)):
                            continue
                        b, f = self.builder(t)
                        rec.state((t, h, c))
                        rec.step()
                        for v in h:
                            put(b, v)
                        try:
                            getattr(b, c[0])(*c[1:])
                        except (ValueError, RuntimeError):
                            rec.outcome((t, c))
                        except Exception as e:
                            rec.fail("%s raised %r" % (c, e))
                            continue
                        else:
                            if c[0] == "end_list" and t[0] != "LO":
                                # there is no list to close; ignoring the call is as good as rejecting it
                                self.same(rec, b.snapshot(), h, "the snapshot after an end_list without lists")
                                continue
                            rec.fail("%s was accepted: %s" % (c, str(ak.to_list(b.snapshot()))[:200]))
                            continue
