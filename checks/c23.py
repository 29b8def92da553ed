"""C23: types and forms describe the data, compare by structure and survive text round-trips."""
import itertools
import json
import pickle

import awkward as ak
import numpy as np
from vlib import gen, lay, ops
from checks.c16 import parametrised
from vlib.lay import L, decode, mk

T = ak.types
PRIMS = ("bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")
PARMS = ({}, {"k": 1}, {"a": "x y", "b": [1, None, {"c": True}]}, {"z": -2.5, "k": "q\"uote\u00e9"})


def build(d, share=None):
    k = d[0]
    p = dict(d[-1])
    if k == "prim":
        return T.PrimitiveType(d[1], parameters=p)
    if k == "unk":
        return T.UnknownType(parameters=p)
    if k == "str":
        byte = d[1]
        q = {"__array__": "bytestring" if byte else "string"}
        q.update(p)
        return T.ListType(T.PrimitiveType("uint8", parameters={"__array__": "byte" if byte else "char"}, typestr="byte" if byte else "char"), parameters=q,
                          typestr="bytes" if byte else "string")
    if k == "list":
        return T.ListType(build(d[1]), parameters=p)
    if k == "reg":
        return T.RegularType(build(d[2]), d[1], parameters=p)
    if k == "opt":
        return T.OptionType(build(d[1]), parameters=p)
    if k == "uni":
        return T.UnionType([build(x) for x in d[1]], parameters=p)
    if k == "rec":
        if d[1] is None:
            return T.RecordType(tuple(build(x) for x in d[2]), parameters=p)
        return T.RecordType([build(x) for x in d[2]], list(d[1]), parameters=p)
    raise AssertionError(k)


def P(**kw):
    return tuple(sorted(kw.items()))


def fz(p):
    return tuple(sorted(p.items(), key=lambda kv: kv[0]))


def level(inner, parms, full):
    """every constructor over the given contents"""
    out = []
    for x in inner:
        for p in parms:
            p = fz(p)
            out += [("list", x, p)] + ([("opt", x, p)] if x[0] != "opt" else []) + [("rec", None, (x,), p), ("rec", ("x",), (x,), p)]
            out += [("reg", n, x, p) for n in ((0, 1, 3, 12) if full else (3,))]
        out += [("rec", ("x",), (x,), fz({"__record__": "Point"})), ("list", x, fz({"__array__": "special"}))]
    two = inner if full else inner[:6]
    for x, y in itertools.product(two, repeat=2):
        for p in (parms if full else parms[:2]):
            p = fz(p)
            out += [("uni", (x, y), p), ("rec", None, (x, y), p), ("rec", ("x", "y"), (x, y), p), ("rec", ("y", "x"), (x, y), p)]
        out.append(("rec", ("x", "a b"), (x, y), fz({"__record__": "Point"})))
        out.append(("rec", ("\u00e9", "q\"q"), (x, y), ()))
    return out


def types(tier):
    prims = [("prim", n, ()) for n in PRIMS]
    one = prims + [("prim", n, fz(p)) for n in ("bool", "int64", "float64") for p in PARMS[1:]] + [("unk", ())] + [("unk", fz(p)) for p in PARMS[1:]]
    one += [("str", b, ()) for b in (False, True)]
    few = [("prim", "int64", ()), ("prim", "float64", fz(PARMS[1])), ("str", False, ()), ("unk", ())]
    two = level(one, PARMS, False) + level(few, PARMS, True)
    few2 = [("list", few[0], ()), ("reg", 2, few[1], ()), ("opt", few[0], fz(PARMS[1])), ("rec", ("x", "y"), (few[0], few[2]), ()), ("rec", None, (few[0], few[1]), fz(PARMS[1])),
            ("uni", (few[0], few[2]), ()), ("opt", few[2], ()), ("list", few[2], fz(PARMS[2])), ("rec", ("x",), (few[3],), fz({"__record__": "Point"}))]
    three = level(few2, PARMS if tier != "quick" else PARMS[:2], tier != "quick")
    out, seen = [], set()
    for d in one + two + three:
        k = repr(d)
        if k not in seen:
            seen.add(k)
            out.append(d)
    if tier != "quick":
        for d in level(three[::7], PARMS[:2], False):
            out.append(d)
    return out


def canon(d):
    """what equality of types looks at: structure, array kinds and record names; the order of named fields does not matter"""
    p = tuple((k, v) for k, v in d[-1] if k in ("__array__", "__record__"))
    k = d[0]
    if k in ("list", "opt"):
        return (k, canon(d[1]), p)
    if k == "reg":
        return (k, d[1], canon(d[2]), p)
    if k == "uni":
        return (k, tuple(map(canon, d[1])), p)
    if k == "rec":
        c = tuple(map(canon, d[2]))
        return (k, None, c, p) if d[1] is None else (k, "named", tuple(sorted(zip(d[1], c))), p)
    return d[:-1] + (p,)


def tdesc(t):
    """an awkward type as a description like the ones above (no typestr)"""
    p = t.parameters
    if isinstance(t, T.PrimitiveType):
        return ("prim", t.dtype, fz(p))
    if isinstance(t, T.UnknownType):
        return ("unk", fz(p))
    if isinstance(t, T.ListType):
        if p.get("__array__") in ("string", "bytestring"):
            q = {k: v for k, v in p.items() if k != "__array__"}
            return ("str", p["__array__"] == "bytestring", fz(q))
        return ("list", tdesc(t.type), fz(p))
    if isinstance(t, T.RegularType):
        return ("reg", t.size, tdesc(t.type), fz(p))
    if isinstance(t, T.OptionType):
        return ("opt", tdesc(t.type), fz(p))
    if isinstance(t, T.UnionType):
        return ("uni", tuple(tdesc(x) for x in t.types), fz(p))
    if isinstance(t, T.RecordType):
        return ("rec", None if t.istuple else tuple(t.keys()), tuple(tdesc(t[i]) for i in range(t.numfields)), fz(p))
    raise AssertionError(type(t))


KIND = {"b": "bool", "i": "int", "u": "uint", "f": "float", "c": "complex", "M": "datetime64", "m": "timedelta64"}
IXF = {"i1": "i8", "u1": "u8", "i4": "i32", "u4": "u32", "i8": "i64"}


def prim(dt):
    dt = np.dtype(dt)
    if dt.kind in "Mm":
        return KIND[dt.kind]                                # types and forms do not record the unit
    return "bool" if dt.kind == "b" else KIND[dt.kind] + str(8 * dt.itemsize)


def ix(x):
    return IXF[np.asarray(x).dtype.str[1:]]


def fdesc(x):
    """the form of a layout, as (class, details, contents), from its public attributes"""
    name = type(x).__name__
    p = fz(x.parameters)
    if isinstance(x, L.NumpyArray):
        a = np.asarray(x) if False else lay.nparr(x)
        return (name, prim(a.dtype), tuple(a.shape[1:]), p)
    if isinstance(x, L.EmptyArray):
        return (name, p)
    if isinstance(x, lay.LISTOFF):
        return (name, ix(x.offsets), fdesc(x.content), p)
    if isinstance(x, lay.LISTARR):
        return (name, ix(x.starts), ix(x.stops), fdesc(x.content), p)
    if isinstance(x, L.RegularArray):
        return (name, x.size, fdesc(x.content), p)
    if isinstance(x, lay.INDEXED + lay.INDEXEDOPT):
        return (name, ix(x.index), fdesc(x.content), p)
    if isinstance(x, L.ByteMaskedArray):
        return (name, ix(x.mask), x.valid_when, fdesc(x.content), p)
    if isinstance(x, L.BitMaskedArray):
        return (name, ix(x.mask), x.valid_when, x.lsb_order, fdesc(x.content), p)
    if isinstance(x, L.UnmaskedArray):
        return (name, fdesc(x.content), p)
    if isinstance(x, L.RecordArray):
        return (name, None if x.istuple else tuple(x.keys()), tuple(fdesc(c) for c in x.contents), p)
    if isinstance(x, lay.UNIONS):
        return (name, ix(x.tags), ix(x.index), tuple(fdesc(c) for c in x.contents), p)
    raise AssertionError(name)


def jdesc(j):
    """the same from a form's verbose JSON"""
    name = j["class"]
    p = fz(j["parameters"])
    assert j["has_identities"] is False and j["form_key"] is None
    if name == "NumpyArray":
        return (name, j["primitive"] if not j["primitive"].startswith(("datetime", "timedelta")) else j["primitive"], tuple(j["inner_shape"]), p)
    if name == "EmptyArray":
        return (name, p)
    if name.startswith("ListOffset"):
        return (name, j["offsets"], jdesc(j["content"]), p)
    if name.startswith("ListArray"):
        return (name, j["starts"], j["stops"], jdesc(j["content"]), p)
    if name == "RegularArray":
        return (name, j["size"], jdesc(j["content"]), p)
    if name.startswith("Indexed"):
        return (name, j["index"], jdesc(j["content"]), p)
    if name == "ByteMaskedArray":
        return (name, j["mask"], j["valid_when"], jdesc(j["content"]), p)
    if name == "BitMaskedArray":
        return (name, j["mask"], j["valid_when"], j["lsb_order"], jdesc(j["content"]), p)
    if name == "UnmaskedArray":
        return (name, jdesc(j["content"]), p)
    if name == "RecordArray":
        c = j["contents"]
        return (name, tuple(c) if isinstance(c, dict) else None, tuple(jdesc(y) for y in (c.values() if isinstance(c, dict) else c)), p)
    if name.startswith("Union"):
        return (name, j["tags"], j["index"], tuple(jdesc(y) for y in j["contents"]), p)
    raise AssertionError(name)


class Unsaid(Exception):
    """the documentation does not say where the parameters go"""


def ftype(f):
    """the type of a form described by fdesc"""
    name, p = f[0], f[-1]
    if name == "NumpyArray":
        if f[2] and p:
            raise Unsaid
        t = ("prim", f[1], p)
        for n in reversed(f[2]):
            t = ("reg", n, t, ())
        return t
    if name == "EmptyArray":
        return ("unk", p)
    if name.startswith("List") or name == "RegularArray":
        kind = dict(p).get("__array__")
        if kind in ("string", "bytestring") and name != "RegularArray":
            return ("str", kind == "bytestring", tuple(x for x in p if x[0] != "__array__"))
        return ("reg", f[1], ftype(f[2]), p) if name == "RegularArray" else ("list", ftype(f[-2]), p)
    if name.startswith("IndexedArray"):
        if p:
            raise Unsaid
        return ftype(f[-2])
    if name in ("ByteMaskedArray", "BitMaskedArray", "UnmaskedArray") or name.startswith("IndexedOption"):
        t = ftype(f[-2])
        if t[0] == "opt":
            raise Unsaid
        return ("opt", t, p)
    if name == "RecordArray":
        return ("rec", f[1], tuple(map(ftype, f[2])), p)
    if name.startswith("Union"):
        return ("uni", tuple(map(ftype, f[3])), p)
    raise AssertionError(name)


def layouts(tier):
    sp = gen.node_space(tier)
    lv = gen.layouts(2, gen.leaves(6, True), [True, tier == "thorough"])
    sp += lv[0] + lv[1] + lv[2]
    if tier == "thorough":
        sp += gen.layouts(3, gen.leaves(6), [False, False, False])[3]
    for d in gen.ALL_DTYPES:
        v = gen.dtype_values(d)
        sp += [("N", d, v), ("LO", "64", (0, 1, 4), ("N", d, v)), ("N2", d, (2, 2), v)]
    sp = [d for d in sp if not virtual(d)]
    out, seen = [], set()
    for d in sp + [parametrised(d) for d in sp]:
        if repr(d) not in seen:
            seen.add(repr(d))
            out.append(d)
    return out


def virtual(d):
    return isinstance(d, tuple) and (d[:1] == ("V",) or any(virtual(x) for x in d))


class Check:
    pid = "C23"
    rule = "transition = one print/parse, JSON, equality or element-type question about a type, form or array; state = distinct type, form or layout; non-trivial = distinct text or verdict"
    assumptions = ["the description a type was built from is the reference for equality and round trips", "type strings are those of ak.types constructors over the primitives the grammar names"]

    def units(self, tier):
        self.tier = tier
        self.types = types(tier)
        n = len(self.types)
        self.lays = layouts(tier)
        out = [("text", k) for k in range(0, n, 100)] + [("pairs", k) for k in range(0, n, 60)]
        out += [("arrays", k) for k in range(0, len(self.lays), 60)] + [("formpairs", k) for k in range(16)]
        return out

    def bounds(self, tier):
        return "%d types" % len(self.types)

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, unit[1])

    def u_text(self, rec, k):
        for d in self.types[k:k + 100]:
            rec.state(repr(d))
            if rec.begin({"type": d, "op": "structure"}):
                rec.step()
                t = build(d)
                if tdesc(t) != d:
                    rec.fail("got %r" % (tdesc(t),))
            for array in (True, False):
                if rec.begin({"type": d, "op": "parse", "array": array}):
                    rec.step()
                    t = build(d)
                    if array:
                        t = T.ArrayType(t, 5)
                    elif d[0] == "reg":
                        continue            # with high_level=True this reads as an array type
                    s = str(t)
                    rec.outcome(s)
                    try:
                        q = T.from_datashape(s, high_level=True)
                    except Exception as e:
                        rec.fail("%r does not parse: %s %s" % (s, type(e).__name__, str(e).split("\n")[0]))
                        continue
                    if array and (not isinstance(q, T.ArrayType) or q.length != 5):
                        rec.fail("%r\nparses as %r" % (s, q))
                    elif tdesc(q.type if array else q) != d or not (q == t) or str(q) != s:
                        rec.fail("%r\nparses as %r\n%r" % (s, str(q), tdesc(q.type if array else q)))

    def u_pairs(self, rec, k):
        ts = [build(d) for d in self.types]
        cs = [repr(canon(d)) for d in self.types]
        for i in range(k, min(k + 60, len(ts))):
            if rec.begin({"type": self.types[i], "op": "equality with every type"}):
                rec.step(len(ts))
                for j, u in enumerate(ts):
                    want = cs[i] == cs[j]
                    got = ts[i] == u
                    if got != want or (ts[i] != u) == want:
                        rec.fail("%s == %s gives %r" % (ts[i], u, got))
                        break
                if not build(self.types[i]) == ts[i]:
                    rec.fail("not equal to itself built again")

    # ---- forms and arrays
    def u_arrays(self, rec, k):
        for d in self.lays[k:k + 60]:
            rec.state(repr(d))
            x = mk(d)
            if isinstance(x, ak.partition.PartitionedArray):
                continue
            f = x.form
            want = fdesc(x)
            if rec.begin({"layout": d, "op": "form"}):
                rec.step()
                got = jdesc(json.loads(f.tojson(False, True)))
                rec.outcome(repr(got))
                if got != want:
                    rec.fail("form %r\nlayout %r" % (got, want))
            if rec.begin({"layout": d, "op": "form round trips"}):
                rec.step(6)
                for how, g in (("json", lambda: ak.forms.Form.fromjson(f.tojson(False, True))), ("brief json", lambda: ak.forms.Form.fromjson(f.tojson(True, False))),
                               ("repr", lambda: ak.forms.Form.fromjson(repr(f))), ("pickle", lambda: pickle.loads(pickle.dumps(f, -1))),
                               ("form key", lambda: f.with_form_key("abc").with_form_key(None))):
                    try:
                        r = g()
                    except ops.ERR as e:
                        rec.fail("%s: raised %s %s" % (how, type(e).__name__, str(e).split("\n")[0]))
                        continue
                    if not (r == f) or r != f or r.tojson(False, True) != f.tojson(False, True):
                        rec.fail("%s: %s\nfrom %s" % (how, r.tojson(False, False), f.tojson(False, False)))
                if f.with_form_key("abc").form_key != "abc":
                    rec.fail("form key")
            try:
                t = ftype(want)
            except Unsaid:
                t = None
            a = ak.Array(x)
            if rec.begin({"layout": d, "op": "type"}):
                rec.step(4)
                got = ak.type(a)
                if not isinstance(got, T.ArrayType) or got.length != len(x):
                    rec.fail("type %s of length %d" % (got, len(x)))
                elif t is not None and tdesc(got.type) != t:
                    rec.fail("type %r\nlayout %r" % (tdesc(got.type), t))
                elif not (f.type({}) == got.type) or tdesc(f.type({})) != tdesc(got.type):
                    rec.fail("form's type %s\narray's type %s" % (f.type({}), got.type))
                elif str(a.type) != str(got) or not (x.type({}) == got.type):
                    rec.fail("array.type %s, layout.type %s, ak.type %s" % (a.type, x.type({}), got))
                rec.outcome(str(got))
            if not labelled(want) and rec.begin({"layout": d, "op": "parts"}):
                self.parts(rec, a, ak.type(a).type)

    def parts(self, rec, a, t):
        """the type of a slice, field or element is the corresponding part of the array's type"""
        n = len(a)
        for s in (slice(None), slice(1, None), slice(0, 0), slice(None, None, -1)):
            rec.step()
            got = ak.type(a[s])
            m = len(range(n)[s])
            if not isinstance(got, T.ArrayType) or got.length != m or not same(got.type, t):
                rec.fail("x[%s] has type %s\nx has %s" % (s, got, t))
        for key in ak.fields(a):
            rec.step()
            got = ak.type(a[key])
            w = field(t, key)
            if w is not None and not same(got.type, w):
                rec.fail("x[%r] has type %s\nx has %s" % (key, got, t))
        for i in range(n):
            rec.step()
            try:
                e = a[i]
            except ops.ERR:
                rec.fail("x[%d] raises" % i)
                continue
            c = t
            if isinstance(c, T.OptionType):
                if e is None:
                    continue
                c = c.type
            cs = c.types if isinstance(c, T.UnionType) else [c]
            cs = [y.type if isinstance(y, T.OptionType) else y for y in cs]
            if e is None:
                if not any(isinstance(y, T.OptionType) for y in (c.types if isinstance(c, T.UnionType) else [])):
                    rec.fail("x[%d] is None but x has type %s" % (i, t))
                continue
            if not any(elem(e, y) for y in cs):
                rec.fail("x[%d] has type %s\nx has %s" % (i, typestr(e), t))

    def u_formpairs(self, rec, part):
        forms, seen = [], set()
        for d in self.lays:
            x = mk(d)
            if isinstance(x, ak.partition.PartitionedArray):
                continue
            k = repr(fdesc(x))
            if k not in seen:
                seen.add(k)
                forms.append((fdesc(x), x.form))
        step = 1 if self.tier != "quick" else 3
        for i in range(part, len(forms), 16 * step):
            if rec.begin({"form": forms[i][0], "op": "equality with every form"}):
                rec.step(len(forms))
                for j, (g, u) in enumerate(forms):
                    got = forms[i][1] == u
                    want = fcanon(forms[i][0]) == fcanon(g)
                    if got != want or (forms[i][1] != u) == want:
                        rec.fail("%s\n== %s\ngives %r" % (forms[i][1].tojson(False, False), u.tojson(False, False), got))
                        break


def fcanon(f):
    """what equality of forms looks at: like equality of types"""
    if f[0] == "RecordArray" and f[1] is not None:
        return (f[0], tuple(sorted((k, fcanon(c)) for k, c in zip(f[1], f[2]))), kinds(f[-1]))
    return tuple(x if not isinstance(x, tuple) else fcanon(x) if x and isinstance(x[0], str) and x[0] in FORMS else tuple(map(fcanon, x)) if x and isinstance(x[0], tuple) else x
                 for x in f[:-1]) + (kinds(f[-1]),)


def labelled(f):
    """an IndexedArray has parameters of its own: the documentation does not say whether the elements show them"""
    return isinstance(f, tuple) and (bool(f) and isinstance(f[0], str) and f[0].startswith("IndexedArray") and bool(f[-1]) or any(map(labelled, f)))


def kinds(p):
    return tuple(x for x in p if x[0] in ("__array__", "__record__"))


FORMS = {n for n in dir(ak.layout) if n.endswith("Array") or n[-2:] in ("32", "64", "U32")}


def typestr(e):
    return str(ak.type(e)) if isinstance(e, (ak.Array, ak.Record)) else type(e).__name__


def field(t, key):
    """the type of field `key` of an array of type t"""
    p = t.parameters
    if isinstance(t, T.RecordType):
        return t[key]
    if isinstance(t, T.ListType):
        c = field(t.type, key)
        return None if c is None or p else T.ListType(c)
    if isinstance(t, T.RegularType):
        c = field(t.type, key)
        return None if c is None or p else T.RegularType(c, t.size)
    if isinstance(t, T.OptionType):
        c = field(t.type, key)
        return None if c is None or p or isinstance(c, T.OptionType) else T.OptionType(c)
    return None


def same(a, b):
    return a == b and tdesc(a) == tdesc(b)


def elem(e, t):
    if isinstance(e, ak.Record):
        return isinstance(t, T.RecordType) and same(ak.type(e), t)
    if isinstance(e, ak.Array):
        g = ak.type(e)
        if isinstance(t, T.RegularType):
            return g.length == t.size and same(g.type, t.type)
        return isinstance(t, T.ListType) and same(g.type, t.type)
    if isinstance(e, (str, bytes)):
        return isinstance(t, (T.ListType, T.RegularType)) and t.parameters.get("__array__") == ("string" if isinstance(e, str) else "bytestring")
    if isinstance(t, T.PrimitiveType):
        got = prim(np.asarray(e).dtype)
        if type(e) in (bool, int, float, complex):          # elements of a union come back as Python numbers
            return t.dtype.lstrip("u").startswith({bool: "bool", int: "int", float: "float", complex: "complex"}[type(e)])
        return got.split("[")[0] == t.dtype.split("[")[0]
    return False
