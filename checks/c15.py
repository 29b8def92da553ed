"""C15: JSON.  All small documents, number and string spellings, every single-character damage, every buffer size, and every
layout written and read back; the oracle is Python's json module plus the builder model of C11."""
import itertools
import json
import math
import os
import shutil
import tempfile

import awkward as ak
import numpy as np
from checks import c11
from vlib import gen, lay
from vlib.lay import mk

LEAVES = [None, True, 7, -2.5, "", "s\u00e9\n\"\\x"]
ALPHA = ["", "[", "]", "{", "}", ",", ":", "\"", "1", "0", "-", ".", "e", "n", " ", "\\", "\u00e9", "x", "/"]


def values(depth):
    if depth == 0:
        return list(LEAVES)
    sub = values(depth - 1)
    small = LEAVES[:4] if depth > 1 else LEAVES
    out = list(sub)
    out += [[]] + [[a] for a in sub] + [[a, b] for a in sub for b in small]
    out += [{}] + [{"a": a} for a in sub] + [{"b": a, "a": b} for a in sub for b in small[:3]]
    return out


def feed(m, v):
    if isinstance(v, list):
        m.begin_list()
        for x in v:
            feed(m, x)
        m.end_list()
    elif isinstance(v, dict):
        m.begin_record(None)
        for k, x in v.items():
            m.field(k)
            feed(m, x)
        m.end_record()
    else:
        m.value(v)


class Reject(Exception):
    pass


class Open(Exception):
    """the reference leaves it open"""


def _const(x):
    raise ValueError(x)


DEC = json.JSONDecoder(parse_constant=_const, object_pairs_hook=lambda ps: _pairs(ps))


def _pairs(ps):
    d = dict(ps)
    if len(d) != len(ps):
        raise Open
    return d


def reference(text):
    """list of documents, by the standard parser"""
    docs, i, n = [], 0, len(text)
    while True:
        while i < n and text[i] in " \t\r\n":
            i += 1
        if i == n:
            return docs
        try:
            v, i = DEC.raw_decode(text, i)
        except ValueError:
            raise Reject
        check_open(v)
        docs.append(v)


def check_open(v):
    if isinstance(v, float) and math.isinf(v):
        raise Open
    if isinstance(v, int) and not isinstance(v, bool) and not -2**63 <= v < 2**63:
        raise Open
    if isinstance(v, str) and any(0xd800 <= ord(c) < 0xe000 or c == "\0" for c in v):
        raise Open
    if isinstance(v, list):
        for x in v:
            check_open(x)
    if isinstance(v, dict):
        for k, x in v.items():
            check_open(k)
            check_open(x)


def expected(docs):
    m = c11.Model()
    for d in docs:
        feed(m, d)
    s = m.snapshot()
    return s[0] if len(docs) == 1 else s


def get(x):
    return lay.decode(x) if isinstance(x, (ak.Array, ak.Record)) else x


def eq(a, b):
    if isinstance(a, np.generic):
        a = a.item()
    return c11.eq(a, b)


class Check:
    pid = "C15"
    rule = ("transition = one document parsed, or one array written (and read back), compared with Python's json module; "
            "state = distinct document; non-trivial = distinct parsed data")
    assumptions = ["numbers beyond 64-bit integers or the range of doubles (underflow to 0 included), repeated keys, lone surrogates and U+0000 are left open",
                   "several documents may follow each other with or without white space (the parser stops when a document is done)"]

    def units(self, tier):
        self.tier = tier
        out = [("docs", p) for p in range(8)] + [("numbers", p) for p in range(8)] + [("strings",)]
        out += [("damage", p) for p in range(16)] + [("multi",)] + [("files", p) for p in range(4)]
        out += [("write", p) for p in range(16)] + [("special",)]
        return out

    def bounds(self, tier):
        return ("all documents of up to two levels (6 leaves, lists and objects of up to 2 items) alone and in pairs; %s spellings of numbers; every string of up to "
                "2 characters from 20 incl. escapes; 24 documents damaged by every one-character deletion, insertion, replacement and truncation; buffer "
                "sizes 4 to 64 for files; all layouts of up to %d nodes written compact and pretty, to strings and files, and read back"
                % ("60000" if tier == "thorough" else "17000", 3 if tier == "thorough" else 2))

    def run_unit(self, unit, rec):
        self.dir = tempfile.mkdtemp(prefix="verif-c15-")
        cwd = os.getcwd()
        os.chdir(self.dir)           # from_json takes an existing file's name as a file
        try:
            getattr(self, "u_" + unit[0])(rec, *unit[1:])
        finally:
            os.chdir(cwd)
            shutil.rmtree(self.dir, ignore_errors=True)

    def parse(self, rec, text, desc=None, **kw):
        if not rec.begin(desc or {"json": text, "options": kw}):
            return
        rec.step()
        rec.state(text)
        mode = "must"
        want = None
        try:
            want = expected(reference(text))
        except Reject:
            mode = "bad"
        except Open:
            mode = "open"
        try:
            got = get(ak.from_json(text, **kw))
        except (ValueError, RuntimeError) as e:
            rec.outcome("refused")
            if mode == "must":
                rec.fail("refused: %s\nexpected %r" % (str(e).split("\n")[0], want))
            return
        rec.outcome(repr(got))
        if mode == "bad":
            rec.fail("malformed, but read as %r" % (got,))
        elif mode == "must" and not eq(got, want):
            rec.fail("read as %r\nexpected %r" % (got, want))

    def u_docs(self, rec, part):
        v1, v2 = values(1), values(2)
        for i, v in enumerate(v2):
            if i % 8 == part:
                self.parse(rec, json.dumps(v))
                if i % 5 == 0:
                    self.parse(rec, json.dumps(v, ensure_ascii=False, indent=1))
                    self.parse(rec, json.dumps([v, v, 5]), initial=1, resize=1.1)
        for i, (a, b) in enumerate(itertools.product(v1, v1)):
            if i % 8 == part:
                self.parse(rec, json.dumps([a, b]))
                if self.tier == "thorough":
                    self.parse(rec, json.dumps([a, {"x": b}, a]))

    def u_numbers(self, rec, part):
        ints = sorted({s * (2**k + d) for k in range(0, 64) for d in (-1, 0, 1) for s in (1, -1)} | {0, 10**18, 123456789012345678})
        texts = [str(i) for i in ints if -2**63 <= i < 2**63]
        mant = ["1", "9", "1.5", "0.1", "2.2250738585072014", "1.7976931348623157", "123456789.123456789", "0.30000000000000004", "9007199254740993",
                "1.0000000000000002", "4.35", "5e0", "0.000001", "8.5", "3.141592653589793", "7.1e1", "1234567890123456789", "0.1234567890123456789"]
        step = 1 if self.tier == "thorough" else 4
        for m in mant:
            if "e" in m:
                texts.append(m)
                continue
            for e in range(-320, 309, step):
                t = "%se%d" % (m, e)
                if abs(float(t)) != float("inf") and float(t) != 0:  # RapidJSON 1.1 itself misreads 0.000001e-320
                    texts.append(t)
                    if e % 40 == 0:
                        texts += ["-" + t, t.replace("e", "E"), t.replace("e", "e+") if e > 0 else t]
        k = 0
        # doubles with all 53 bits in use, spelled by repr
        x = 0.5
        for i in range(2000 if self.tier == "quick" else 20000):
            x = (x * 16807.0 + 0.123456789) % 1.0
            texts.append(repr(x * 10.0 ** (i % 40 - 20)))
        texts += ["0", "-0", "0.0", "-0.0", "1.0", "1e0", "1E5", "1e+5", "1e-5", "01", "1.", ".5", "+1", "-", "--1", "1e", "1e+", "0x10", "1_0", "Infinity", "-Infinity",
                  "NaN", "1.5.2", "1-2", "00", "-01", "1 2", "1,2"]
        for i, t in enumerate(texts):
            if i % 8 == part:
                self.parse(rec, "[%s]" % t, {"json": "[%s]" % t})
                if i % 16 == part:
                    self.parse(rec, t, {"json": t})

    def u_strings(self, rec):
        chars = ["a", "\\n", "\\\"", "\\\\", "\\/", "\\u00e9", "\\u0041", "\\ud83d\\ude00", "\u00e9", "\u20ac", "\U0001f600", "\\t", "\\b", "\\f", "\\r", " ", "'", "\\x", "\\u12",
                 "\t"]
        for n in range(0, 3):
            for c in itertools.product(chars, repeat=n):
                t = "".join(c)
                self.parse(rec, "[\"%s\"]" % t)
                self.parse(rec, "[{\"k%s\": 1}]" % t)

    def u_multi(self, rec):
        docs = ["1", "null", "\"s\"", "[1, 2]", "{\"a\": 1}", "[]", "{}", "true", "2.5"]
        for n in (0, 1, 2, 3):
            for c in itertools.product(docs, repeat=n):
                for sep in (" ", "\n") + (("",) if n < 3 else ()):
                    for end in ("", "\n"):
                        self.parse(rec, sep.join(c) + end)
        for bad in ("tru", "nul", "\"abc", "-", "[", "{", "{\"a\"", "{\"a\":", "[1,", "[1", "]", "}", ",", ":", "fals", "n", "t", "\"", "\"\\", "\"\\u12", "1e", "[1,]", "{,}", "{\"a\":1,}", "@"):
            for pre in ("", "1 ", "[1, 2] ", "{\"a\": 1}\n", "null "):
                for post in ("", " ", " 5"):
                    self.parse(rec, pre + bad + post)

    def u_damage(self, rec, part):
        docs = ["[1, 2, 3]", "[1.5, null, \"ab\"]", "{\"a\": 1, \"b\": [2]}", "[{\"a\": 1}, {\"a\": 2}]", "[[1], [], [2, 3]]", "\"a\\nb\"", "[true, false, null]", "-1.5e-3",
                "[{\"x\": {\"y\": [1]}}]", "[[[]]]", "{\"k\": \"v\"}", "[\"\\u00e9\", 1]", "[1] [2]", "{} {}", "12 34", "null", "[-0.5, 1e5]", "[[1, 2], {\"a\": null}]", "true",
                "[\"\", \"\"]", "{\"a\": {}, \"b\": []}", "  [ 1 , 2 ]  ", "[{}]", "\"\""]
        for i, d in enumerate(docs):
            if i % 16 != part:
                continue
            for k in range(len(d) + 1):
                self.parse(rec, d[:k])
                self.parse(rec, d[k:])
                for c in ALPHA:
                    self.parse(rec, d[:k] + c + d[k:])
                    if k < len(d):
                        self.parse(rec, d[:k] + c + d[k + 1:])
            if self.tier == "thorough" and len(d) < 14:
                for k, j in itertools.combinations(range(len(d)), 2):
                    for c in ALPHA[:12]:
                        self.parse(rec, d[:k] + c + d[k + 1:j] + d[j + 1:])

    def u_files(self, rec, part):
        docs = ["[1, 2, 3]", "[1.25, null, \"a\\u00e9b\", \"" + "z" * 70 + "\"]", "{\"a\": 1, \"b\": [2, {\"c\": true}]}", "[[1], [], [2, 3]]\n[4]\n5", "12 34", "", "[", "tru", "[1, 2", "\"abc",
                "[" + ", ".join(str(i * 12345) for i in range(40)) + "]", "\u00e9", "[\"\U0001f600\", \"\u20ac\u20ac\"]", " \n ", "[1] x", "1" * 17, "nul"]
        sizes = [4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 65536]
        for i, text in enumerate(docs):
            if i % 4 != part:
                continue
            path = os.path.join(self.dir, "d%d.json" % i)
            with open(path, "wb") as f:
                f.write(text.encode("utf-8"))
            for size in sizes:
                for initial in (1, 1024):
                    if not rec.begin({"file": text, "buffersize": size, "initial": initial}):
                        continue
                    rec.step()
                    try:
                        want, bad = expected(reference(text)), False
                    except Reject:
                        want, bad = None, True
                    try:
                        got = get(ak.from_json(path, buffersize=size, initial=initial))
                    except (ValueError, RuntimeError) as e:
                        if not bad:
                            rec.fail("refused: %s" % str(e).split("\n")[0])
                        continue
                    if bad:
                        rec.fail("malformed, but read as %r" % (got,))
                    elif not eq(got, want):
                        rec.fail("read as %r\nexpected %r" % (got, want))

    # ---- writing
    def u_write(self, rec, part):
        deep = self.tier == "thorough"
        leafs = gen.leaves(5, rich=True) + [
            ("N", "f8", (0.1, -2.5e-300, 1.7976931348623157e308, 3.0, 5e-324)), ("N", "f4", (0.1, 2.5, -1e30, 0.0, 1.0)), ("N", "i8", (-2**63, 2**63 - 1, 0, 1, -1)),
            ("N", "u1", (0, 255, 7, 1, 2)), ("N", "i2", (-32768, 32767, 1, 2, 3)), ("N", "u4", (0, 2**32 - 1, 1, 2, 3)), ("N", "i4", (-2**31, 2**31 - 1, 0, 1, 2)),
            ("N", "i1", (-128, 127, 0, 1, 2)), ("N", "u2", (0, 65535, 1, 2, 3)), ("N", "u8", (0, 2**63 - 1, 2**53 + 1, 2, 3)), ("N2", "?", (2, 2), (True, False, False, True)),
            ("N2s", "f8", (3, 2), (0.5, 1.5, 2.5, -3.5, 4.5, 5.5), "F"), ("N2", "f4", (1, 2, 2), (0.5, 1.5, 2.5, -3.5)), ("N2s", "?", (2, 3), (True, True, False, False, True, False), "step2"),
            ("N2s", "u1", (2, 2, 1), (1, 2, 3, 255), "revlast"),
            ("S", ("q\"uote", "back\\slash", "nl\n\t", "\u00e9\u20ac\U0001f600", "")), ("S", ("\x01\x1f", "/", "'", "a\x7fb", "\u2028"))]
        levels = gen.layouts(3 if deep else 2, leafs, [True, False, False])
        todo = [d for lv in levels for d in lv]
        todo += [("PART", (d, d)) for d in levels[1]] + [("V", d, True) for d in levels[1]]
        for i, d in enumerate(todo):
            if i % 16 != part:
                continue
            if not rec.begin(d):
                continue
            x = mk(d)
            want = lay.decode(x)
            jw = jsonable(want)
            if jw is NO:
                continue
            a = ak.Array(x)
            rec.state(repr(d))
            for pretty in (False, True):
                rec.step()
                text = ak.to_json(a, pretty=pretty)
                try:
                    got = json.loads(text)
                except ValueError as e:
                    rec.fail("to_json(pretty=%r) wrote malformed JSON: %s\n%r" % (pretty, e, text))
                    continue
                if not exact(got, jw):
                    rec.fail("to_json(pretty=%r) wrote %r\nexpected %r" % (pretty, got, jw))
            rec.outcome(text)
            back = get(ak.from_json(text))
            exp = expected([jw])
            rec.step()
            if not eq(back, exp):
                rec.fail("read back as %r\nexpected %r" % (back, exp))
            path = os.path.join(self.dir, "w.json")
            for size in (4, 16, 65536) if i % 7 == 0 else (16,):
                ak.to_json(a, path, buffersize=size, pretty=i % 2 == 0)
                rec.step()
                with open(path, "rb") as f:
                    got = json.loads(f.read().decode("utf-8"))
                if not exact(got, jw):
                    rec.fail("to_json to a file (buffersize %d) wrote %r\nexpected %r" % (size, got, jw))
                back = get(ak.from_json(path, buffersize=size))
                if not eq(back, exp):
                    rec.fail("file (buffersize %d) read back as %r\nexpected %r" % (size, back, exp))
            if len(want) and i % 3 == 0:
                for k in range(len(want)):
                    rec.step()
                    item = a[k]
                    if isinstance(item, (ak.Array, ak.Record)):
                        got = json.loads(ak.to_json(item))
                        if not exact(got, jw[k]):
                            rec.fail("to_json of item %d wrote %r\nexpected %r" % (k, got, jw[k]))

    def nested_complex(self, rec, vals):
        a = ak.Array(ak.layout.ListOffsetArray64(ak.layout.Index64(np.array([0, 1, 1, 2])), ak.layout.NumpyArray(np.array(vals))))
        want = [[vals[0]], [], [vals[1]]]
        back = get(ak.from_json(ak.to_json(a, complex_record_fields=("r", "i")), complex_record_fields=("r", "i")))
        if back != want:
            rec.fail("read back as %r, expected %r" % (back, want))
            return False
        return True

    def u_special(self, rec):
        nan, inf = float("nan"), float("inf")
        S = dict(nan_string="NaN!", infinity_string="+inf", minus_infinity_string="-inf")
        pool = [nan, inf, -inf, 1.5, None]
        for n in range(0, 4):
            for vals in itertools.product(pool, repeat=n):
                for wrap in ("flat", "list", "rec", "f4", "part"):
                    if not rec.begin({"values": repr(vals), "in": wrap}):
                        continue
                    rec.step()
                    x = ak.Array(list(vals)) if n else ak.Array(np.zeros(0))
                    if wrap == "f4":
                        if None in vals or not n:
                            continue
                        x = ak.Array(np.array(vals, "f4"))
                    tr = [S["nan_string"] if isinstance(v, float) and v != v else S["infinity_string"] if v == inf else S["minus_infinity_string"] if v == -inf else v for v in vals]
                    exp = list(vals)
                    if wrap == "list":
                        x, tr, exp = ak.Array([list(vals), list(vals)]), [tr, tr], [exp, exp]
                    elif wrap == "rec":
                        x, tr, exp = ak.Array([{"q": v} for v in vals]), [{"q": v} for v in tr], [{"q": v} for v in exp]
                    elif wrap == "part":
                        x = ak.partitioned([x, x])
                        tr, exp = tr + tr, exp + exp
                    text = ak.to_json(x, **S)
                    try:
                        got = json.loads(text)
                    except ValueError as e:
                        rec.fail("malformed: %s %r" % (e, text))
                        continue
                    if got != tr:
                        rec.fail("wrote %r, expected %r" % (got, tr))
                    back = get(ak.from_json(text, **S))
                    if not eq(back, exp):
                        rec.fail("read back as %r, expected %r" % (back, exp))
                    path = os.path.join(self.dir, "s.json")
                    for pretty in (False, True):
                        ak.to_json(x, path, pretty=pretty, **S)
                        with open(path) as f:
                            if json.loads(f.read()) != tr:
                                rec.fail("wrote to a file (pretty=%r) something else than %r" % (pretty, tr))
                        back = get(ak.from_json(path, **S))
                        if not eq(back, exp):
                            rec.fail("read from the file as %r, expected %r" % (back, exp))
        # strings that merely contain or extend the special ones stay strings
        for s in ("NaN", "NaN!!", "xNaN!", "+inf", "-inf", "+in", "-inff", "", "NaN!"):
            for opts in ({}, {"nan_string": "NaN!"}, {"infinity_string": "+inf"}, {"minus_infinity_string": "-inf"}, S):
                if not rec.begin({"string": s, "options": opts}):
                    continue
                rec.step()
                exp = {opts.get("nan_string"): nan, opts.get("infinity_string"): inf, opts.get("minus_infinity_string"): -inf}.get(s, s)
                got = get(ak.from_json(json.dumps([s, s]), **opts))
                if not eq(got, [exp, exp]):
                    rec.fail("read as %r, expected %r" % (got, [exp, exp]))
        # decimals
        for x in (3.14159, -2.71828, 0.125, 1e-9, 123456.789):
            for d in (1, 2, 3, 8):
                if not rec.begin({"value": x, "maxdecimals": d}):
                    continue
                rec.step()
                for pretty in (False, True):
                    got = json.loads(ak.to_json(ak.Array([x]), maxdecimals=d, pretty=pretty))
                    if abs(got[0] - x) > 10.0 ** -d:
                        rec.fail("maxdecimals=%d wrote %r" % (d, got))
        # complex numbers
        for vals in itertools.product([1 + 2j, -0.5j, 3 + 0j], repeat=2):
            if not rec.begin({"complex": repr(vals)}):
                continue
            rec.step()
            if not self.nested_complex(rec, vals):
                continue
            a = ak.Array(np.array(vals))
            text = ak.to_json(a, complex_record_fields=("r", "i"))
            if json.loads(text) != [{"r": v.real, "i": v.imag} for v in vals]:
                rec.fail("wrote %s" % text)
            back = get(ak.from_json(text, complex_record_fields=("r", "i")))
            if back != list(vals):
                rec.fail("read back as %r" % (back,))
            try:
                ak.to_json(a)
                rec.fail("complex numbers written without names for their parts")
            except ValueError:
                pass


class NO:
    pass


def jsonable(v):
    """what the standard module writes for it, or NO"""
    if isinstance(v, list):
        out = [jsonable(x) for x in v]
        return NO if any(x is NO for x in out) else out
    if isinstance(v, lay.DT64):
        return NO
    if isinstance(v, tuple):
        v = {str(i): x for i, x in enumerate(v)}
    if isinstance(v, dict):
        out = {k: jsonable(x) for k, x in v.items()}
        return NO if any(x is NO for x in out.values()) else out
    if isinstance(v, (bytes, complex)):
        return NO
    return v


def exact(a, b):
    """same JSON value; an integral double may be written with or without a fraction"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
