"""C16: to_buffers/from_buffers, pickling, packing and copying, on every layout, partitioning, key format and truncation of the bounded space."""
import copy
import pickle

import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.lay import L, decode, mk, mtype

ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError)


def parametrised(d):
    """the same descriptor with a distinct parameter on every node"""
    n = [0]

    def go(x):
        k = x[0]
        n[0] += 1
        me = (("p", n[0]),)
        if k in ("N", "Ns", "N2", "N2s", "E", "S", "B"):
            return ("P", me, x)
        if k in ("LO", "I", "IO", "R", "BM"):
            return ("P", me, x[:-1] + (go(x[-1]),))
        if k == "L":
            return ("P", me, x[:4] + (go(x[4]),))
        if k == "bM":
            return ("P", me, x[:5] + (go(x[5]),))
        if k == "UM":
            return ("P", me, ("UM", go(x[1])))
        if k == "T":
            return ("P", me, ("T", tuple(go(c) for c in x[1]), x[2]))
        if k == "D":
            return ("P", me, ("D", x[1], tuple(go(c) for c in x[2]), x[3]))
        if k == "U":
            return ("P", me, x[:4] + (tuple(go(c) for c in x[4]),))
        if k == "V":
            return ("V", go(x[1]), x[2])
        if k == "P":
            return ("P", x[1], go(x[2]))
        raise AssertionError(x)
    return go(d)


def mergeable(d):
    """a union whose contents merge into one type: packing simplifies it"""
    if not isinstance(d, tuple):
        return False
    if d and d[0] == "U":
        kinds = [gen.core(c)[0] for c in d[4]]
        if "S" in kinds[:1] or len(set(kinds)) < len(kinds) or any(k in gen.INDK for k in kinds):
            return True
    return any(mergeable(x) for x in d)


class NotPacked(Exception):
    pass


def check_packed(x, n=None, top=True):
    """the documented properties of a packed layout"""
    def need(ok, what):
        if not ok:
            raise NotPacked("%s in %s" % (what, type(x).__name__))
    if n is not None:
        need(len(x) == n, "length %d where %d is used" % (len(x), n))
    if isinstance(x, L.NumpyArray):
        need(lay.nparr(x).flags.c_contiguous, "not contiguous")
    elif isinstance(x, lay.LISTOFF):
        off = lay.nparr(x.offsets)
        need(off[0] == 0, "offsets[0] != 0")
        check_packed(x.content, int(off[-1]), False)
    elif isinstance(x, L.RegularArray):
        if x.size != 0:
            check_packed(x.content, len(x) * x.size, False)
        else:
            check_packed(x.content, None, False)
    elif isinstance(x, lay.INDEXEDOPT):
        i = lay.nparr(x.index)
        check_packed(x.content, None if x.parameter("__array__") == "categorical" else int((i >= 0).sum()), False)
    elif isinstance(x, (L.ByteMaskedArray, L.BitMaskedArray)):
        check_packed(x.content, len(x), False)
    elif isinstance(x, L.UnmaskedArray):
        check_packed(x.content, None, False)
    elif isinstance(x, L.RecordArray):
        for c in x.contents:
            check_packed(c, len(x), False)
    elif isinstance(x, lay.UNIONS):
        t = lay.nparr(x.tags)
        need(len(x.index) == len(t), "index longer than tags")
        for i, c in enumerate(x.contents):
            check_packed(c, int((t == i).sum()), False)
    elif isinstance(x, lay.INDEXED):
        need(x.parameter("__array__") == "categorical", "an index")
    elif isinstance(x, L.EmptyArray):
        pass
    elif isinstance(x, ak.partition.PartitionedArray):
        for p in x.partitions:
            check_packed(p)
    elif isinstance(x, L.Record):
        pass
    else:
        need(False, "this node")


def tystr(a):
    return str(ak.type(a))


class Check:
    pid = "C16"
    rule = ("transition = one array saved and rebuilt (or packed, pickled, copied, or rebuilt from damaged buffers) and compared with what its buffers denote; "
            "state = distinct array; non-trivial = distinct (form, values)")
    assumptions = ["a union whose contents can be merged may come back simplified: its type is not compared",
                   "a partitioned array whose partitions have different forms may be refused by to_buffers (ValueError)"]

    def units(self, tier):
        self.tier = tier
        return ([("nodes", p) for p in range(8)] + [("trees", p) for p in range(24)] + [("params", p) for p in range(8)] + [("dtypes",)] +
                [("parts", p) for p in range(8)] + [("short", p) for p in range(16)] + [("keys",), ("records",), ("categorical",)])

    def bounds(self, tier):
        return ("every one-node layout of the node space; all layouts of up to %d nodes over 6-element leaves, also with a parameter on every node, lazily wrapped and "
                "cut into partitions at every position; all dtypes; pickle protocols 0 to 5; every buffer cut by one item, one byte, and to nothing"
                % (3 if tier == "thorough" else 2))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    # ------------------------------------------------------------ one array

    def trip(self, rec, what, x, want, ty, f, packed=False):
        rec.step()
        try:
            b = f()
            got = decode(b)
        except lay.Undecodable as e:
            rec.fail("%s: result is not a valid layout: %s" % (what, e))
            return None
        except ERR + (AttributeError, AssertionError, ZeroDivisionError) as e:
            rec.fail("%s raised %s: %s" % (what, type(e).__name__, str(e).strip().split("\n")[0]))
            return None
        if not lay.same(got, want):
            rec.fail("%s gave %r\nexpected %r" % (what, got, want))
            return None
        if ty is not None and tystr(b) != ty:
            rec.fail("%s gave type %s\nexpected %s" % (what, tystr(b), ty))
            return None
        rec.outcome((what, ty, repr(got)))
        return b

    def full(self, rec, d, x, part=False):
        a = ak.Array(x)
        want = decode(x)
        ty = tystr(a)
        rec.state(repr(d))
        tyl = None if mergeable(d) else ty
        uneven = part

        def buf(lazy, cache="new"):
            return lambda: ak.from_buffers(*ak.to_buffers(a), lazy=lazy, **({"lazy_cache": cache} if lazy else {}))
        ok = True
        try:
            ak.to_buffers(a)
        except ValueError as e:
            if not (uneven and "differs from the first Form" in str(e)):
                rec.fail("to_buffers raised %s" % str(e).split("\n")[0])
            ok = False
        if ok:
            self.trip(rec, "from_buffers", x, want, ty, buf(False))
            self.trip(rec, "from_buffers(lazy)", x, want, ty, buf(True))
            self.trip(rec, "from_buffers(lazy, no cache)", x, want, ty, buf(True, None))
            f, n, c = ak.to_buffers(a)
            self.trip(rec, "from_buffers(form as text, buffers as bytes)", x, want, ty,
                      lambda: ak.from_buffers(f.tojson(), n, {k: np.asarray(v).tobytes() for k, v in c.items()}))
        p = self.trip(rec, "packed", x, want, tyl, lambda: ak.packed(a))
        if p is not None:
            try:
                check_packed(p.layout)
            except NotPacked as e:
                rec.fail("packed leaves %s" % e)
            v = ak.is_valid(p)
            if not v:
                rec.fail("packed array is invalid: %s" % ak.validity_error(p))
        for proto in ((2, 5) if not self.tier == "thorough" else range(6)):
            self.trip(rec, "pickle protocol %d" % proto, x, want, tyl, lambda: pickle.loads(pickle.dumps(a, proto)))
        self.trip(rec, "copy.copy", x, want, ty, lambda: copy.copy(a))
        if not part:
            self.trip(rec, "copy.deepcopy", x, want, ty, lambda: copy.deepcopy(a))

    def u_nodes(self, rec, part):
        for i, d in enumerate(gen.node_space()):
            if i % 8 == part and rec.begin(d):
                self.full(rec, d, mk(d))

    def trees(self, deep=None):
        levels = gen.layouts(deep or (3 if self.tier == "thorough" else 2), gen.leaves(6, True), [True, False, False])
        return [d for lv in levels for d in lv]

    def u_trees(self, rec, part):
        todo = self.trees() + gen.longs()
        todo += [("V", d, f) for d in self.trees(1) for f in (True, False)]
        todo += [("D", ("a", "b"), (("V", d, True), ("N", "i8", tuple(range(gen.dlen(d))))), gen.dlen(d)) for d in self.trees(1)]
        for i, d in enumerate(todo):
            if i % 24 == part and rec.begin(d):
                self.full(rec, d, mk(d))

    def u_params(self, rec, part):
        for i, d in enumerate(self.trees(2)):
            if i % 8 == part:
                d = parametrised(d)
                if rec.begin(d):
                    self.full(rec, d, mk(d))

    def u_dtypes(self, rec):
        for dt in gen.ALL_DTYPES:
            v = gen.dtype_values(dt)
            for d in [("N", dt, v), ("Ns", dt, v, "off"), ("Ns", dt, v, "step2"), ("Ns", dt, v, "rev"), ("N2", dt, (2, 2), v), ("N2s", dt, (2, 2), v, "F"), ("N", dt, ()),
                      ("N2", dt, (0, 2), ()), ("N2", dt, (2, 0), ()), ("N2", dt, (2, 0, 3), ()), ("N2", dt, (2, 1, 2), v)]:
                for w in (d, ("LO", "64", (0, gen.dlen(d)), d), ("UM", d), ("R", 1, 0, d)):
                    if rec.begin(w):
                        self.full(rec, w, mk(w))
        for shape in ((3, 2), (2, 3)):          # big-endian and structured input are converted on the way in
            if rec.begin({"shape": shape}):
                x = L.NumpyArray(np.arange(6).reshape(shape)[::-1, ::-1])
                self.full(rec, {"shape": shape}, x)

    def u_parts(self, rec, part):
        for i, d in enumerate(self.trees(2)):
            if i % 8 != part:
                continue
            n = gen.dlen(d)
            for cut in sorted({0, 1, n // 2, n}):
                e = {"layout": d, "cut": cut}
                if not rec.begin(e):
                    continue
                x = mk(d)
                pa = ak.partition.IrregularlyPartitionedArray([x[:cut], x[cut:]], [cut, n])
                self.full(rec, d, pa, part=True)

    # ------------------------------------------------------------ damaged buffers

    def u_short(self, rec, part):
        for i, d in enumerate(self.trees(2) + gen.node_space()):
            if i % 16 != part:
                continue
            if not rec.begin(d):
                continue
            x = mk(d)
            want = decode(x)
            form, n, cont = ak.to_buffers(x)
            rec.state(repr(d))
            for key in sorted(cont):
                raw = np.ascontiguousarray(cont[key]).reshape(-1)
                for how in ("item", "byte", "all"):
                    if how == "byte" and raw.itemsize == 1:
                        continue
                    if raw.nbytes == 0:
                        continue
                    by = {"item": raw.itemsize, "byte": 1, "all": raw.nbytes}[how]
                    c2 = dict(cont)
                    c2[key] = raw.view(np.uint8)[:raw.nbytes - by].tobytes()
                    for lazy in (False, True):
                        rec.step()
                        try:
                            b = ak.from_buffers(form, n, c2, lazy=lazy)
                            got = decode(b)
                        except lay.Undecodable as e:
                            # only the unreachable part may be missing
                            try:
                                got = ak.to_list(b)
                            except ERR:
                                continue
                        except ERR:
                            rec.outcome("error")
                            continue
                        if not lay.same(got, want):
                            rec.fail("buffer %s cut (%s, lazy=%r): got %r\nexpected an error or %r" % (key, how, lazy, got, want))
                        rec.outcome(repr(got))
            # a longer request than the buffers hold
            for lazy in (False, True):
                rec.step()
                try:
                    b = ak.from_buffers(form, n + 1, cont, lazy=lazy)
                    got = decode(b)
                except lay.Undecodable as e:
                    rec.fail("length %d (lazy=%r) accepted, but the layout is invalid: %s" % (n + 1, lazy, e))
                    continue
                except ERR:
                    continue
                if len(got) > n + 1 or not lay.same(got[:n], want):
                    rec.fail("length %d (lazy=%r): got %r from %r" % (n + 1, lazy, got, want))
            # a missing buffer
            for key in sorted(cont):
                rec.step()
                c2 = {k: v for k, v in cont.items() if k != key}
                for lazy in (False, True):
                    try:
                        got = decode(ak.from_buffers(form, n, c2, lazy=lazy))
                    except ERR:
                        continue
                    if not lay.same(got, want):
                        rec.fail("buffer %s missing (lazy=%r): got %r" % (key, lazy, got))

    # ------------------------------------------------------------ names

    def u_keys(self, rec):
        ds = self.trees(1)
        for d in ds:
            for pstart in (0, 3):
                for kf in ("part{partition}-{form_key}-{attribute}", "{attribute}/{form_key}@{partition}", None):
                    for fk in ("node{id}", "k-{id}-z", None):
                        e = {"layout": d, "partition_start": pstart, "key_format": kf, "form_key": fk}
                        if not rec.begin(e):
                            continue
                        x = mk(d)
                        want = decode(x)
                        rec.state(repr(e))
                        rec.step()
                        k2 = kf if kf is not None else (lambda partition, form_key, attribute: "%s:%s:%s" % (attribute, partition, form_key))
                        f2 = fk if fk is not None else (lambda id, **kw: "F" + id)
                        seed = {"unrelated": b"xyz"}
                        f, n, c = ak.to_buffers(x, container=seed, partition_start=pstart, key_format=k2, form_key=f2)
                        if c is not seed or c.get("unrelated") != b"xyz":
                            rec.fail("the given container was not filled in place")
                        b = ak.from_buffers(f, n, c, partition_start=pstart, key_format=k2)
                        if not lay.same(decode(b), want):
                            rec.fail("got %r\nexpected %r" % (decode(b), want))
                        # two arrays in one container
                        y = mk(("N", "i8", (100, 200)))
                        fy, ny, c = ak.to_buffers(y, container=c, partition_start=pstart + 1, key_format=k2, form_key=f2)
                        b = ak.from_buffers(f, n, c, partition_start=pstart, key_format=k2)
                        by = ak.from_buffers(fy, ny, c, partition_start=pstart + 1, key_format=k2)
                        if kf is None or "{partition}" in kf:
                            if not lay.same(decode(b), want) or decode(by) != [100, 200]:
                                rec.fail("two arrays in one container: %r %r" % (decode(b), decode(by)))

    def u_records(self, rec):
        for d in self.trees(2):
            if gen.core(d)[0] not in ("D", "T"):
                continue
            n = gen.dlen(d)
            for i in range(n):
                e = {"layout": d, "at": i}
                if not rec.begin(e):
                    continue
                a = ak.Array(mk(d))
                r = a[i]
                rec.state(repr(e))
                want = decode(a)[i]
                ty = tystr(r)
                if mergeable(d):
                    ty = None
                for what, f in (("pickle", lambda: pickle.loads(pickle.dumps(r))), ("packed", lambda: ak.packed(r)), ("copy", lambda: copy.copy(r)),
                                ("deepcopy", lambda: copy.deepcopy(r))):
                    self.trip(rec, what, r, want, ty, f)

    def u_categorical(self, rec):
        import itertools
        for n in range(0, 4):
            for c in itertools.product((-1, 0, 1), repeat=n):
                for cont in (("S", ("one", "two")), ("N", "i8", (7, 8))):
                    for opt in (False, True):
                        if not opt and -1 in c:
                            continue
                        d = ("P", (("__array__", "categorical"),), ("IO" if opt else "I", "64", c, cont))
                        for w in (d, ("LO", "64", (0, n // 2, n), d)):
                            if rec.begin(w):
                                self.full(rec, w, mk(w))
                                a = ak.Array(mk(w))
                                for b in (pickle.loads(pickle.dumps(a)), ak.packed(a), ak.from_buffers(*ak.to_buffers(a))):
                                    if ak.is_categorical(b) != ak.is_categorical(a):
                                        rec.fail("is no longer categorical")

