"""C33: identities.  Every layout, identities set, every slice and every slice of its results: the identity attached to an element is
the path (positions and fields) at which that element was in the original array."""
import itertools
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.diff import OKERR
from vlib.lay import decode, mk

L = ak.layout
IND = (L.IndexedArray32, L.IndexedArrayU32, L.IndexedArray64)
OPT = (L.IndexedOptionArray32, L.IndexedOptionArray64)


class Relabel(object):
    """unique leaves: every number of a descriptor replaced by a running count"""

    def __init__(self):
        self.n = 0

    def __call__(self, d):
        if d[0] == "N":
            vals = tuple(range(self.n, self.n + len(d[2])))
            self.n += len(vals)
            return ("N", "i8" if d[1] in ("?", "i1") else d[1], vals)
        if d[0] == "N2":
            vals = tuple(range(self.n, self.n + len(d[3])))
            self.n += len(vals)
            return ("N2", "i8" if d[1] in ("?", "i1") else d[1], d[2], vals)
        if d[0] == "S":
            vals = tuple("s%d" % i for i in range(self.n, self.n + len(d[1])))
            self.n += len(vals)
            return ("S", vals)
        return tuple(self(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and isnode(y) else tuple(self(z) for z in y) if isinstance(y, tuple) and y and isinstance(y[0], tuple) and all(map(isnode, y)) else y for y in d)


KINDS = {"N", "N2", "S", "E", "LO", "L", "R", "I", "IO", "BM", "bM", "UM", "T", "D", "U", "P"}


def isnode(y):
    return isinstance(y, tuple) and len(y) > 0 and isinstance(y[0], str) and y[0] in KINDS and (len(y) > 1 or y[0] == "E")


def origins(v, path, fields, out):
    """label -> every (path, fields) at which it is"""
    if v is None:
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            origins(x, path + (i,), fields, out)
    elif isinstance(v, (dict, tuple)):
        for k, x in (v.items() if isinstance(v, dict) else ((str(i), x) for i, x in enumerate(v))):
            origins(x, path, fields + ((len(path) - 1, k),), out)
    else:
        out.setdefault(v if isinstance(v, str) else float(v), []).append((path, fields))


class Check:
    pid = "C33"
    rule = "transition = the identity of one node element above one leaf; state = distinct (layout, slice); non-trivial = distinct identity"
    assumptions = ["an element that occurs several times in the original array (through indexes or overlapping lists) has no unique place: its inner nodes may carry no identity or that of one of its places",
                   "results of operations that make new elements are outside"]

    def space(self, tier):
        ok = lambda d: not any(k in repr(d) for k in ("'V'", "'PART'", "'P'", "'B'", "M8", "m8", "c8", "c16", "'Ns'", "'N2s'", "'?'", "'E'"))
        N = ("N", "i8", tuple(range(6)))
        rec = ("D", ("y", "x"), (("LO", "64", (0, 1, 1, 3, 4, 5, 6), N), N), 6)
        tup = ("T", (N, N), 5)
        lv = gen.layouts(2, [N, ("N2", "i8", (6, 2), tuple(range(12))), ("S", ("a", "bc", "", "d", "e", "f"))], (True, True))
        out = [d for level in lv for d in level]
        for b in (rec, tup, ("D", ("z", "r"), (N, rec), 6)):
            out += [b] + gen.wraps(b, True) + [d for c in gen.wraps(b, False) for d in gen.wraps(c, tier == "thorough")]
        if tier == "thorough":
            out += [d for c in lv[2][::3] for d in gen.wraps(c, False)]
        out += gen.node_space(tier)[::1 if tier == "thorough" else 3]
        seen, uniq = set(), []
        for d in filter(ok, out):
            r = Relabel()(d)
            if repr(r) not in seen:
                seen.add(repr(r))
                uniq.append(r)
        return uniq

    def units(self, tier):
        self.tier = tier
        sp = self.space(tier)
        return [("run", sp[i:i + 40]) for i in range(0, len(sp), 40)]

    def bounds(self, tier):
        return "%d layouts (every node type two deep, records, tuples, nested records, the small node space) x 40 slices x 10 second slices" % len(self.space(tier))

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def slices(self, x):
        n = len(x)
        out = [("[%s:%s:%s]" % (s, e, k), slice(s, e, k)) for s, e, k in ((1, None, None), (None, -1, None), (1, 3, None), (None, None, 2), (None, None, -1), (5, 2, None), (-2, None, None))]
        if n:
            out += [("[[-1, 0]]", np.array([n - 1, 0])), ("[[0, 0, last]]", np.array([0, 0, n - 1])), ("[mask]", np.arange(n) % 2 == 0), ("[[]]", np.array([], "i8")), ("option", L.IndexedOptionArray64(L.Index64(np.array([n - 1, -1, 0])), L.NumpyArray(np.arange(n))))]
            out += [("[0]", 0), ("[-1]", -1)]
        out += [("[:, 0]", (slice(None), 0)), ("[:, -1:]", (slice(None), slice(-1, None))), ("[:, ::-1]", (slice(None), slice(None, None, -1))), ("[:, :1]", (slice(None), slice(None, 1))), ("[1:, 1:]", (slice(1, None), slice(1, None))),
                ("[..., 0]", (Ellipsis, 0)), ("[..., -1:]", (Ellipsis, slice(-1, None))), ("[newaxis]", (np.newaxis,)), ("[:, newaxis]", (slice(None), np.newaxis)), ("[[0, 1], [0, 0]]", (np.array([0, 1]), np.array([0, 0]))),
                ("[:, [0, 0]]", (slice(None), np.array([0, 0]))), ("[[1, 0], ...]", (np.array([1, 0]), Ellipsis)), ("[:, :, 0]", (slice(None), slice(None), 0))]
        for k in x.keys()[:2]:
            out += [("[%r]" % k, k), ("[1:, %r]" % k, (slice(1, None), k)), ("[[%r]]" % k, [k])]
        if len(x.keys()) > 1:
            out += [("[fields]", list(reversed(x.keys())))]
        return out

    def u_run(self, rec, ds):
        for d in ds:
            x = mk(d)
            v = decode(x)
            org = {}
            origins(v, (), (), org)
            unique = all(len(p) == 1 for p in org.values())
            try:
                x.setidentities()
            except OKERR as e:
                if rec.begin((d, "set")):
                    rec.fail("setidentities raised %r" % (e,))
                continue
            if rec.begin((d, "set")):
                rec.state((d, "set"))
                self.look(rec, x, org, unique, "after setidentities", d)
                if x.identities is None or np.asarray(x.identities).tolist() != [[i] for i in range(len(x))]:
                    rec.fail("the array's own identities are %s" % (x.identities,))
            jag = []
            try:
                ji = ak.local_index(ak.Array(mk(d)), axis=1)
                jag = [("jagged", (ji[:, ::-1]).layout), ("jagged mask", (ji % 2 == 0).layout)]
            except OKERR:
                pass
            for name, s in self.slices(x) + jag:
                if not rec.begin((d, name)):
                    continue
                rec.state((d, name))
                try:
                    y = x[s]
                except OKERR:
                    rec.outcome("raise")
                    continue
                if not self.look(rec, y, org, None, name, d) or not isinstance(y, L.Content):
                    continue
                if isinstance(s, (slice, np.ndarray)) and x.identities is not None and y.identities is None:
                    rec.fail("%s lost the identities of the array" % name)
                for name2, s2 in self.slices(y)[::3 if self.tier == "quick" else 1]:
                    try:
                        z = y[s2]
                    except OKERR:
                        continue
                    if not self.look(rec, z, org, None, name + name2, d):
                        break

    def look(self, rec, y, org, unique, what, d):
        """every identity on the way to every leaf"""
        try:
            if isinstance(y, L.Record):
                self.visit(rec, y.array, y.at, [], org, what)
            elif isinstance(y, L.Content):
                for i in range(len(y)):
                    self.visit(rec, y, i, [], org, what)
            if unique:
                self.complete(y, what)
        except Bad as e:
            rec.fail(str(e))
            return False
        return True

    def complete(self, x, what):
        """no element is in two places: every node carries identities, as long as the node"""
        if x.identities is None:
            if isinstance(x, (L.EmptyArray,)) or len(x) == 0:
                return
            raise Bad("%s, a %s carries no identities" % (what, type(x).__name__))
        if len(np.asarray(x.identities)) != len(x):
            raise Bad("%s, a %s of length %d carries %d identities" % (what, type(x).__name__, len(x), len(np.asarray(x.identities))))

    def visit(self, rec, x, i, trail, org, what):
        ids = x.identities
        if ids is not None:
            a = np.asarray(ids)
            if len(a) < len(x) or a.ndim != 2:
                raise Bad("%s, a %s of length %d carries identities of shape %r" % (what, type(x).__name__, len(x), a.shape))
            trail = trail + [(tuple(a[i].tolist()), tuple(ids.fieldloc), type(x).__name__)]
        p = x.parameters.get("__array__")
        if p in ("string", "bytestring"):
            s = x[i]
            return self.leaf(rec, s if isinstance(s, str) else bytes(np.asarray(s)).decode(), trail, org, what, True)
        if isinstance(x, L.NumpyArray):
            row = np.asarray(x)[i]
            for q in np.ravel(row):
                self.leaf(rec, float(q), trail, org, what, row.ndim == 0)
        elif isinstance(x, L.EmptyArray):
            pass
        elif isinstance(x, lay.LISTOFF):
            o = np.asarray(x.offsets)
            for j in range(int(o[i]), int(o[i + 1])):
                self.visit(rec, x.content, j, trail, org, what)
        elif isinstance(x, lay.LISTARR):
            for j in range(int(np.asarray(x.starts)[i]), int(np.asarray(x.stops)[i])):
                self.visit(rec, x.content, j, trail, org, what)
        elif isinstance(x, L.RegularArray):
            for j in range(i * x.size, (i + 1) * x.size):
                self.visit(rec, x.content, j, trail, org, what)
        elif isinstance(x, L.RecordArray):
            for c in x.contents:
                self.visit(rec, c, i, trail, org, what)
        elif isinstance(x, IND + OPT):
            j = int(np.asarray(x.index)[i])
            if j >= 0:
                self.visit(rec, x.content, j, trail, org, what)
        elif isinstance(x, (L.ByteMaskedArray, L.BitMaskedArray)):
            if x[i] is not None:
                self.visit(rec, x.content, i, trail, org, what)
        elif isinstance(x, L.UnmaskedArray):
            self.visit(rec, x.content, i, trail, org, what)
        elif isinstance(x, lay.UNIONS):
            self.visit(rec, x.contents[int(np.asarray(x.tags)[i])], int(np.asarray(x.index)[i]), trail, org, what)
        else:
            raise AssertionError(type(x))

    def leaf(self, rec, label, trail, org, what, scalar):
        places = org.get(label)
        if places is None:
            return                # a part of a string
        for k, (t, f, kind) in enumerate(trail):
            rec.step()
            rec.outcome((t, f))
            last = False
            if not any(path[:len(t)] == t and fields[:len(f)] == f and all(g in f for g in fields if g[0] < len(t) - 1) for path, fields in places):
                raise Bad("%s, the %s over %r has the identity %r %r, not that of %r" % (what, kind, label, t, f, places))


class Bad(Exception):
    pass
