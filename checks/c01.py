"""C01: what a user reads from an array is exactly what its buffers denote, for every layout."""
import awkward as ak
import numpy as np
from vlib import gen, lay
from vlib.lay import decode, mk, same, scalar

L = ak.layout


def space(tier):
    out = []
    out += gen.node_space(tier)
    lv = gen.layouts(2, gen.leaves(6, True), [True, True])
    out += lv[0] + lv[1] + lv[2]
    for dt in gen.ALL_DTYPES:
        vals = gen.dtype_values(dt)
        N = ("N", dt, vals)
        out += [N, ("Ns", dt, vals, "off"), ("Ns", dt, vals, "step2"), ("Ns", dt, vals, "rev"),
                ("N2", dt, (2, 2), vals), ("N2s", dt, (2, 2), vals, "F")]
        out += gen.wraps(N)
    lv = gen.layouts(3, gen.leaves(6), [True, True, True] if tier == "thorough" else [True, False, False])
    out += lv[3]
    out += gen.longs() + [("PART", tuple(("N", "i8", tuple(range(i))) for i in range(20)))]
    # virtual and partitioned shells
    for d in gen.layouts(1, gen.leaves(6), [True])[1]:
        out += [("V", d, True), ("V", d, False), ("PART", (d, d)),
                ("PART", (d, ("V", d, True), d))]
    return out


class Check:
    pid = "C01"
    rule = ("states are layouts: every layout of the node alphabet up to the depth bound; each is read through "
            "length, to_list, iteration, every in-range and near-range integer index (both signs, recursively to the "
            "scalars) and compared with an independent decoder of its raw buffers; non-trivial = distinct decoded value")
    assumptions = ["NumPy's own buffer-protocol view of a contiguous or strided buffer is right",
                   "the decoder in vlib/lay.py states the documented meaning of each node type"]

    def bounds(self, tier):
        return {"node_alphabet": "vlib/gen.py wraps()", "depth": 3, "content_length": "<=6 (10 for bit masks)"}

    def units(self, tier):
        sp = space(tier)
        return [sp[i:i + 25] for i in range(0, len(sp), 25)]

    def run_unit(self, unit, rec):
        for d in unit:
            if not rec.begin(d):
                continue
            x = mk(d)
            want = decode(x)
            rec.state(repr(d))
            rec.outcome(repr(want))
            n = len(want)
            if len(x) != n:
                rec.fail("len: got %d, buffers denote %d" % (len(x), n))
            got = tolist(ak.to_list(x))
            rec.step()
            if not same(got, want):
                rec.fail("to_list: got %r\nbuffers denote %r" % (got, want))
            arr = ak.Array(x)
            got = [decode(i) for i in arr]
            rec.step()
            if not same(got, want):
                rec.fail("iteration: got %r\nbuffers denote %r" % (got, want))
            walk(rec, arr, want, ())
            if isinstance(x, L.Content):
                got = decode(x.deep_copy())
                rec.step()
                if not same(got, want):
                    rec.fail("deep_copy: got %r\nbuffers denote %r" % (got, want))
            c = ak.copy(arr)
            if not same(decode(c), want):
                rec.fail("copy: got %r\nbuffers denote %r" % (decode(c), want))


def tolist(x):
    if isinstance(x, list):
        return [tolist(i) for i in x]
    if isinstance(x, tuple) and not isinstance(x, lay.DT64):
        return tuple(tolist(i) for i in x)
    if isinstance(x, dict):
        return {k: tolist(v) for k, v in x.items()}
    return scalar(x)


def walk(rec, arr, want, path):
    n = len(want)
    for i in list(range(n)) + [n, n + 1]:
        for at in (i, i - n) if i < n else (i, -i - 1):
            rec.step()
            try:
                got = arr[at]
            except (ValueError, IndexError) as err:
                if -n <= at < n:
                    rec.fail("path %r index %d of %d raised %s" % (path, at, n, str(err).split("\n")[0]))
                continue
            if not -n <= at < n:
                rec.fail("path %r index %d of %d did not raise: %r" % (path, at, n, got))
                continue
            w = want[at]
            g = decode(got)
            if not same(g, w):
                rec.fail("path %r index %d: got %r, buffers denote %r" % (path, at, g, w))
                continue
            if at >= 0:
                if isinstance(w, list) and isinstance(got, ak.Array):
                    walk(rec, got, w, path + (at,))
                elif isinstance(w, dict):
                    for k in w:
                        rec.step()
                        gk = got[k]
                        if not same(decode(gk), w[k]):
                            rec.fail("path %r index %d field %r: got %r, buffers denote %r" % (path, at, k, decode(gk), w[k]))
                        elif isinstance(w[k], list):
                            walk(rec, gk, w[k], path + (at, k))
                elif isinstance(w, tuple) and not isinstance(w, lay.DT64):
                    for j in range(len(w)):
                        rec.step()
                        gk = got[str(j)]
                        if not same(decode(gk), w[j]):
                            rec.fail("path %r index %d slot %d: got %r, buffers denote %r" % (path, at, j, decode(gk), w[j]))
