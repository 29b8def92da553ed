"""Finite alphabets of layouts.  Everything here is deterministic enumeration."""
import itertools

from vlib.lay import dlen

OPTK = ("IO", "BM", "bM", "UM")
INDK = ("I",) + OPTK


def core(d):
    """descriptor with parameter / virtual wrappers stripped"""
    while d[0] in ("P", "V"):
        d = d[2] if d[0] == "P" else d[1]
    return d


def leaves(n=6, rich=False):
    out = [("N", "i8", tuple(range(n)))]
    if rich:
        out += [
            ("Ns", "f8", tuple(x + 0.5 for x in range(n)), "off"),
            ("Ns", "i4", tuple(range(n)), "step2"),
            ("Ns", "i8", tuple(range(n)), "rev"),
            ("N", "?", tuple(bool(x % 2) for x in range(n))),
            ("N2", "i8", (n // 2, 2), tuple(range(n // 2 * 2))),
            ("N2s", "i8", (n // 2, 2), tuple(range(n // 2 * 2)), "F"),
            ("S", tuple("abcdefgh"[i] * (i % 3) for i in range(n))),
            ("E",),
        ]
    return out


def wraps(c, rich=True, records=True, unions=True, options=True, indexed=True, lists=True, tag=0):
    """every one-node wrapping of child descriptor c from the node alphabet"""
    m = dlen(c)
    ck = core(c)[0]
    out = []
    if lists:
        if m >= 3:
            out.append(("LO", "64", (0, 1, 1, m), c))
            out.append(("LO", "32", (1, 1, m - 1, m - 1), c))
            out.append(("L", "64", (m - 2, 0, 1, 0), (m, 0, m - 1, 2), c))
            if rich:
                out.append(("LO", "U32", (0, 2, 2, 3), c))
                out.append(("L", "32", (m + 5, 0, m - 1), (m + 5, 3, m, 1), c))
                out.append(("L", "U32", (2, 0), (3, 1), c))
                out.append(("LO", "64", (2,), c))
                out.append(("LO", "64", (0, 0, 0), c))
        elif m == 2:
            out.append(("LO", "64", (0, 0, 2), c))
            out.append(("LO", "32", (1, 2, 2), c))
            out.append(("L", "64", (1, 0, 0), (2, 2, 0), c))
            if rich:
                out.append(("L", "32", (1, 9, 0), (2, 9, 2, 1), c))
                out.append(("LO", "U32", (0, 1, 2), c))
        elif m == 1:
            out.append(("LO", "64", (0, 0, 1), c))
            out.append(("L", "64", (0, 1, 0), (1, 1, 1), c))
        else:
            out.append(("LO", "64", (0, 0, 0), c))
            out.append(("L", "32", (0, 4), (0, 4), c))
            if rich:
                out.append(("LO", "64", (0,), c))
        out.append(("R", 2, 0, c))
        if rich:
            out.append(("R", 1, 0, c))
            out.append(("R", 0, 2, c))
            out.append(("R", 3, 0, c))
    if indexed and ck not in INDK:
        if m >= 2:
            out.append(("I", "64", (m - 1, 0, 0, 1), c))
            if rich:
                out.append(("I", "32", (1, m - 1), c))
                out.append(("I", "U32", (m - 1, 1, 0), c))
        elif m == 1:
            out.append(("I", "64", (0, 0), c))
    if options and ck not in INDK:
        if m >= 2:
            out.append(("IO", "64", (m - 1, -1, 0, 1, -1), c))
            out.append(("BM", tuple((i + 1) % 2 for i in range(m)), True, c))
            out.append(("bM", tuple((i // 2) % 2 for i in range(m)), False, m, True, c))
            if rich:
                out.append(("IO", "32", (-1, 0, m - 1, -5), c))
                out.append(("BM", tuple(i % 2 * 3 for i in range(m - 1)), False, c))
                out.append(("bM", tuple((i + 1) % 3 % 2 for i in range(m)), True, m - 1, False, c))
                out.append(("UM", c))
        elif m == 1:
            out.append(("IO", "64", (-1, 0), c))
            out.append(("BM", (1,), True, c))
        else:
            out.append(("IO", "64", (-1, -1), c))
    if records:
        other = ("N", "f8", tuple(i + 0.25 for i in range(m)))
        # field names in and out of alphabetical order
        out.append(("D", ("x", "y"), (c, other), m) if len(repr(c)) % 2 else ("D", ("y", "x"), (other, c), m))
        if rich:
            out.append(("T", (other, c), max(m - 1, 0)))
            out.append(("D", ("y",), (c,), m))
    if unions and ck != "U":
        other = ("N", "f8", (0.125, 1.125, 2.125))
        o2 = ("S", ("one", "two", ""))
        if m >= 2:
            out.append(("U", "64", (0, 1, 0, 1), (m - 1, 0, 0, 2), (c, o2)))
            if rich:
                out.append(("U", "32", (1, 1, 0), (2, 0, 1, 0, 0), (c, o2)))
                out.append(("U", "U32", (0, 2, 1, 0), (1, 0, 1, 0), (c, o2, ("LO", "64", (0, 2, 3), other))))
    return out


def layouts(depth, leaf_list, rich_levels, **kw):
    """all wrappings of the leaves up to `depth` nodes above a leaf; returns list by depth"""
    levels = [list(leaf_list)]
    for k in range(depth):
        nxt = []
        for c in levels[-1]:
            nxt += wraps(c, rich=rich_levels[k] if k < len(rich_levels) else False, **kw)
        levels.append(nxt)
    return levels


def longs(n=300, records=True, unions=True, strings=True):
    """layouts past the sizes where something could change: 16, 64, 127/128 and 255/256 elements, ten fields or
    contents, five levels"""
    v = tuple(i * 7919 % 301 for i in range(n))
    N = ("N", "i8", v)
    lens = (0, 1, 17, 2, 70, 0, 130, n - 220) if n >= 220 else (0, 1, 17, 2, 0, n - 20)
    off = tuple(sum(lens[:i]) for i in range(len(lens) + 1))
    many = tuple(i * 2 for i in range(n // 2 + 1))
    LO = ("LO", "64", off, N)
    out = [
        N, LO,
        ("L", "32", off[:-1][::-1], off[1:][::-1], N),
        ("LO", "U32", many, N),
        ("R", 2, 0, N), ("R", n // 2, 0, N),
        ("I", "U32", tuple(i * 7 % n for i in range(n)), N),
        ("IO", "32", tuple(-1 if i % 3 == 0 else i * 11 % n for i in range(n)), N),
        ("BM", tuple(int(i % 5 > 1) for i in range(n)), True, N),
        ("bM", tuple(i // 3 % 2 for i in range(n - 1)), False, n - 1, True, N),
        ("bM", tuple(i // 7 % 2 for i in range(n - 3)), True, n - 3, False, N),
        ("LO", "64", (0, n // 2 - 10, n // 2 - 10, n // 2), ("LO", "32", many, N)),
        ("IO", "64", (len(lens) - 1, -1, 2, -1, 4, 2), LO),
        ("LO", "64", off, ("IO", "64", tuple(-1 if i % 7 == 3 else i for i in range(n)), N)),
        ("LO", "64", (0, 2), ("LO", "64", (0, 1, 3), ("LO", "64", (0, 2, 2, 3), ("LO", "64", (0, 1, 3, 4), ("LO", "64", (0, 2, 2, 3, 6), ("N", "i8", (3, 1, 4, 1, 5, 9))))))),
    ]
    if records:
        few = [("N", "i8", (i, i + 20, i + 40)) for i in range(12)]
        out += [("D", tuple("f%d" % i for i in range(12)), tuple(few), 3), ("T", tuple(few), 3),
                ("LO", "64", off, ("D", ("x", "y"), (N, ("N", "f8", tuple(x + 0.5 for x in v))), n))]
    if unions:
        o = ("S", ("a", "bb", ""))
        out += [("U", "64", tuple(i % 2 for i in range(n)), tuple(i // 2 * 2 if i % 2 == 0 else i % 3 for i in range(n)), (N, o))]
    if strings:
        out += [("S", tuple(chr(97 + i % 26) * (i * 13 % 37) for i in range(150))), ("S", ("a" * 300, "a" * 299 + "b", "", "a" * 300))]
    return out


# ------------------------------------------------------------ exhaustive node spaces

def all_listoffset(content, maxlists, bits="64"):
    m = dlen(content)
    for n in range(maxlists + 1):
        for off in itertools.combinations_with_replacement(range(m + 1), n + 1):
            yield ("LO", bits, off, content)


def all_listarray(content, nlists, bits="64"):
    m = dlen(content)
    pairs = [(a, b) for a in range(m + 1) for b in range(a, m + 1)]
    for n in range(1, nlists + 1):
        for c in itertools.product(pairs, repeat=n):
            yield ("L", bits, tuple(p[0] for p in c), tuple(p[1] for p in c), content)


def all_indexed(content, maxn, option, bits="64"):
    m = dlen(content)
    alpha = ([-1] if option else []) + list(range(m))
    for n in range(maxn + 1):
        for c in itertools.product(alpha, repeat=n):
            yield ("IO" if option else "I", bits, c, content)


def all_bytemask(content, n):
    for c in itertools.product((0, 1), repeat=n):
        for vw in (True, False):
            yield ("BM", c, vw, content)


def all_bitmask(content, n):
    for c in itertools.product((0, 1), repeat=n):
        for vw in (True, False):
            for lsb in (True, False):
                yield ("bM", c, vw, n, lsb, content)


def all_union(c0, c1, n, bits="64"):
    alpha = [(0, i) for i in range(dlen(c0))] + [(1, i) for i in range(dlen(c1))]
    for c in itertools.product(alpha, repeat=n):
        yield ("U", bits, tuple(t for t, _ in c), tuple(i for _, i in c), (c0, c1))


def node_space(tier="quick"):
    """each node type alone over a small integer content: every buffer content in the bound"""
    N = ("N", "i8", (10, 11, 12))
    out = []
    out += all_listoffset(N, 3)
    out += all_listarray(N, 2)
    for b in ("32", "U32"):
        out += all_listoffset(N, 2, b)
        out += all_listarray(N, 1, b)
    for b in ("32", "U32", "64"):
        out += all_indexed(N, 2, False, b)
    for b in ("32", "64"):
        out += all_indexed(N, 3, True, b)
    N4 = ("N", "i8", (10, 11, 12, 13))
    for n in range(5):
        out += all_bytemask(N4, n)
    N9 = ("N", "i8", tuple(range(10, 20)))
    for n in (0, 1, 2, 3):
        out += all_bitmask(N9, n)
    for n in (7, 8, 9, 10):
        for c in itertools.product((0, 1), repeat=4):
            bits = tuple((c[i % 4] ^ (i == n - 1)) for i in range(n))
            for vw in (True, False):
                for lsb in (True, False):
                    out.append(("bM", bits, vw, n, lsb, N9))
    for size in range(4):
        for m in range(5):
            c = ("N", "i8", tuple(range(m)))
            out.append(("R", size, 2 if size == 0 else 0, c))
    for b in ("32", "U32", "64"):
        for n in range(0, 3):
            out += all_union(("N", "i8", (1, 2)), ("S", ("a", "bc")), n, b)
    return out


ALL_DTYPES = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "c8", "c16",
              "M8[s]", "M8[ns]", "M8[D]", "m8[us]", "m8[h]"]


def dtype_values(dt):
    if dt == "?":
        return (True, False, True, False)
    if dt[0] in "iu":
        b = int(dt[1]) * 8
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if dt[0] == "i" else (0, (1 << b) - 1)
        return (lo, hi, 1, hi - 1)
    if dt[0] == "f":
        return (float("inf"), -0.5, float("nan"), 1.5)
    if dt[0] == "c":
        return (1 + 2j, -0.5j, 3 + 0j, complex(0.0, 1.5))
    return (0, -5, 86400, 1234567)
