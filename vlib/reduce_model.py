"""Reference semantics of reducers on nested Python data (with abstract types)."""
from vlib.lay import DT64


class Skip(Exception):
    pass


def depth(t):
    k = t[0]
    if k in ("list", "reg"):
        return 1 + depth(t[-1])
    if k == "opt":
        return depth(t[1])
    if k in ("num", "unk"):
        return 1
    raise Skip("no single depth")


def leaftype(t):
    while t[0] in ("list", "reg", "opt"):
        t = t[-1]
    return t


def unreg(t):
    """t with every regular dimension next to a missing-value level made variable-length"""
    k = t[0]
    if k == "opt":
        c = t[1]
        if c[0] == "reg":
            c = ("list", c[2])
        return ("opt", unreg(c))
    if k == "reg":
        return ("list", unreg(t[2])) if t[2][0] == "opt" else ("reg", t[1], unreg(t[2]))
    if k == "list":
        return ("list", unreg(t[1]))
    return t


def reduce(v, t, axis, f, keepdims, rerank=False):
    """v: list whose items have type t; axis counts from here; f: function of [(position, value)] -> value"""
    if axis == 0:
        out = combine([(i, x) for i, x in enumerate(v)], t, f, rerank)
        return [out] if keepdims else out
    tt = t
    opt = False
    while tt[0] == "opt":
        tt = tt[1]
        opt = True
    return [None if x is None else reduce(x, tt[-1], axis - 1, f, keepdims, rerank) for x in v]


def combine(pairs, t, f, rerank=False):
    """rerank: positions count only the lists long enough to take part, at every list level but the
    innermost (the known deviation of argmin/argmax; see DESIGN.md)"""
    while t[0] == "opt":
        pairs = [(i, x) for i, x in pairs if x is not None]
        t = t[1]
    if t[0] in ("num", "unk"):
        return f(pairs)
    if t[0] in ("list", "reg"):
        n = t[1] if t[0] == "reg" else max([len(x) for _, x in pairs] or [0])
        out = []
        for k in range(n):
            sub = [(i, x[k]) for i, x in pairs if k < len(x)]
            if rerank and t[0] == "list" and depth(t[-1]) > 1:
                sub = [(r, x) for r, (_, x) in enumerate(sub)]
            out.append(combine(sub, t[-1], f, rerank))
        return out
    raise Skip("cannot reduce")


def truth(x):
    if isinstance(x, DT64):
        return x[1] != 0
    return bool(x)


def reducer(name, mask, lo, hi):
    """lo/hi: identities of max/min for the leaf type"""
    def f(pairs):
        xs = [x for _, x in pairs]
        if mask and not xs:
            return None
        if name == "count":
            return len(xs)
        if name == "count_nonzero":
            return sum(1 for x in xs if truth(x))
        if name == "any":
            return any(truth(x) for x in xs)
        if name == "all":
            return all(truth(x) for x in xs)
        if name == "sum":
            if xs and isinstance(xs[0], DT64):
                return DT64((xs[0][0], sum(x[1] for x in xs)))
            return sum(xs)
        if name == "prod":
            out = 1
            for x in xs:
                out *= x
            return out
        if name == "min":
            return min(xs) if xs else hi
        if name == "max":
            return max(xs) if xs else lo
        if name == "argmin":
            return min(pairs, key=lambda p: (p[1], p[0]))[0] if xs else -1
        if name == "argmax":
            if not xs:
                return -1
            m = max(xs)
            return min(i for i, x in pairs if x == m)
        raise AssertionError(name)
    return f


NAMES = ["count", "count_nonzero", "any", "all", "sum", "prod", "min", "max", "argmin", "argmax"]
DEFMASK = {"min": True, "max": True, "argmin": True, "argmax": True}
