"""Axis arithmetic on abstract types (vlib.lay.mtype), shared by the checks."""
from vlib.diff import Bad, Skip


def depths(t):
    """set of numbers of list dimensions an element of type t has"""
    k = t[0]
    if k in ("list", "reg"):
        return {1 + d for d in depths(t[-1])}
    if k == "opt":
        return depths(t[1])
    if k == "rec":
        return set().union(*[depths(c) for c in t[2]]) if t[2] else {0}
    if k == "uni":
        return set().union(*[depths(c) for c in t[1]])
    return {0}


def has(t, *kinds):
    if t[0] in kinds:
        return True
    if t[0] in ("list", "reg", "opt"):
        return has(t[-1], *kinds)
    if t[0] == "rec":
        return any(has(c, *kinds) for c in t[2])
    if t[0] == "uni":
        return any(has(c, *kinds) for c in t[1])
    return False


def above(t, axis, *kinds):
    """does one of these kinds occur at or above list dimension `axis` (counted inside elements of type t)?"""
    if t[0] in kinds:
        return True
    if t[0] in ("list", "reg"):
        return axis > 0 and above(t[-1], axis - 1, *kinds)
    if t[0] == "opt":
        return above(t[1], axis, *kinds)
    if t[0] == "rec":
        return any(above(c, axis, *kinds) for c in t[2])
    if t[0] == "uni":
        return any(above(c, axis, *kinds) for c in t[1])
    return False


def each(v, t, axis, f):
    """apply f(list, its element type) to the list at dimension `axis` inside each element v of type t"""
    k = t[0]
    if k == "opt":
        return None if v is None else each(v, t[1], axis, f)
    if k in ("list", "reg"):
        if axis == 0:
            return f(v, t[-1])
        return [each(x, t[-1], axis - 1, f) for x in v]
    if k == "rec":
        if t[1] is None:
            return tuple(each(x, c, axis, f) for x, c in zip(v, t[2]))
        return {n: each(v[n], c, axis, f) for n, c in zip(t[1], t[2])}
    raise Bad


def reaches(t, axis):
    """the type really has a list dimension `axis` in every branch (else the request is out of range)"""
    k = t[0]
    if k == "opt":
        return reaches(t[1], axis)
    if k in ("list", "reg"):
        return axis == 0 or reaches(t[-1], axis - 1)
    if k == "rec":
        if not t[2]:
            raise Skip
        r = [reaches(c, axis) for c in t[2]]
        if any(x is True for x in r) and not all(r):
            raise Skip
        return all(r)
    if k in ("uni", "unk", "str", "bytes"):
        raise Skip              # strings are lists of characters below their own level
    return False


def resolve(t, axis):
    """non-negative axis of an array of elements t; raises Skip where negative axes mean different things per branch"""
    if axis >= 0:
        return axis
    ds = depths(t)
    if len(ds) != 1:
        raise Skip
    n = ds.pop() + 1
    if has(t, "unk"):
        raise Skip
    if axis + n < 0:
        raise Bad
    if has(t, "rec") and above(t, axis + n, "rec") and axis + n == 0:
        raise Skip               # the records' own dimension: no field owns it
    return axis + n


def negkey(t, axis, inlist=False):
    """recorded finding: a negative axis is resolved wrongly for records inside lists"""
    def inl(t, under):
        if t[0] == "rec":
            return under or any(inl(c, under) for c in t[2])
        if t[0] in ("list", "reg"):
            return inl(t[-1], True)
        if t[0] == "opt":
            return inl(t[1], under)
        if t[0] == "uni":
            return any(inl(c, under) for c in t[1])
        return False
    return "negative-axis-records-in-lists" if axis is not None and axis < 0 and inl(t, False) else None


def guard(t, axis):
    """position >= 1 inside elements"""
    if not reaches(t, axis - 1):
        raise Bad


def strip(t):
    o = False
    while t[0] == "opt":
        o, t = True, t[1]
    return o, t
