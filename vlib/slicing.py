"""Reference semantics of basic slicing on nested Python data.

g(v, t, items): v is one array value (a Python list) whose items have abstract
type t.  Raises Bad when the slice is an error, Skip when the documentation does
not determine the result.
"""
from vlib import lay


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def is_field(x):
    return isinstance(x, str) or (isinstance(x, list) and all(isinstance(y, str) for y in x) and len(x) > 0)


def depths(t):
    """set of list depths below (not counting) this item type"""
    k = t[0]
    if k in ("num", "unk", "str", "bytes"):
        return {0} if k != "unk" else {0}
    if k in ("list", "reg"):
        return {1 + d for d in depths(t[-1])}
    if k == "opt":
        return depths(t[1])
    if k == "rec":
        out = set()
        for x in t[2]:
            out |= depths(x)
        return out or {0}
    if k == "uni":
        out = set()
        for x in t[1]:
            out |= depths(x)
        return out
    raise AssertionError(t)


def project(v, t, name):
    """field selection through any nesting: returns (value, type)"""
    if isinstance(name, list):
        return projmany(v, t, name)
    k = t[0]
    if k == "rec":
        keys = t[1] if t[1] is not None else tuple(str(i) for i in range(len(t[2])))
        if name not in keys:
            if name.isdigit():
                raise Skip("positional access to a named field")
            raise Bad("no field")
        i = keys.index(name)
        key = name if t[1] is not None else i
        return (None if v is None else v[key]), t[2][i]
    if k in ("list", "reg"):
        tt = projtype(t[-1], name)
        return (None if v is None else [project(x, t[-1], name)[0] for x in v]), t[:-1] + (tt,)
    if k == "opt":
        tt = projtype(t[1], name)
        return (None if v is None else project(v, t[1], name)[0]), (tt if tt[0] == "opt" else ("opt", tt))
    if k == "uni":
        raise Skip("field of union")
    raise Bad("no fields here")


def projmany(v, t, names):
    k = t[0]
    if k == "rec":
        keys = t[1] if t[1] is not None else tuple(str(i) for i in range(len(t[2])))
        for n in names:
            if n not in keys:
                if n.isdigit():
                    raise Skip("positional access to a named field")
                raise Bad("no field")
        if t[1] is None:
            # tuples keep tuple-ness
            ii = [keys.index(n) for n in names]
            return (None if v is None else tuple(v[i] for i in ii)), ("rec", None, tuple(t[2][i] for i in ii))
        if len(set(names)) != len(names):
            raise Skip("duplicate names")
        return (None if v is None else {n: v[n] for n in names}), ("rec", tuple(names), tuple(t[2][keys.index(n)] for n in names))
    if k in ("list", "reg"):
        tt = projtype(t[-1], names)
        return (None if v is None else [projmany(x, t[-1], names)[0] for x in v]), t[:-1] + (tt,)
    if k == "opt":
        tt = projtype(t[1], names)
        return (None if v is None else projmany(v, t[1], names)[0]), ("opt", tt)
    if k == "uni":
        raise Skip("fields of union")
    raise Bad("no fields here")


def projtype(t, name):
    return project(None, t, name)[1]


def has(t, kinds):
    k = t[0]
    if k in kinds:
        return True
    if k in ("list", "reg", "opt"):
        return has(t[-1], kinds)
    if k == "rec":
        return any(has(x, kinds) for x in t[2])
    if k == "uni":
        return any(has(x, kinds) for x in t[1])
    return False


def expand(t, items):
    """replace Ellipsis; type t is the item type of the array being sliced"""
    n = sum(1 for x in items if x is Ellipsis)
    if n == 0:
        return items
    if n > 1:
        raise Skip("two ellipses")
    if has(t, ("str", "bytes", "unk")):
        raise Skip("ellipsis over strings or unknown type")
    used = sum(1 for x in items if isinstance(x, (int, slice)))
    if None in items and has(t, ("rec",)):
        raise Skip("ellipsis and newaxis over records")
    ds = depths(t)
    if len(ds) != 1:
        raise Skip("ellipsis over branching depth")
    total = 1 + ds.pop()
    if used > total:
        raise Bad("too many dims")
    i = items.index(Ellipsis)
    return items[:i] + (slice(None),) * (total - used) + items[i + 1:]


def getitem(v, t, items):
    """items: tuple of int, slice, None(newaxis), Ellipsis, str, list of str"""
    # field selections commute with everything positional: apply them first, outermost first
    arrt = ("list", t)
    fields = [x for x in items if is_field(x)]
    for i, f in enumerate(fields):
        if i and isinstance(fields[i - 1], list):
            raise Skip("nested projection")
        v, arrt = project(v, arrt, f)
    t = arrt[-1]
    items = tuple(x for x in items if not is_field(x))
    items = expand(t, items)
    out = g(v, t, items)
    if regbad(t, items[1:] if items and items[0] is not None else items):
        raise Skip("regular dimension out of range with nothing selected")
    return out


def regbad(t, items):
    """an integer exceeds a regular dimension, whether or not any element is selected"""
    items = tuple(x for x in items if x is not None)
    if not items:
        return False
    k = t[0]
    if k in ("list", "reg"):
        if k == "reg" and isinstance(items[0], int) and not -t[1] <= items[0] < t[1]:
            return True
        return regbad(t[-1], items[1:])
    if k == "opt":
        return regbad(t[1], items)
    if k == "rec":
        return any(regbad(x, items) for x in t[2])
    return False


def g(v, t, items):
    if not items:
        return v
    h, rest = items[0], items[1:]
    if h is None:
        return [g(v, t, rest)]
    if isinstance(h, slice):
        if h.step == 0:
            raise Bad("zero step")
        checkdims(t, rest)
        return [ge(x, t, rest) for x in v[h]]
    if isinstance(h, int):
        checkdims(t, rest)
        if not -len(v) <= h < len(v):
            raise Bad("index out of range")
        return ge(v[h], t, rest)
    raise AssertionError(h)


def checkdims(t, items):
    need = sum(1 for x in items if isinstance(x, (int, slice)))
    ds = depths(t)
    if need > min(ds) and has(t, ("str", "bytes", "unk")):
        raise Skip("into the characters of a string, or into unknown type")
    if need > max(ds):
        raise Bad("too many dimensions")
    if need > min(ds):
        # some branch of a record/union is too shallow
        raise Bad("too many dimensions in one branch")


def ge(x, t, items):
    """continue slicing into one item x of type t"""
    if not items:
        return x
    k = t[0]
    if items[0] is None and not (k == "opt" and x is None):
        return [ge(x, t, items[1:])]
    if k == "opt":
        if x is None:
            if any(i is None for i in items):
                raise Skip("newaxis below a missing value")
            return None
        return ge(x, t[1], items)
    if k in ("list", "reg"):
        if k == "reg" and isinstance(items[0], int) and not -t[1] <= items[0] < t[1]:
            raise Bad("out of range in regular dimension")
        return g(x, t[-1], items)
    if k == "rec":
        if t[1] is None:
            return tuple(ge(y, tt, items) for y, tt in zip(x, t[2]))
        return {n: ge(x[n], tt, items) for n, tt in zip(t[1], t[2])}
    if k == "uni":
        raise Skip("into a union")
    raise Bad("too many dimensions")
