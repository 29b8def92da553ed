"""Differential step shared by the checks: run the real operation, compare with the model's verdict."""
from vlib import lay


class Bad(Exception):
    """the model says the request cannot be satisfied: the code has to raise"""


class Skip(Exception):
    """the documentation leaves this case open: anything but a crash or an unreadable result is accepted"""


class Maybe(Exception):
    """raising is acceptable; if the code answers, the answer has to be value"""

    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


OKERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError, OverflowError, AttributeError)


def compare(rec, real, model, cmp=lay.same, key=None, errors=(ValueError, TypeError, IndexError, NotImplementedError, RuntimeError), dec=lay.decode,
            also=None):
    """one transition.  model() returns a value or raises Bad/Skip/Maybe; real() is decoded with dec."""
    rec.step()
    mode = "must"
    want = None
    try:
        want = model()
    except Maybe as e:
        mode, want = "may", e.value
    except Bad:
        mode = "bad"
    except Skip:
        mode = "skip"
    k = key(want) if callable(key) else key
    try:
        raw = real()
        got = dec(raw)
    except lay.Undecodable as e:
        rec.fail("result is not a valid layout: %s" % e, k)
        return None
    except errors as e:
        rec.outcome("raise")
        if mode == "must":
            rec.fail("raised %s: %s\nexpected %r" % (type(e).__name__, str(e).split("\n")[0], want), k)
        return None
    if mode == "skip":
        rec.note("undetermined")
        return raw
    rec.outcome(repr(got))
    if mode == "bad":
        rec.fail("got %r\nexpected an error" % (got,), k)
        return None
    if not cmp(got, want):
        rec.fail("got %r\nexpected %r" % (got, want), k)
        return None
    if also is not None:
        msg = also(raw)
        if msg:
            rec.fail(msg, k)
    return raw
