"""C24: every compiled kernel against its executable definition in kernel-specification.yml.

The reference definition is run on *symbolic* buffers: an input cell gets a value only when the
definition first reads it, and every value of the alphabet is tried there (lazy initialisation,
depth-first).  Each complete run gives concrete buffers, on which the compiled kernel is called;
all its output buffers (preset to a canary on both sides) must then be identical."""
import ctypes
import itertools
import os
import struct

import numpy as np
import yaml
from vlib import build, kernels

REPO = build.REPO
N = 24            # cells of each buffer that a definition may touch
PAD = 8           # canary cells on both sides
LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)

CT = {"bool": ctypes.c_bool, "int8_t": ctypes.c_int8, "uint8_t": ctypes.c_uint8, "int16_t": ctypes.c_int16, "uint16_t": ctypes.c_uint16,
      "int32_t": ctypes.c_int32, "uint32_t": ctypes.c_uint32, "int64_t": ctypes.c_int64, "uint64_t": ctypes.c_uint64,
      "float": ctypes.c_float, "double": ctypes.c_double}
BITS = {"bool": (1, False), "int8_t": (8, True), "uint8_t": (8, False), "int16_t": (16, True), "uint16_t": (16, False), "int32_t": (32, True),
        "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False)}


class Error(ctypes.Structure):
    _fields_ = [("str", ctypes.c_char_p), ("filename", ctypes.c_char_p), ("identity", ctypes.c_int64), ("attempt", ctypes.c_int64), ("pass_through", ctypes.c_bool)]


class Prune(Exception):
    """the definition left the bound (or the domain) with these inputs"""


class Chooser:
    """depth-first enumeration of all sequences of choices"""
    def __init__(self):
        self.path, self.pos = [], 0

    def pick(self, options):
        if self.pos == len(self.path):
            self.path.append([0, options])
        c = self.path[self.pos]
        self.pos += 1
        return c[1][c[0]]

    def next(self):
        del self.path[self.pos:]
        self.pos = 0
        while self.path:
            c = self.path[-1]
            c[0] += 1
            if c[0] < len(c[1]):
                return True
            self.path.pop()
        return False


class Buf:
    __slots__ = ("ch", "options", "typ", "init", "cur", "writable", "budget", "canary")

    def __init__(self, ch, typ, options, writable, canary):
        self.ch, self.typ, self.options, self.writable, self.canary = ch, typ, options, writable, canary
        self.init, self.cur, self.budget = {}, {}, 400

    def __getitem__(self, i):
        i = kernels.integral(i)
        if i is None or not 0 <= i < N:
            raise Prune
        self.budget -= 1
        if self.budget < 0:
            raise Prune
        v = self.cur.get(i)
        if v is None:
            if self.options is None:
                return self.canary
            v = 10 + i if self.options == kernels.POS else self.ch.pick(self.options)
            self.init[i] = v
            self.cur[i] = v
        return v

    def __setitem__(self, i, v):
        i = kernels.integral(i)
        if i is None or not 0 <= i < N:
            raise Prune
        self.budget -= 1
        if self.budget < 0:
            raise Prune
        self.cur[i] = v if v is kernels.ANY else cast(v, self.typ)


def cast(v, typ):
    if typ == "bool":
        return bool(v)
    if typ == "float":
        with np.errstate(all="ignore"):
            return float(np.float32(v))
    if typ == "double":
        return float(v)
    if isinstance(v, float) and not (v == v and abs(v) < 2.0**63):
        raise Prune                     # undefined in C
    bits, signed = BITS[typ]
    v = int(v)
    if isinstance(v, float) and not -(1 << 63) <= v < 1 << 64:
        raise Prune
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def canary(typ):
    return {"bool": True, "float": -77.0, "double": -77.0}.get(typ, 77)


def parse(t):
    const = t.startswith("Const[")
    if const:
        t = t[6:-1]
    t = t.replace("const ", "")
    depth = 0
    while t.startswith("List["):
        t, depth = t[5:-1], depth + 1
    return t, depth, const


def load():
    with open(os.path.join(REPO, "kernel-specification.yml")) as f:
        spec = yaml.load(f, LOADER)["kernels"]
    out = []
    for k in spec:
        text = k.get("definition") or ""
        if k["name"] in kernels.EXTRA:
            text = kernels.EXTRA[k["name"]]
        elif "def " not in text:
            continue
        for s in k["specializations"]:
            out.append((k["name"], s["name"], text, [(a["name"],) + parse(a["type"]) + (a["dir"], a.get("role", "default")) for a in s["args"]]))
    return out


class Check:
    pid = "C24"
    rule = "transition = one call of a compiled kernel compared with its reference definition; state = distinct (kernel specialisation, input buffers); non-trivial = distinct outcome"
    assumptions = ["the Python definitions of kernel-specification.yml are the reference; kernels it leaves undefined are judged by the definitions in vlib/kernels.py",
                   "outputs after an error are not compared; inputs on which a definition indexes outside its buffers are outside the kernel's domain"]

    def units(self, tier):
        self.tier = tier
        self.kernels = load()
        self.lib = ctypes.CDLL(os.environ["VERIF_KLIB_PLAIN"])
        self.cap = 3000 if tier == "quick" else 60000
        return list(range(len(self.kernels)))

    def bounds(self, tier):
        return "every specialisation of every kernel; lengths 0..k, index cells -1..k (offsets 0..k) and type-specific data values, k raised until %d cases are explored (at least k=1, complete for every smaller k); cells chosen where the definition reads them" % self.cap

    def run_unit(self, unit, rec):
        name, sname, text, args = self.kernels[unit]
        ns = dict(kernels.NAMES, Prune=Prune)
        order = not kernels.checks_order(text)
        exec(text, ns)
        ref = ns[name]
        fn = getattr(self.lib, sname, None)
        if fn is None:
            if rec.begin({"kernel": sname}):
                rec.fail("the library has no function %s" % sname)
            return
        fn.restype = Error
        fn.argtypes = [CT[t] if d == 0 else ctypes.c_void_p for _, t, d, _, _, _ in args]
        done, seen, n = 0, set(), 0
        for k in range(1, 6):
            full = True
            for case in self.enumerate(ref, name, args, k, order):
                if case is None:
                    full = n < self.cap
                    if not full:
                        break
                    continue
                n += 1
                key, inputs, bufs, error = case
                if key not in seen:
                    seen.add(key)
                    if rec.begin(lambda inputs=inputs: {"kernel": sname, "args": self.show(args, inputs)}):
                        rec.state((sname, key))
                        self.call(rec, fn, name, args, inputs, bufs, error)
                if n >= self.cap and k > 1:
                    full = False
                    break
            if full:
                done = k
            if n >= self.cap:
                break
        rec.note("complete to k=%d" % done)

    def show(self, args, inputs):
        return {a[0]: (dict(sorted(v.init.items())) if isinstance(v, Buf) else v) for a, v in zip(args, inputs)}

    def enumerate(self, ref, name, args, k, order):
        ch = Chooser()
        dom = kernels.DOMAIN.get(name)
        scal = [kernels.scalars(name, a[0], a[1], a[5], k) if a[2] == 0 else None for a in args]
        opts = [kernels.cells(name, a[0], a[1], a[5], k) if a[2] == 1 and (a[4] == "in" or (name, a[0]) in kernels.INOUT) else None for a in args]
        tries = 0
        while True:
            inputs = []
            for a, s, o in zip(args, scal, opts):
                if a[2] == 0:
                    inputs.append(ch.pick(s))
                elif a[2] == 1:
                    inputs.append(Buf(ch, a[1], o, not a[3], canary(a[1])))
                else:
                    inputs.append([Buf(ch, a[1], None, True, canary(a[1])) for _ in range(4)])
            error, ok = None, True
            try:
                ref(*inputs)
            except ValueError as e:
                error = str(e)
            except (Prune, ZeroDivisionError, OverflowError):
                ok = False
            if ok and (order or dom is not None):
                x = dict(zip([a[0] for a in args], inputs))
                ok = (not order or kernels.ordered(x)) and (dom is None or dom(x))
            tries += 1
            if ok:
                key = tuple(x if not isinstance(x, (Buf, list)) else tuple(sorted(x.init.items())) if isinstance(x, Buf) else () for x in inputs)
                yield repr(key), inputs, None, error
            elif tries % 50 == 0 and tries > 20 * self.cap:
                return
            if not ch.next():
                return

    def call(self, rec, fn, kernel, args, inputs, bufs, error):
        rec.step()
        given, want, keep = [], [], []
        for (aname, t, d, const, direction, role), v in zip(args, inputs):
            if d == 0:
                given.append(v)
                continue
            for b in (v if isinstance(v, list) else [v]):
                c = CT[t]
                fill = b.canary if b.options is None else b.options[0]
                start = [fill] * (N + 2 * PAD)
                for i, x in (inputs[[a[0] for a in args].index("offsets")] if aname == "offsetscopy" else b).init.items():
                    start[PAD + i] = x
                mem = (c * (N + 2 * PAD))(*start)
                end = start
                if b.options is None or b.writable:
                    end = list(start)
                    for i, x in b.cur.items():
                        end[PAD + i] = x
                if not kernels.scratch(kernel, aname):
                    want.append((aname, mem, end))
                keep.append(mem)
            if isinstance(v, list):
                ptrs = (ctypes.c_void_p * len(v))(*[ctypes.addressof(m) + PAD * ctypes.sizeof(c) for m in keep[-len(v):]])
                keep.append(ptrs)
                given.append(ctypes.addressof(ptrs))
            else:
                given.append(ctypes.addressof(mem) + PAD * ctypes.sizeof(c))
        r = fn(*given)
        msg = None if r.str is None else r.str
        if (msg is None) != (error is None):
            rec.fail("the kernel gives %s\nthe definition gives %s" % ("no error" if msg is None else "error %r" % msg, "no error" if error is None else "error %r" % error))
            return
        if error is not None:
            rec.outcome("error " + error)
            return
        for aname, mem, end in want:
            got = list(mem)
            if got != end and not all(x == y or y is kernels.ANY or (x != x and y != y) for x, y in zip(got, end)):
                rec.fail("output %s\nkernel     %r\ndefinition %r" % (aname, trim(got), trim(end)))
                return
            rec.outcome(repr(got[PAD:-PAD]))


def trim(xs):
    out = list(xs[PAD:PAD + 14])
    return out if all(x == xs[0] for x in xs[:PAD]) else {"before": xs[:PAD], "cells": out}
