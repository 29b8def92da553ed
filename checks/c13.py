"""C13: the Forth machine against an executable model of its words: every word on boundary values, every sequence of
stack words, every read format and destination, every bit width, all control-flow programs up to a size."""
import itertools

import numpy as np
from awkward.forth import ForthMachine32, ForthMachine64
from vlib import forth
from vlib.forth import FMT, ODT, QUIET, Program, VM, eqnum, real_state

M = {32: ForthMachine32, 64: ForthMachine64}
UNARY = ["negate", "1+", "1-", "abs", "0=", "invert", "dup", "drop"]
BINARY = ["+", "-", "*", "/", "mod", "/mod", "min", "max", "=", "<>", ">", ">=", "<", "<=", "and", "or", "xor",
          "lshift", "rshift", "swap", "over", "nip", "tuck"]
VALS = {32: [-2**31, -2**31 + 1, -65536, -257, -7, -3, -2, -1, 0, 1, 2, 3, 7, 31, 100, 65535, 2**30, 2**31 - 2, 2**31 - 1]}
VALS[64] = VALS[32] + [2**31, 2**32 - 1, 2**32, 2**32 + 5, -2**31 - 1, -2**32, -2**40 - 3, 2**40, 2**62, 2**63 - 2, 2**63 - 1,
                       -2**63, -2**63 + 1]
STACKW = ["7", "dup", "drop", "swap", "over", "rot", "nip", "tuck"]

BAD_SOURCES = [
    "1 if 2", "1 if 2 else 3", "3 0 do i", "begin 1", "begin 1 while 2", ": f 1", ":", ": ;", "( comment", "nosuchword",
    "i", "j", "3 0 do j loop", "3 0 do 3 0 do k loop loop", "variable", "input", "output", "output o", "output o nosuch",
    "variable v v", "variable v v 3", "variable v variable v", "input x input x", "output o int32 variable o",
    ": dup 1 ;", "variable if", ": f 1 ; : f 2 ;", "input x x", "input x x i->", "input x x z-> stack", "input x x i-> nowhere",
    "input x x 0bit-> stack", "input x x 65bit-> stack", "output o int32 o", "output o int32 o <-", "output o int32 o +<- 3",
    "recurse", "s\" abc", ".\" abc", "variable 12", ": 5 1 ;", "then", "else", "loop", "+loop", "until", "again", "while",
    "repeat", ";", ")", "@", "!", "stack", "variable x x @ y @",
]


class Check:
    pid = "C13"
    rule = ("transition = one program run on the real machine and on the model (vlib/forth.py); state = the model's final stack, variables, "
            "input positions and outputs; non-trivial = distinct final state or error")
    assumptions = ["literals are 32-bit; shift counts are within the word; floating-point inputs are in range of the destination"]

    def units(self, tier):
        self.tier = tier
        deep = tier == "thorough"
        out = []
        for b in (32, 64):
            out.append(("arith", b))
            for n in range(0, 6 if deep else 5):
                out.append(("stack", b, n))
            for f in list(FMT) + ["varint", "zigzag"]:
                out.append(("read", b, f))
            out.append(("nbit", b))
            out.append(("vint", b))
            out.append(("io", b))
            out.append(("write", b))
        top = 4 if deep else 3
        for total in range(0, top + 1):
            for nf in range(0, total + 1):
                n = 16 if total >= 3 else 1
                for part in range(n):
                    out.append(("prog", 32 if (total + nf) % 2 else 64, total, nf, part, n))
        out += [("bad",), ("misc", 32), ("misc", 64)]
        return out

    def bounds(self, tier):
        return ("every word on all pairs of %d (32-bit) or %d (64-bit) boundary values; all sequences of up to %d stack words from "
                "depths 0-4 with stack limits 3, 5 and 100; every read format x repetition x byte order x destination x count 0-4 x "
                "starting position 0-2; bit widths 1-64; all control-flow programs with up to %d items in main and one called word; "
                "%d malformed programs" % (len(VALS[32]), len(VALS[64]), 5 if tier == "thorough" else 4,
                                           4 if tier == "thorough" else 3, len(BAD_SOURCES)))

    def one(self, rec, bits, src, data=None, stack_size=1024, first=(), key=None, **kw):
        """run a source on the machine and on the model"""
        if not rec.begin({"bits": bits, "source": src, "inputs": {k: v.tobytes().hex() for k, v in (data or {}).items()},
                          "stack": list(first), "stack_size": stack_size}):
            return
        data = data or {}
        prog = Program(src)
        vm = VM(prog, bits, stack_size)
        vm.begin({k: v.tobytes() for k, v in data.items()})
        vm.stack = list(first)
        try:
            want = vm.go(vm.word(prog.main))
        except forth.Fuel:
            rec.note("unbounded programs left out")
            return
        keep = {k: v.tobytes() for k, v in data.items()}
        try:
            m = M[bits](src, stack_size=stack_size, **kw)
            m.begin(data)
            for x in first:
                m.stack_push(x)
            got = m.resume(**QUIET)
        except Exception as e:
            rec.fail("raised %r" % (e,), key)
            return
        rec.step()
        rec.outcome(str(got))
        if got != want:
            rec.fail("error %r, expected %r" % (got, want), key)
            return
        if want is None:
            r, w = real_state(m, prog), vm.state()
            rec.state(repr(w))
            rec.outcome(repr(w))
            if not eqnum(r, w):
                rec.fail("state %r, expected %r" % (r, w), key)
                return
            if not m.is_done:
                rec.fail("not done after the end", key)
        for k, v in data.items():
            if v.tobytes() != keep[k]:
                rec.fail("the input %s was modified" % k, key)

    def run_unit(self, unit, rec):
        getattr(self, "u_" + unit[0])(rec, *unit[1:])

    def u_arith(self, rec, bits):
        V = VALS[bits]
        for w in UNARY:
            for a in V:
                self.one(rec, bits, w, first=(a,))
            self.one(rec, bits, w)
        for w in BINARY:
            for a in V:
                for b in V:
                    if "shift" in w and not 0 <= b < bits:
                        continue
                    self.one(rec, bits, w, first=(a, b))
            self.one(rec, bits, w, first=(3,))
            self.one(rec, bits, w)
        for a, b, c in itertools.product([V[0], -1, 0, V[-1]], repeat=3):
            self.one(rec, bits, "rot", first=(a, b, c))
        for a in V:
            if -2**31 <= a < 2**31:
                self.one(rec, bits, "%d" % a)
                if a >= 0:
                    self.one(rec, bits, hex(a))
            for b in V:
                if -2**31 <= a < 2**31:
                    self.one(rec, bits, "variable v v @ v ! v +! v +! v @ ", first=(a, b, 1))
                # 'do' bounds and the loop counters
                if b - 3 <= a and -2**31 < a < 2**31:
                    self.one(rec, bits, "do i loop", first=(a, b) if a - b < 4 else (b, a))
        for a in (2**31 - 2, 2**31 + 5, 2**40):
            if a < 2**(bits - 1) - 4:
                self.one(rec, bits, "do 2 0 do 1 0 do i j k loop loop loop", first=(a + 2, a))
                self.one(rec, bits, "do i 3 +loop", first=(a + 5, a))

    def u_stack(self, rec, bits, n):
        for seq in itertools.product(STACKW, repeat=n):
            for depth in range(5):
                for size in (3, 5, 100):
                    if depth <= size:
                        self.one(rec, bits, " ".join(seq), first=tuple(range(1, depth + 1)), stack_size=size)

    def sample(self, fmt):
        if fmt in ("varint", "zigzag"):
            return np.frombuffer(bytes([5, 0x96, 1, 0, 0xff, 0xff, 3, 0x7f, 0x80, 1]), "u1").copy()
        dt = np.dtype(FMT[fmt])
        if dt.kind == "b":
            v = [1, 0, 1, 1, 0, 1]
        elif dt.kind == "f":
            v = [1.0, -3.0, 100.0, 0.0, 65.0, 7.0]
        else:
            ii = np.iinfo(dt)
            v = [ii.max, ii.min, 1, 0x0102030405060708 & ii.max, 258 & ii.max, 77]
        return np.array(v, dt)

    def u_read(self, rec, bits, fmt):
        base = self.sample(fmt)
        for big in (0, 1):
            if big and fmt in ("varint", "zigzag"):
                continue
            data = base if not big else base.byteswap()
            raw = np.frombuffer(data.tobytes(), "u1").copy()
            op = ("!" if big else "") + fmt + "->"
            for shift in (0, 1, 2):
                d = np.concatenate([np.ones(shift, "u1"), raw])
                for dest in ["stack"] + list(ODT):
                    if fmt in "fd" and dest.startswith("u"):
                        # a negative number has no unsigned value
                        use = np.frombuffer(np.abs(base).astype(base.dtype.newbyteorder(">") if big else base.dtype).tobytes(), "u1")
                        use = np.concatenate([np.ones(shift, "u1"), use])
                    else:
                        use = d
                    head = "input x " + ("" if dest == "stack" else "output o %s " % dest)
                    to = "stack" if dest == "stack" else "o"
                    sk = "%d x skip " % shift
                    for n in (0, 1, 2, 3, 4, 7):
                        self.one(rec, bits, head + sk + "%d x #%s %s x pos x end" % (n, op, to), {"x": use}, output_initial_size=1,
                                 output_resize_factor=1.2)
                        if n <= 4:
                            self.one(rec, bits, head + sk + " ".join("x %s %s" % (op, to) for _ in range(n)) + " x pos x len", {"x": use},
                                     output_initial_size=2)
                    self.one(rec, bits, head + sk + "2 x #%s %s x %s %s 2 x #%s %s" % (op, to, op, to, op, to), {"x": use})
                    if fmt not in ("varint", "zigzag"):
                        self.one(rec, bits, head + sk + "-1 x #%s %s" % (op, to), {"x": use})
                    if dest == "stack":
                        self.one(rec, bits, head + sk + "3 x #%s stack" % op, {"x": use}, stack_size=2)
                    self.one(rec, bits, head + "x #%s %s" % (op, to), {"x": use})

    def u_nbit(self, rec, bits):
        datas = [bytes(range(1, 40)), bytes([0xff] * 40), bytes([0x81, 0x42, 0x24, 0x18] * 10), bytes((i * 37 + 11) & 255 for i in range(40))]
        for w in range(1, 65):
            for flip in ("", "!"):
                key = None
                for di, dd in enumerate(datas):
                    d = np.frombuffer(dd, "u1").copy()
                    for n in range(0, 6):
                        for dest in ("stack", "int64", "uint64", "uint8", "int32"):
                            if di and dest not in ("stack", "uint64"):
                                continue
                            head = "input x " + ("" if dest == "stack" else "output o %s " % dest)
                            to = "stack" if dest == "stack" else "o"
                            self.one(rec, bits, head + "%d x #%s%dbit-> %s x pos" % (n, flip, w, to), {"x": d}, key=key)
                    self.one(rec, bits, "input x x %s%dbit-> stack x %s%dbit-> stack x pos" % (flip, w, flip, w), {"x": d}, key=key)
                    self.one(rec, bits, "input x 40 x #%s%dbit-> stack" % (flip, w), {"x": d[:4]}, key=key)

    def u_vint(self, rec, bits):
        def enc(v, pad=0):
            out = bytearray()
            while True:
                b = v & 127
                v >>= 7
                if v or pad:
                    out.append(b | 128)
                    if not v:
                        pad -= 1
                else:
                    out.append(b)
                    return bytes(out)
        vals = sorted({x for k in range(0, 64) for x in (2**k - 1, 2**k, 2**k + 1) if x < 2**63})
        for v in vals:
            for pad in (0, 1, 3):
                e = enc(v, pad)
                d = np.frombuffer(e + b"\x05", "u1").copy()
                for op in ("varint->", "zigzag->"):
                    self.one(rec, bits, "input x x %s stack x pos x B-> stack" % op, {"x": d})
                    for o in ("int64", "uint64", "float64", "int8"):
                        self.one(rec, bits, "input x output o %s x %s o x pos" % (o, op), {"x": d})
                    for cut in range(len(e)):
                        self.one(rec, bits, "input x x %s stack" % op, {"x": d[:cut]})
        for n in (9, 10, 11):
            d = np.array([255] * n + [1], "u1")
            for op in ("varint->", "zigzag->"):
                self.one(rec, bits, "input x x %s stack" % op, {"x": d})

    def u_io(self, rec, bits):
        d = np.arange(1, 9, dtype="u1")
        for n in (0, 3, 8):
            x = d[:n].copy()
            for a in (-2, -1, 0, 1, 3, 8, 9):
                for b in (-9, -3, -1, 0, 1, 5, 8):
                    for w in ("seek", "skip"):
                        for w2 in ("seek", "skip"):
                            self.one(rec, bits, "input x %d x %s x pos x end %d x %s x pos x end x len" % (a, w, b, w2), {"x": x})
        # two inputs, both orders of declaration and of access
        y = np.arange(100, 104, dtype="u1")
        for ops in itertools.product(["x B-> stack", "y B-> stack", "2 x #B-> stack", "1 y skip", "x pos", "y end", "x B-> o", "y B-> p"], repeat=3):
            self.one(rec, bits, "output p int16 input y input x output o uint8 " + " ".join(ops), {"x": d, "y": y})

    def u_write(self, rec, bits):
        V = [-2**31, -300, -1, 0, 1, 2, 127, 128, 255, 256, 65535, 2**31 - 1] + ([2**40, -2**40 - 7, 2**63 - 1] if bits == 64 else [])
        for o in ODT:
            for a in V:
                self.one(rec, bits, "output o %s o <- stack" % o, first=(a,))
                for b in V:
                    self.one(rec, bits, "output o %s o +<- stack o +<- stack o len" % o, first=(a, b))
        ops = ["o <- stack", "o +<- stack", "0 o dup", "2 o dup", "o len", "1 o rewind", "0 o rewind", "2 o rewind", "-1 o rewind", "-1 o dup"]
        for o in ("int32", "float64", "bool"):
            for n in range(1, 5):
                for seq in itertools.product(ops, repeat=n):
                    self.one(rec, bits, "output o %s " % o + " ".join(seq), first=(5, 4, 3), output_initial_size=1, output_resize_factor=1.1)

    def u_prog(self, rec, bits, total, nf, part, n):
        for i, (f, main) in enumerate(forth.programs(total, nf)):
            if i % n == part:
                self.one(rec, bits, forth.source(f, main))

    def u_bad(self, rec):
        for bits in (32, 64):
            for src in BAD_SOURCES:
                if not rec.begin({"bits": bits, "source": src}):
                    continue
                rec.step()
                try:
                    M[bits](src)
                except ValueError:
                    rec.outcome("refused")
                else:
                    rec.fail("the malformed program was accepted")

    def u_misc(self, rec, bits):
        for src in [
            ": fact dup 1 > if dup 1- recurse * then ; 1 fact 5 fact 6 fact",
            ": even dup 0= if drop true else 1- dup 0= if drop false else 1- recurse then then ; 7 even 8 even",
            ": f ( a comment ( nested ) then if ) 1 ; f \\ rest of line f f\n f", "1 ( ) 2", "\n1\n\n2\t3\r4\v5\f6",
            ": f : g 3 ; g g + ; f g", "s\" one\" s\" two words\" s\" one\"", ": f s\" x y z\" ; f f",
            "variable a variable b 3 a ! 4 b ! a @ b @ 5 a +! a @", "10 5 do i 7 = if 100 else i then loop",
            "3 0 do 3 i do i j * loop loop", "2 0 do 2 0 do 2 0 do i j k + + loop loop loop", "5 0 do 5 0 do i 2 = if exit then i j loop loop",
            ": f 5 0 do 5 0 do i 2 = if exit then i j loop loop ; f f 9", "0 begin 1+ dup 5 = until", "0 begin dup 5 < while 1+ repeat",
            ": f 0 begin 1+ dup 6 = if exit then again ; f", "0 begin 1+ dup 2 > if dup 3 > else false then until",
            "0 begin begin 1+ dup 2 mod 0= until dup 7 > until", "0 begin dup 9 < while begin 1+ dup 3 mod while repeat repeat",
            "1 if 0 if 1 else 2 then else 3 then", "0 if 1 else 0 if 2 else 3 then then", "halt", "1 2 halt 3", ": f 1 halt 2 ; f 3",
            "3 0 do i 1 = if halt then loop", "true if exit then 5", "exit 5", "-1 0 do 1 loop", "0 5 do 1 loop", "5 5 do 1 loop",
            "1 0 do 0 0 do 5 loop i loop", "+", "1 0 /", "1 0 mod", "1 0 /mod", "output o int32 input x x len 0 do x B-> stack o <- stack loop",
        ]:
            self.one(rec, bits, src, {"x": np.arange(4, dtype="u1")} if "input x" in src else None)
            if "s\"" in src and rec.begin({"bits": bits, "strings of": src}):
                m, p = M[bits](src), Program(src)
                rec.step()
                if [m.string_at(i) for i in range(len(p.strings))] != p.strings:
                    rec.fail("string_at gives %r" % ([m.string_at(i) for i in range(len(p.strings))],))
        # unbounded recursion and loops of words are stopped
        for src in [": f recurse ; f", ": f 1 recurse ; f", ": f 1 if recurse then ; f", ": f 2 0 do recurse loop ; f", ": f begin recurse again ; f"]:
            for depth in (1, 2, 3, 4, 5, 17, 100):
                for stack in (3, 1000):
                    if not rec.begin({"bits": bits, "source": src, "recursion_depth": depth, "stack_size": stack}):
                        continue
                    m = M[bits](src, recursion_depth=depth, stack_size=stack)
                    got = m.run({}, **QUIET)
                    rec.step()
                    if got not in ("recursion depth exceeded", "stack overflow"):
                        rec.fail("ended with %r" % (got,))
        # a read-only input is never written to, whatever else the program reads from it
        for first in ("x #!i-> o", "x #!i-> stack", "x #!h-> o", "x #i-> o"):
            for second in ("", "x i-> stack", "x b-> stack", "1 x #b-> stack", "x !h-> stack"):
                src = "input x output o int32 2 %s %s x pos" % (first, second)
                x = np.arange(1, 25, dtype="u1")
                x.flags.writeable = False
                if not rec.begin({"bits": bits, "source": src, "readonly": True}):
                    continue
                before = x.tobytes()
                rec.step()
                try:
                    M[bits](src).run({"x": x})
                except (ValueError, BufferError):
                    rec.outcome("refused")
                else:
                    if "!" in first.split("->")[0] and " o" in first and "#!" in first:
                        rec.fail("byte-swapping a read-only input in place was accepted")
                if x.tobytes() != before:
                    rec.fail("a read-only input was modified")
