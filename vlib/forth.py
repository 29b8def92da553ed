"""An executable model of AwkwardForth, written from the words' documented meaning: source -> tree -> generator.
The generator yields "i" after every instruction and "pause" after a pause; the machine state is in the object."""
import numpy as np


class ForthError(Exception):
    pass


class Exit(Exception):
    pass


class Fuel(Exception):
    pass


class CompileError(Exception):
    pass


FMT = {"?": "?", "b": "i1", "h": "i2", "i": "i4", "q": "i8", "n": "i8", "B": "u1", "H": "u2", "I": "u4", "Q": "u8",
       "N": "u8", "f": "f4", "d": "f8"}
ODT = {"bool": "?", "int8": "i1", "int16": "i2", "int32": "i4", "int64": "i8", "uint8": "u1", "uint16": "u2",
       "uint32": "u4", "uint64": "u8", "float32": "f4", "float64": "f8"}
WORDS = {"i", "j", "k", "dup", "drop", "swap", "over", "rot", "nip", "tuck", "+", "-", "*", "/", "mod", "/mod",
         "negate", "1+", "1-", "abs", "min", "max", "=", "<>", ">", ">=", "<", "<=", "0=", "invert", "and", "or",
         "xor", "lshift", "rshift", "false", "true"}


def tokenize(src):
    out, i = [], 0
    while i < len(src):
        c = src[i]
        if c == "\n":
            out.append("\n")
            i += 1
        elif c in " \t\r\v\f":
            i += 1
        else:
            j = i
            while j < len(src) and src[j] not in " \t\r\v\f\n":
                j += 1
            w = src[i:j]
            i = j
            out.append(w)
            if w in ('."', 's"'):
                while src[i] in " \t\r\v\f\n":
                    i += 1
                j = src.index('"', i)
                out.append(src[i:j])
                i = j + 1
    return out


class Program:
    def __init__(self, src):
        self.tok = tokenize(src)
        self.pos = 0
        self.vars, self.ins, self.outs, self.words, self.strings = [], [], {}, {}, []
        self.main = self.block(None)

    def peek(self):
        return self.tok[self.pos] if self.pos < len(self.tok) else None

    def next(self):
        w = self.peek()
        if w is None:
            raise CompileError
        self.pos += 1
        return w

    def block(self, defn, stop=()):
        out = []
        while True:
            w = self.peek()
            if w is None:
                if stop:
                    raise CompileError
                return out
            if w in stop:
                return out
            self.pos += 1
            if w == "\n":
                continue
            if w == "(":
                n = 1
                while n:
                    x = self.next()
                    n += (x == "(") - (x == ")")
            elif w == "\\":
                while self.peek() not in (None, "\n"):
                    self.pos += 1
            elif w == ":":
                name = self.next()
                self.words[name] = None
                self.words[name] = self.block(name, (";",))
                self.next()
            elif w == "recurse":
                out.append(("call", defn))
            elif w == "variable":
                self.vars.append(self.next())
            elif w == "input":
                self.ins.append(self.next())
            elif w == "output":
                name = self.next()
                self.outs[name] = ODT[self.next()]
            elif w in ("halt", "pause", "exit"):
                out.append((w,))
            elif w == "if":
                a = self.block(defn, ("else", "then"))
                b = None
                if self.next() == "else":
                    b = self.block(defn, ("then",))
                    self.next()
                out.append(("if", a, b))
            elif w == "do":
                a = self.block(defn, ("loop", "+loop"))
                out.append(("do", a, self.next() == "+loop"))
            elif w == "begin":
                a = self.block(defn, ("until", "again", "while"))
                e = self.next()
                if e == "while":
                    b = self.block(defn, ("repeat",))
                    self.next()
                    out.append(("while", a, b))
                else:
                    out.append((e, a))
            elif w in self.vars:
                out.append(("var", w, self.next()))
            elif w in self.ins:
                op = self.next()
                if op in ("len", "pos", "end", "seek", "skip"):
                    out.append(("in", w, op))
                else:
                    dest = self.next()
                    rep = op.startswith("#")
                    op = op.lstrip("#") if rep else op
                    big = op.startswith("!")
                    op = op[1:] if big else op
                    out.append(("read", w, rep, big, op[:-2], None if dest == "stack" else dest))
            elif w in self.outs:
                op = self.next()
                if op in ("<-", "+<-"):
                    self.next()
                out.append(("out", w, op))
            elif w == 's"':
                out.append(("lit", len(self.strings)))
                self.strings.append(self.next())
            elif w == '."':
                self.strings.append(self.next())
                out.append(("nop",))
            elif w in WORDS:
                out.append(("w", w))
            elif w in self.words:
                out.append(("call", w))
            else:
                out.append(("lit", int(w[2:], 16) if w.startswith("0x") else int(w)))


class VM:
    def __init__(self, prog, bits, stack_size=1024, fuel=3000):
        self.p, self.bits, self.max, self.fuel0 = prog, bits, stack_size, fuel
        self.depth = 0

    def begin(self, inputs):
        self.stack = []
        self.var = {v: 0 for v in self.p.vars}
        self.inp = {n: [bytes(inputs[n]), 0] for n in self.p.ins}
        self.out = {n: [] for n in self.p.outs}
        self.loops = []
        self.fuel = self.fuel0

    def state(self):
        return (list(self.stack), dict(self.var), {n: p for n, (_, p) in self.inp.items()},
                {n: list(v) for n, v in self.out.items()})

    def wrap(self, x):
        m = 1 << self.bits
        x %= m
        return x - m if x >= m >> 1 else x

    def push(self, x):
        if len(self.stack) == self.max:
            raise ForthError("stack overflow")
        self.stack.append(self.wrap(x))

    def need(self, n):
        if len(self.stack) < n:
            raise ForthError("stack underflow")

    def pop(self):
        self.need(1)
        return self.stack.pop()

    def word(self, body):
        """run a word (or the main program) to its end; exit leaves it"""
        n = len(self.loops)
        self.depth += 1
        if self.depth > 60:
            raise Fuel
        try:
            yield from self.block(body)
        except Exit:
            pass
        self.depth -= 1
        del self.loops[n:]

    def block(self, body):
        for ins in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel
            k = ins[0]
            if k == "lit":
                self.push(ins[1])
            elif k == "w":
                self.do(ins[1])
            elif k == "call":
                yield "i"
                yield from self.word(self.p.words[ins[1]])
                continue
            elif k == "halt":
                raise ForthError("user halt")
            elif k == "pause":
                yield "pause"
                continue
            elif k == "exit":
                raise Exit
            elif k == "if":
                c = self.pop()
                yield "i"
                if c:
                    yield from self.block(ins[1])
                elif ins[2] is not None:
                    yield from self.block(ins[2])
                continue
            elif k == "do":
                self.need(2)
                start = self.stack.pop()
                stop = self.stack.pop()
                yield "i"
                self.loops.append(start)
                while self.loops[-1] < stop:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel
                    yield from self.block(ins[1])
                    self.loops[-1] += self.pop() if ins[2] else 1
                    yield "i"
                self.loops.pop()
            elif k == "until" or k == "again":
                while True:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel
                    yield "i"
                    yield from self.block(ins[1])
                    if k == "until":
                        c = self.pop()
                        yield "i"
                        if c:
                            break
            elif k == "while":
                while True:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel
                    yield from self.block(ins[1])
                    c = self.pop()
                    yield "i"
                    if not c:
                        break
                    yield from self.block(ins[2])
            elif k == "var":
                _, v, op = ins
                if op == "@":
                    self.push(self.var[v])
                else:
                    x = self.pop()
                    self.var[v] = self.wrap(x + (self.var[v] if op == "+!" else 0))
            elif k == "in":
                self.input_op(ins[1], ins[2])
            elif k == "read":
                self.read(*ins[1:])
            elif k == "out":
                self.output_op(ins[1], ins[2])
            yield "i"

    def input_op(self, n, op):
        data, pos = self.inp[n]
        if op == "len":
            self.push(len(data))
        elif op == "pos":
            self.push(pos)
        elif op == "end":
            self.push(-1 if pos == len(data) else 0)
        else:
            to = self.pop() + (pos if op == "skip" else 0)
            if not 0 <= to <= len(data):
                raise ForthError(op + " beyond")
            self.inp[n][1] = to

    def take(self, n, num):
        data, pos = self.inp[n]
        if num < 0 or pos + num > len(data):
            raise ForthError("read beyond")
        self.inp[n][1] = pos + num
        return data[pos:pos + num]

    def store(self, dest, value, dtype):
        """value is a Python number of NumPy dtype 'dtype'"""
        if dest is None:
            self.push(int(value))
        else:
            self.out[dest].append(np.array([value], dtype).astype(self.p.outs[dest])[0].item())

    def read(self, n, rep, big, fmt, dest):
        count = self.pop() if rep else 1
        if fmt in ("varint", "zigzag"):
            for _ in range(count):
                shift = result = 0
                while True:
                    b = self.take(n, 1)[0]
                    if shift == 63:
                        raise ForthError("varint too big")
                    result |= (b & 0x7f) << shift
                    shift += 7
                    if not b & 0x80:
                        break
                if fmt == "zigzag":
                    self.store(dest, (result >> 1) ^ -(result & 1), "i8")
                else:
                    self.store(dest, result, "u8")
        elif fmt.endswith("bit"):
            width = int(fmt[:-3])
            bits = []
            for _ in range(count):
                while len(bits) < width:
                    b = self.take(n, 1)[0]
                    # least significant bit first, unless '!'
                    bits += [(b >> (7 - s if big else s)) & 1 for s in range(8)]
                v = sum(x << s for s, x in enumerate(bits[:width]))
                del bits[:width]
                self.store(dest, v, "u8")
        else:
            dt = np.dtype((">" if big else "<") + FMT[fmt] if FMT[fmt] != "?" else "?")
            raw = self.take(n, count * dt.itemsize)
            for v in np.frombuffer(raw, dt).tolist():
                self.store(dest, v, dt.newbyteorder("="))

    def output_op(self, n, op):
        dt, o = self.p.outs[n], self.out[n]
        T = "i%d" % (self.bits // 8)
        if op == "<-":
            self.store(n, self.pop(), T)
        elif op == "+<-":
            v = np.array([self.pop()], T).astype(dt)
            prev = np.array([o[-1] if o else 0], dt)
            with np.errstate(all="ignore"):
                o.append((prev + v).astype(dt)[0].item())
        elif op == "dup":
            k = self.pop()
            if not o:
                raise ForthError("rewind beyond")
            o.extend([o[-1]] * max(k, 0))
        elif op == "len":
            self.push(len(o))
        elif op == "rewind":
            k = self.pop()
            if not 0 <= len(o) - k <= len(o):
                raise ForthError("rewind beyond")
            del o[len(o) - k:]

    def do(self, w):
        s = self.stack
        if w in "ijk":
            self.push(self.loops[-1 - "ijk".index(w)])
        elif w == "dup":
            self.need(1)
            self.push(s[-1])
        elif w == "drop":
            self.pop()
        elif w == "swap":
            self.need(2)
            s[-2:] = [s[-1], s[-2]]
        elif w == "over":
            self.need(2)
            self.push(s[-2])
        elif w == "rot":
            self.need(3)
            s[-3:] = [s[-2], s[-1], s[-3]]
        elif w == "nip":
            self.need(2)
            del s[-2]
        elif w == "tuck":
            self.need(2)
            if len(s) == self.max:
                raise ForthError("stack overflow")
            s[-2:] = [s[-1], s[-2], s[-1]]
        elif w in ("false", "true"):
            self.push(-1 if w == "true" else 0)
        elif w in ("negate", "1+", "1-", "abs", "0=", "invert"):
            x = self.pop()
            self.push({"negate": -x, "1+": x + 1, "1-": x - 1, "abs": abs(x), "0=": -(x == 0), "invert": ~x}[w])
        else:
            self.need(2)
            b = s.pop()
            a = s.pop()
            if w in ("/", "mod", "/mod"):
                if b == 0:
                    raise ForthError("division by zero")
                if w != "/":
                    self.push(a % b)
                if w != "mod":
                    self.push(a // b)
                return
            self.push({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "min": lambda: min(a, b),
                       "max": lambda: max(a, b), "=": lambda: -(a == b), "<>": lambda: -(a != b), ">": lambda: -(a > b),
                       ">=": lambda: -(a >= b), "<": lambda: -(a < b), "<=": lambda: -(a <= b), "and": lambda: a & b,
                       "or": lambda: a | b, "xor": lambda: a ^ b, "lshift": lambda: a << b, "rshift": lambda: a >> b}[w]())

    def run(self, inputs, body=None, trace=None):
        """None or the name of the error; trace gets (event, state) after every instruction"""
        self.begin(inputs)
        return self.go(self.word(self.p.main), trace)

    def go(self, gen, trace=None):
        """to the end: None or the error's name; pauses are recorded in the trace only"""
        try:
            for ev in gen:
                if trace is not None:
                    trace.append((ev, self.state()))
        except ForthError as e:
            return str(e)
        return None


QUIET = dict(raise_user_halt=False, raise_recursion_depth_exceeded=False, raise_stack_underflow=False,
             raise_stack_overflow=False, raise_read_beyond=False, raise_seek_beyond=False, raise_skip_beyond=False,
             raise_rewind_beyond=False, raise_division_by_zero=False, raise_varint_too_big=False)


def real_state(m, prog):
    return (list(m.stack), dict(m.variables), {n: m.input_position(n) for n in prog.ins},
            {n: np.asarray(m.output_NumpyArray(n)).tolist() for n in prog.outs})


def eqnum(a, b):
    """values, with NaN equal to itself; the types of scalars follow the output's dtype"""
    return repr(a) == repr(b)


# ---- all programs up to a size: an item is a leaf or a control structure with bodies ----
ONE = ["v @ if %s then", "3 0 do %s loop", "4 0 do %s 2 +loop", "begin 1 v +! %s v @ 3 >= until",
       "begin v @ 4 < while 1 v +! %s repeat", "begin 1 v +! %s v @ 5 > if exit then again"]
TWO = "v @ 1 > if %s else %s then"


def leaves(dodepth, calls):
    out = ["5", "drop", "exit", "1 v +!", "v @", "o +<- stack"]
    if dodepth >= 1:
        out.append("i")
    if dodepth >= 2:
        out.append("j")
    if dodepth >= 3:
        out.append("k")
    return out + calls


def items(n, d, calls, memo):
    key = ("i", n, d)
    if key not in memo:
        out = []
        if n == 1:
            out += leaves(d, calls)
        for t in ONE:
            for b in blocks(n - 1, d + (" do " in t), calls, memo):
                out.append(t % b)
        for k in range(n):
            for a in blocks(k, d, calls, memo):
                for b in blocks(n - 1 - k, d, calls, memo):
                    out.append(TWO % (a, b))
        memo[key] = [" ".join(x.split()) for x in out]
    return memo[key]


def blocks(n, d, calls, memo):
    """all blocks of exactly n items"""
    if n == 0:
        return [""]
    key = ("b", n, d)
    if key not in memo:
        out = []
        for k in range(1, n + 1):
            for a in items(k, d, calls, memo):
                for b in blocks(n - k, d, calls, memo):
                    out.append((a + " " + b).strip())
        memo[key] = out
    return memo[key]


def programs(total, nf):
    """(body of f, main) with nf items in f, total-nf in main"""
    mf, mm = {}, {}
    for a in blocks(nf, 0, [], mf):
        for b in blocks(total - nf, 0, ["f"] if nf else [], mm):
            if nf and "f" not in b.split():
                continue
            yield a, b


HEAD = "variable v output o int32 "


def source(f, main, g=None):
    return HEAD + (": f %s ; " % f if f else "") + main
