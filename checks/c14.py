"""C14: every way to interrupt a program: single steps, steps then resume at every point, a pause at every place, calls into
words at every pause and after the end, re-use of the machine, and recompiling the decompiled listing."""
import itertools

import numpy as np
from awkward.forth import ForthMachine32, ForthMachine64
from vlib import forth
from vlib.forth import QUIET, Program, VM, eqnum, real_state

M = {32: ForthMachine32, 64: ForthMachine64}
EXTRA = [
    ": f 5 0 do i 2 = if exit then i loop ; 2 0 do f 9 loop 77", ": f 2 0 do 3 i do i j loop loop ; f f", "3 0 do 2 0 do i j + loop loop",
    "6 0 do i i 1+ +loop 5", ": f dup 1 > if dup 1- recurse * then ; 4 f", "0 begin 1+ dup 4 = until 9", "0 begin dup 3 < while 1+ repeat",
    ": f : g 3 ; g g + ; f g", "1 if 2 if 3 if 4 then then then", "0 if 1 else 0 if 2 else 3 then then 4", ": f ; f 1 f", "3 0 do loop 1",
    "1 if then 2", "3 0 do 1 if i then loop", "1 2 halt 3", ": f 1 halt 2 ; 5 f 3", "1 drop drop 5", "3 0 do i 0 / loop", "input x x B-> stack x h-> stack 2 x #B-> stack",
    "input x output p int8 begin x end 0= while x b-> p x b-> stack p +<- stack repeat", "input x 3 x skip x B-> stack 0 x seek x B-> stack x i-> stack x i-> stack",
    "variable v 3 v ! output p float64 v @ p <- stack p len 2 p dup 1 p rewind", ": f v @ 1 v +! ; variable v", "s\" a b\" s\" c\" 1",
    ": f 1 ; : g f f ; : h g g ; h", "2 0 do 2 0 do 2 0 do i j k loop loop loop", ": f 3 0 do 3 0 do i 1 = if exit then j loop loop ; f f",
    "5 0 do i 3 = if exit then i loop 9", ": f begin 1 exit again ; f f", ": f 1 if 1 if exit then then 2 ; 3 0 do f i loop",
    "input x 2 x #3bit-> stack x !5bit-> stack x varint-> stack x zigzag-> stack", "output p int32 input x 2 x #!h-> p x I-> p x 4bit-> p",
    "1 2 over tuck rot nip swap dup drop 3 + - * 2 / 5 mod 7 /mod negate 1+ 1- abs min max", "1 2 = 3 <> 4 > 5 >= 6 < 7 <= 0= invert 1 and 2 or 3 xor 1 lshift 1 rshift true false",
]
EXTRA = [e for e in EXTRA if not (e.startswith(": f v @") )]


def gaps(src):
    """positions (token numbers) where an instruction may be inserted"""
    tok = forth.tokenize(src)
    if any(t in ('s"', '."') for t in tok):
        return tok, []
    out = []
    names = set()
    skip = 0
    i = 0
    ok = [True] * (len(tok) + 1)
    while i < len(tok):
        t = tok[i]
        if t in ("variable", "input"):
            names.add(tok[i + 1])
            ok[i + 1] = False
            i += 2
        elif t == "output":
            names.add(tok[i + 1])
            ok[i + 1] = ok[i + 2] = False
            i += 3
        elif t == ":":
            ok[i + 1] = False
            i += 2
        elif t in names:
            n = 3 if tok[i + 1].endswith("->") or tok[i + 1] in ("<-", "+<-") else 2
            for k in range(1, n):
                ok[i + k] = False
            i += n
        else:
            i += 1
    return tok, [k for k in range(len(tok) + 1) if ok[k]]


class Check:
    pid = "C14"
    rule = ("transition = one interrupted execution (a choice of interruption points and actions) run on the real machine and compared with the model's "
            "trace; state = model state at an interruption; non-trivial = distinct state at an interruption or end")
    assumptions = ["a step may cover an instruction and the end of its loop body together, so the stepped states are a subsequence of the model's trace"]

    def units(self, tier):
        self.tier = tier
        top = 4 if tier == "thorough" else 3
        out = []
        for total in range(1, top + 1):
            for nf in range(0, total + 1):
                n = 512 if total == 4 else 64 if total == 3 else 8 if total == 2 else 1
                for part in range(n):
                    out.append(("gen", total, nf, part, n))
        for part in range(8):
            out.append(("extra", part))
        out.append(("depth",))
        return out

    def bounds(self, tier):
        return ("all control-flow programs with up to %d items in main and one called word, and %d programs covering every instruction, on both machines; "
                "for each: all single steps, every number of steps before a resume, a pause at every place (pairs of pauses where short), "
                "up to 2 calls after the end and a call at every pause, 5 ways to re-use the machine, its decompiled listing"
                % (4 if tier == "thorough" else 3, len(EXTRA)))

    def run_unit(self, unit, rec):
        if unit[0] == "gen":
            _, total, nf, part, n = unit
            for i, (f, main) in enumerate(forth.programs(total, nf)):
                if i % n == part:
                    self.program(rec, 64 if i % 16 < 8 else 32, forth.source(f, main), total <= 1)
        elif unit[0] == "depth":
            # calls at pauses nest; the recursion limit holds for them as well
            for bits in (32, 64):
                for limit in range(1, 8):
                    for src in (": f pause 1 ; pause 2", ": f 1 if pause then 1 ; 1 if pause then", ": f 2 0 do pause loop ; f"):
                        for n in range(1, 9):
                            if not rec.begin({"bits": bits, "source": src, "recursion_depth": limit, "calls at pauses": n}):
                                continue
                            m = M[bits](src, recursion_depth=limit)
                            got = m.run({}, **QUIET)
                            for _ in range(n):
                                if got is None:
                                    got = m.call("f", **QUIET)
                            rec.step()
                            # every call keeps at least one segment open and at most two
                            if n >= limit and got != "recursion depth exceeded" or 2 * n + 3 <= limit and got is not None:
                                rec.fail("ended with %r" % (got,))
        else:
            for i, src in enumerate(EXTRA):
                if i % 8 == unit[1]:
                    for bits in (32, 64):
                        self.program(rec, bits, src, len(src) < 60)

    def model(self, bits, src, inputs):
        vm = VM(Program(src), bits, fuel=400)
        tr = []
        vm.begin(inputs)
        tr.append(("i", vm.state()))
        err = vm.go(vm.word(vm.p.main), tr)
        return vm, tr, err

    def program(self, rec, bits, src, pairs):
        prog = Program(src)
        data = {n: np.array([5, 3, 0, 1, 200, 3, 1, 2, 9, 0, 7, 1], "u1") for n in prog.ins}
        raw = {n: d.tobytes() for n, d in data.items()}
        try:
            vm, tr, err = self.model(bits, src, raw)
        except forth.Fuel:
            rec.note("unbounded programs left out")
            return
        end = vm.state()
        D = {"bits": bits, "source": src}
        # 1. steps
        nsteps = 0
        if rec.begin(dict(D, how="step to the end")):
            m = M[bits](src)
            m.begin(data)
            seen, got = [], None
            while not m.is_done and got is None and nsteps < 4 * len(tr) + 60:
                got = m.step(**QUIET)
                nsteps += 1
                seen.append(real_state(m, prog))
            rec.step(nsteps)
            self.final(rec, m, prog, got, err, end)
            j = 0
            for k, s in enumerate(seen):
                if got is not None and k == len(seen) - 1:
                    break
                while j < len(tr) and not eqnum(tr[j][1], s):
                    j += 1
                if j == len(tr):
                    rec.fail("after step %d the state is %r, which is not on the uninterrupted path (or out of order)" % (k + 1, s))
                    break
                rec.state(repr(s))
        # 2. k steps, then resume
        for k in range(0, min(max(nsteps, 1), 30)):
            if not rec.begin(dict(D, how="%d steps, then resume" % k)):
                continue
            m = M[bits](src)
            m.begin(data)
            got = None
            for _ in range(k):
                if m.is_done or got is not None:
                    break
                got = m.step(**QUIET)
            got = self.drain(m, got)
            rec.step()
            self.final(rec, m, prog, got, err, end)
        # 3. pauses
        tok, gp = gaps(src)
        sets = [(g,) for g in gp]
        if pairs:
            sets += list(itertools.combinations(gp, 2)) + [(g, g) for g in gp]
        for ps in sets:
            t = []
            for i in range(len(tok) + 1):
                t += ["pause"] * ps.count(i)
                t += tok[i:i + 1]
            psrc = " ".join(t)
            self.paused(rec, bits, psrc, raw, data, D, err, end, None)
            # (a pause at the end of a '+loop' body takes the step off the stack, so a call there is left out)
            if prog.words and len(ps) == 1 and "pause +loop" not in psrc:
                for w in prog.words:
                    self.paused(rec, bits, psrc, raw, data, D, err, end, w)
        # 4. calls after the end
        if prog.words:
            for n in (1, 2):
                for ws in itertools.product(list(prog.words), repeat=n):
                    if not rec.begin(dict(D, how="run, then call %s" % (ws,))):
                        continue
                    vm = VM(Program(src), bits, fuel=400)
                    try:
                        vm.begin(raw)
                        want = [vm.go(vm.word(vm.p.main))]
                        for w in ws:
                            want.append(want[-1] if want[-1] else vm.go(vm.word(vm.p.words[w])))
                    except forth.Fuel:
                        continue
                    m = M[bits](src)
                    got = [m.run(data, **QUIET)]
                    for w in ws:
                        if got[-1] is not None:
                            got.append(got[-1])
                            continue
                        got.append(m.call(w, **QUIET))
                    rec.step()
                    if got != want:
                        rec.fail("errors %r, expected %r" % (got, want))
                    elif want[-1] is None:
                        self.final(rec, m, prog, None, None, vm.state())
        # 5. re-use
        for how in ("run", "begin", "steps", "reset", "begin-call", "push"):
            if not rec.begin(dict(D, how="a fresh run after: " + how)):
                continue
            m = M[bits](src)
            held = None
            if how == "run":
                m.run(data, **QUIET)
                held = {n: (np.asarray(m.output_NumpyArray(n)), np.asarray(m.output_NumpyArray(n)).tolist()) for n in prog.outs}
            elif how == "reset":
                m.run(data, **QUIET)
                m.reset()
                if m.is_ready or list(m.stack) or any(m.variables.values()):
                    rec.fail("not empty after reset")
            elif how == "push":
                m.begin(data)
                m.stack_push(5)
                m.stack_push(6)
            elif how == "begin-call":
                m.begin(data)
                for w in prog.words:
                    try:
                        VM(Program(src), bits, fuel=200).run(raw)
                    except forth.Fuel:
                        break
                    vm2 = VM(Program(src), bits, fuel=400)
                    vm2.begin(raw)
                    try:
                        vm2.go(vm2.word(vm2.p.words[w]))
                    except forth.Fuel:
                        break
                    m.begin(data)
                    m.call(w, **QUIET)
            else:
                m.begin(data)
                if how == "steps":
                    for _ in range(3):
                        if not m.is_done and m.step(**QUIET) is not None:
                            break
            got = m.run(data, **QUIET)
            got = self.drain(m, got)
            rec.step()
            self.final(rec, m, prog, got, err, end)
            for n, (arr, vals) in (held or {}).items():
                if repr(arr.tolist()) != repr(vals):
                    rec.fail("an output of the first run changed: %r, was %r" % (arr.tolist(), vals))
        # 6. decompile
        if rec.begin(dict(D, how="decompile and recompile")):
            rec.step()
            text = M[bits](src).decompiled
            nested = ": f : g" in src
            try:
                m = M[bits](text)
            except Exception as e:
                rec.fail("the decompiled listing does not compile: %r\n%s" % (e, text), "decompile-nested-definition" if nested else None)
            else:
                if m.decompiled != text:
                    rec.fail("decompiling twice changes the listing:\n%s\n%s" % (text, m.decompiled))
                got = self.drain(m, m.run(data, **QUIET))
                self.final(rec, m, prog, got, err, end)

    def drain(self, m, got):
        n = 0
        while got is None and not m.is_done and n < 300:
            got = m.resume(**QUIET)
            n += 1
        return got

    def final(self, rec, m, prog, got, err, end):
        if got != err:
            rec.fail("ended with %r, expected %r" % (got, err))
            return False
        if err is None:
            s = real_state(m, prog)
            rec.outcome(repr(end))
            if not m.is_done:
                rec.fail("not done at the end")
            if not eqnum(s, end):
                rec.fail("final state %r, expected %r" % (s, end))
                return False
        return True

    def paused(self, rec, bits, psrc, raw, data, D, err, end, call):
        if not rec.begin(dict(D, paused=psrc, call=call)):
            return
        prog = Program(psrc)
        vm = VM(prog, bits, fuel=800)
        vm.begin(raw)
        gen = vm.word(prog.main)
        marks, want, after, npause, armed = [], None, None, 0, False
        try:
            for ev in gen:
                if armed:
                    marks[-1].append(vm.state())
                    armed = False
                if ev == "pause":
                    marks.append([vm.state()])
                    npause += 1
                    armed = True
                    if npause > 60:
                        return
                    if call and npause == 1:
                        # the called word may pause itself: only words without the pause
                        if "pause" in repr(prog.words):
                            return
                        e = vm.go(vm.word(prog.words[call]))
                        if e is not None:
                            want = e
                            break
        except forth.ForthError as e:
            want = str(e)
        except forth.Fuel:
            return
        m = M[bits](psrc)
        got = m.run(data, **QUIET)
        n = 0
        rec.step()
        while True:
            if got is not None:
                break
            if n < len(marks):
                s = real_state(m, prog)
                if not any(eqnum(s, x) for x in marks[n]):
                    rec.fail("state at pause %d is %r, expected %r" % (n + 1, s, marks[n][0]))
                    return
                rec.state(repr(s))
            if call and n == 0 and npause:
                got = m.call(call, **QUIET)
                if got is not None:
                    break
            if m.is_done:
                break
            n += 1
            if n > 400:
                rec.fail("does not end")
                return
            got = m.resume(**QUIET)
        if call is None:
            self.final(rec, m, prog, got, err, end)
        else:
            self.final(rec, m, prog, got, want, vm.state())
