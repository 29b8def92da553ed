"""Exhaustive bounded exploration of the real code, with crash and hang isolation.

A check is an object with
    pid                     property id
    units(tier)             finite list of picklable units, in a fixed order
    run_unit(unit, rec)     explores *all* cases of the unit, in a fixed order

Every case calls rec.begin(desc) first (the ordinal is what a replay names) and
reports through rec.fail(...).  The parent enumerates every unit exactly once,
spread over worker processes.  A worker that dies (signal, sanitizer abort) or
stops advancing is replayed alone on the same case before it is reported.
"""
import hashlib
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "little")


class StopUnit(Exception):
    pass


class Rec:
    def __init__(self, slot=None, only=None, start_after=-1, desc_file=None, max_fail=int(os.environ.get('VERIF_MAXFAIL', 40))):
        self.slot = slot
        self.only = only
        self.start_after = start_after
        self.desc_file = desc_file
        self.ordinal = -1
        self.desc = None
        self.cases = 0
        self.transitions = 0
        self.validated = 0
        self.states = set()
        self.outcomes = set()
        self.failures = []
        self.nfail = 0
        self.max_fail = max_fail
        self.samples = []
        self.notes = {}
        self.known_hits = {}
        self.unit_index = -1

    def begin(self, desc):
        self.ordinal += 1
        if self.ordinal <= self.start_after:
            return False
        if self.only is not None:
            if self.ordinal < self.only:
                return False
            if self.ordinal > self.only:
                raise StopUnit
        self.desc = desc
        if self.slot is not None:
            self.slot.set(self.unit_index, self.ordinal)
        if self.desc_file is not None:
            with open(self.desc_file, "w") as f:
                json.dump({"desc": text(desc)}, f)
        self.cases += 1
        if self.cases == 1 or (self.cases & (self.cases - 1)) == 0 and len(self.samples) < 6:
            self.samples.append(desc)
        return True

    def step(self, n=1):
        """n executions of a real operation were compared with the model"""
        self.transitions += n
        self.validated += n

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    known = []
    known_match = None

    def fail(self, message, key=None):
        k = key if key is not None else text(self.desc)
        for e in Rec.known:
            if Rec.known_match(e, {"key": k}):
                self.known_hits[e["id"]] = self.known_hits.get(e["id"], 0) + 1
                return
        self.nfail += 1
        if len(self.failures) < self.max_fail:
            self.failures.append({
                "unit": self.unit_index, "ordinal": self.ordinal,
                "desc": text(self.desc), "key": k, "message": message})


def text(desc):
    if callable(desc):
        desc = desc()
    return desc if isinstance(desc, str) else repr(desc)


class Slot:
    SIZE = 24

    def __init__(self, mm, i):
        self.mm, self.off = mm, i * self.SIZE

    def set(self, unit, ordinal):
        c = struct.unpack_from("<q", self.mm, self.off + 16)[0]
        struct.pack_into("<qqq", self.mm, self.off, unit, ordinal, c + 1)

    def get(self):
        return struct.unpack_from("<qqq", self.mm, self.off)


def _child(check, units, todo, slot, outpath, start_after):
    """todo: shared counter object; runs in a forked child"""
    rec_total = None
    try:
        out = open(outpath, "ab")
        while True:
            i = todo.next()
            if i is None:
                break
            rec = Rec(slot=slot, start_after=start_after.pop(i, -1))
            rec.unit_index = i
            try:
                check.run_unit(units[i], rec)
            except StopUnit:
                pass
            except Exception:
                # On the unchanged tree no case ever raises out of the harness, so an
                # exception here is unexpected behaviour of the code on this case.
                rec.fail("unexpected exception outside the compared operation:\n"
                         + traceback.format_exc()[-3000:])
            pickle.dump((i, rec.cases, rec.transitions, rec.validated, rec.states, rec.outcomes,
                         rec.failures, rec.nfail,
                         [text(s) for s in rec.samples[:6]] if i % 97 == 0 or i < 3 else [],
                         rec.notes, rec.known_hits), out)
            out.flush()
        slot.set(-2, 0)
    except BaseException:
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


class SharedCounter:
    def __init__(self, mm, off, order):
        self.mm, self.off, self.order = mm, off, order
        r, w = os.pipe()
        self.r, self.w = r, w
        os.write(w, b"x")  # a one-token pipe is a cross-process lock

    def next(self):
        tok = os.read(self.r, 1)
        try:
            k = struct.unpack_from("<q", self.mm, self.off)[0]
            struct.pack_into("<q", self.mm, self.off, k + 1)
        finally:
            os.write(self.w, tok)
        if k >= len(self.order):
            return None
        return self.order[k]


class ListCounter:
    def __init__(self, items):
        self.items = list(items)

    def next(self):
        return self.items.pop(0) if self.items else None


def run_single(check, unit, unit_index, ordinal, timeout):
    """Replay one case in its own process. Returns (status, failures, desc)."""
    base = "/tmp/vreplay.%d.%d" % (os.getpid(), time.monotonic_ns())
    descf, outf = base + ".desc", base + ".out"
    pid = os.fork()
    if pid == 0:
        try:
            rec = Rec(only=ordinal, desc_file=descf)
            rec.unit_index = unit_index
            try:
                check.run_unit(unit, rec)
            except StopUnit:
                pass
            except Exception:
                rec.fail("unexpected exception outside the compared operation:\n"
                         + traceback.format_exc()[-3000:])
            with open(outf, "wb") as f:
                pickle.dump((rec.failures, rec.nfail), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    t0 = time.time()
    status = None
    while time.time() - t0 < timeout:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        time.sleep(0.02)
    desc, failures = None, []
    if status is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        result = "hang"
    elif os.WIFSIGNALED(status):
        result = "signal %d" % os.WTERMSIG(status)
    elif os.WEXITSTATUS(status) != 0:
        result = "exit %d" % os.WEXITSTATUS(status)
    else:
        with open(outf, "rb") as f:
            failures, n = pickle.load(f)
        result = "fail" if n else "ok"
    try:
        with open(descf) as f:
            desc = json.load(f)["desc"]
    except (OSError, ValueError):
        pass
    for p in (descf, outf):
        if os.path.exists(p):
            os.unlink(p)
    return result, failures, desc


class Result:
    def __init__(self):
        self.cases = self.transitions = self.validated = 0
        self.states, self.outcomes = set(), set()
        self.failures, self.nfail = [], 0
        self.samples, self.notes, self.known_hits = [], {}, {}
        self.units = 0
        self.units_done = 0
        self.errors = []


def explore(check, tier, nproc=None, hang_s=90, order=None, deadline=None):
    units = check.units(tier)
    nproc = nproc or min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8)), max(1, len(units)))
    mm = mmap.mmap(-1, 8 + Slot.SIZE * 4096)
    order = list(range(len(units)))
    counter = SharedCounter(mm, 0, order)
    tmpdir = "/tmp/vexplore.%d" % os.getpid()
    os.makedirs(tmpdir, exist_ok=True)
    res = Result()
    res.units = len(units)
    live = {}
    nslot = 0
    outs = []

    class OffSlot(Slot):
        def __init__(self, i):
            self.mm, self.off = mm, 8 + i * Slot.SIZE

    def spawn(todo, start_after):
        nonlocal nslot
        slot = OffSlot(nslot)
        outpath = os.path.join(tmpdir, "w%d.pkl" % nslot)
        nslot += 1
        outs.append(outpath)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _child(check, units, todo, slot, outpath, start_after)
        live[pid] = [slot, slot.get(), time.time(), outpath]

    for _ in range(nproc):
        spawn(counter, {})
    crashes = 0
    # A single global token pipe is used as a lock; a killed worker never holds it
    # (it is only held around two struct operations with signals from us alone).
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, info in list(live.items()):
                cur = info[0].get()
                if cur != info[1]:
                    info[1], info[2] = cur, now
                elif now - info[2] > hang_s:
                    os.kill(p, signal.SIGKILL)
                    info[2] = now + 1e9
            time.sleep(0.02)
            continue
        if pid not in live:
            continue
        slot, _, _, outpath = live.pop(pid)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            continue
        u, o, _ = slot.get()
        if u < 0:
            # died before its first case: harness trouble
            res.errors.append("worker died before its first case (status %d)" % st)
            continue
        crashes += 1
        result, failures, desc = run_single(check, units[u], u, o, max(120, 2 * hang_s))
        if result == "ok":
            result2, failures, desc = run_single(check, units[u], u, o, max(120, 2 * hang_s))
            if result2 == "ok":
                # state carried over from earlier cases of the same worker: replay the whole unit prefix
                res.notes["unreproduced_worker_death"] = res.notes.get("unreproduced_worker_death", 0) + 1
                resu, desc2 = replay_prefix(check, units[u], u, o, max(300, 2 * hang_s))
                if resu != "ok":
                    res.failures.append({"unit": u, "ordinal": o, "desc": desc or desc2,
                                         "key": "crash:" + str(desc), "prefix": True,
                                         "message": "process ended (%s) after the preceding cases of this unit" % resu})
                    res.nfail += 1
        else:
            fl = {"unit": u, "ordinal": o, "desc": desc, "key": "crash:" + str(desc),
                  "message": "process ended: " + result}
            for e in Rec.known:
                if Rec.known_match(e, fl):
                    res.known_hits[e["id"]] = res.known_hits.get(e["id"], 0) + 1
                    break
            else:
                res.failures.append(fl)
                res.nfail += 1
        if crashes < 200:
            spawn(Chain([u], counter), {u: o})
    for p in outs:
        if not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            while True:
                try:
                    (i, c, t, v, s, oc, fl, nf, smp, notes, kh) = pickle.load(f)
                except EOFError:
                    break
                except pickle.UnpicklingError:
                    break
                res.units_done += 1
                res.cases += c
                res.transitions += t
                res.validated += v
                res.states |= s
                res.outcomes |= oc
                res.failures += fl
                res.nfail += nf
                res.samples += smp
                for k, n in kh.items():
                    res.known_hits[k] = res.known_hits.get(k, 0) + n
                for k, n in notes.items():
                    res.notes[k] = res.notes.get(k, 0) + n
        os.unlink(p)
    os.rmdir(tmpdir)
    return res, units


class Chain:
    def __init__(self, first, rest):
        self.first, self.rest = list(first), rest

    def next(self):
        if self.first:
            return self.first.pop(0)
        return self.rest.next()


def replay_prefix(check, unit, u, o, timeout):
    pid = os.fork()
    if pid == 0:
        class R(Rec):
            def begin(self, desc):
                if self.ordinal >= o:
                    raise StopUnit
                return Rec.begin(self, desc)
        rec = R()
        try:
            check.run_unit(unit, rec)
        except StopUnit:
            pass
        except BaseException:
            os._exit(3)
        os._exit(0)
    t0 = time.time()
    while time.time() - t0 < timeout:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                return "signal %d" % os.WTERMSIG(st), None
            return ("ok" if os.WEXITSTATUS(st) == 0 else "exit %d" % os.WEXITSTATUS(st)), None
        time.sleep(0.02)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return "hang", None
