"""Controlled thread schedules: several threads run real code one at a time, and the turn changes at chosen lines (or
bytecodes) of psion's own code. A schedule is determined by its seed unless the code under test blocks on a lock of its
own: a stalled thread is then left to itself and another one gets a turn."""
import os
import sys
import threading

from vf import core

SRC = os.path.join(os.path.realpath(core.REPO), "src", "psion") + os.sep


class Turns:
    def __init__(self, rng, rate, opcodes=False):
        self.rng, self.rate, self.opcodes = rng, rate, opcodes
        self.cond = threading.Condition()
        self.running, self.alive = set(), set()
        self.steps = self.switches = self.stalls = 0
        self.trace = []           # (thread, line) where the turn changed
        self.files = {}

    def ours(self, name):
        r = self.files.get(name)
        if r is None:
            r = self.files[name] = os.path.realpath(name).startswith(SRC)
        return r

    # -- called by the threads
    def _wait(self, i):
        while i not in self.running:
            self.cond.wait()

    def point(self, i, where, force=False):
        with self.cond:
            self.steps += 1
            if len(self.running) > 1:       # a stalled thread went on: back to one at a time
                self.running.discard(i)
                self._wait(i)
                return
            if not force and self.rng.random() >= self.rate:
                return
            j = self.rng.choice(sorted(self.alive))
            if j != i:
                self.switches += 1
                self.trace.append((i, where))
                self.running.discard(i)
                self.running.add(j)
                self.cond.notify_all()
                self._wait(i)

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.point(i, frame.f_lineno)
            return local

        def enter(frame, event, arg):
            if self.ours(frame.f_code.co_filename):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                self.point(i, frame.f_lineno)
                return local
            return None
        return enter

    def worker(self, i, ops, out):
        with self.cond:
            self._wait(i)
        try:
            for op in ops:
                self.point(i, 0, force=True)
                sys.settrace(self.tracer(i))
                try:
                    r = ("ok", op())
                except Exception as exc:
                    r = ("err", exc)
                finally:
                    sys.settrace(None)
                out.append(r)
        finally:
            with self.cond:
                self.alive.discard(i)
                self.running.discard(i)
                if self.alive and not self.running:
                    self.running.add(self.rng.choice(sorted(self.alive)))
                self.cond.notify_all()

    def run(self, jobs, limit=120):
        """jobs: one list of operations per thread. Returns their results, in the same shape."""
        out = [[] for _ in jobs]
        self.alive = set(range(len(jobs)))
        self.running = {self.rng.choice(sorted(self.alive))}
        ts = [threading.Thread(target=self.worker, args=(i, ops, out[i]), daemon=True) for i, ops in enumerate(jobs)]
        [t.start() for t in ts]
        idle, last = 0.0, -1
        total = 0.0
        with self.cond:
            while self.alive:
                self.cond.wait(0.25)
                if self.steps != last:
                    last, idle = self.steps, 0.0
                    continue
                idle += 0.25
                total += 0.25
                parked = sorted(self.alive - self.running)
                if idle >= 2.0 and parked:
                    self.stalls += 1
                    idle = 0.0
                    self.running.add(self.rng.choice(parked))
                    self.cond.notify_all()
                if total > limit:
                    return None
        [t.join() for t in ts]
        return out


def steps(a):
    """The steps of a worth interrupting: for each line of psion's code a runs, its first and its last execution."""
    first, last, n, files = {}, {}, [0], {}

    def local(frame, event, arg):
        if event == "line":
            w = (frame.f_code.co_filename, frame.f_lineno)
            first.setdefault(w, n[0])
            last[w] = n[0]
            n[0] += 1
        return local

    def enter(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in files:
            files[f] = os.path.realpath(f).startswith(SRC)
        return local if files[f] else None

    old = sys.gettrace()
    sys.settrace(enter)
    try:
        a()
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return sorted(set(first.values()) | set(last.values()))


def preempt(a, b, k, opcodes=False):
    """Run a; at its k-th line (or bytecode) in psion's code another thread runs b to its end. Returns the two results, and
    whether that line was reached. When b waits for a lock held by a, a goes on."""
    seen, started, box = [0], [], []
    files = {}

    def other():
        try:
            box.append(("ok", b()))
        except Exception as exc:
            box.append(("err", exc))

    def hit():
        if started:
            return
        if seen[0] == k:
            t = threading.Thread(target=other, daemon=True)
            started.append(t)
            t.start()
            t.join(1.5)
        seen[0] += 1

    def local(frame, event, arg):
        if event in ("line", "opcode"):
            hit()
        return local

    def enter(frame, event, arg):
        n = frame.f_code.co_filename
        if n not in files:
            files[n] = os.path.realpath(n).startswith(SRC)
        if files[n] and not started:
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None

    old = sys.gettrace()
    sys.settrace(enter)
    try:
        ra = ("ok", a())
    except Exception as exc:
        ra = ("err", exc)
    finally:
        sys.settrace(old)
    if not started:
        return ra, None, False
    started[0].join(60)
    return ra, (box[0] if box else ("err", RuntimeError("the other thread came to no end"))), True
