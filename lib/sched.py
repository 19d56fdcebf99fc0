"""Deterministic interleavings of threads at the bytecodes of hmmlearn.

Only the thread that has the turn runs.  At every bytecode (or line) executed in
a file of hmmlearn, the turn is passed on with some probability, drawn from a
seeded generator; a schedule is thus a function of its seed.
"""
import dis
import sys
import threading

# CPython 3.12 only reports bytecodes to tracers that are installed after some
# frame has asked for them
sys._getframe().f_trace_opcodes = True

GRACE = 2.        # a thread that has the turn and is blocked loses it after this


class Schedule:
    def __init__(self, rs, n, p, opcodes, path):
        self.rs, self.n, self.p, self.opcodes, self.path = rs, n, p, opcodes, path
        self.cv = threading.Condition()
        self.turn, self.live, self.count, self.switches = 0, set(range(n)), 0, 0

    def _pass(self):
        others = sorted(self.live - {self.turn})
        if others:
            self.turn = others[self.rs.randint(len(others))]
            self.switches += 1
            self.cv.notify_all()

    def _wait(self, k):
        while self.turn != k:
            seen = self.count
            if not self.cv.wait(GRACE) and self.count == seen:
                self.turn = k        # the other one waits for something else

    def point(self, k):
        with self.cv:
            self.count += 1
            if self.turn == k and self.rs.rand() < self.p:
                self._pass()
            self._wait(k)

    def run(self, k, work):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.point(k)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.path):
                return None
            frame.f_trace_opcodes = self.opcodes
            return local

        with self.cv:
            self._wait(k)
        sys.settrace(trace)
        try:
            work(k)
        finally:
            sys.settrace(None)
            with self.cv:
                self.live.discard(k)
                self.count += 1
                if self.turn == k:
                    self._pass()
                self.cv.notify_all()

    def go(self, work):
        ts = [threading.Thread(target=self.run, args=(k, work)) for k in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


WRITES = {dis.opmap[o] for o in dis.opmap
          if o.startswith(("STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL",
                           "DELETE_ATTR", "CALL", "BINARY_OP"))}


def points(path, work, at=None, other=None):
    """Run *work*; at its bytecode number *at* in hmmlearn, a thread runs *other*.

    Returns whether the other thread had to wait, in a list of one, in second place.
    Without *at*, returns the number of bytecodes, and the numbers of those that
    follow something that may write, at its first execution.
    """
    n = 0
    after, seen, started, code = [], set(), [], {}
    last = None

    def local(frame, event, arg):
        nonlocal n, last
        if event == "opcode":
            n += 1
            if n == at:
                t = threading.Thread(target=other)
                started.append(t)
                t.start()
                t.join(GRACE / 4)
                after.append(t.is_alive())     # waits for this thread
            if at is None:
                if last:
                    after.append(n)
                key = frame.f_code, frame.f_lasti
                last = False
                if key not in seen:
                    seen.add(key)
                    if frame.f_code not in code:
                        code[frame.f_code] = frame.f_code.co_code
                    last = code[frame.f_code][frame.f_lasti] in WRITES
        return local

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(path):
            return None
        frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        work()
    finally:
        sys.settrace(old)
    for t in started:
        t.join()
    return n, after
