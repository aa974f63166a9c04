"""Deterministic interleaving of two threads: every executed source line of the package is a point where the running thread may be changed."""
import sys
import threading
import time

WAIT = 1.0      # s: a thread that isn't let in for this long goes on (e.g. the other one waits for a lock it holds)


class Gate:
    """Lets the threads run by turns: segments = [(thread, number of lines)], afterwards everybody runs freely."""
    def __init__(self, segments, prefix):
        self.segments = [list(s) for s in segments if s[1] > 0]
        self.prefix = prefix
        self.cond = threading.Condition()
        self.lines = {}
        self.free = False
        self.followed = True

    def finished(self, t):
        with self.cond:
            self.segments = [s for s in self.segments if s[0] != t]
            self.cond.notify_all()

    def point(self, t):
        self.lines[t] = self.lines.get(t, 0) + 1
        with self.cond:
            end = time.monotonic() + WAIT
            while not self.free and self.segments and self.segments[0][0] != t:
                left = end - time.monotonic()
                if left <= 0:
                    self.free, self.followed = True, False
                    self.cond.notify_all()
                    break
                self.cond.wait(left)
            if not self.free and self.segments:
                self.segments[0][1] -= 1
                if self.segments[0][1] <= 0:
                    self.segments.pop(0)
                    self.cond.notify_all()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.point(t)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None
        return glob


def interleave(functions, segments, prefix, timeout=60):
    """Runs the functions (thread k + 1 runs functions[k]) under the schedule; returns (list of results or exceptions, gate)."""
    gate = Gate(segments, prefix)
    out = [None] * len(functions)

    def body(k):
        sys.settrace(gate.tracer(k + 1))
        try:
            out[k] = functions[k]()
        except BaseException as e:  # noqa: handed over to the caller
            out[k] = e
        finally:
            sys.settrace(None)
            gate.finished(k + 1)
    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(functions))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(timeout)
        if t.is_alive():
            out.append(TimeoutError("thread hangs"))
    return out, gate


def count_lines(function, prefix):
    out, gate = interleave([function], [], prefix)
    return gate.lines.get(1, 0)


def lines_of(sched, totals, rnd):
    """A schedule of model steps (thread numbers) as segments of source lines; totals = number of lines of every thread."""
    steps = [sched.count(k + 1) for k in range(len(totals))]
    segs, done, used = [], [0] * len(totals), [0] * len(totals)
    for t in sched:
        k = t - 1
        done[k] += 1
        upto = totals[k] if done[k] == steps[k] else int(totals[k] * (done[k] - rnd.random()) / steps[k])
        n = max(0, upto - used[k])
        used[k] += n
        if segs and segs[-1][0] == t:
            segs[-1][1] += n
        else:
            segs.append([t, n])
    return segs
