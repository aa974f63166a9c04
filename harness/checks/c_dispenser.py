"""C21, C22: the dispatcher.  Dispenser.tla (protocol) refines DispAbs.tla; schedules of DispSched.tla are enforced on real processes through gates, the
recorded event traces are validated by TLC against DispAbs (DispTrace.tla); tours over DispLife.tla drive several dispatchers."""
import importlib.util
import json
import multiprocessing as mp
import os
import ctypes
import random
import signal
import sys
import threading
import time
import warnings

import numpy as np

from core import Stop, tour

PROTOCOL = ["RightDirection", "OneItem", "OnceEach", "InOrder", "CleanIdle", "FailReported"]
HANG = 20.0      # s, a call that takes longer never returns (the longest legitimate call of this check takes well below 1 s)


class Hang(Exception):
    pass


def hanged(ctx, case):
    """Report a call that never returns; every one costs time, so the check ends after a few of them."""
    ctx.violate("hang", case)
    cleanup()
    ctx.hangs = getattr(ctx, "hangs", 0) + 1
    if ctx.hangs >= 3:
        raise Stop()


class Call:
    """A call in its own thread, so that a call that never returns is noticed."""

    def __init__(self, fn, *args, **kw):
        self.result = self.error = None
        self.warnings = []

        def body():
            try:
                self.result = fn(*args, **kw)
            except BaseException as e:
                self.error = e
        self.t = threading.Thread(target=body, daemon=True)
        self.t.start()

    def wait(self, timeout=HANG):
        self.t.join(timeout)
        if self.t.is_alive():
            raise Hang()
        return self


def call(fn, *args, **kw):
    return Call(fn, *args, **kw).wait()


def pids():
    return {p.pid for p in mp.active_children()}


def gone(ps, timeout=15.0):
    """True if the child processes ended (some time is given: the manager does not wait for all of them)."""
    t = time.time()
    while time.time() - t < timeout:
        if not (pids() & set(ps)):
            return True
        time.sleep(0.003)
    return False


def cleanup():
    for p in mp.active_children():
        p.kill()
    for p in mp.active_children():
        p.join(2)


class Gates:
    """Shared by the client and the workers (inherited through fork): a gate per job and the common log of events."""

    def __init__(self, path, n=8):
        self.fd = os.open(str(path), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        self.gate = [mp.Semaphore(0) for _ in range(n + 1)]
        self.pos = 0
        self.events = []

    def log(self, **kw):
        os.write(self.fd, (json.dumps(kw) + "\n").encode())

    def work(self, param):
        r, j, fail = param
        self.log(e="start", j=j, r=r, pid=os.getpid())
        self.gate[j].acquire(timeout=60)
        if fail in ("exit", "kill"):
            self.log(e="crash", j=j, r=r, pid=os.getpid())
            os._exit(3) if fail == "exit" else os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(60)
        if fail:
            self.log(e="break", j=j, r=r, pid=os.getpid())
            raise ValueError("job %d" % j)
        self.log(e="finish", j=j, r=r, pid=os.getpid())
        return value(r, j)

    def read(self):
        size = os.fstat(self.fd).st_size
        if size > self.pos:
            raw = os.pread(self.fd, size - self.pos, self.pos)
            end = raw.rfind(b"\n") + 1
            self.events += [json.loads(x) for x in raw[:end].splitlines()]
            self.pos += end
        return self.events

    def wait_for(self, cond, timeout):
        t = time.time()
        while time.time() - t < timeout:
            if cond(self.read()):
                return True
            time.sleep(0.0003)
        return False


def value(r, j):
    return ("round", r, "job", j, r * 1000 + j * j)


def load_intmproc(cpu=None):
    """The module; with cpu - a private copy of it, as it would be on a machine with the given number of processors (0: unknown)."""
    if cpu is None:
        import zernpy.utils.intmproc as mod
        return mod
    real = os.cpu_count
    os.cpu_count = lambda: cpu or None
    try:
        name = "intmproc_cpu%s" % cpu
        spec = importlib.util.spec_from_file_location(name, "/repo/src/zernpy/utils/intmproc.py")
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod      # objects of its classes are sent between the processes
        spec.loader.exec_module(mod)
    finally:
        os.cpu_count = real
    return mod


# ---------------------------------------------------------------------------------------------------------------------------------------------
def check_C21(ctx):
    try:
        _c21(ctx)
    finally:
        cleanup()


def _c21(ctx):
    rnd = random.Random(ctx.seed)
    protocol(ctx, [(2, 2, 2, 0, 0, True), (2, 3, 2, 1, 0, True), (3, 4, 1, 0, 0, False)] if not ctx.thorough else
             [(2, 2, 3, 1, 0, True), (2, 4, 2, 1, 0, True), (3, 3, 2, 1, 0, True), (3, 4, 2, 0, 0, False), (3, 5, 1, 1, 0, False), (4, 4, 1, 0, 0, False)])
    # the protocol needs the trigger: without it TLC has to find a violation (the invariants are not vacuous)
    ctx.tlc_fails("Dispenser", {"W": 2, "N": 3, "Rounds": 1, "MaxFail": 0, "MaxCrash": 0, "Intr": "none", "WaitsTrigger": False}, invariants=PROTOCOL, spec="Spec")
    # and it cannot go on with the same workers after an interrupted computation
    ctx.tlc_fails("Dispenser", {"W": 2, "N": 2, "Rounds": 2, "MaxFail": 0, "MaxCrash": 0, "Intr": "keep", "WaitsTrigger": True}, invariants=["RightDirection"], spec="Spec")
    mod = load_intmproc()
    cpus = os.cpu_count() or 1
    ws = [w for w in (2, 3, 4) if w <= cpus]
    rows = []
    for w in ws:
        ns = {2: {2, 3, 4, 5}, 3: {3, 4, 5}, 4: {4, 5}}[w]
        got = ctx.tlc("DispSched", {"WS": {w}, "NS": ns, "MaxTogether": w, "MaxFail": 0, "Ends": set()}, invariants=["Sound", "Emit"]).rows
        rnd.shuffle(got)
        rows += got if ctx.thorough else got[:170]
    traces = []
    for w in ws:
        mine = [r for r in rows if r["w"] == w]
        g = Gates(ctx.scratch / ("log_%d" % w))
        man = None
        rounds = 0
        for row in mine:
            case = {"workers": w, "jobs": row["n"], "schedule": row["sched"], "round": rounds + 1}
            ctx.traces += 1
            try:
                rounds += 1
                params = [(rounds, j, False) for j in range(1, row["n"] + 1)]
                if man is None:
                    man = call(mod.DispenserManager, g.work, params, n_workers=w).result
                else:
                    man.update_params(params)
                for j in range(1, len(g.gate)):
                    while g.gate[j].acquire(block=False):
                        pass
                g.log(e="begin", n=row["n"])
                c = Call(man.compute)
                follow(g, row, rounds)
                c.wait()
                g.log(e="return", order=c.error is None and c.result == [value(rounds, j) for j in range(1, row["n"] + 1)])
                if not ctx.expect(c.error is None, "raises", case, repr(c.error)):
                    break
                if not ctx.expect(c.result == [value(rounds, j) for j in range(1, row["n"] + 1)], "results", case, c.result):
                    break
            except Hang:
                hanged(ctx, case)
                break
        traces += split_rounds(g.read(), w)
        if man is not None:
            for j in range(1, len(g.gate)):
                for _ in range(3):
                    g.gate[j].release()
            Call(man.close).t.join(5)
    validate(ctx, traces)
    broken_off(ctx, mod, rnd, ws, "interrupt")
    plain_runs(ctx, mod, rnd, ws)
    ctx.notes["schedules"] = len(rows)
    ctx.sample({"schedule": rows[0] if rows else None})
    ctx.assumptions.append("processes are started by fork (Linux default of the supported Python); parameters and results can be pickled")


def protocol(ctx, configs):
    for W, N, R, F, C, live in configs:
        ctx.tlc("Dispenser", {"W": W, "N": N, "Rounds": R, "MaxFail": F, "MaxCrash": C, "Intr": "close" if C else "none", "WaitsTrigger": True}, invariants=PROTOCOL,
                properties=["Refines"] + (["Terminates", "AllLeave"] if live else []), spec="Spec", emit=False, workers=4, heap="6g", timeout=3000 if ctx.thorough else 500)


def follow(g, row, r):
    """Opens the gates in the order of the schedule."""
    for s in row["sched"]:
        # all jobs of the step have to be running; a manager that distributes jobs in another way is not waited for any longer
        g.wait_for(lambda ev: set(s) <= {e["j"] for e in ev if e["e"] == "start" and e.get("r") == r}, 1.5)
        for j in s:
            g.gate[j].release()
        g.wait_for(lambda ev: set(s) <= {e["j"] for e in ev if e["e"] in ("finish", "break") and e.get("r") == r}, 1.5)


def split_rounds(events, w):
    """One trace per round (the round numbers are counted from 1 in each), with worker numbers by the first appearance of a process."""
    out, cur, who = [], None, {}
    for e in events:
        if e["e"] == "begin":
            cur = {"w": w, "n": e["n"], "events": [{"e": "begin", "w": 0, "j": 0, "r": 0, "order": False}], "round": None}
            out.append(cur)
            cur["expect"] = len(out)
            continue
        if cur is None:
            continue
        wi = who.setdefault(e["pid"], len(who) + 1) if "pid" in e else 0
        rr = 0
        if "r" in e:
            rr = 1 if e["r"] == cur["expect"] else 99      # a job of another round: the trace has to be rejected
        cur["events"].append({"e": e["e"], "w": wi, "j": e.get("j", 0), "r": rr, "order": bool(e.get("order", False))})
    for t in out:
        t.pop("round"), t.pop("expect")
    return out


def validate(ctx, traces):
    """Verdicts of TLC about recorded traces."""
    if not traces:
        return
    # a corrupted copy has to be rejected: binding of the trace specification
    bad = json.loads(json.dumps(next(t for t in traces if len(t["events"]) > 4)))
    bad["events"][2], bad["events"][-1] = bad["events"][-1], bad["events"][2]
    rows = ctx.tlc("DispTrace", {}, init="TraceInit", next_="TraceNext", invariants=["Verdict", "OncePerRound", "Accounted", "NothingLeft"],
                   files={"traces.json": json.dumps(traces + [bad])}).rows
    verdict = {}
    for r in rows:
        verdict[r["k"]] = (r["ok"], r["at"]) if r["k"] not in verdict or not r["ok"] else verdict[r["k"]]
    if verdict.get(len(traces) + 1, (True, 0))[0]:
        from core import SpecError
        raise SpecError("the corrupted trace is accepted")
    for k, t in enumerate(traces, 1):
        ok, at = verdict.get(k, (False, 0))
        ctx.expect(ok, "trace", {"workers": t["w"], "jobs": t["n"], "events": t["events"][:max(0, at + 2)], "rejected at": at})
    ctx.notes["validated traces"] = len(traces)


def kinds(i):
    """Results of all kinds, told by the parameter."""
    k = ["none", "zero", "false", "empty", "word", "exception", "array", "tuple", "nan", "dict"][i % 10]
    return {"none": None, "zero": 0, "false": False, "empty": "", "word": "Started", "exception": ValueError("a value, not raised"), "array": np.arange(i + 1.0),
            "tuple": (i, [i]), "nan": float("inf"), "dict": {i: "x"}}[k]


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    if isinstance(b, BaseException):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


def big(x):
    """Large parameter, large result: the pipe is smaller than both."""
    a = np.asarray(x)
    return a * 2.0


def jitter(x):
    time.sleep((x * 7919 % 13) * 0.0007)
    return x * x


def square(x):
    return x * x


def plain_runs(ctx, mod, rnd, ws):
    """Free schedules: timing jitter, kinds of values, large values, update sequences, repeated computation without an update."""
    def manager(fn, params, w):
        c = call(mod.DispenserManager, fn, params, n_workers=w, verbose_info=rnd.random() < 0.3)
        if c.error is not None:
            raise c.error
        return c.result
    for w in ws:
        seqs = [("jitter", jitter, [[rnd.randint(0, 1000) for _ in range(n)] for n in (w, 3 * w + 1, w + 1, 40, w)]),
                ("kinds", kinds, [list(range(10, 10 + n)) for n in (max(w, 10), w, 23)]),
                ("big", big, [[np.full(k * 40000, float(i)) for i in range(n)] for n, k in ((w, 1), (w + 2, 3), (w, 2))]),
                ("many", square, [list(range(n)) for n in (450, 203, w, 1000 if ctx.thorough else 207)]),
                ("equal", jitter, [[5] * (w + 3), [6] * (w + 3), [5] * w])]
        for name, fn, lists in seqs:
            case = {"run": name, "workers": w}
            try:
                man = manager(fn, lists[0], w)
                previous = []
                for i, ps in enumerate(lists):
                    if i:
                        man.update_params(ps)
                    for rep in range(2):
                        ctx.traces += 1
                        c = call(man.compute)
                        if not ctx.expect(c.error is None, "raises", {**case, "list": i, "repetition": rep}, repr(c.error)):
                            break
                        want = [fn(p) for p in ps]
                        ok = c.result is not None and len(c.result) == len(want) and all(same(a, b) for a, b in zip(c.result, want))
                        ctx.expect(ok, "results", {**case, "list": i, "repetition": rep})
                        previous.append((list(c.result or []), c.result, want))
                    # results handed out before stay
                    for copy_, res, want in previous:
                        ctx.expect(res is not None and len(copy_) == len(res) and all(same(a, b) for a, b in zip(res, want)), "handed-out", case)
                call(man.close)
            except Hang:
                hanged(ctx, case)


# ---------------------------------------------------------------------------------------------------------------------------------------------
class MyError(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


RAISES = {"value": lambda: ValueError("x"), "key": lambda: KeyError(1), "own": lambda: MyError(1, 2), "exit": lambda: SystemExit(3), "zero": lambda: ZeroDivisionError(),
          "stop": lambda: StopIteration(), "memory": lambda: MemoryError(), "recursion": lambda: RecursionError("deep")}


def failing(p):
    i, kind = p
    if kind != "-":
        time.sleep(0.001 * (i % 3))
        raise RAISES[kind]()
    return i + 100


class Tagged:
    """Function of one dispatcher: results carry its tag; a gate lets the client hold a running computation."""

    def __init__(self, tag):
        self.tag, self.gate, self.begun = tag, mp.Event(), mp.Semaphore(0)
        self.gate.set()

    def __call__(self, x):
        if not self.gate.is_set():
            self.begun.release()
            self.gate.wait(60)
        if x < 0:
            raise ArithmeticError("negative")
        return (self.tag, x, x * x)


def check_C22(ctx):
    try:
        _c22(ctx)
    finally:
        cleanup()


def _c22(ctx):
    rnd = random.Random(ctx.seed)
    protocol(ctx, [(2, 3, 2, 2, 0, True), (3, 3, 1, 1, 0, False), (2, 3, 2, 1, 1, True)] if not ctx.thorough else
             [(2, 3, 3, 3, 0, True), (2, 4, 2, 4, 0, True), (3, 3, 2, 3, 0, True), (3, 4, 1, 2, 0, False), (2, 4, 2, 2, 2, True), (3, 3, 1, 1, 2, True)])
    edges = ctx.tlc("DispLife", {"Ms": {"A", "B"}}, view="View", action_constraint="Edge", invariants=["BusyOpen"], properties=["Isolated", "ClosedStays"],
                    min_rows=100).rows
    mod = load_intmproc()
    cpus = os.cpu_count() or 1
    ws = [w for w in (2, 3, 4) if w <= cpus]
    life(ctx, mod, rnd, edges, ws)
    failures(ctx, mod, rnd, ws)
    broken_off(ctx, mod, rnd, ws, "crash")
    transfers(ctx, mod, rnd, ws)
    numbers(ctx, rnd)
    psf_pools(ctx, rnd)


def life(ctx, mod, rnd, edges, ws):
    walk = tour(edges, rnd, limit=None if ctx.thorough else 1500)
    man, mine, fn, given, width = {"A": None, "B": None}, {"A": set(), "B": set()}, {}, {"A": [], "B": []}, {}
    pending = {}
    state = edges[0]["f"]
    counter = [0]

    def params(m, p):
        counter[0] += 7
        n = {"short": width[m], "long": width[m] + rnd.randint(1, 5), "bad": width[m] + rnd.randint(0, 3)}[p]
        ps = [counter[0] + i for i in range(n)]
        if p == "bad":
            for i in rnd.sample(range(n), rnd.randint(1, n)):
                ps[i] = -ps[i]
        return ps

    for step, (act, nxt) in enumerate(walk):
        case = {"step": act, "before": state, "previous": [x[0] for x in walk[max(0, step - 5):step]], "number": step}
        m = act[1]
        ctx.traces += 1
        try:
            if act[0] == "create":
                man[m] = None
                width[m] = rnd.choice(ws[:2])
                fn[m] = Tagged("%s%d" % (m, step))
                given[m] = params(m, act[2])
                before = pids()
                c = call(mod.DispenserManager, fn[m], given[m], n_workers=width[m])
                if not ctx.expect(c.error is None, "create-raises", case, repr(c.error)):
                    return
                man[m] = c.result
                mine[m] = pids() - before
                if not ctx.expect(len(mine[m]) == width[m], "number-of-workers", case, len(mine[m]), width[m]):
                    return
            elif act[0] == "compute":
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    c = call(man[m].compute)
                if act[2] == "refused":
                    ctx.expect(c.error is None and c.result is None and any(issubclass(x.category, UserWarning) for x in rec), "refused", case, (repr(c.error), c.result))
                elif act[2] == "error":
                    ctx.expect(isinstance(c.error, Exception), "failure-not-reported", case, (repr(c.error), c.result))
                else:
                    want = [(fn[m].tag, x, x * x) for x in given[m]]
                    if not ctx.expect(c.error is None and c.result == want, "results", case, (repr(c.error), c.result), want):
                        return
            elif act[0] == "begin":
                fn[m].gate.clear()
                pending[m] = Call(man[m].compute)
                for _ in range(min(width[m], len(given[m]))):
                    fn[m].begun.acquire(timeout=2)
            elif act[0] == "end":
                fn[m].gate.set()
                c = pending.pop(m).wait()
                want = [(fn[m].tag, x, x * x) for x in given[m]]
                if not ctx.expect(c.error is None and c.result == want, "results-interleaved", case, (repr(c.error), c.result), want):
                    return
                while fn[m].begun.acquire(block=False):
                    pass
            elif act[0] == "update":
                ps = params(m, act[2])
                c = call(man[m].update_params, ps)
                if state[0][m] == "open":
                    given[m] = ps
                    if not ctx.expect(c.error is None, "update-raises", case, repr(c.error)):
                        return
            elif act[0] == "badupdate":
                c = call(man[m].update_params, [] if act[2] == "empty" else [1] * (width[m] - 1))
                ctx.expect(isinstance(c.error, TypeError if act[2] == "empty" else ValueError), "bad-update", case, repr(c.error))
            elif act[0] == "close":
                c = call(man[m].close)
                if not ctx.expect(c.error is None, "close-raises", case, repr(c.error)):
                    return
            elif act[0] == "drop":
                c = None
                call(drop, man, m)
        except Hang:
            hanged(ctx, case)
            for f in fn.values():
                f.gate.set()
            return
        for x in "AB":
            if nxt[0][x] == "open":
                if not ctx.expect(mine[x] <= pids(), "workers-died", {**case, "of": x}, len(mine[x] & pids()), len(mine[x])):
                    return
            elif mine[x]:
                if not ctx.expect(gone(mine[x]), "workers-remain", {**case, "of": x}, len(mine[x] & pids())):
                    return
                mine[x] = set()
        state = nxt
    ctx.notes["life walk"] = len(walk)
    for x in "AB":
        if man[x] is not None:
            call(man[x].close)


def drop(man, m):
    man[m] = None
    import gc
    gc.collect()


def failures(ctx, mod, rnd, ws):
    """Failing subsets of parameters: enforced completion orders (from DispSched) with traces, then free runs with all kinds of exceptions."""
    rows = []
    for w in ws[:2]:
        got = [r for r in ctx.tlc("DispSched", {"WS": {w}, "NS": {w, w + 1, 4}, "MaxTogether": 2, "MaxFail": 2, "Ends": set()}, invariants=["Sound", "Emit"]).rows if not r["ok"]]
        rnd.shuffle(got)
        rows += got[:(45 if not ctx.thorough else 1000)]
    traces = []
    for i, row in enumerate(rows):
        case = {"workers": row["w"], "jobs": row["n"], "failing": row["fails"], "schedule": row["sched"]}
        g = Gates(ctx.scratch / ("flog_%d" % i))
        before = pids()
        ctx.traces += 1
        try:
            params = [(1, j, j in row["fails"]) for j in range(1, row["n"] + 1)]
            man = call(mod.DispenserManager, g.work, params, n_workers=row["w"]).result
            own = pids() - before
            g.log(e="begin", n=row["n"])
            c = Call(man.compute)
            follow(g, row, 1)
            c.wait()
            ctx.expect(isinstance(c.error, Exception), "failure-not-reported", case, (repr(c.error), c.result))
            g.log(e="fail" if c.error is not None else "return", order=False)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                d = call(man.compute)
                ctx.expect(d.error is None and d.result is None and len(rec) > 0, "compute-after-failure", case, (repr(d.error), d.result))
            call(man.close)
            for gate in g.gate[1:]:
                for _ in range(2):
                    gate.release()
            ctx.expect(gone(own), "workers-remain", case)
        except Hang:
            hanged(ctx, case)
            for gate in g.gate[1:]:
                gate.release()
            cleanup()
        # events after the failure belong to jobs that had been handed over; the trace ends with the failure
        ev = g.read()
        cut = next((k for k, e in enumerate(ev) if e["e"] in ("fail", "return")), len(ev) - 1)
        traces += split_rounds(ev[:cut + 1], row["w"])
        os.close(g.fd)
    validate(ctx, traces)
    for w in ws[:2]:
        for kind in RAISES:
            for where in ([0], [1], [5], [0, 1], [2, 4], list(range(6))):
                case = {"workers": w, "exception": kind, "at": where}
                params = [(i, kind if i in where else "-") for i in range(6)]
                before = pids()
                ctx.traces += 1
                try:
                    late = rnd.random() < 0.4
                    man = call(mod.DispenserManager, failing, params if not late else [(i, "-") for i in range(6)], n_workers=w).result
                    if late:
                        c = call(man.compute)
                        ctx.expect(c.result == [100 + i for i in range(6)], "results", case, c.result)
                        man.update_params(params)
                    own = pids() - before
                    c = call(man.compute)
                    ctx.expect(isinstance(c.error, Exception), "failure-not-reported", case, (repr(c.error), c.result))
                    call(man.close)
                    ctx.expect(gone(own), "workers-remain", case)
                except Hang:
                    hanged(ctx, case)


class Interrupted(BaseException):
    """What a signal handler (Ctrl-C, a timeout) raises in the thread of the client."""


def broken_off(ctx, mod, rnd, ws, how):
    """Schedules that end by the death of a worker or by an interruption of the client, at every point of the round.  The computation has to end with an error,
    whatever is computed afterwards must not be mixed with the jobs left over."""
    rows = []
    for w in ws[:2]:
        got = [r for r in ctx.tlc("DispSched", {"WS": {w}, "NS": {w, w + 1, 4}, "MaxTogether": 2, "MaxFail": 0, "Ends": {how}}, invariants=["Sound", "Emit"]).rows
               if r["how"][0] == how]
        rnd.shuffle(got)
        rows += got[:(25 if not ctx.thorough else 400)]
    traces = []
    for i, row in enumerate(rows):
        end = row["how"]
        case = {"workers": row["w"], "jobs": row["n"], "schedule": row["sched"], "end": end}
        g = Gates(ctx.scratch / ("%slog_%d" % (how, i)))
        before = pids()
        ctx.traces += 1
        try:
            way = rnd.choice(["exit", "kill"])
            params = [(1, j, way if how == "crash" and j == end[1] else False) for j in range(1, row["n"] + 1)]
            man = call(mod.DispenserManager, g.work, params, n_workers=row["w"]).result
            own = pids() - before
            g.log(e="begin", n=row["n"])
            c = Call(man.compute)
            follow(g, row, 1)
            g.wait_for(lambda ev: set(row["left"]) <= {e["j"] for e in ev if e["e"] == "start"}, 1.5)      # the rest waits at the gates
            if how == "crash":
                g.gate[end[1]].release()
            else:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(c.t.ident), ctypes.py_object(Interrupted))
                g.log(e="interrupt")
            c.wait()
            ctx.expect(c.error is not None, "not-reported", case, c.result)
            g.log(e="fail" if c.error is not None else "return", order=False)
            for j in range(1, len(g.gate)):
                for _ in range(3):
                    g.gate[j].release()
            # later computations: refused, failing or right
            for r in (2, 3):
                ps = [(r, j, False) for j in range(1, row["n"] + 1)]
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    u, d = call(man.update_params, ps), call(man.compute)
                right = d.error is None and d.result == [value(r, j) for j in range(1, row["n"] + 1)]
                refused = d.error is None and d.result is None and len(rec) > 0
                ctx.expect(u.error is not None or right or refused or isinstance(d.error, Exception), "after-" + how, case, (repr(d.error), d.result))
            e = call(man.close)
            ctx.expect(e.error is None, "close-raises", case, repr(e.error))
            ctx.expect(gone(own), "workers-remain", case)
        except Hang:
            hanged(ctx, case)
        ev = g.read()
        cut = next((k for k, e in enumerate(ev) if e["e"] in ("fail", "return")), len(ev) - 1)
        traces += split_rounds(ev[:cut + 1], row["w"])
        os.close(g.fd)
    ctx.notes[how + " schedules"] = len(rows)
    validate(ctx, traces)


class Locked:
    """Cannot be sent between processes."""

    def __init__(self, *a):
        self.lock = threading.Lock()


def unsendable(p):
    i, kind = p
    return {"lambda": lambda: i, "lock": Locked(), "generator": (x for x in range(3))}.get(kind, i + 100) if isinstance(kind, str) else i


def transfers(ctx, mod, rnd, ws):
    """Parameters and results that cannot be transferred between processes: an error instead of an endless wait."""
    for w in ws[:2]:
        for kind in ("lambda", "lock", "generator", "parameter"):
            for where in ([0], [4], [1, 3], list(range(6))):
                for late in ((False, True) if ctx.thorough else (rnd.random() < 0.4,)):
                    case = {"workers": w, "unsendable": kind, "at": where, "late": late}
                    params = [(i, (Locked() if kind == "parameter" else kind) if i in where else "-") for i in range(6)]
                    before = pids()
                    ctx.traces += 1
                    try:
                        c = call(mod.DispenserManager, unsendable, params if not late else [(i, "-") for i in range(6)], n_workers=w)
                        man = c.result
                        if c.error is None and late:
                            c = call(man.compute)
                            ctx.expect(c.result == [100 + i for i in range(6)], "results", case, c.result)
                            c = call(man.update_params, params)
                        if c.error is None:      # the parameters may also be rejected earlier
                            c = call(man.compute)
                        ctx.expect(isinstance(c.error, Exception), "transfer-not-reported", case, (repr(c.error), c.result))
                        if man is not None:
                            call(man.close)
                        ctx.expect(gone(pids() - before), "workers-remain", case)
                    except Hang:
                        hanged(ctx, case)


def numbers(ctx, rnd):
    """Number of workers: None, below 2, 2.., the number of processors, above it - on machines with several numbers of processors."""
    inv, asked = ["SomeWorker", "NotAbove", "Honoured", "Emit"], {-2, -1, 0, 1, 2, 3, 4, 5, 7, 50}
    rows = ctx.tlc("WorkerNumber", {"CpuNumbers": {0, 1, 2, 3, 4, 6}, "AskedNumbers": asked, "Least": 1, "MaxJobs": 8}, spec="Spec", invariants=inv, properties=["Terminates"], min_rows=60).rows
    # without a worker nothing is ever computed
    ctx.tlc_fails("WorkerNumber", {"CpuNumbers": {1}, "AskedNumbers": {-2}, "Least": 0, "MaxJobs": 3}, spec="Spec", properties=["Terminates"])
    table = {}
    for r in rows:
        table.setdefault(r["cpu"], {})[r["asked"]] = r
    for given in sorted(table):
        mod = load_intmproc(given)
        for asked, r in sorted(table[given].items()):
            n, cpu, used, warned = None if asked == -2 else asked, r["known"], r["used"], r["warned"]
            if used > 4:
                continue
            case = {"processors": cpu, "n_workers": n}
            ctx.traces += 1
            before = pids()
            try:
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    c = call(mod.DispenserManager, jitter, list(range(used + 1)), n_workers=n) if n is not None or rnd.random() < 0.5 else \
                        call(mod.DispenserManager, jitter, list(range(used + 1)))
                user = [x for x in rec if issubclass(x.category, UserWarning)]
                if not ctx.expect(c.error is None, "create-raises", case, repr(c.error)):
                    continue
                man = c.result
                ctx.expect(bool(user) == warned, "worker-number-warning", case, [str(x.message) for x in rec], warned)
                ctx.expect(len(pids() - before) == used, "number-of-workers", case, len(pids() - before), used)
                ctx.expect(man.get_max_workers() == cpu, "max-workers", case, man.get_max_workers(), cpu)
                ctx.expect(call(man.compute).result == [x * x for x in range(used + 1)], "results", case)
                call(man.close)
                ctx.expect(gone(pids() - before), "workers-remain", case)
                # rejected parameters: no workers are left behind
                if used >= 2:
                    c = call(mod.DispenserManager, jitter, list(range(used - 1)), n_workers=used if used <= cpu else None)
                    ctx.expect(isinstance(c.error, ValueError), "too-few-parameters", case, repr(c.error))
                c = call(mod.DispenserManager, jitter, [], n_workers=2)
                ctx.expect(isinstance(c.error, TypeError), "no-parameters", case, repr(c.error))
                c = call(mod.DispenserManager, "jitter", [1, 2, 3, 4], n_workers=2)
                ctx.expect(isinstance(c.error, TypeError), "not-callable", case, repr(c.error))
                ctx.expect(pids() == before, "workers-of-rejected", case)
            except Hang:
                hanged(ctx, case)


def psf_pools(ctx, rnd):
    """The dispatchers owned by PSF objects: pools of different objects are independent, results do not depend on the pool."""
    from zernpy import ZernPol, ZernPSF

    def mk(m, n, c):
        p = ZernPSF(ZernPol(m=m, n=n))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p.set_physical_props(NA=0.2, wavelength=0.5, expansion_coeff=c, pixel_physical_size=0.5)
            p.set_calculation_props(3, 20, 36)
        return p
    objs = {"A": mk(-1, 3, 0.06), "B": mk(2, 2, -0.1)}
    base = {k: p.get_kernel_parallel(normalize_values=False).copy() for k, p in objs.items()}
    if (os.cpu_count() or 1) < 4:
        return
    plan = [("init", "A"), ("calc", "A"), ("init", "B"), ("calc", "B"), ("calc", "A"), ("init", "A"), ("free", "A"), ("calc", "B"), ("calc", "A"), ("free", "A"),
            ("init", "A"), ("calc", "A"), ("free", "B"), ("calc", "A"), ("calc", "B"), ("free", "A"), ("calc", "A")]
    before = pids()
    pools = {"A": set(), "B": set()}
    for i, (what, k) in enumerate(plan):
        case = {"plan": plan[:i + 1]}
        ctx.traces += 1
        try:
            had = pids()
            c = call({"init": objs[k].initialize_parallel_workers, "free": objs[k].deinitialize_workers,
                      "calc": lambda: objs[k].get_kernel_parallel(normalize_values=False)}[what])
            if not ctx.expect(c.error is None, "psf-raises", case, repr(c.error)):
                return
            if what == "init":
                pools[k] |= pids() - had
            elif what == "free":
                ctx.expect(gone(pools[k]), "psf-workers-remain", case)
                pools[k] = set()
            else:
                ctx.expect(np.allclose(c.result, base[k], rtol=1e-12, atol=1e-15), "psf-kernel", case, c.result, base[k])
            ctx.expect(pids() - before == pools["A"] | pools["B"], "psf-workers", case)
        except Hang:
            hanged(ctx, case)
            return
