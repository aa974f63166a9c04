"""Shared machinery of all checks: TLC runner, verdicts, evidence, known findings.

A check is a function check(ctx) of the module checks/<name>.py. It calls ctx.tlc(...) to explore a specification (a fresh TLC run each time),
replays what the specification emitted on the real code and records what it saw by ctx.expect(...)/ctx.violate(...).
"""
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO_SRC = Path("/repo/src")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAX_REPORTED = 25  # violations written out in full to the replay file


class SpecError(Exception):
    """The specification itself fails (an invariant is violated, a parse error ...): failure of the machinery, not of the code."""


class Stop(Exception):
    """Raised to stop a check early after many violations."""


def tla(value):
    """Python value -> TLA+ expression text for a .cfg constant."""
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return '"' + value + '"'
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted((tla(v) for v in value))) + "}"
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    raise TypeError(type(value))


class TLCResult:
    def __init__(self):
        self.rows = []
        self.states = 0
        self.transitions = 0
        self.actions = {}
        self.wall = 0.0


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.violations = []
        self.first_violation = None
        self.known_hits = []
        self.states = 0
        self.transitions = 0
        self.traces = 0          # behaviours / rows of the specification replayed on the real code
        self.evaluations = 0     # single comparisons
        self.samples = []
        self.spec_runs = []
        self.notes = {}
        self.assumptions = []
        self.scratch = Path(tempfile.mkdtemp(prefix="verif_%s_" % prop))
        self.known = load_known(prop)

    # ---- TLC ------------------------------------------------------------------------------------------------------------------------
    def tlc(self, module, constants=None, invariants=(), properties=(), init="Init", next_="Next", spec=None, view=None, emit=True,
            constraint=None, action_constraint=None, workers=1, timeout=600, simulate=None, symmetry=None, postcondition=None, deadlock=False,
            heap="2g", min_rows=0, files=None, must_fail=False):
        """Run TLC on spec/<module>.tla with a generated configuration; return emitted rows and the state statistics."""
        workdir = self.scratch / ("tlc_%s_%d" % (module, len(self.spec_runs)))
        workdir.mkdir()
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, workdir)
        for name, text in (files or {}).items():
            (workdir / name).write_text(text)
        lines = []
        if spec:
            lines.append("SPECIFICATION " + spec)
        else:
            lines += ["INIT " + init, "NEXT " + next_]
        for k, v in (constants or {}).items():
            # tuples are not allowed in a cfg file: they are given through an overriding definition in a generated wrapper module
            lines.append("CONSTANT %s = %s" % (k, tla(v)) if not _needs_def(v) else "CONSTANT %s <- Def%s" % (k, k))
        defs = ["Def%s == %s" % (k, tla(v)) for k, v in (constants or {}).items() if _needs_def(v)]
        for i in invariants:
            lines.append("INVARIANT " + i)
        for p in properties:
            lines.append("PROPERTY " + p)
        if view:
            lines.append("VIEW " + view)
        if constraint:
            lines.append("CONSTRAINT " + constraint)
        if action_constraint:
            lines.append("ACTION_CONSTRAINT " + action_constraint)
        if symmetry:
            lines.append("SYMMETRY " + symmetry)
        if postcondition:
            lines.append("POSTCONDITION " + postcondition)
        if not deadlock:
            lines.append("CHECK_DEADLOCK FALSE")
        root = module
        if defs:
            root = "MC" + module
            (workdir / (root + ".tla")).write_text("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, "\n".join(defs)))
        (workdir / (root + ".cfg")).write_text("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-noGenerateSpecTE",
               "-metadir", str(workdir / "meta"), "-config", root + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(root + ".tla")
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired as e:
            raise SpecError("TLC timed out on %s after %s s" % (module, timeout)) from e
        res = TLCResult()
        res.wall = time.time() - t
        tail = []
        for line in p.stdout.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                if emit:
                    res.rows.append(json.loads(json.loads(line)))
                continue
            tail.append(line)
            mm = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if mm:
                res.transitions = int(mm.group(1).replace(",", ""))
                res.states = int(mm.group(2).replace(",", ""))
            mm = re.match(r"The number of states generated: ([\d,]+)", line)
            if mm:
                res.transitions = res.states = int(mm.group(1).replace(",", ""))
        if must_fail:
            if p.returncode not in (10, 11, 12, 13):
                raise SpecError("TLC exit %d on %s where a violation was expected:\n%s" % (p.returncode, module, "\n".join(tail[-30:])))
            shutil.rmtree(workdir, ignore_errors=True)
            return res
        if p.returncode != 0:
            raise SpecError("TLC exit %d on %s:\n%s" % (p.returncode, module, "\n".join([x for x in tail if not x.startswith(("Parsing file", "Semantic proc", "Linting"))][-60:])))
        if emit and len(res.rows) < max(min_rows, 1):
            raise SpecError("TLC emitted %d rows on %s:\n%s" % (len(res.rows), module, "\n".join(tail[-30:])))
        self.states += res.states
        self.transitions += res.transitions
        self.spec_runs.append({"module": module, "constants": {k: (v if isinstance(v, (int, str, bool)) else tla(v)) for k, v in (constants or {}).items()},
                               "invariants": list(invariants), "properties": list(properties), "states": res.states, "transitions": res.transitions,
                               "rows": len(res.rows), "wall_s": round(res.wall, 2)})
        shutil.rmtree(workdir, ignore_errors=True)
        return res

    def tlc_fails(self, module, constants, **kw):
        """A deliberately broken variant of a specification: TLC has to report a violation, otherwise the properties are vacuous."""
        self.tlc(module, constants, emit=False, must_fail=True, **kw)
        self.notes.setdefault("rejected variants", []).append({"module": module, "constants": {k: str(v) for k, v in constants.items()}})

    # ---- verdicts -------------------------------------------------------------------------------------------------------------------
    def violate(self, clause, case, got=None, want=None):
        """Record a violation of the named clause on a case (JSON-like), unless it is listed as a known finding."""
        ident = "%s|%s" % (clause, json.dumps(_plain(case), sort_keys=True))
        for k in self.known:
            if k["match"] == ident:
                if ident not in self.known_hits:
                    self.known_hits.append(ident)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True, file=sys.__stdout__)
                return
        self.violations.append({"clause": clause, "case": _plain(case), "got": _plain(got), "want": _plain(want)})
        self.first_violation = self.first_violation or time.time()
        # the verdict is settled: do not spend the time of the run on a code that, e.g., hangs at every step
        if len(self.violations) >= 200 or (not self.thorough and time.time() - self.first_violation > 60):
            raise Stop()

    def expect(self, cond, clause, case, got=None, want=None):
        self.evaluations += 1
        if not cond:
            self.violate(clause, case, got, want)
        return bool(cond)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(_plain(obj))

    def finish(self):
        replay = None
        outdir = VERIF / "out"
        outdir.mkdir(exist_ok=True)
        if self.violations:
            replay = outdir / ("replay_%s_%s.json" % (self.prop, self.tier))
            replay.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": self.violations[:MAX_REPORTED],
                                          "total": len(self.violations)}, indent=1, default=str))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "evaluations": self.evaluations, "samples": self.samples or ["(none)"], "spec_runs": self.spec_runs, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        evd = VERIF / "evidence"
        evd.mkdir(exist_ok=True)
        (evd / (self.prop + ".json")).write_text(json.dumps(ev, indent=1, default=str))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            v = self.violations[0]
            print("first violation: clause=%s case=%s got=%s want=%s (%d in total)" % (
                v["clause"], _short(v["case"]), _short(v["got"]), _short(v["want"]), len(self.violations)))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay), flush=True)
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d evaluations=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, self.evaluations, time.time() - self.t0), flush=True)
        return 0


def _short(x, n=400):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def _needs_def(v):
    if isinstance(v, (list, tuple)):
        return True
    if isinstance(v, (set, frozenset)):
        return any(_needs_def(x) for x in v)
    return isinstance(v, int) and not isinstance(v, bool) and v < 0


def _plain(x):
    """Convert to JSON-like data (numpy values and arrays included)."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_plain(v) for v in x), key=str)
    if hasattr(x, "tolist"):
        v = x.tolist()
        if isinstance(v, list) and len(str(v)) > 4000:
            return str(v)[:4000]
        return v
    return str(x)


def tour(edges, rnd, limit=None):
    """A walk from the first state over every transition (f, a, t) of the emitted state graph: list of (action, next state key, next state).

    A graph with one initial state; the walk takes an untaken transition whenever there is one, otherwise the shortest way to a state that has one."""
    out, states = {}, {}
    for e in edges:
        f, t = json.dumps(e["f"], sort_keys=True), json.dumps(e["t"], sort_keys=True)
        states[f], states[t] = e["f"], e["t"]
        out.setdefault(f, []).append((e["a"], t))
    first = json.dumps(edges[0]["f"], sort_keys=True)
    todo = {f: list(v) for f, v in out.items()}
    for v in todo.values():
        rnd.shuffle(v)
    cur, walk = first, []
    left = sum(len(v) for v in todo.values())
    while left and (limit is None or len(walk) < limit):
        if todo.get(cur):
            v = todo[cur]
            if limit is None or rnd.random() < 0.35:
                # self-loops first: they do not lead away
                k = next((i for i in range(len(v) - 1, -1, -1) if v[i][1] == cur), len(v) - 1)
            else:
                # a walk that will be cut off has to get around
                k = next((i for i in range(len(v) - 1, -1, -1) if v[i][1] != cur), len(v) - 1)
            a, t = v.pop(k)
            left -= 1
            walk.append((a, states[t]))
            cur = t
            continue
        prev, queue, goal = {cur: None}, [cur], None
        while queue and goal is None:
            nxt = []
            for s in queue:
                for a, t in out.get(s, ()):
                    if t not in prev:
                        prev[t] = (s, a)
                        if todo.get(t):
                            goal = t
                            break
                        nxt.append(t)
                if goal is not None:
                    break
            queue = nxt
        if goal is None:
            break
        path = []
        while goal != cur:
            s, a = prev[goal]
            path.append((a, goal))
            goal = s
        for a, t in reversed(path):
            walk.append((a, states[t]))
            cur = t
    return walk


def load_known(prop):
    f = VERIF / "known_findings.jsonl"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d.get("property") == prop:
                out.append(d)
    return out


def leave(ctx):
    """End the process with the verdict while the interrupted frames are still held: releasing them would run finalizers of the code under test, which may
    wait forever for workers that the check has killed."""
    signal.alarm(0)
    code = ctx.finish()
    sys.stdout.flush()
    os._exit(code)


def run(prop, fn, tier, seed, limit=850):
    """Run a check function and turn everything that can happen to a verdict."""
    ctx = Ctx(prop, tier, seed)

    def on_alarm(signum, frame):
        raise TimeoutError("the check did not finish in %d s" % limit)

    if tier == "quick":
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(limit)
    try:
        with open(os.devnull, "w") as devnull, contextlib.redirect_stdout(devnull):  # the code under test prints in many places
            fn(ctx)
    except Stop:
        leave(ctx)
    except SpecError as e:
        print("MACHINERY: " + str(e), flush=True)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    except Exception as e:  # the unchanged code never gets here: an unexpected exception comes from changed behaviour of the code under test
        tb = traceback.format_exc()
        print(tb, flush=True)
        ctx.violations.append({"clause": "unexpected exception: %s: %s" % (type(e).__name__, e), "case": tb[-3000:], "got": None, "want": None})
        leave(ctx)
    signal.alarm(0)
    return ctx.finish()
