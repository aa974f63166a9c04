"""Run a function of the checks in a Python process without the optional dependency numba (its import is refused).

Run(ctx, module, function, args) calls checks.<module>.<function>(child, args) there; `child` collects verdicts as the context of a check does and they are
merged into ctx by finish(), which returns what the function returned (it has to be representable in JSON)."""
import json
import os
import subprocess
import sys
import traceback

BLOCKED = ("numba", "llvmlite")


class Absent:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in BLOCKED:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


class Enough(Exception):
    pass


class Child:
    def __init__(self, seed, thorough):
        self.seed, self.thorough = seed, thorough
        self.traces, self.evaluations, self.violations, self.notes = 0, 0, [], {}

    def violate(self, clause, case, got=None, want=None):
        from core import _plain
        self.violations.append([clause, _plain(case), _plain(got), _plain(want)])
        if len(self.violations) > 20:
            raise Enough

    def expect(self, cond, clause, case, got=None, want=None):
        self.evaluations += 1
        if not cond:
            self.violate(clause, case, got, want)
        return bool(cond)


class Run:
    """The function is started at once, beside the caller; finish() merges its verdicts into ctx."""

    def __init__(self, ctx, module, function, args, timeout=700):
        from core import _plain
        self.ctx, self.function, self.timeout = ctx, function, timeout
        given, self.result, self.said = (ctx.scratch / ("%s_%s.json" % (function, x)) for x in ("in", "out", "said"))
        given.write_text(json.dumps(_plain({"seed": ctx.seed, "thorough": ctx.thorough, "args": args})))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), module, function, str(given), str(self.result)], stdout=open(self.said, "w"), stderr=subprocess.STDOUT)

    def finish(self):
        ctx = self.ctx
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            ctx.violate("without-numba-finishes", {"function": self.function}, "still running after %d s" % self.timeout)
            return None
        if not self.result.exists():
            raise RuntimeError("the process without numba gave no answer: " + self.said.read_text()[-800:])
        r = json.loads(self.result.read_text())
        ctx.traces += r["traces"]
        ctx.evaluations += r["evaluations"]
        ctx.notes["without numba"] = {"traces": r["traces"], "evaluations": r["evaluations"], **r["notes"]}
        for clause, case, got, want in r["violations"]:
            ctx.violate(clause, {"without numba": case}, got, want)
        if r["error"]:
            ctx.violate("without-numba-raises", {"function": self.function}, r["error"])
        return r["result"]


def main():
    import warnings
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, "/repo/src"]
    sys.meta_path.insert(0, Absent())
    warnings.simplefilter("ignore")
    module, function, given, result = sys.argv[1:]
    d = json.loads(open(given).read())
    child, value, error = Child(d["seed"], d["thorough"]), None, None
    try:
        import importlib
        value = getattr(importlib.import_module("checks." + module), function)(child, d["args"])
    except Enough:
        pass
    except Exception:
        error = traceback.format_exc()[-1500:]
    out = {"traces": child.traces, "evaluations": child.evaluations, "violations": child.violations, "notes": child.notes, "result": value, "error": error}
    open(result + ".part", "w").write(json.dumps(out))
    os.replace(result + ".part", result)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
