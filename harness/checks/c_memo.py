"""C07: replay of the histories of Memo.tla on the real code, every history in a forked process with pristine coefficient memory."""
import json
import os
import random
import warnings

import numpy as np

from reference import Ref, angular, norm
from checks.c_radial import tol

GROUPS = [[(0, 14), (1, 15), (2, 16)], [(-1, 13), (1, 13), (0, 12)], [(3, 21), (-3, 23), (4, 22)], [(0, 0), (1, 1), (-2, 2)],
          [(38, 40), (39, 41), (40, 42)], [(0, 16), (0, 18), (2, 18)], [(5, 29), (6, 28), (-5, 31)], [(0, 8), (8, 8), (-10, 10)]]


def inputs0():
    return [np.array([0.0, 0.25, 0.9, 1.0]), np.array([[0.5, 0.125], [0.75, 1.0]])]


def scribbled_input():
    return [np.array([1.0, 0.5, 0.0625, 0.375]), np.array([[0.25, 1.0], [0.0, 0.625]])]


THETA = [np.array([0.3, 1.0, 2.0, 5.5]), np.array([[0.1, 4.0], [2.5, 3.0]])]


def scribbled_theta():
    return [np.array([5.0, 0.0, 0.7, 2.25]), np.array([[3.5, 1.5], [0.2, 6.0]])]


def angular_dt(m, t):
    return -m * np.sin(m * t) if m >= 0 else -m * np.cos(m * t)


def want_value(ref, cache, mn, meth, i, ver):
    """Value of a method on the input i in its original (0) or overwritten (1) version."""
    key = (mn, meth, i, ver)
    if key not in cache:
        m, n = mn
        arr, th = (scribbled_input()[i], scribbled_theta()[i]) if ver else (inputs0()[i], THETA[i])
        out, tl = np.empty(arr.shape), np.empty(arr.shape)
        for idx in np.ndindex(arr.shape):
            if meth in ("angular", "angular_dt"):
                out[idx] = float(angular(m, th[idx])) if meth == "angular" else angular_dt(m, th[idx])
                tl[idx] = 1e-13 * (4 + abs(m)) * (1 + abs(m) * 7)
                continue
            e, s = (ref.radial_dr_exact if meth == "radial_dr" else ref.radial_exact)(m, n, float(arr[idx]))
            f = 1.0
            if meth == "value":
                f = norm(m, n) * float(angular(m, th[idx]))
            out[idx] = float(e) * f
            tl[idx] = tol(n, s) * max(1.0, abs(f)) + 1e-13 * (4 + abs(m)) * abs(float(e)) * 12
        cache[key] = (out, tl)
    return cache[key]


def enlarged(a, reps):
    return np.concatenate([a] * reps, axis=0) if reps > 1 else a


def replay(hist, group, ref, cache, reps=1):
    """Runs one history on the real code; returns None or a description of the first disagreement with the model.  reps > 1: the same with big arrays."""
    from zernpy import ZernPol
    pols = [ZernPol(m=m, n=n) for m, n in group]
    inp = [[enlarged(a, reps).copy(), enlarged(t, reps).copy()] for a, t in zip(inputs0(), THETA)]
    over = [[enlarged(a, reps), enlarged(t, reps)] for a, t in zip(scribbled_input(), scribbled_theta())]
    model_in = [[a.copy(), t.copy()] for a, t in inp]
    version = [0, 0]
    res, model_res = [], []
    garbage = -77.25
    for step, ev in enumerate(hist):
        if ev["a"] == "eval":
            p, i, meth = pols[ev["p"] - 1], ev["i"] - 1, ev["meth"]
            r, th = inp[i]
            if meth == "value":
                got = p.polynomial_value(r, th)
            elif meth in ("angular", "angular_dt"):
                got = (p.triangular if meth == "angular" else p.triangular_dtheta)(th)
            else:
                got = getattr(p, meth)(r)
            res.append(got)
            w, tl = want_value(ref, cache, group[ev["p"] - 1], meth, i, version[i])
            model_res.append(("v", enlarged(w, reps), enlarged(tl, reps)))
        elif ev["a"] == "scribble":
            h = ev["p"] - 1
            res[h][...] = garbage
            model_res[h] = ("g",)
        else:
            i = ev["i"] - 1
            for k in (0, 1):
                inp[i][k][...] = over[i][k]
                model_in[i][k] = over[i][k]
            version[i] = 1
        # projection: contents of every array that the caller holds
        for k in range(len(inp)):
            for j in (0, 1):
                if not np.array_equal(inp[k][j], model_in[k][j]):
                    return "step %d: %s of the input %d changed" % (step, ("radii", "angles")[j], k + 1)
        for k, a in enumerate(res):
            if model_res[k][0] == "g":
                if not np.all(a == garbage):
                    return "step %d: result %d changed after it was overwritten by the caller" % (step, k + 1)
            else:
                if np.shape(a) != model_res[k][1].shape or not np.all(np.abs(a - model_res[k][1]) <= model_res[k][2]):
                    return "step %d: result %d is %s, want %s" % (step, k + 1, np.asarray(a).tolist()[:8], model_res[k][1].tolist()[:8])
    return None


def forked(fn):
    """Run fn() in a forked child; returns its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = fn()
        except BaseException as e:  # noqa
            out = "exception %s: %s" % (type(e).__name__, e)
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    return json.loads(txt) if txt else "child died"


def check_C07(ctx):
    import zernpy  # noqa: imported before forking
    warnings.simplefilter("ignore")
    ref = Ref(ctx, 44, 8)
    rows = ctx.tlc("Memo", {"Polys": {1, 2, 3}, "Methods": {"radial", "radial_dr"}, "Inputs": 1, "Depth": 3},
                   invariants=["MemoSound", "HistoryFree", "Emit"], properties=["Owned"], init="Init", next_="Next", min_rows=100).rows
    rows2 = ctx.tlc("Memo", {"Polys": {1, 2}, "Methods": {"value", "radial", "radial_dr", "angular", "angular_dt"}, "Inputs": 2, "Depth": 3},
                    invariants=["MemoSound", "HistoryFree", "Emit"], properties=["Owned"], min_rows=100).rows
    rows4 = ctx.tlc("Memo", {"Polys": {1, 2}, "Methods": {"value", "angular", "angular_dt"}, "Inputs": 1, "Depth": 3},
                    invariants=["MemoSound", "HistoryFree", "Emit"], properties=["Owned"], min_rows=100).rows
    rows3 = []
    if ctx.thorough:
        rows3 = ctx.tlc("Memo", {"Polys": {1, 2, 3}, "Methods": {"value", "radial", "radial_dr"}, "Inputs": 1, "Depth": 4},
                        invariants=["MemoSound", "HistoryFree", "Emit"], properties=["Owned"], min_rows=100).rows
    rnd = random.Random(ctx.seed)
    jobs = []
    for g in range(len(GROUPS)):
        part = rows + rows4 + rnd.sample(rows2, min(len(rows2), 250 if not ctx.thorough else len(rows2)))
        part += rows3
        jobs += [(g, r["h"], rnd.choice([1, 1, 1, 40, 300])) for r in part]
    rnd.shuffle(jobs)
    nproc = 7
    # precompute the reference values once (shared with the children by fork)
    cache = {}
    for g in GROUPS:
        for mn in g:
            for meth in ("value", "radial", "radial_dr", "angular", "angular_dt"):
                for i in (0, 1):
                    for ver in (0, 1):
                        want_value(ref, cache, mn, meth, i, ver)

    def worker(chunk):
        bad = []
        for g, h, reps in chunk:
            out = forked(lambda: replay(h, GROUPS[g], ref, cache, reps))
            if out is not None:
                bad.append([g, h, reps, out])
                if len(bad) >= 20:
                    break
        return bad

    pipes = []
    for k in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(worker(jobs[k::nproc])))
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(pid, 0)
        for g, h, reps, out in json.loads(txt):
            ctx.violate("history", {"polynomials": GROUPS[g], "history": h, "copies of the arrays": reps}, out)
    ctx.traces += len(jobs)
    ctx.evaluations += len(jobs) * 3
    ctx.sample({"polynomials": GROUPS[0], "history": rows[len(rows) // 2]["h"]})
    # a long mixed history in one process: every polynomial, in an arbitrary order, twice, in the four ways
    def long_history():
        from zernpy import ZernPol
        r2 = random.Random(ctx.seed + 5)
        orders = [(m, n) for n in range(0, 32) for m in range(-n, n + 1, 2)]
        seq = orders + orders
        r2.shuffle(seq)
        first, bad = {}, []
        a = inputs0()[0]
        for mn in seq:
            p = ZernPol(m=mn[0], n=mn[1])
            for meth in r2.sample(["radial", "radial_dr", "value"], 3):
                v = p.polynomial_value(a, THETA[0]) if meth == "value" else getattr(p, meth)(a)
                w, tl = want_value(ref, cache, mn, meth, 0, 0)
                if not np.all(np.abs(v - w) <= tl):
                    bad.append([mn, meth])
        return bad

    for mn, meth in forked(long_history):
        ctx.violate("long-history", {"polynomial": mn, "method": meth})
    ctx.traces += 1
    threads(ctx, ref, cache)


def evaluate(pol, meth, i):
    if meth == "value":
        return pol.polynomial_value(inputs0()[i], THETA[i])
    if meth in ("angular", "angular_dt"):
        return (pol.triangular if meth == "angular" else pol.triangular_dtheta)(THETA[i])
    return getattr(pol, meth)(inputs0()[i])


def threads(ctx, ref, cache):
    """Schedules of MemoThreads.tla enforced on two threads evaluating in one process with pristine memory."""
    import zernpy
    from interleave import interleave, count_lines, lines_of
    prefix = os.path.dirname(os.path.abspath(zernpy.__file__))
    consts = {"Polys": {1, 2}, "Terms": 3, "Switches": 3, "Early": False, "Scratch": False}
    rows = ctx.tlc("MemoThreads", consts, spec="Spec", invariants=["MemoSound", "Right", "Emit"], min_rows=100).rows
    for broken in ("Early", "Scratch"):
        ctx.tlc_fails("MemoThreads", {**consts, broken: True}, spec="Spec", invariants=["Right"])
    rnd = random.Random(ctx.seed + 70)
    pairs = GROUPS + [[(2, 12), (-4, 12), (0, 10)], [(-3, 5), (1, 7), (0, 6)]]
    jobs = []
    for row in rnd.sample(rows, min(len(rows), 1500 if ctx.thorough else 220)):
        group = rnd.choice(pairs)
        same = row["p"][0] == row["p"][1]
        a = rnd.choice(group)
        b = a if same else rnd.choice([x for x in group if x != a])
        mets = [rnd.choice(["value", "radial", "radial_dr", "angular", "angular_dt"]) for _ in (0, 1)]
        if rnd.random() < 0.5:
            mets[1] = mets[0]
        jobs.append((a, b, mets, [rnd.randrange(2), rnd.randrange(2)], row["s"]))

    def one(job):
        a, b, mets, ins, sched = job
        from zernpy import ZernPol
        pols = [ZernPol(m=a[0], n=a[1]), ZernPol(m=b[0], n=b[1])]
        warnings.simplefilter("ignore")
        jobs2 = [lambda k=k: evaluate(pols[k], mets[k], ins[k]) for k in (0, 1)]
        total = [forked(lambda k=k: count_lines(jobs2[k], prefix)) for k in (0, 1)]
        segs = lines_of(sched, total, rnd)
        out, gate = interleave(jobs2, segs, prefix)
        for k, got in enumerate(out):
            if isinstance(got, BaseException):
                return "%s: %s" % (type(got).__name__, got)
            w, tl = want_value(ref, cache, (a, b)[k], mets[k], ins[k], 0)
            if np.shape(got) != w.shape or not np.all(np.abs(got - w) <= tl):
                return "thread %d: %s, want %s" % (k + 1, np.asarray(got).tolist(), w.tolist())
        return None if gate.followed else "free"

    for g in pairs[-2:]:
        for mn in g:
            for meth in ("value", "radial", "radial_dr", "angular", "angular_dt"):
                for i in (0, 1):
                    want_value(ref, cache, mn, meth, i, 0)
    free = 0
    for job in jobs:
        out = forked(lambda: one(job))
        ctx.traces += 1
        free += out == "free"
        ctx.expect(out in (None, "free"), "threads", {"polynomials": job[:2], "methods": job[2], "inputs": job[3], "schedule": job[4]}, out)
    ctx.notes["thread schedules"] = len(jobs)
    ctx.notes["thread schedules not followed (locks)"] = free
