"""C14: transition tours over PSFConfig.tla and the table of PSFCtor.tla replayed on the real object."""
import json
import math
import random
import warnings

import numpy as np

from core import tour
from psfref import PsfRef

POLS = {1: [(-1, 3)], 2: [(0, 2), (2, 4)], 3: [(1, 1), (-3, 3), (0, 4)]}


def observe(psf):
    """the whole public configuration"""
    d = {a: getattr(psf, a) for a in ("NA", "wavelength", "expansion_coeff", "alpha", "pixel_size", "k", "pixel_size_nyquist", "kernel_size",
                                      "n_int_r_points", "n_int_phi_points", "airy")}
    for a in ("coefficients", "amplitudes"):
        v = getattr(psf, a)
        d[a] = None if v is None else [float(x) for x in v]
    d["pols"] = [p.get_mn_orders() for p in psf.polynomials] if psf.zernpol is None else [psf.zernpol.get_mn_orders()]
    d["kernel"] = np.asarray(psf.kernel).tolist()
    return d


def coef_arg(c, rnd):
    kind, vals = c[0], [v / 1000.0 for v in c[1:]]
    if kind == "scalar":
        return rnd.choice([vals[0], np.float64(vals[0])])
    if kind == "int":
        return int(vals[0])
    if kind == "seq2i":
        return [int(v) for v in vals]
    if kind == "seq1" or not vals:
        return rnd.choice([list(vals), tuple(vals), np.array(vals)])
    mixed = [int(v) if v == int(v) else v for v in vals]      # whole numbers as integers beside the others
    return rnd.choice([list(vals), tuple(vals), np.array(vals), mixed, tuple(mixed)])


def close(a, b):
    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


def size_laws(ctx):
    """Every step of SizeLaws.tla: the estimated size of the kernel before and after it."""
    from zernpy import ZernPol, ZernPSF
    pool = [{(0, 0), (0, 2), (1, 3), (2, 2)}, {(1, 1), (0, 4), (3, 5), (5, 5)}, {(2, 6), (0, 10), (7, 9), (4, 4)}]
    edges = []
    for k, pols in enumerate(pool):
        edges += ctx.tlc("SizeLaws", {"Pols": pols, "Coefs": {0, 5, 20, 40, 90} if not ctx.thorough else {0, 5, 16, 20, 31, 32, 40, 48, 90}, "MaxTerms": 2 if not ctx.thorough else 3,
                                      "NAs": [{10, 95}, {50, 120}, {26, 150}][k], "Pixels": {20, 63} if not ctx.thorough else {9, 33, 63}},
                         spec="Spec", action_constraint="Edge", properties=["SameEssence", "Grows"], min_rows=1000, heap="4g").rows
    memo = {}

    def size(terms, o):
        key = json.dumps([terms, o])
        if key not in memo:
            ps = [ZernPol(m=t["m"], n=t["n"]) for t in terms]
            wl = 0.5 * 2.0 ** o["unit"]
            cs = [t["c"] / 64.0 * wl for t in terms]
            psf = ZernPSF(ps[0] if len(ps) == 1 else ps)
            psf.set_physical_props(NA=o["na"] / 100.0, wavelength=wl, expansion_coeff=cs[0] if len(ps) == 1 else cs, pixel_physical_size=o["pix"] / 64.0 * 0.25 * wl / (o["na"] / 100.0))
            memo[key] = psf.kernel_size
        return memo[key]

    for e in edges:
        a, b = size(e["t"], e["o"]), size(e["t2"], e["o2"])
        ctx.traces += 1
        ctx.expect(a == b if e["law"] == "same" else b >= a, "size-law", {"terms": e["t"], "optics": e["o"], "changed": [e["t2"], e["o2"]], "law": e["law"]}, (a, b))


def check_C14(ctx):
    from zernpy import ZernPol, ZernPSF
    rnd = random.Random(ctx.seed)
    P = PsfRef(ctx, [20, 33], [36, 42, 50], max_n=6)

    def build(npols):
        mns = POLS[npols]
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        return ZernPSF(ps[0] if npols == 1 else ps)

    def set_phys(psf, call, pix, r):
        psf.set_physical_props(NA=call[0] / 100.0, wavelength=call[1] / 1000.0, expansion_coeff=coef_arg(call[2], r), pixel_physical_size=pix / 1e6)

    for npols in (1, 2, 3):
        edges = ctx.tlc("PSFConfig", {"NPols": npols}, view="View", action_constraint="Edge", invariants=["Sane"], properties=["Atomic", "Independent"],
                        min_rows=1000, heap="4g").rows
        walk = tour(edges, rnd)
        if not ctx.thorough and len(walk) > 60000:
            walk = walk[:60000]
        psf = build(npols)
        default = observe(psf)
        mns = POLS[npols]
        estimates = {}
        pixof = {}
        prev_rejected = None
        for step, (act, state) in enumerate(walk):
            before = observe(psf) if act[-1] != "ok" else None
            try:
                if act[0] == "phys":
                    set_phys(psf, act[1], act[2], rnd)
                    pixof[json.dumps(act[1])] = act[2]
                else:
                    psf.set_calculation_props(*act[1])
                out = "ok"
            except ValueError:
                out = "ValueError"
            case = {"pols": mns, "call": act[:-1], "previous": [w[0] for w in walk[max(0, step - 3):step]]}
            ctx.traces += 1
            if not ctx.expect(out == act[-1], "accept/reject", case, out, act[-1]):
                return
            now = observe(psf)
            if before is not None:
                if not ctx.expect(now == before, "atomic", case, {k: (now[k], before[k]) for k in now if now[k] != before[k]}):
                    return
                continue
            phys, size, nodes = state
            if phys:
                wl, NA, cf = phys[1] / 1000.0, phys[0] / 100.0, [v / 1000.0 for v in phys[2][1:]]
                want = {"NA": NA, "wavelength": wl, "pixel_size": pixof[json.dumps(phys)] / 1e6, "k": 2 * math.pi / wl, "pixel_size_nyquist": 0.25 * wl / NA}
                ok = all(close(now[k], v) for k, v in want.items())
                if npols == 1:
                    ok = ok and close(now["expansion_coeff"], cf[0]) and close(now["alpha"], cf[0] / wl)
                else:
                    ok = ok and now["coefficients"] is not None and len(now["coefficients"]) == npols and all(close(a, b) for a, b in zip(now["coefficients"], cf))
                    ok = ok and all(close(a, b / wl) for a, b in zip(now["amplitudes"], cf))
                if not ctx.expect(ok, "derived", {**case, "config": phys}, {k: now[k] for k in (*want, "expansion_coeff", "alpha", "coefficients", "amplitudes")}, want):
                    return
            else:
                ok = all(now[k] == default[k] for k in ("NA", "wavelength", "pixel_size", "k", "expansion_coeff", "alpha", "coefficients"))
                if not ctx.expect(ok, "defaults", case, now):
                    return
            if size == "estimated":
                key = json.dumps(phys)
                if key not in estimates:
                    f = build(npols)
                    set_phys(f, phys, pixof[key], rnd)
                    estimates[key] = f.kernel_size
                    ctx.expect(f.kernel_size % 2 == 1 and f.kernel_size >= 3, "estimate-odd", {"config": phys}, f.kernel_size)
                wsize = estimates[key]
            else:
                wsize = 1 if size == "initial" else int(size)
            ok = [now["kernel_size"], now["n_int_r_points"], now["n_int_phi_points"]] == [wsize, *nodes]
            ok = ok and now["kernel"] == [[1.0]] and now["pols"] == [list(p) if isinstance(p, list) else p for p in now["pols"]] and [tuple(p) for p in now["pols"]] == mns
            if not ctx.expect(ok, "sizes", {**case, "state": state}, [now["kernel_size"], now["n_int_r_points"], now["n_int_phi_points"]], [wsize, *nodes]):
                return
            if phys and nodes[0] < 300 and rnd.random() < (0.02 if not ctx.thorough else 0.2):
                # the calculation sees exactly this configuration
                r, th = rnd.uniform(0, 6), rnd.uniform(0, 6.3)
                if abs(max(phys[2][1:], key=abs)) < 2000:
                    got = psf.get_psf_point_r_parallel(r, th)
                    want = P.point([(m, n, c / wl) for (m, n), c in zip(mns, cf)], r, th, *nodes)
                    ctx.expect(abs(got - want) < 1e-9, "used", {**case, "state": state, "r": r, "theta": th}, got, want)
                    if wsize == 3:
                        k = psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=False)
                        want = P.kernel([(m, n, c) for (m, n), c in zip(mns, cf)], wl, NA, pixof[json.dumps(phys)] / 1e6, 3, *nodes)
                        ctx.expect(k.shape == (3, 3) and np.max(np.abs(k - want)) < 1e-9, "used-kernel", {**case, "state": state}, k, want)
                        psf.kernel = np.ones((1, 1))
        ctx.notes["walk_%d" % npols] = len(walk)
        ctx.notes["estimated_%d" % npols] = len(estimates)
    # the objects own what they accepted: all histories of calls and of later overwriting of the caller's containers
    histories = ctx.tlc("PSFOwn", {"Objects": {1, 2}, "PolBufs": {1}, "CoefBufs": {1, 2} if ctx.thorough else {1}, "Depth": 7 if ctx.thorough else 6}, spec="Spec",
                        invariants=["Consistent", "Emit"], properties=["Owned"], min_rows=200, heap="4g").rows
    polver = {1: [(0, 2), (2, 4)], 2: [(-1, 3), (0, 2)], 3: [(3, 3), (-2, 2)]}
    coefver = {1: [0.25, -0.125], 2: [0.0, 0.375], 3: [-0.5, 0.0625]}
    for row in histories:
        box = rnd.choice([list, list, "array"])
        pbuf = {1: [ZernPol(m=m, n=n) for m, n in polver[1]]}
        cbuf = {b: list(coefver[1]) if rnd.random() < 0.3 else np.array(coefver[1]) for b in (1, 2)}
        if box == "array":
            pbuf[1] = np.array(pbuf[1], dtype=object)
        pv, cv, objs, wl, done = 1, {1: 1, 2: 1}, {}, {}, []
        for act, o, b, want in row["h"]:
            done.append([act, o, b])
            if act == "new":
                objs[o] = ZernPSF(pbuf[b])
            elif act == "set":
                wl[o] = rnd.choice([0.5, 0.8])
                objs[o].set_physical_props(NA=0.5, wavelength=wl[o], expansion_coeff=cbuf[b], pixel_physical_size=0.1)
            elif act == "pols":
                pv += 1
                pbuf[b][:] = [ZernPol(m=m, n=n) for m, n in polver[pv]]
            else:
                cv[b] += 1
                cbuf[b][:] = coefver[cv[b]]
            ctx.traces += 1
            for q, psf in objs.items():
                w = want[str(q)] if isinstance(want, dict) else want[q - 1]
                got = [[p.get_mn_orders() for p in psf.polynomials], None if psf.coefficients is None else list(psf.coefficients),
                       None if psf.amplitudes is None else [a * wl[q] for a in psf.amplitudes]]
                exp = [polver[w["pols"]], coefver.get(w["coefs"]), coefver.get(w["ampl"])]
                ok = got[0] == exp[0] and all((g is None) == (e is None) and (e is None or np.allclose(g, e, rtol=1e-12, atol=0)) for g, e in zip(got[1:], exp[1:]))
                if not ctx.expect(ok, "own-containers", {"history": done, "object": q}, got, exp):
                    break
    ctx.notes["ownership histories"] = len(histories)
    # two objects do not share any configuration
    a, b = build(2), build(2)
    a.set_physical_props(0.5, 0.5, [0.1, 0.2], 0.05)
    before = observe(b)
    a.set_calculation_props(5, 33, 50)
    ctx.expect(observe(b) == before and observe(ZernPSF(ZernPol(m=1, n=1)))["kernel_size"] == 1, "not-shared", {})
    # whole numbers beside fractional ones in one sequence, in every order and container
    for cs in ([0, 0.375], [0.375, 0], [1, -0.25], [-0.25, 1], [0, 0], [2, 1]):
        for box in (list, tuple, np.array):
            a = build(2)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a.set_physical_props(0.5, 0.8, box(cs), 0.05)
            got = observe(a)
            ctx.traces += 1
            ctx.expect(got["coefficients"] == [float(c) for c in cs] and np.allclose(got["amplitudes"], np.array(cs) / 0.8, rtol=1e-12, atol=0), "mixed-coefficients", {"coeffs": cs, "box": box.__name__},
                       (got["coefficients"], got["amplitudes"]), cs)
    size_laws(ctx)
    # constructor
    rows = ctx.tlc("PSFCtor", {"Members": {"p0", "p1", "p1b", "p2", "int", "None", "str", "tuple"}, "MaxLen": 3}, properties=["Monotone"], spec=None,
                   invariants=["Emit"], min_rows=500).rows
    mk = {"p0": lambda: ZernPol(m=0, n=0), "p1": lambda: ZernPol(m=-1, n=3), "p1b": lambda: ZernPol(osa=7), "p2": lambda: ZernPol(m=2, n=2), "int": lambda: 4, "None": lambda: None,
          "str": lambda: "Z", "tuple": lambda: (1, 3)}
    orders = {"p0": (0, 0), "p1": (-1, 3), "p1b": (-1, 3), "p2": (2, 2)}
    for r in rows:
        items = [mk[x]() for x in r["seq"]]
        if r["box"] == "bare":
            arg = items[0]
        elif r["box"] == "array":
            arg = np.empty(len(items), dtype=object)
            for i, x in enumerate(items):
                arg[i] = x
        else:
            arg = items if r["box"] == "list" else tuple(items)
        try:
            psf, out = ZernPSF(arg), "ok"
        except ValueError:
            psf, out = None, "ValueError"
        case = {"box": r["box"], "members": r["seq"]}
        ctx.traces += 1
        if ctx.expect(out == r["out"], "constructor", case, out, r["out"]) and psf is not None:
            got = [psf.zernpol.get_mn_orders()] if r["single"] else [p.get_mn_orders() for p in psf.polynomials]
            ctx.expect(got == [orders[x] for x in r["seq"]] and (psf.zernpol is None) == (not r["single"]), "constructed", case, got)
    ctx.sample({"edge": edges[100]})
