"""C09 (SumSurf.tla) and C10 (PolarGen.tla): weighted sums, surfaces, polar coordinates."""
import random
import warnings

import numpy as np

from reference import Ref

POLS = {1: (0, 0), 2: (-1, 1), 3: (2, 4), 4: (0, 12), 5: (-3, 13), 6: (0, 2), 7: (5, 9)}


def value(ref, mn, r, th):
    from reference import angular, norm
    e, _ = ref.radial_exact(mn[0], mn[1], float(r))
    return norm(*mn) * float(e) * float(angular(mn[0], th))


def check_C09(ctx):
    from zernpy import ZernPol
    ref = Ref(ctx, 16, 8)
    inv = ["ZeroIrrelevant", "OrderIrrelevant", "SurfaceBijective", "Emit"]
    rows = ctx.tlc("SumSurf", {"Coefs": {-2, 0, 3}, "Pols": {1, 2, 3}, "MaxTerms": 3 if ctx.thorough else 2}, invariants=inv, constraint="Bound", min_rows=100).rows
    rows3 = ctx.tlc("SumSurf", {"Coefs": {0, 5}, "Pols": {1, 2, 3}, "MaxTerms": 3}, invariants=inv, constraint="Bound", min_rows=100).rows
    rows = rows + rows3
    rnd = random.Random(ctx.seed)
    cache = {}
    for r in rows:
        ids = rnd.sample(sorted(POLS), 3)
        mp = dict(zip((1, 2, 3), ids))
        terms = [(c, mp.get(p)) for c, p in r["t"]]
        scales = {p: rnd.choice([1, 1.0, 0.125, 0.125, 0.001, 1e-5, 1e-12, 1e6]) for p in (1, 2, 3, 0)}    # every polynomial has its own unit of amplitude
        coefs = [c * scales[p] for c, p in r["t"]]
        pols = [ZernPol(m=POLS[p][0], n=POLS[p][1]) if p else rnd.choice(["pol", 5, (1, 1), None]) for _, p in terms]
        if r["extra"] == 1:
            coefs = coefs + [1.0]
        elif r["extra"] == -1:
            if coefs:
                coefs = coefs[:-1]
            else:
                pols = pols + [ZernPol(osa=3)]
        container = rnd.choice([list, tuple])
        coefs, pols = (container(coefs) if rnd.random() < 0.8 or not coefs else np.asarray(coefs)), container(pols)
        rs = np.sort(np.round(np.array([rnd.random() for _ in range(max(1, r["nr"]))]), 3))
        ts = np.round(np.array([rnd.uniform(0, 6.2) for _ in range(max(1, r["nt"]))]), 3)
        ra = rs if r["nr"] else float(rs[0])
        ta = ts if r["nt"] else float(ts[0])
        snap = (np.copy(ra), np.copy(ta), [c for c in coefs])
        case = {"terms": [(c, POLS.get(p)) for c, p in terms], "r": np.asarray(ra).tolist(), "theta": np.asarray(ta).tolist(), "surface": r["surf"], "extra": r["extra"]}
        ctx.traces += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out, got = "ok", ZernPol.sum_zernikes(coefs, pols, ra, ta, get_surface=r["surf"])
            except Exception as e:  # noqa
                out, got = type(e).__name__, None
        if not ctx.expect(out == r["out"], "acceptance", case, out, r["out"]):
            continue
        ctx.expect(np.array_equal(snap[0], ra) and np.array_equal(snap[1], ta) and snap[2] == [c for c in coefs], "inputs-unchanged", case)
        if out != "ok":
            continue
        if not ctx.expect(tuple(np.shape(got)) == tuple(r["shape"]), "shape", case, np.shape(got), r["shape"]):
            continue
        g = np.asarray(got)
        for idx, i, j in r["cells"]:
            want, mag = 0.0, 10 * sum(abs(c * scales[p]) for c, p in r["t"]) + 1e-290
            for p, w in r["w"]:
                if w:
                    key = (mp[p], rs[i - 1], ts[j - 1])
                    if key not in cache:
                        cache[key] = value(ref, POLS[mp[p]], rs[i - 1], ts[j - 1])
                    want += w * scales[p] * cache[key]
            v = float(g[tuple(k - 1 for k in idx)])
            ctx.expect(abs(v - want) <= 1e-11 * mag, "value", {**case, "cell": idx}, v, want)
    ctx.sample({"terms": [[-2, [0, 0]], [3, [2, 4]]], "layout": [2, 4, True]})
    # many polynomials at once, like a user does: all polynomials up to an order with random coefficients
    for order in (4, 10, 14) if not ctx.thorough else (4, 8, 10, 14, 16):
        import zernpy
        ps = zernpy.generate_polynomials(order)
        cs = [rnd.uniform(-1, 1) if rnd.random() > 0.3 else 0.0 for _ in ps]
        R, T = np.array([0.0, 0.3, 0.77, 1.0]), np.array([0.0, 1.1, 2.9, 4.0, 6.0])
        for rr, tt in ((R, T), (T[:4] / 7.0, R), (np.array([0.2, 0.9, 1.0]), np.array([3.0]))):
            S = ZernPol.sum_zernikes(cs, ps, rr, tt, get_surface=True)
            ctx.traces += 1
            ctx.expect(S.shape == (len(rr), len(tt)), "shape-all", {"order": order})
            for i in range(len(rr)):
                for j in range(len(tt)):
                    w = sum(c * value(ref, p.get_mn_orders(), rr[i], tt[j]) for c, p in zip(cs, ps) if c)
                    ctx.expect(abs(S[i, j] - w) < 1e-9, "value-all", {"order": order, "cell": [i, j]}, S[i, j], w)
            # the surface is the pointwise sum on every row and column
            ctx.expect(abs(ZernPol.sum_zernikes(cs, ps, float(rr[-1]), float(tt[-1])) - S[-1, -1]) < 1e-9, "surface-point", {"order": order})
    # large grids, every relation of the lengths: any cell is the sum of the members at its own radius and angle
    for nr, nt in ((130, 130), (131, 130), (130, 131), (300, 7), (7, 300), (257, 257), (1, 200), (200, 1), (512, 64), (1101, 5), (5, 1101), (801, 90), (90, 801)):
        mns = rnd.sample([(m, n) for n in range(15) for m in range(-n, n + 1, 2)], 3)
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        cs = [rnd.choice([1.0, -0.5, 2.25, 0.0]), rnd.choice([0.75, 0.001, 1e-4, 1e-8, 500.0, 0.01]), rnd.uniform(-1, 1)]
        R, T = np.sort([rnd.random() for _ in range(nr)]), np.sort([rnd.uniform(0, 6.28) for _ in range(nt)])
        if nt > 1 and nr > 1:
            R[-1], T[-1] = 1.0, 2.0 * np.pi
        sums = {"sum_zernikes": lambda: ZernPol.sum_zernikes(cs, ps, R, T, get_surface=True)}
        if hasattr(ZernPol, "_sum_zernikes_meshgrid"):
            sums["meshgrid"] = lambda: ZernPol._sum_zernikes_meshgrid(cs, ps, R, T)
        for name, fn in sums.items():
            S = fn()
            case = {"way": name, "pols": mns, "coefs": cs, "nr": nr, "nt": nt}
            ctx.traces += 1
            if ctx.expect(np.shape(S) == (nr, nt), "shape-large", case, np.shape(S), (nr, nt)):
                for i, j in [(0, 0), (nr - 1, nt - 1), (nr - 1, 0), (0, nt - 1)] + [(rnd.randrange(nr), rnd.randrange(nt)) for _ in range(12)]:
                    w = sum(c * value(ref, mn, R[i], T[j]) for c, mn in zip(cs, mns) if c)
                    ctx.expect(abs(S[i, j] - w) < 1e-10 * (1 + sum(map(abs, cs))), "value-large", {**case, "cell": [i, j]}, S[i, j], w)


def strip_end(v, T):
    """tolerates a repeated end point (float rounding of the step)"""
    v = list(v)
    while len(v) > 2 and abs(v[-1] - T) < 1e-9 and abs(v[-2] - T) < 1e-9:
        v.pop()
    return v


def check_C10(ctx):
    from zernpy import ZernPol
    from zernpy import zernikepol
    ref = Ref(ctx, 8, 8)
    inv = ["InRange", "Increasing", "Covers", "Emit"]
    rnd = random.Random(ctx.seed)
    tabs = []
    for T in ([60, 64, 100] if not ctx.thorough else [60, 64, 100, 97, 360, 250]):
        steps = {-7, -1, 0, T // 2 + 1, T - 1, T, 2 * T} | set(range(1, T // 2 + 1))
        tabs.append((T, ctx.tlc("PolarGen", {"T": T, "Steps": steps}, spec="Spec", invariants=inv, properties=["Terminates"], min_rows=10).rows))
    for T, rows in tabs:
        ok_rows = [r for r in rows if r["ok"]]
        bad_rows = [r for r in rows if not r["ok"]]
        # (radial step, angular step): every radial row with some angular row and vice versa
        pairs = [(r, rnd.choice(ok_rows)) for r in ok_rows] + [(rnd.choice(ok_rows), r) for r in ok_rows]
        pairs += [(b, rnd.choice(ok_rows)) for b in bad_rows] + [(rnd.choice(ok_rows), b) for b in bad_rows]
        for rr, tt in pairs:
            rs = rr["s"] / T
            ts = 2 * np.pi * tt["s"] / T
            if tt["s"] * 2 == T:
                ts = np.pi
            case = {"r_step": rs, "theta_rad_step": ts}
            ctx.traces += 1
            try:
                out, got = "ok", ZernPol.gen_polar_coordinates(rs, ts)
            except Exception as e:  # noqa
                out, got = type(e).__name__, None
            want = "ok" if rr["ok"] and tt["ok"] else "ValueError"
            if not ctx.expect(out == want, "acceptance", case, out, want) or out != "ok":
                continue
            for name, v, row, full in (("R", got.R, rr, 1.0), ("Theta", got.Theta, tt, 2 * np.pi)):
                ctx.expect(isinstance(v, np.ndarray) and v.ndim == 1, "vector", case)
                ctx.expect(v[0] == 0.0 and float(np.max(v)) <= full and float(np.min(v)) >= 0.0 and abs(v[-1] - full) < 1e-12, "covers", {**case, "which": name}, [v[0], v[-1]])
                ctx.expect(bool(np.all(np.diff(v) >= 0.0)), "non-decreasing", {**case, "which": name})
                w = [x * full / T for x in row["vec"]]
                s = strip_end(v, full)
                ctx.expect(len(s) == len(w) and np.allclose(s, w, rtol=0, atol=1e-9), "nodes", {**case, "which": name}, s, w)
            # the vectors are usable: no radius is outside of the disk
            if rnd.random() < 0.1:
                ctx.expect(np.all(np.isfinite(ZernPol(m=1, n=3).radial(got.R))), "usable", case)
    for bad in ((0.51, 0.1), (0.1, 3.2), (float("inf"), 0.1), (0.1, -0.0), (1e-9 - 1e-9, 0.1), (-0.1, 0.1), (0.1, -3.0)):
        try:
            ZernPol.gen_polar_coordinates(*bad)
            out = "ok"
        except Exception as e:  # noqa
            out = type(e).__name__
        ctx.expect(out == "ValueError", "impossible-step", {"steps": bad}, out, "ValueError")
    for _ in range(400 if not ctx.thorough else 20000):  # steps that are no fractions of the range
        rs, ts = rnd.choice([rnd.uniform(0.004, 0.5), 10.0 ** rnd.uniform(-5, -0.31)]), rnd.choice([rnd.uniform(0.01, np.pi), 10.0 ** rnd.uniform(-4, 0.49)])
        v = ZernPol.gen_polar_coordinates(rs, ts)
        for x, full, st in ((v.R, 1.0, rs), (v.Theta, 2 * np.pi, ts)):
            s = np.asarray(strip_end(x, full))
            ctx.expect(x[0] == 0.0 and abs(x[-1] - full) < 1e-12 and x.max() <= full and np.all(np.diff(s) > 0) and np.allclose(np.diff(s)[:-1], st, rtol=1e-7, atol=1e-13)
                       and np.diff(s)[-1] <= st * (1 + 1e-9), "random-step", {"r_step": rs, "theta_rad_step": ts})
    # equal meshes
    for n in list(range(-2, 70)) + [100, 128, 129, 250, 251, 256, 361, 499, 500, 501, 512, 720, 721, 1000, 1001, 1024, 2000, 5000] + [rnd.randint(70, 3000) for _ in range(40)]:
        v = ZernPol.gen_equal_polar_mesh(n)
        k = max(n, 4)
        ctx.traces += 1
        ctx.expect(len(v.R) == len(v.Theta) == k and np.allclose(v.R, [i / (k - 1) for i in range(k)], atol=1e-13) and
                   np.allclose(v.Theta, [2 * np.pi * i / (k - 1) for i in range(k)], atol=1e-12) and v.R.max() <= 1.0 and v.Theta.max() <= 2 * np.pi, "equal-mesh", {"n": n})
    v = ZernPol.gen_equal_polar_mesh()
    ctx.expect(len(v.R) == 250 and len(v.Theta) == 250, "equal-mesh-default", {})
    v = ZernPol.gen_polar_coordinates()
    ctx.expect(len(strip_end(v.R, 1.0)) == 101 and len(strip_end(v.Theta, 2 * np.pi)) == 481, "default-steps", {}, [len(v.R), len(v.Theta)])
    # surfaces carry the same vectors and the values on them
    for _ in range(12 if not ctx.thorough else 80):
        eq = rnd.random() < 0.4
        mns = rnd.sample([(m, n) for n in range(8) for m in range(-n, n + 1, 2)], 3)
        cs = [1.5, -0.25, 2.0]
        kw = {"equal_n_coordinates": True, "n_points": rnd.randint(4, 9)} if eq else {"r_step": rnd.choice([0.5, 0.25, 0.3, 0.11]), "theta_rad_step": rnd.choice([1.0, 0.5, np.pi, 0.77])}
        got = ZernPol.gen_zernikes_surface(cs, [ZernPol(m=m, n=n) for m, n in mns], **kw)
        v = ZernPol.gen_equal_polar_mesh(kw["n_points"]) if eq else ZernPol.gen_polar_coordinates(kw["r_step"], kw["theta_rad_step"])
        S, R, T = got
        ctx.traces += 1
        case = {"pols": mns, **kw}
        ctx.expect(np.array_equal(R, v.R) and np.array_equal(T, v.Theta) and np.shape(S) == (len(R), len(T)), "surface-vectors", case)
        w = np.array([[sum(c * value(ref, mn, r, t) for c, mn in zip(cs, mns)) for t in T] for r in R])
        ctx.expect(np.shape(S) == w.shape and np.allclose(S, w, rtol=0, atol=1e-10), "surface-values", case)
        ctx.sample(case)
    got = ZernPol.gen_zernikes_surface([1.0], [ZernPol(m=1, n=1)])
    ctx.expect(len(strip_end(got.R, 1.0)) == 101 and len(strip_end(got.Theta, 2 * np.pi)) == 361 and np.shape(got.ZernSurf) == (len(got.R), len(got.Theta)), "surface-defaults", {},
               [len(got.R), len(got.Theta)])
    got = ZernPol.gen_zernikes_surface([1.0], [ZernPol(m=1, n=1)], equal_n_coordinates=True)
    ctx.expect(len(got.R) == 250 and len(got.Theta) == 250 and np.shape(got.ZernSurf) == (250, 250), "surface-defaults", {"equal_n_coordinates": True}, [len(got.R), len(got.Theta)])
    for kw in ({"r_step": 0.6}, {"theta_rad_step": 3.5}, {"r_step": 0.0}):
        try:
            ZernPol.gen_zernikes_surface([1.0], [ZernPol(osa=4)], **kw)
            out = "ok"
        except Exception as e:  # noqa
            out = type(e).__name__
        ctx.expect(out == "ValueError", "surface-impossible-step", kw, out)
