"""C15 (values of kernels against the sums of Quadrature.tla) and C16 (requests of Engines.tla against one common reference)."""
import inspect
import math
import random

import numpy as np

import nonumba
from psfref import PsfRef, airy_kernel, gauss_point
from reference import all_orders

TOL = 1e-9
NRS = [20, 21, 25, 32, 49]
NPHIS = [36, 38, 40, 44, 50]


def rand_cfg(rnd, size):
    wl = rnd.choice([0.4, 0.5, 0.532, round(rnd.uniform(0.35, 0.8), 3)])
    NA = rnd.choice([0.1, 0.95, 1.0, 1.25, 1.7, round(rnd.uniform(0.05, 1.7), 2)])
    return {"NA": NA, "wl": wl, "pix": 0.25 * wl / NA * rnd.choice([0.999, 0.5, 0.75, rnd.uniform(0.05, 0.99)]), "size": size,
            "nr": rnd.choice(NRS), "nphi": rnd.choice(NPHIS)}


FINE_R = [101, 399, 401, 450, 512]
FINE_PHI = [150, 300, 398, 402, 450, 600]


def with_grid(cfg, grid, rnd):
    if grid == "fine radius":
        cfg = {**cfg, "nr": rnd.choice(FINE_R)}
    elif grid == "fine angle":
        cfg = {**cfg, "nphi": rnd.choice(FINE_PHI)}
    return cfg


def coefficient(rnd, wl):
    return rnd.choice([-1, 1]) * wl * rnd.choice([0.05, 0.25, 0.5, 1.0, rnd.uniform(0.02, 1.5), 1e-3, 1e-5, rnd.uniform(1.5, 9.5)])


def make(mns, coeffs, cfg, as_list=False, order=("phys", "calc")):
    from zernpy import ZernPol, ZernPSF
    if len(mns) == 1 and not as_list:
        psf = ZernPSF(ZernPol(m=mns[0][0], n=mns[0][1]))
        c = coeffs[0]
    else:
        psf = ZernPSF([ZernPol(m=m, n=n) for m, n in mns])
        c = list(coeffs)
    for what in order:
        if what == "phys":
            psf.set_physical_props(NA=cfg["NA"], wavelength=cfg["wl"], expansion_coeff=c, pixel_physical_size=cfg["pix"])
        else:
            psf.set_calculation_props(cfg["size"], cfg["nr"], cfg["nphi"])
    return psf


def judge(ctx, clause, got, want, case, normalized, tol=TOL):
    if normalized:
        want = want / want.max()
    ok = np.shape(got) == want.shape and np.all(np.isfinite(got))
    d = float(np.max(np.abs(got - want))) if ok else None
    return ctx.expect(ok and d <= tol * max(1.0, (1.0 / max(1e-6, want.max()) if normalized else 1.0)), clause, case, d if ok else np.shape(got), tol)


def check_C15(ctx):
    from zernpy import ZernPol
    # numbers of nodes beyond the small ones: the rounded number of 1/h nodes must never gain or lose a node
    many = sorted(set([20, 36, 48, 49, 53, 97, 98, 103, 107, 161, 187, 196, 197, 206, 214, 237, 239, 249, 320] + (list(range(20, 330)) if ctx.thorough else [])))
    many_phi = FINE_PHI + [100, 200, 260, 340, 360] + (list(range(36, 330, 2)) if ctx.thorough else [])
    P = PsfRef(ctx, set(NRS + many + FINE_R), set(NPHIS + [300] + many_phi))
    rnd = random.Random(ctx.seed)
    # 1. every polynomial n <= 10 (plain and default request)
    for idx, (m, n) in enumerate(all_orders(10 if not ctx.thorough else 13)):
        for rep in range(1 if not ctx.thorough else 3):
            cfg = rand_cfg(rnd, rnd.choice([3, 3, 5]))
            c = coefficient(rnd, cfg["wl"])
            want = P.kernel([(m, n, c)], cfg["wl"], cfg["NA"], cfg["pix"], cfg["size"], cfg["nr"], cfg["nphi"])
            for acc in (False, True, None):
                if n > 10 and acc is not False:
                    continue
                norm = rnd.random() < 0.3
                psf = make([(m, n)], [c], cfg, as_list=rnd.random() < 0.3)
                got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=acc)
                ctx.traces += 1
                case = {"m": m, "n": n, "coeff": c, "cfg": cfg, "accelerated": acc, "normalized": norm}
                if (m, n) == (0, 0) and acc is False:
                    judge(ctx, "airy-closed", got, airy_kernel(cfg["wl"], cfg["NA"], cfg["pix"], cfg["size"]), case, norm, 1e-7)
                else:
                    judge(ctx, "single-value", got, want, case, norm)
                if norm:
                    ctx.expect(abs(np.max(got) - 1.0) < 1e-12, "maximum-one", case, np.max(got))
            if rep == 0 and n >= 1:
                r, th = rnd.uniform(0, 8), rnd.uniform(0, 6.3)
                got = psf.get_psf_point_r_parallel(r, th)
                ctx.expect(abs(got - P.point([(m, n, c / cfg["wl"])], r, th, cfg["nr"], cfg["nphi"])) < TOL, "point", {"m": m, "n": n, "coeff": c, "r": r, "theta": th, "cfg": cfg}, got)
    # 2. several polynomials
    counts = [2, 3] if not ctx.thorough else [2, 3, 4, 6]
    for num in counts:
        for rep in range(6 if not ctx.thorough else 30):
            mns = rnd.sample(all_orders(8 if rep % 2 else 3), num)
            cfg = rand_cfg(rnd, 3 if rep else 5)
            cs = [coefficient(rnd, cfg["wl"]) for _ in mns]
            want = P.kernel([(m, n, c) for (m, n), c in zip(mns, cs)], cfg["wl"], cfg["NA"], cfg["pix"], cfg["size"], cfg["nr"], cfg["nphi"])
            for acc in (False, True, None):
                norm = rnd.random() < 0.3
                psf = make(mns, cs, cfg)
                got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=acc)
                ctx.traces += 1
                judge(ctx, "several-value", got, want, {"pols": mns, "coeffs": cs, "cfg": cfg, "accelerated": acc, "normalized": norm}, norm)
    # maximum away from the centre: a tilt shifts the pattern by at least a pixel
    for mns, cs in (([(1, 1)], [0.9]), ([(-1, 1), (2, 2)], [-1.0, 0.2]), ([(1, 1), (0, 2), (-1, 1)], [0.8, 0.1, 0.8])):
        cfg = {**rand_cfg(rnd, 5), "wl": 0.5, "NA": 1.0, "pix": 0.12}
        want = P.kernel([(m, n, c * 0.5) for (m, n), c in zip(mns, cs)], 0.5, 1.0, 0.12, 5, cfg["nr"], cfg["nphi"])
        for acc in (False, True):
            for norm in (False, True):
                got = make(mns, [c * 0.5 for c in cs], cfg).calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=acc)
                case = {"pols": mns, "coeffs": cs, "cfg": cfg, "accelerated": acc, "normalized": norm, "shifted": True}
                ctx.traces += 1
                judge(ctx, "several-value", got, want, case, norm)
                ctx.expect(np.argmax(want) != 12 and (not norm or abs(np.max(got) - 1.0) < 1e-12), "maximum-one", case, np.max(got))
    # 3. node numbers: one point each
    for nr, nphi in [(k, 36) for k in many + FINE_R] + [(20, k) for k in many_phi]:
        cfg = {"NA": 1.0, "wl": 0.5, "pix": 0.1, "size": 3, "nr": nr, "nphi": nphi}
        mn, c = rnd.choice([(0, 2), (1, 3), (-2, 2), (3, 5)]), rnd.uniform(0.1, 0.6)
        for acc in (False, True):
            psf = make([mn], [c], cfg)
            got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=acc)
            ctx.traces += 1
            judge(ctx, "nodes", got, P.kernel([(*mn, c)], 0.5, 1.0, 0.1, 3, nr, nphi), {"nr": nr, "nphi": nphi, "pol": mn, "coeff": c, "accelerated": acc}, False)
    # 4. bigger kernels: positions of all pixels (odd and even requests)
    for size in ((7, 8, 13) if not ctx.thorough else (7, 8, 13, 21, 30)):
        cfg = {"NA": 0.9, "wl": 0.55, "pix": 0.12, "size": size, "nr": 20, "nphi": 36}
        for mns in ([(1, 3)], [(-2, 2), (1, 1)]):
            cs = [0.3, -0.2][:len(mns)]
            for acc in (False, True):
                got = make(mns, cs, cfg).calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=acc)
                ctx.traces += 1
                real = size + 1 - size % 2
                judge(ctx, "pixels", got, P.kernel([(m, n, c) for (m, n), c in zip(mns, cs)], 0.55, 0.9, 0.12, real, 20, 36), {"pols": mns, "size": size, "accelerated": acc}, False)
    # 5. convergence to the true integral with the default numbers of nodes, and to the Airy pattern for no aberration
    for mns, cs in (([(0, 0)], [0.7]), ([(0, 2)], [0.0]), ([(-1, 3)], [0.21]), ([(2, 4)], [-0.3]), ([(0, 4), (1, 1)], [0.15, 0.2])):
        cfg = {"NA": 0.8, "wl": 0.6, "pix": 0.15, "size": 5, "nr": 320, "nphi": 300}
        psf = make(mns, cs, cfg)
        got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=True)
        ctx.traces += 1
        if all(c == 0.0 or mn == (0, 0) for mn, c in zip(mns, cs)):
            want = airy_kernel(0.6, 0.8, 0.15, 5)
        else:
            want = np.array([[gauss_point(P.ref, [(m, n, c / 0.6) for (m, n), c in zip(mns, cs)], 2 * math.pi / 0.6 * 0.8 * 0.15 * math.hypot(i, j),
                                          math.atan2(i, j) + math.pi) for j in range(-2, 3)] for i in range(-2, 3)])
        ctx.expect(np.max(np.abs(got - want)) < 5e-4, "convergence", {"pols": mns, "coeffs": cs}, np.max(np.abs(got - want)))
    ctx.sample({"pol": mns, "cfg": cfg, "kernel": got[2]})
    ctx.assumptions.append("libm trigonometry; tolerance 1e-9 for sums of at most 10^5 unit terms")


LOOPS = ("zernike_pol", "len2pixels", "alpha", "wavelength", "NA", "n_int_r_points", "n_int_phi_points", "normalize_values", "kernel_size", "suppress_warns")


def has_loops():
    """The function of loops belongs to the package, not to its interface: it's examined as long as it is there in its form."""
    try:
        from zernpy.calculations.calc_psfs import get_psf_kernel
        return set(LOOPS) <= set(inspect.signature(get_psf_kernel).parameters)
    except ImportError:
        return False


def do(psf, call, norm):
    if call == "plain":
        return psf.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=False)
    if call == "accelerated":
        return psf.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=True)
    if call == "default":
        return psf.calculate_psf_kernel(suppress_warnings=True, normalized=norm)
    if call == "loops":
        from zernpy.calculations.calc_psfs import get_psf_kernel
        psf.kernel = get_psf_kernel(zernike_pol=psf.zernpol, len2pixels=psf.pixel_size, alpha=psf.expansion_coeff, wavelength=psf.wavelength, NA=psf.NA, n_int_r_points=psf.n_int_r_points,
                                    n_int_phi_points=psf.n_int_phi_points, normalize_values=norm, kernel_size=psf.kernel_size, suppress_warns=True)
        return psf.kernel
    return psf.get_kernel_parallel(normalize_values=norm)


def outcome(r, psf):
    try:
        return do(psf, r["call"], r["norm"]), "kernel"
    except ValueError:
        return None, "ValueError"


def without_numba(child, jobs):
    """In a process without numba: the requests one after another, the kernels are judged by the caller."""
    res = []
    for i, (r, mns, cs, cfg) in enumerate(jobs):
        psf = make([tuple(mn) for mn in mns], cs, cfg, as_list=r["kind"] == "one-term")
        got, out = outcome(r, psf)
        stored = got is not None and np.array_equal(got, psf.kernel)
        again = None
        if i % 3 == 0 and got is not None:      # the other request on the same object
            again = do(psf, {"accelerated": "default", "default": "plain"}.get(r["call"], "accelerated"), r["norm"]).tolist()
        res.append([out, None if got is None else np.asarray(got).tolist(), stored, again])
    return res


def check_C16(ctx):
    rows = ctx.tlc("Engines", {"Numba": True}, invariants=["OneReference", "RefusedOnlyHigh", "Emit"], min_rows=100).rows
    rows_without = ctx.tlc("Engines", {"Numba": False}, invariants=["OneReference", "RefusedOnlyHigh", "Emit"], min_rows=100).rows
    if not has_loops():
        rows, rows_without = [r for r in rows if r["call"] != "loops"], [r for r in rows_without if r["call"] != "loops"]
    ctx.notes["loops"] = has_loops()
    P = PsfRef(ctx, NRS + FINE_R, NPHIS + FINE_PHI)
    rnd = random.Random(ctx.seed)
    low = [(m, n) for m, n in all_orders(7) if n > 0]
    high = [(m, n) for n in (11, 12, 13) for m in (-n, n, 2 - n, n - 2, 1 if n % 2 else 0)]
    workers = [r for r in rows if r["engine"] == "workers"]
    others = [r for r in rows if r["engine"] != "workers"]
    rnd.shuffle(others)

    def aberration(r, cfg):
        def one():
            return rnd.choice(high if r["high"] else low)
        k = r["kind"]
        rest = [x for x in low]
        rnd.shuffle(rest)
        if k == "piston":
            mns = [(0, 0)]
        elif k in ("single", "one-term"):
            mns = [one()]
        elif k == "several":
            mns = [one()]
        elif k == "several+piston":
            mns = [one(), (0, 0)]
        else:
            mns = [one()]
        if k not in ("piston", "single", "one-term"):
            mns += [x for x in rest if x not in mns][:3 - len(mns)]
        cs = [coefficient(rnd, cfg["wl"]) for _ in mns]
        if k == "zero-padded":
            cs[1:] = [0.0] * (len(cs) - 1)
        z = list(zip(mns, cs))
        rnd.shuffle(z)
        return [a for a, _ in z], [b for _, b in z]

    def one_request(r, psf, mns, cs, cfg):
        case = {"request": {k: r[k] for k in ("kind", "high", "call", "norm", "grid")}, "pols": mns, "coeffs": cs, "cfg": cfg}
        verdict(r, mns, cs, cfg, case, *outcome(r, psf), psf)

    def verdict(r, mns, cs, cfg, case, got, out, psf=None):
        ctx.traces += 1
        if not ctx.expect(out == r["out"], "outcome", case, out, r["out"]) or got is None:
            return
        if r["value"] == "airy":
            want = airy_kernel(cfg["wl"], cfg["NA"], cfg["pix"], cfg["size"])
            judge(ctx, "piston", got, want, case, r["norm"], 1e-7)
        else:
            want = P.kernel([(m, n, c) for (m, n), c in zip(mns, cs)], cfg["wl"], cfg["NA"], cfg["pix"], cfg["size"], cfg["nr"], cfg["nphi"])
            judge(ctx, "engine-value", got, want, case, r["norm"])
        if psf is not None:
            ctx.expect(np.array_equal(got, psf.kernel), "stored", case)

    # the requests in an environment without numba (it runs beside)
    jobs = []
    for r in rows_without:
        if r["call"].startswith("parallel") and r["engine"] == "workers":
            continue
        if r["call"] in ("accelerated", "default") or rnd.random() < 0.2 or ctx.thorough:
            cfg = with_grid(rand_cfg(rnd, r["size"]), r["grid"], rnd)
            jobs.append((r, *aberration(r, cfg), cfg))
    if not ctx.thorough:
        jobs = [j for j in jobs if j[0]["size"] == 3 or rnd.random() < 0.4]
    beside = nonumba.Run(ctx, "c_psfval", "without_numba", jobs)

    for rep in range(1 if not ctx.thorough else 6):
        for r in others:
            cfg = with_grid(rand_cfg(rnd, r["size"]), r["grid"], rnd)
            mns, cs = aberration(r, cfg)
            psf = make(mns, cs, cfg, as_list=r["kind"] == "one-term")
            one_request(r, psf, mns, cs, cfg)
            # the same object, the other engines afterwards (history of requests)
            if rnd.random() < 0.35 or ctx.thorough:
                for r2 in rnd.sample([x for x in others if x["kind"] == r["kind"] and x["high"] == r["high"] and x["size"] == r["size"] and x["grid"] == r["grid"]], 2):
                    one_request(r2, psf, mns, cs, cfg)
    # requests with worker processes: few, because of the cost of processes
    done = 0
    for r in rnd.sample(workers, len(workers)) if ctx.thorough else [rnd.choice([x for x in workers if x["grid"] == g and x["kind"] in k])
                                                                     for g, k in (("fine radius", ("single", "one-term")), ("coarse", ("one-term",)),
                                                                                  ("fine angle", ("single", "one-term")), ("coarse", ("single",)))]:
        cfg = with_grid(rand_cfg(rnd, 3), r["grid"], rnd)
        if r["grid"] == "fine radius" and not done:
            cfg["nr"] = 512
        mns, cs = aberration(r, cfg)
        psf = make(mns, cs, cfg, as_list=r["kind"] == "one-term")
        psf.initialize_parallel_workers()
        try:
            one_request({**r, "size": 3}, psf, mns, cs, cfg)
            rr, th = rnd.uniform(0, 5), rnd.uniform(0, 6.2)
            ctx.expect(abs(psf.get_psf_point_r_parallel(rr, th) - P.point([(*mns[0], cs[0] / cfg["wl"])], rr, th, cfg["nr"], cfg["nphi"])) < TOL, "worker-point",
                       {"pols": mns, "coeffs": cs, "cfg": cfg})
            # new coefficient while the workers are alive
            c2 = [-0.5 * cs[0]]
            psf.set_physical_props(cfg["NA"], cfg["wl"], c2[0], cfg["pix"])
            ctx.expect(abs(psf.get_psf_point_r_parallel(rr, th) - P.point([(*mns[0], c2[0] / cfg["wl"])], rr, th, cfg["nr"], cfg["nphi"])) < TOL, "worker-point-updated",
                       {"pols": mns, "coeffs": c2, "cfg": cfg})
        finally:
            psf.deinitialize_workers()
        ctx.expect(abs(psf.get_psf_point_r_parallel(rr, th) - P.point([(*mns[0], c2[0] / cfg["wl"])], rr, th, cfg["nr"], cfg["nphi"])) < TOL, "after-workers",
                   {"pols": mns, "coeffs": c2, "cfg": cfg})
        done += 1
    # piston and several polynomials have no workers: initialization is harmless
    for mns in ([(0, 0)],):
        cfg = rand_cfg(rnd, 3)
        psf = make(mns, [0.2], cfg)
        psf.initialize_parallel_workers()
        got = psf.get_kernel_parallel(normalize_values=False)
        psf.deinitialize_workers()
        judge(ctx, "piston-parallel", got, P.kernel([(0, 0, 0.2)], cfg["wl"], cfg["NA"], cfg["pix"], 3, cfg["nr"], cfg["nphi"]), {"cfg": cfg}, False)
    # every polynomial of the compiled table in the plain and the compiled engine
    for (m, n) in all_orders(10):
        cfg = rand_cfg(rnd, 3)
        c = coefficient(rnd, cfg["wl"])
        if (m, n) == (0, 0):
            continue
        k = [make([(m, n)], [c], cfg).calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=a) for a in (False, True)]
        p2 = make([(m, n), (0, 2) if (m, n) != (0, 2) else (0, 4), (1, 1) if (m, n) != (1, 1) else (1, 3)], [c, 0.0, 0.0], cfg)
        k += [p2.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=a) for a in (False, True)]
        ctx.traces += 4
        for i, name in ((1, "compiled"), (2, "zero-padded plain"), (3, "zero-padded compiled")):
            ctx.expect(np.max(np.abs(k[i] - k[0])) <= TOL, "same-kernel", {"m": m, "n": n, "coeff": c, "cfg": cfg, "engine": name}, np.max(np.abs(k[i] - k[0])))
    # kernels of usual sizes: all the ways to get one agree, pixel by pixel
    aberrations = [[(-1, 3)], [(2, 2)], [(-3, 5)], [(-2, 2), (0, 2)], [(1, 1), (-2, 4), (3, 3)], [(-1, 1), (2, 2), (0, 4)]]
    for i, mns in enumerate(aberrations):
        for size in ((7, 9, 15)[i % 3],) if not ctx.thorough else (5, 7, 9, 11, 15, 21):
            cfg = rand_cfg(rnd, size)
            cfg["pix"] = 0.25 * cfg["wl"] / cfg["NA"] * rnd.uniform(0.6, 0.99)
            cs = [rnd.choice([-1, 1]) * cfg["wl"] * rnd.uniform(0.1, 0.4) for _ in mns]
            k = {}
            for call in ("plain", "accelerated", "default") + (("parallel",) if len(mns) == 1 else ()):
                k[call] = np.array(do(make(mns, cs, cfg), call, False))
            case = {"pols": mns, "coeffs": cs, "cfg": cfg}
            for call in k:
                ctx.traces += 1
                ok = k[call].shape == (size, size)
                ctx.expect(ok and np.max(np.abs(k[call] - k["plain"])) <= TOL, "same-large-kernel", {**case, "call": call}, np.max(np.abs(k[call] - k["plain"])) if ok else k[call].shape)
    for (r, mns, cs, cfg), (out, got, stored, again) in zip(jobs, beside.finish() or []):
        case = {"without numba": {k: r[k] for k in ("kind", "high", "call", "norm", "grid")}, "pols": mns, "coeffs": cs, "cfg": cfg}
        verdict(r, mns, cs, cfg, case, None if got is None else np.array(got), out)
        if got is not None:
            ctx.expect(stored, "stored", case)
            if again is not None and (r["kind"] != "piston" or r["value"] == "airy"):
                ctx.expect(np.max(np.abs(np.array(again) - np.array(got))) <= TOL * max(1.0, np.max(np.abs(got))), "same-without-numba", case)
    ctx.notes["requests without numba"] = len(jobs)
    ctx.notes["worker_requests"] = done
    ctx.sample(rows[7])
