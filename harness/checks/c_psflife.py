"""C18: transition tours over PSFLife.tla replayed on real objects; kernels are compared with the sums of Quadrature.tla."""
import random
import warnings

import numpy as np

from core import tour
from checks.c_psfworld import threads, world
from psfref import PsfRef, airy_kernel

NODES = {"n1": (20, 36), "n2": (23, 40)}
PHYS = {1: {"p1": (0.2, 0.5, [0.06], 0.5), "p2": (0.15, 0.6, [-0.17], 0.9)},
        2: {"p1": (0.2, 0.5, [0.06, -0.1], 0.5), "p2": (0.15, 0.6, [0.2, 0.17], 0.9)},
        0: {"p1": (0.2, 0.5, [0.3], 0.6), "p2": (0.1, 0.6, [0.1], 1.4)}}
POLS = {0: [(0, 0)], 1: [(-1, 3)], 2: [(0, 2), (1, 3)]}


def check_C18(ctx):
    import matplotlib.pyplot as plt
    from zernpy import ZernPol, ZernPSF
    rnd = random.Random(ctx.seed)
    P = PsfRef(ctx, [20, 23], [36, 40], max_n=6)
    edges = ctx.tlc("PSFLife", {"Sizes": {"3", "7"}}, view="View", action_constraint="Edge", invariants=["Fresh", "LastCalculated"],
                    properties=["KernelStable", "ConfigStable", "SizeOrigin"], min_rows=300).rows
    outdir = ctx.scratch / "out"
    outdir.mkdir()

    def build(kind):
        ps = [ZernPol(m=m, n=n) for m, n in POLS[kind]]
        return ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(ps)

    def set_phys(psf, kind, p):
        NA, wl, cs, pix = PHYS[kind][p]
        psf.set_physical_props(NA=NA, wavelength=wl, expansion_coeff=cs[0] if len(cs) == 1 else cs, pixel_physical_size=pix)

    cache, est = {}, {}

    def estimated(kind, p):
        if (kind, p) not in est:
            f = build(kind)
            set_phys(f, kind, p)
            est[(kind, p)] = f.kernel_size
        return est[(kind, p)]

    def reference(kind, phys, nodes, size, eng):
        key = (kind, phys, nodes, size)
        if key not in cache:
            if phys == "none":
                NA, wl, cs, pix = 1.0, 0.532, [0.5], 0.98 * 0.25 * 0.532
            else:
                NA, wl, cs, pix = PHYS[kind][phys]
            cache[key] = P.kernel([(m, n, c) for (m, n), c in zip(POLS[kind], cs)], wl, NA, pix, size, *NODES[nodes])
        return cache[key]

    def crop_model(k, part):
        lim, s = part * k.max(), 0
        while True:
            q = k[s:k.shape[0] - s, s:k.shape[1] - s]
            ring = max(q[0].max(), q[-1].max(), q[:, 0].max(), q[:, -1].max())
            if ring >= lim:
                return q
            s += 1

    for kind in (1, 2, 0):
        use = [e for e in edges if not (kind == 2 and e["f"][0] == "none" and e["a"][0] == "calculate") and not (kind == 2 and e["f"][3] and e["f"][3][0] == "none")]
        walk = tour(use, rnd, limit=None if ctx.thorough else (1600 if kind == 1 else 800))
        psf = build(kind)
        psf.n_int_r_points, psf.n_int_phi_points = NODES["n1"]
        kernel = np.ones((1, 1))
        csize = None
        handed = []     # kernels handed out earlier with their contents
        eng_of = None
        for step, (act, state) in enumerate(walk):
            phys, nodes, size, kdesc = state
            case = {"pols": POLS[kind], "step": act, "state": state, "previous": [w[0] for w in walk[max(0, step - 4):step]]}
            ctx.traces += 1
            ret = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if act[0] == "phys":
                    set_phys(psf, kind, act[1])
                elif act[0] == "badphys":
                    try:
                        psf.set_physical_props(0.2, 0.5, 0.1 if kind == 2 else [0.1, 0.2], 0.1)
                    except ValueError:
                        pass
                elif act[0] == "calc":
                    psf.set_calculation_props(rnd.choice([int(act[1]), int(act[1]) - 1]) if act[1] != "3" else 3, *NODES[act[2]])
                elif act[0] == "badcalc":
                    try:
                        psf.set_calculation_props(9, 50, 35)
                    except ValueError:
                        pass
                elif act[0] == "calculate":
                    if act[1] == "parallel":
                        ret = psf.get_kernel_parallel(normalize_values=act[2])
                    else:
                        ret = psf.calculate_psf_kernel(suppress_warnings=rnd.random() < 0.5, normalized=act[2], verbose_info=rnd.random() < 0.4,
                                                       accelerated={"plain": False, "compiled": True, "default": None}[act[1]])
                    eng_of = act[1]
                elif act[0] == "crop":
                    part = rnd.choice([0.01, 0.2, 0.45])
                    kernel = crop_model(kernel, part) if kernel.shape[0] > 3 else kernel
                    psf.crop_kernel(part)
                    csize = kernel.shape[0]
                elif act[0] == "badcrop":
                    try:
                        psf.crop_kernel(rnd.choice([0.5, 0.0, -0.1, 1.0]))
                        ctx.violate("badcrop-accepted", case)
                    except ValueError:
                        pass
                elif act[1] == "convolve":
                    psf.convolute_img(np.arange(12.0).reshape(3, 4))
                elif act[1] == "plot":
                    if rnd.random() < 0.2:
                        psf.plot_kernel()
                        psf.visualize_convolution(radius=2.0)
                        plt.close("all")
                elif act[1] == "save":
                    psf.save_json(abs_path=outdir, overwrite=True)
            # size attribute
            if size == "unset":
                wsize = 1
            elif size == "est":
                wsize = estimated(kind, phys)
            elif size == "crop":
                wsize = csize
            else:
                wsize = int(size)
            if not ctx.expect(psf.kernel_size == wsize, "size", case, psf.kernel_size, wsize):
                return
            if act[0] == "calculate":
                want = reference(kind, phys, nodes, wsize, act[1])
                tol = 1e-9
                if kind == 0 and act[1] == "plain":
                    want, tol = _airy(PHYS[0].get(phys)), 1e-7
                    want = want(wsize)
                if act[2]:
                    want = want / want.max()
                ok = ret.shape == (wsize, wsize) and wsize % 2 == 1 and float(np.max(np.abs(ret - want))) < tol
                if not ctx.expect(ok, "calculated", case, ret, want):
                    return
                kernel = ret.copy()
                handed = (handed + [(ret, kernel)])[-6:]
            if not ctx.expect(all(np.array_equal(a, b) for a, b in handed), "handed-out", case):
                return
            ok = psf.kernel.shape == kernel.shape and np.array_equal(psf.kernel, kernel)
            if not ctx.expect(ok, "stored", {**case, "engine": eng_of}, psf.kernel, kernel):
                return
            want_nodes = NODES[nodes]
            if not ctx.expect((psf.n_int_r_points, psf.n_int_phi_points) == want_nodes, "nodes", case, (psf.n_int_r_points, psf.n_int_phi_points), want_nodes):
                return
            ctx.expect([p.get_mn_orders() for p in (psf.polynomials if psf.zernpol is None else [psf.zernpol])] == POLS[kind], "polynomials", case)
        ctx.notes["walk_%d" % kind] = len(walk)
    ctx.notes["estimated"] = {str(k): v for k, v in est.items()}
    # estimated size depends on the configuration only: arbitrary histories of configurations
    for _ in range(60 if not ctx.thorough else 1000):
        num = rnd.choice([1, 1, 2, 3])
        pool = [(m, n) for n in range(0, 8) for m in range(-n, n + 1, 2)]
        mns = rnd.sample(pool, num)
        ps = [ZernPol(m=m, n=n) for m, n in mns]

        def mk():
            return ZernPSF(ps[0]) if num == 1 else ZernPSF(ps)

        def cfg():
            wl, NA = rnd.uniform(0.3, 0.9), rnd.uniform(0.1, 1.7)
            cs = [rnd.uniform(-1.5, 1.5) * wl for _ in ps]
            return NA, wl, cs[0] if num == 1 else cs, 0.25 * wl / NA * rnd.uniform(0.1, 1.0)
        hist = [cfg() for _ in range(4)]
        old = mk()
        for h in hist:
            old.set_physical_props(*h)
            new = mk()
            new.set_physical_props(*h)
            ctx.traces += 1
            ctx.expect(old.kernel_size == new.kernel_size and new.kernel_size % 2 == 1 and new.kernel_size >= 3, "estimate-history", {"pols": mns, "history": hist}, old.kernel_size, new.kernel_size)
            if rnd.random() < 0.5:
                old.set_calculation_props(rnd.choice([3, 9, 101]), 20, 36)
    world(ctx, P, NODES, PHYS, POLS, airy_kernel)
    threads(ctx, P, NODES, PHYS, POLS, airy_kernel)
    ctx.sample({"edge": edges[50]})


def _airy(phys):
    NA, wl, _, pix = phys if phys else (1.0, 0.532, None, 0.98 * 0.25 * 0.532)
    return lambda size: airy_kernel(wl, NA, pix, size)
