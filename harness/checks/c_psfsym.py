"""C17: the group of KernelSym.tla applied to aberrations and kernels of the real code."""
import random

import numpy as np

from reference import all_orders


def check_C17(ctx):
    from zernpy import ZernPol, ZernPSF
    half = 2
    rows = ctx.tlc("KernelSym", {"MaxN": 10, "Half": half}, invariants=["Faithful", "Bijective", "Isometric", "EvenCentral", "CosMirror", "OddSineMirror", "Relations", "Emit"],
                   view="View", min_rows=16).rows
    nphis = [40, 48, 56]
    # quarter-turn invariance of the angular rule itself (otherwise the symmetry holds only up to the discretisation error)
    ctx.tlc("Quadrature", {"NRs": {20}, "NPhis": set(nphis)}, invariants=["Total", "Reflect", "Quarter", "HalfTurn", "Emit"], min_rows=4)
    elements = []
    for r in rows:
        terms = {t[0]: (t[1], t[2]) for t in r["terms"]}
        pix = {(p[0], p[1]): (p[2], p[3]) for p in r["pixels"]}
        elements.append((r["word"], terms, pix, set(r["fixed"])))
    ctx.notes["group_elements"] = len(elements)
    rnd = random.Random(ctx.seed)

    def kernel(aberration, cfg, accelerated, single_list=False):
        items = [((m, n), c) for (m, n), c in aberration]
        if len(items) == 1:
            (m, n), c = items[0]
            psf = ZernPSF(ZernPol(m=m, n=n))
            psf.set_physical_props(NA=cfg["NA"], wavelength=cfg["wl"], expansion_coeff=c, pixel_physical_size=cfg["pix"])
        else:
            psf = ZernPSF([ZernPol(m=m, n=n) for (m, n), _ in items])
            psf.set_physical_props(NA=cfg["NA"], wavelength=cfg["wl"], expansion_coeff=[c for _, c in items], pixel_physical_size=cfg["pix"])
        psf.set_calculation_props(cfg["size"], cfg["nr"], cfg["nphi"])
        return psf.calculate_psf_kernel(suppress_warnings=True, normalized=cfg["norm"], accelerated=accelerated)

    def act(g, aberration):
        out = []
        for (m, n), c in aberration:
            m2, s = g[1][m]
            out.append(((m2, n), s * c))
        return out

    def compare(aberration, cfg, elems, acc):
        base = kernel(aberration, cfg, acc)
        h = cfg["size"] // 2
        case0 = {"aberration": aberration, "cfg": cfg, "accelerated": acc}
        if not ctx.expect(base.shape == (cfg["size"],) * 2, "shape", case0, base.shape):
            return
        for g in elems:
            img = act(g, aberration)
            same = sorted(img) == sorted(aberration)
            other = base if same else kernel(img, cfg, acc)
            worst, where = 0.0, None
            for i in range(-h, h + 1):
                for j in range(-h, h + 1):
                    a, b = g[2][(i, j)]
                    d = abs(other[a + h, b + h] - base[i + h, j + h])
                    if d > worst:
                        worst, where = d, (i, j)
            ctx.traces += 1
            ctx.expect(worst <= 1e-9 * max(1.0, float(base.max())), "equivariance", {**case0, "element": g[0], "fixed": same, "pixel": where}, worst)

    def config(size, norm):
        wl = round(rnd.uniform(0.4, 0.7), 3)
        NA = round(rnd.uniform(0.2, 1.5), 2)
        return {"NA": NA, "wl": wl, "pix": 0.25 * wl / NA * rnd.uniform(0.6, 0.99), "size": size, "nr": 20, "nphi": rnd.choice(nphis), "norm": norm}

    # generators on every polynomial; all 16 elements on a seeded subset and on combinations
    gens = [g for g in elements if len(g[0]) == 1 or (g[1][1] == (1, -1) and g[1][2] == (2, 1)) or (g[1][-1] == (-1, 1) and g[2][(1, 0)] == (1, 0))]
    for (m, n) in all_orders(10):
        cfg = config(3, rnd.random() < 0.3)
        c = rnd.choice([-1, 1]) * rnd.uniform(0.2, 0.8)
        full = ctx.thorough or rnd.random() < 0.1
        compare([((m, n), c)], cfg, elements if full else gens, False)
        compare([((m, n), c)], {**cfg, "size": 5}, elements, True)
    for _ in range(40 if ctx.thorough else 8):
        pols = rnd.sample(all_orders(6 if not ctx.thorough else 10), 3)
        ab = [(p, rnd.choice([-1, 1]) * rnd.uniform(0.1, 0.5)) for p in pols]
        # members of a pair must not collide with images of others: the group maps (m, n) to (+-m, n)
        if len({(abs(m), n) for (m, n) in pols}) < 3:
            continue
        compare(ab, config(3, False), elements, False)
        compare(ab, config(5, rnd.random() < 0.5), elements, True)
    # larger kernels: pixels of the whole kernel move as those near the centre (the group is generated by the maps of rows and columns)
    large = ctx.tlc("KernelSym", {"MaxN": 10, "Half": 8}, invariants=["Bijective", "Isometric", "Relations", "Emit"], view="View", min_rows=16).rows
    wide = [(r["word"], {t[0]: (t[1], t[2]) for t in r["terms"]}, {(p[0], p[1]): (p[2], p[3]) for p in r["pixels"]}, set(r["fixed"])) for r in large]
    moving = [g for g in wide if len(g[0]) in (1, 2)]
    sets = [[(-2, 2), (0, 2)], [(0, 4), (2, 2)], [(1, 1), (-2, 4), (0, 2)], [(-1, 3)], [(2, 4)], [(0, 2)], [(3, 3), (1, 3)], [(-1, 1), (-2, 2), (-3, 3)]]
    for pols in sets:
        ab = [(p, rnd.choice([-1, 1]) * rnd.uniform(0.1, 0.4)) for p in pols]
        size = rnd.choice([15, 17])
        cfg = {**config(size, rnd.random() < 0.5), "nr": 20, "nphi": 40}
        compare(ab, cfg, moving if ctx.thorough else rnd.sample(moving, 3), True)
        compare(ab, cfg, moving if ctx.thorough else [g for g in moving if g[0] == ["r"]] + rnd.sample(moving, 1), False)
    ctx.sample({"element": elements[3][0], "terms": {str(k): v for k, v in list(elements[3][1].items())[:6]}})
    ctx.assumptions.append("numbers of angular intervals divisible by 8, for which the Simpson rule itself has the symmetry of the square (decided by TLC)")
