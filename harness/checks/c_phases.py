"""C13: generated phase images (PhaseGeom.tla)."""
import math
import random

import numpy as np

from reference import Ref, angular, norm


def image_model(rows, ref, mns, amps, cache):
    """Image from the rows (lines) of the specification."""
    h, w, R = rows[0]["h"], rows[0]["w"], rows[0]["R"]
    img = np.zeros((h, w))
    inside = np.zeros((h, w), dtype=bool)
    for r in rows:
        for j, c in enumerate(r["line"]):
            if c:
                inside[r["row"], j] = True
    ii, jj = np.nonzero(inside)
    off = {(r["row"], j): c for r in rows for j, c in enumerate(r["line"]) if c}
    u = np.array([off[(i, j)][0] for i, j in zip(ii, jj)], dtype=float)
    v = np.array([off[(i, j)][1] for i, j in zip(ii, jj)], dtype=float)
    rad, th = np.sqrt(u * u + v * v) / R, np.arctan2(u, v) % (2 * math.pi)
    tot = np.zeros(len(u))
    for (m, n), a in zip(mns, amps):
        if a != 0.0:
            if n <= 12:
                rv = ref.radial(m, n, rad)
            else:
                rv = np.array([float(ref.radial_exact(m, n, float(x))[0]) for x in rad])
            tot += a * norm(m, n) * rv * angular(m, th)
    img[ii, jj] = tot
    return img, inside


def check_C13(ctx):
    from zernpy import ZernPol, generate_phases_image, generate_random_phases
    ref = Ref(ctx, 14, 8)
    sizes = set(range(1, 10)) | ({15, 20} if not ctx.thorough else {14, 15, 20, 31})
    rows = ctx.tlc("PhaseGeom", {"Sizes": sizes}, invariants=["InDisk", "Convex", "CentreIn", "Emit"], min_rows=50).rows
    imgs = {}
    for r in rows:
        imgs.setdefault((r["h"], r["w"]), []).append(r)
    rnd = random.Random(ctx.seed)
    allp = [(m, n) for n in range(9) for m in range(-n, n + 1, 2)] + [(0, 12), (-3, 13)]
    for (h, w), lines in sorted(imgs.items()):
        for rep in range(2 if not ctx.thorough else 8):
            mns = [(0, 0), (1, 1)] if rep == 0 else rnd.sample(allp, rnd.randint(1, 4))
            rnd.shuffle(mns)
            amps = [rnd.choice([0.0, 1.0, -0.5, rnd.uniform(-1.5, 1.5)]) for _ in mns]
            want, inside = image_model(lines, ref, mns, amps, None)
            pols = tuple(ZernPol(m=m, n=n) for m, n in mns)
            case = {"h": h, "w": w, "pols": mns, "amps": amps}
            pa = tuple(amps) if rnd.random() < 0.5 else list(amps)
            got = generate_phases_image(pols, pa, img_width=w, img_height=h)
            ctx.traces += 1
            if not ctx.expect(isinstance(got, np.ndarray) and got.shape == (h, w), "shape", case, np.shape(got), (h, w)):
                continue
            ctx.expect(np.all(got[~inside] == 0.0), "background", case)
            dev = np.abs(got - want)
            ctx.expect(dev.max() < 1e-9, "pixels", {**case, "worst": np.unravel_index(np.argmax(dev), dev.shape)}, float(dev.max()))
    large = {}      # larger images, and the one that is generated by default
    for some in ({64, 97, 200}, {513}) if not ctx.thorough else ({64, 97, 128, 200}, {255, 256, 257}, {513}):
        for r in ctx.tlc("PhaseGeom", {"Sizes": some}, invariants=["InDisk", "CentreIn", "Emit"], min_rows=50).rows:
            large.setdefault((r["h"], r["w"]), []).append(r)
    for (h, w), lines in sorted(large.items()):
        mns, amps = [(0, 0), rnd.choice([(2, 2), (-1, 3), (0, 4)]), rnd.choice([(1, 1), (-4, 6), (3, 7)])], [0.75, -1.25, rnd.choice([0.5, -0.1])]
        want, inside = image_model(lines, ref, mns, amps, None)
        case = {"h": h, "w": w, "pols": mns, "amps": amps}
        ctx.traces += 1
        got = generate_phases_image(tuple(ZernPol(m=m, n=n) for m, n in mns), tuple(amps), **({} if h == w == 513 else {"img_width": w, "img_height": h}))
        if ctx.expect(np.shape(got) == (h, w), "shape", case, np.shape(got), (h, w)):
            ctx.expect(np.all(got[~inside] == 0.0) and np.max(np.abs(got - want)) < 1e-9, "large-image", case)
    random.seed(ctx.seed)
    img, amps, pols = generate_random_phases()
    want, inside = image_model(large[(513, 513)], ref, [tuple(p.get_mn_orders()) for p in pols], list(amps), None)
    ctx.expect(len(pols) == 15 and img.shape == want.shape and np.all(img[~inside] == 0.0) and np.max(np.abs(img - want)) < 1e-9, "random-default", {"shape": img.shape})
    ctx.sample({"images": len(imgs) + len(large), "sizes": sorted(sizes)})
    # random generation: consistent with what is returned, for every state of the random generator
    n_seeds = 60 if not ctx.thorough else 600
    few = [k for k in imgs if max(k) <= 9]
    sig = 0
    for s in range(n_seeds):
        order = [0, 1, 2, 3, 4, 5, 8, 9][s % 8]
        h, w = few[rnd.randrange(len(few))]
        random.seed(ctx.seed * 1000 + s)
        np.random.seed(s)
        digits = rnd.choice([4, 4, 2, 1, 0])
        kw = {} if digits == 4 else {"round_digits": digits}
        img, amps, pols = generate_random_phases(max_order=order, img_width=w, img_height=h, **kw)
        case = {"seed": s, "max_order": order, "h": h, "w": w, "digits": digits}
        mns = [tuple(p.get_mn_orders()) for p in pols]
        ctx.traces += 1
        ctx.expect(mns == [(m, n) for n in range(order + 1) for m in range(-n, n + 1, 2)], "polynomials", case, mns)
        ctx.expect(isinstance(pols, tuple) and np.shape(amps) == (len(mns),), "types", case)
        ctx.expect(np.max(np.abs(amps)) >= 0.08 and np.max(np.abs(amps)) <= (1.5 if digits else 2.0), "amplitudes", case, amps)
        ctx.expect(np.all(np.abs(amps - np.round(amps, digits)) < 1e-12), "rounded", case, amps)
        sig += int(np.count_nonzero(amps))
        want, inside = image_model(imgs[(h, w)], ref, mns, list(amps), None)
        ctx.expect(img.shape == (h, w) and np.all(img[~inside] == 0.0) and np.max(np.abs(img - want)) < 1e-9, "random-image", case, amps)
    ctx.notes["random_generations"] = n_seeds
    ctx.notes["non_zero_amplitudes"] = sig
