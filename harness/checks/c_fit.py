"""C11 (FitModel.tla) and C12 (CropGeom.tla): fitting of vectors and images."""
import itertools
import math
import random
import warnings

import numpy as np

from reference import Ref, angular, norm


def attempt(fn, *a, **k):
    try:
        return "ok", fn(*a, **k)
    except Exception as e:  # noqa
        return type(e).__name__, None


def osa_orders(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    return 2 * j - n * (n + 2), n


def check_C11(ctx):
    from zernpy import ZernPol, fit_polynomials_vectors
    ref = Ref(ctx, 14, 8)
    ids = {0, 1, 2, 3, 4, 5, 7, 8, 12, 14, 18, 24}
    rows = ctx.tlc("FitModel", {"Ids": ids, "MaxLen": 3}, invariants=["RepeatDependent", "FieldOK", "GridOrder", "Emit"], min_rows=100, heap="4g", view="View").rows
    rows += ctx.tlc("FitModel", {"Ids": {4, 3, 7, 12, 1}, "MaxLen": 5 if ctx.thorough else 4}, invariants=["RepeatDependent", "Emit"], min_rows=100, heap="4g", view="View").rows
    rnd = random.Random(ctx.seed)
    # a polynomial above the direct formulas (order 13) joins some sequences in the replay
    stat = {}
    n_ill = 0
    for r in rows:
        if not ctx.thorough and len(r["seq"]) == 3 and rnd.random() < 0.3:
            continue
        if len(r["seq"]) == 5 and r["out"] == "ValueError" and rnd.random() < 0.9:
            continue
        stat[r["out"]] = stat.get(r["out"], 0) + 1
        mns = [osa_orders(j) for j in r["seq"]]
        pols = tuple(ZernPol(m=m, n=n) for m, n in mns)
        rad = np.array(r["r"]) / float(r["den"])
        ang = np.array(r["t"]) * np.pi / 12.0
        if r["paired"]:
            R, T = rad, ang
        else:
            R, T = np.repeat(rad, len(ang)), np.tile(ang, len(rad))
        A = np.array([norm(m, n) * ref.radial(m, n, R) * angular(m, T) for m, n in mns]).T if mns else np.zeros((len(R), 0))
        digits = rnd.choice([4, 4, 2, 6, 0, 8])
        unit = rnd.choice([1.0, 1.0, 1.0, 50.0, 1e-3])
        amps = unit * np.array([rnd.choice([0.0, 1.0, -1.5, rnd.uniform(-2, 2)]) for _ in mns])
        if unit < 1.0:
            digits = rnd.choice([4, 6, 8])
        ph = A @ amps if mns else np.ones(len(R))
        case = {"pols": mns, "r": r["r"], "theta15": r["t"], "amplitudes": amps.tolist(), "digits": digits}
        snap = (ph.copy(), rad.copy(), ang.copy())
        kw = {} if digits == 4 and rnd.random() < 0.5 else {"round_digits": digits}
        out, got = attempt(fit_polynomials_vectors, pols, ph, rad, ang, **kw)
        ctx.traces += 1
        if r["out"] == "ValueError":
            ctx.expect(out == "ValueError", "rejection", case, out, "ValueError")
            continue
        if not ctx.expect(out == "ok", "accepted", case, out, "ok"):
            continue
        ctx.expect(all(np.array_equal(a, b) for a, b in zip(snap, (ph, rad, ang))), "inputs-unchanged", case)
        if r["out"] != "unique":
            continue
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-10 * sv[0]:
            continue
        n_ill += sv[-1] < 1e-2 * sv[0]
        cond = sv[0] / sv[-1]
        ok = np.shape(got) == (len(mns),) and np.all(np.abs(np.asarray(got) - amps) <= 0.5 * 10.0 ** -digits + unit * (1e-9 + 1e-13 * cond))
        ctx.expect(ok, "recovery", case, got, amps)
        sc = np.asarray(got) * 10.0 ** digits
        ctx.expect(np.all(np.abs(sc - np.round(sc)) < 1e-6), "rounded", case, got)
        if rnd.random() < 0.3:
            # arbitrary phases: linear in the phases, residual orthogonal to every polynomial (least squares)
            x, y = np.array([rnd.uniform(-1, 1) for _ in R]), np.array([rnd.uniform(-1, 1) for _ in R])
            fx, fy, fxy = (fit_polynomials_vectors(pols, v, rad, ang, round_digits=12) for v in (x, y, 2.0 * x - y))
            k = 1e-8 * cond
            ctx.expect(np.all(np.abs(2 * fx - fy - fxy) < k), "linear", case)
            res = A.T @ (x - A @ fx)
            ctx.expect(np.all(np.abs(res) < 1e-7 * max(1, sv[0] ** 2) + 1e-11 * cond), "least-squares", case, res)
    ctx.notes["outcomes"] = stat
    ctx.notes["badly conditioned"] = int(n_ill)
    ctx.sample({"row": rows[len(rows) // 2]})
    # many polynomials on a part of the pupil: the full rank, weak directions (unique solution, still well above the rounding of float numbers)
    for _ in range(6 if not ctx.thorough else 60):
        top = rnd.choice([3, 4, 5])
        mns = [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)]
        rnd.shuffle(mns)
        lo, hi = rnd.choice([(0.0, 0.2), (0.0, 0.35), (0.01, 0.5), (0.8, 1.0), (0.0, 1.0)])
        rad, ang = np.linspace(lo, hi, 20), np.linspace(0, 6.2, 30)
        if rnd.random() < 0.3:
            ang = np.linspace(0.5, 2.5, 30)
        R, T = np.repeat(rad, len(ang)), np.tile(ang, len(rad))
        A = np.array([ref.value(m, n, R, T) for m, n in mns]).T
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-8 * sv[0]:
            continue
        amps = np.round([rnd.uniform(-1, 1) for _ in mns], 3)
        got = fit_polynomials_vectors(tuple(ZernPol(m=m, n=n) for m, n in mns), A @ amps, rad, ang, round_digits=8)
        ctx.traces += 1
        ctx.expect(np.all(np.abs(got - amps) <= 1e-8 + 1e-13 * sv[0] / sv[-1]), "recovery-aperture", {"pols": mns, "radii": [lo, hi], "condition": sv[0] / sv[-1]}, got, amps)
    # high orders in the same fit
    for _ in range(4 if not ctx.thorough else 30):
        mns = rnd.sample([(m, n) for n in range(15) for m in range(-n, n + 1, 2)], 8)
        rad, ang = np.linspace(0, 1, 24), np.linspace(0, 2 * np.pi, 41)
        R, T = np.repeat(rad, len(ang)), np.tile(ang, len(rad))
        amps = np.round(np.array([rnd.uniform(-1.5, 1.5) for _ in mns]), 4)
        A = np.array([norm(m, n) * np.array([float(ref.radial_exact(m, n, x)[0]) for x in rad]).repeat(len(ang)) * angular(m, T) for m, n in mns]).T
        pols = tuple(ZernPol(m=m, n=n) for m, n in mns)
        for a, b in ((rad, ang), (R, T)):
            got = fit_polynomials_vectors(pols, A @ amps, a, b)
            ctx.traces += 1
            ctx.expect(np.all(np.abs(got - amps) < 1e-7), "recovery-high", {"pols": mns, "paired": a is R}, got, amps)
    # all polynomials up to a high order in one fit: every two of them are distinct (accepted), the fit is the inverse of the composition;
    # one of them repeated anywhere: rejected
    top = 40 if ctx.thorough else 36
    mns = [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)]
    rnd.shuffle(mns)
    pols = tuple(ZernPol(m=m, n=n) for m, n in mns)
    rad, ang = np.sqrt((np.polynomial.legendre.leggauss(top // 2 + 3)[0] + 1) / 2), np.arange(2 * top + 3) * 2 * np.pi / (2 * top + 3)
    R, T = np.repeat(rad, len(ang)), np.tile(ang, len(rad))
    amps = np.round([rnd.uniform(-1.5, 1.5) for _ in mns], 3)
    ph = np.zeros(len(R))
    for z, c in zip(pols, amps):
        ph += c * z.polynomial_value(R, T)
    out, got = attempt(fit_polynomials_vectors, pols, ph, rad, ang)
    ctx.traces += 1
    if ctx.expect(out == "ok", "accepted-all", {"top": top, "n_pols": len(pols)}, out, "ok"):
        ctx.expect(np.all(np.abs(got - amps) < 1e-3), "recovery-all", {"top": top}, float(np.max(np.abs(got - amps))), 0.0)
    for _ in range(6):
        i, j = rnd.randrange(len(pols)), rnd.randrange(len(pols) + 1)
        rep = pols[:j] + (ZernPol(osa=int(pols[i].get_indices()[1])),) + pols[j:]
        out, _v = attempt(fit_polynomials_vectors, rep, ph, rad, ang)
        ctx.traces += 1
        ctx.expect(out == "ValueError", "rejection-repeated", {"pol": mns[i], "places": [i, j]}, out, "ValueError")
    for _ in range(400 if not ctx.thorough else 6000):
        # two polynomials related in some respect are still two
        m, n = rnd.choice(mns)
        m2, n2 = rnd.choice([(-m, n), (m, rnd.choice([q for q in range(abs(m), top + 1, 2)])), (rnd.randrange(-n, n + 1, 2), n), rnd.choice(mns)])
        rr, tt = np.array([0.3, 0.55, 0.8, 0.9, 1.0]), np.array([0.2, 1.1, 2.6, 4.0, 5.9])
        out, _v = attempt(fit_polynomials_vectors, (ZernPol(m=m, n=n), ZernPol(m=m2, n=n2)), rr, rr, tt)
        want = "ValueError" if (m, n) == (m2, n2) else "ok"
        ctx.traces += 1
        ctx.expect(out == want, "pairs", {"pols": [(m, n), (m2, n2)]}, out, want)
    # not vectors
    p = (ZernPol(osa=1), ZernPol(osa=4))
    v, m2 = np.linspace(0, 1, 6), np.zeros((2, 3))
    for args in ((m2, v, v), (v, m2, v), (v, v, m2)):
        out, _ = attempt(fit_polynomials_vectors, p, *args)
        ctx.expect(out in ("TypeError", "AttributeError", "ValueError"), "not-1d", {"shapes": [a.shape for a in args]}, out)


def check_C12(ctx):
    from zernpy import ZernPol, fit_polynomials
    ref = Ref(ctx, 6, 6)
    top = 12 if not ctx.thorough else 20
    rows = ctx.tlc("CropGeom", {"Sizes": set(range(2, top + 1)), "Crops": {499, 500, 613, 800, 947, 1000, 1001}},
                   invariants=["Symmetric", "SquareTranspose", "NotEmpty", "CentreIn", "TouchesBorder", "Emit"], min_rows=100, heap="4g").rows
    rnd = random.Random(ctx.seed)
    pols_all = [(m, n) for n in range(4) for m in range(-n, n + 1, 2)]
    n_rec = n_und = 0
    for r in rows:
        h, w = r["h"], r["w"]
        img = np.array([[rnd.choice([-1, 1]) * rnd.uniform(1.0, 9.0) for _ in range(w)] for _ in range(h)])
        case = {"h": h, "w": w, "crop": r["crop"] / 1000.0, "strict": r["strict"]}
        sup = rnd.random() < 0.5
        kw = dict(crop_radius=r["crop"] / 1000.0, strict_circle_border=r["strict"], suppress_warnings=sup)
        if r["crop"] == 1000 and rnd.random() < 0.3:
            kw.pop("crop_radius")
        piston = (ZernPol(osa=0),)
        snap = img.copy()
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            out, got = attempt(fit_polynomials, img, piston, return_cropped_image=True, **kw)
        ctx.traces += 1
        if not r["ok"]:
            ctx.expect(out == "ValueError", "rejection", case, out, "ValueError")
            continue
        if not ctx.expect(out == "ok", "accepted", case, out):
            continue
        ctx.expect((len(wl) > 0) == (r["warn"] and not sup), "warnings", {**case, "suppressed": sup}, len(wl), r["warn"])
        ctx.expect(np.array_equal(img, snap), "image-unchanged", case)
        coef, cropped = got
        inn = {tuple(p) for p in r["inn"]}
        und = {tuple(p) for p in r["und"]}
        n_und += len(und)
        okm = np.shape(cropped) == (h, w)
        if okm:
            for i in range(h):
                for j in range(w):
                    v = cropped[i, j]
                    if (i, j) in inn:
                        okm = okm and v == img[i, j]
                    elif (i, j) not in und:
                        okm = okm and v == 0.0
                    else:
                        okm = okm and v in (0.0, img[i, j])
        ctx.expect(okm, "mask", case, np.asarray(cropped) != 0)
        if und or not okm:
            continue
        # the mean over exactly these pixels is the piston
        mean = np.mean([img[p] for p in inn])
        ctx.expect(abs(coef[0] - mean) < 1e-3, "piston", case, coef[0], mean)
        if rnd.random() < 0.5:      # the phases count in full precision whatever their offset or type is
            off = rnd.choice([1e6, -1e6, 3e7, 2.0 ** 31])
            typ = rnd.choice(["float64", "float64", "int64", "uint8", "int16", "int32"])
            im3 = (img + off) if typ == "float64" else np.array([[rnd.randint(int(off) - 20, int(off) + 20) if typ == "int64" else rnd.randint(0, 255) if typ == "uint8" else
                   rnd.randint(-32000, 32000) if typ == "int16" else rnd.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(w)] for _ in range(h)], dtype=typ)
            mean = math.fsum(float(im3[p]) for p in inn) / len(inn)
            out, got = attempt(fit_polynomials, im3, piston, return_cropped_image=True, round_digits=6, **{**kw, "suppress_warnings": True})
            big = max(1.0, abs(mean), float(np.max(np.abs(im3.astype(float)))))
            ctx.expect(out == "ok" and abs(got[0][0] - mean) < 1e-6 + 1e-12 * big, "piston-precise", {**case, "offset": off, "type": typ}, got[0] if out == "ok" else out, mean)
            if out == "ok":
                ctx.expect(all(got[1][p] == im3[p] for p in inn), "mask-precise", {**case, "offset": off, "type": typ})
        if rnd.random() < 0.3:      # any layout of the image in memory, anything outside of the circle
            name, view = rnd.choice([("Fortran", np.asfortranarray(img)), ("transposed", img.T.copy().T), ("reversed", img[::-1, ::-1].copy()[::-1, ::-1]),
                                     ("strided", np.repeat(np.repeat(img, 2, 0), 3, 1)[::2, ::3])])
            free = rnd.choice([None, np.nan, np.inf])
            if free is not None:
                for p in np.ndindex(h, w):
                    if p not in inn and p not in und:
                        view[p] = free
            view.flags.writeable = False
            out, got = attempt(fit_polynomials, view, piston, return_cropped_image=True, **{**kw, "suppress_warnings": True})
            same = out == "ok" and got[0].shape == coef.shape and abs(got[0][0] - coef[0]) < 1e-6 and all(got[1][p] == (img[p] if p in inn else 0.0) for p in np.ndindex(h, w) if p not in und)
            ctx.expect(same, "layout", {**case, "layout": name, "outside": free}, got[0] if out == "ok" else out, coef)
        out2, got2 = attempt(fit_polynomials, img, piston, **{**kw, "suppress_warnings": True})
        ctx.expect(out2 == "ok" and got2[1] is None and np.array_equal(got2[0], coef), "no-image-requested", case)
        # amplitudes composed on the geometry of the specification
        ins = sorted(inn)
        D = np.array([(2 * i - (h - 1)) ** 2 + (2 * j - (w - 1)) ** 2 for i, j in ins], dtype=float)
        R = np.sqrt(D / r["unit"])
        T = np.array([math.atan2(-(2 * i - (h - 1)), 2 * j - (w - 1)) % (2 * math.pi) for i, j in ins])
        k = min(6, max(2, len(ins) // 5))
        mns = rnd.sample(pols_all, k)
        A = np.array([ref.value(m, n, R, T) for m, n in mns]).T
        sv = np.linalg.svd(A, compute_uv=False)
        if len(ins) < k or sv[-1] < 0.15 * sv[0]:
            continue
        amps = np.round([rnd.uniform(-1, 1) for _ in mns], 3)
        img2 = np.full((h, w), 1e3)     # pixels outside must not matter
        for (i, j), v in zip(ins, A @ amps):
            img2[i, j] = v
        out, got = attempt(fit_polynomials, img2, tuple(ZernPol(m=m, n=n) for m, n in mns), return_cropped_image=False, **{**kw, "suppress_warnings": True})
        n_rec += 1
        ctx.expect(out == "ok" and np.shape(got[0]) == (k,) and np.all(np.abs(got[0] - amps) < 3e-3), "recovery", {**case, "pols": mns, "amps": amps}, got[0] if out == "ok" else out, amps)
        if rnd.random() < 0.1:
            out, got3 = attempt(fit_polynomials, img2, tuple(ZernPol(m=m, n=n) for m, n in mns), round_digits=1, **{**kw, "suppress_warnings": True})
            ctx.expect(out == "ok" and np.allclose(got3[0], got[0], rtol=0, atol=0.0501) and np.allclose(got3[0] * 10, np.round(got3[0] * 10), atol=1e-9), "round-digits", case)
    large_crops(ctx, ref, rnd)
    ctx.notes.update({"recoveries": n_rec, "undecided_pixels": n_und})
    ctx.sample({"h": rows[7]["h"], "w": rows[7]["w"], "inside": len(rows[7]["inn"])})
    # other rejections
    p1 = (ZernPol(osa=0), ZernPol(osa=4))
    img = np.ones((7, 7))
    bad = [((np.ones(49), p1), {}), ((np.ones((7, 7, 2)), p1), {}), (([[1.0] * 7] * 7, p1), {}), ((img, ()), {}), ((img, (ZernPol(osa=4), ZernPol(m=0, n=2))), {}),
           ((img, p1), {"crop_radius": 0.0}), ((img, p1), {"crop_radius": -0.7}), ((img, p1), {"crop_radius": 1.5}), ((img, p1), {"crop_radius": 2}),
           ((np.ones((2, 9)), p1), {}), ((np.ones((9, 1)), p1), {})]
    for a, k in bad:
        out, _ = attempt(fit_polynomials, *a, suppress_warnings=True, **k)
        ctx.expect(out == "ValueError", "rejection", {"shape": np.shape(a[0]), "n_pols": len(a[1]), **k}, out, "ValueError")
    # integer images
    for dt in ("uint8", "int16", "float32"):
        got = fit_polynomials(np.full((9, 9), 7, dtype=dt), p1)
        ctx.expect(np.all(np.abs(np.asarray(got[0]) - [7, 0]) < 2e-3), "integer-image", {"dtype": dt}, got[0])


def large_crops(ctx, ref, rnd):
    """Large images: rows of CropLines.tla."""
    from zernpy import ZernPol, fit_polynomials
    shapes = [(367, 367), (130, 131), (141, 280)] + ([(258, 256), (513, 513), (701, 60), (640, 480)] if ctx.thorough else [])
    rows = ctx.tlc("CropLines", {"Sizes": {3}, "Shapes": set(shapes), "Crops": {800, 1000} if not ctx.thorough else {500, 800, 947, 1000}}, init="LInit", next_="LNext",
                   invariants=["Interval", "OpenInterval", "Nested", "Mirror", "LEmit"], min_rows=500).rows
    images = {}
    for r in rows:
        images.setdefault((r["h"], r["w"], r["crop"], r["strict"]), []).append(r)
    pols = [(0, 0), (1, 1), (-1, 1), (0, 2), (2, 2), (-1, 3)]
    for (h, w, crop, strict), lines in sorted(images.items()):
        if not ctx.thorough and crop == 1000 and h != w and not strict:
            continue
        inn, opened = np.zeros((h, w), bool), np.zeros((h, w), bool)
        for r in lines:
            a, b = r["span"]
            if a != -1:
                inn[r["row"], a:w - a] = True
            if b != -1:
                opened[r["row"], b:w - b] = True
        i, j = np.nonzero(opened)
        y, x = -(2.0 * i - (h - 1)), 2.0 * j - (w - 1)
        R, T = np.sqrt(x * x + y * y) / lines[0]["R2"], np.arctan2(y, x) % (2.0 * np.pi)
        exact = crop < 1000     # no division by the largest radius
        amps = np.round([rnd.uniform(-1, 1) for _ in pols], 3) if exact else [rnd.uniform(-3, 3)]
        img = np.full((h, w), 50.0)
        img[i, j] = sum(c * ref.value(m, n, np.minimum(R, 1.0), T) for c, (m, n) in zip(amps, pols))
        snap = img.copy()
        kw = dict(crop_radius=crop / 1000.0, strict_circle_border=strict, suppress_warnings=True, return_cropped_image=True)
        coef, cropped = fit_polynomials(img, tuple(ZernPol(m=m, n=n) for m, n in pols[:len(amps)]), **kw)
        case = {"h": h, "w": w, "crop": crop / 1000.0, "strict": strict}
        ctx.traces += 1
        ctx.expect(np.array_equal(img, snap), "image-unchanged", case)
        ok = np.shape(cropped) == (h, w) and np.array_equal(cropped[inn], img[inn]) and not np.any(cropped[~opened])
        ctx.expect(ok, "large-mask", case, np.argwhere((cropped != 0) & ~opened)[:3].tolist(), np.argwhere((cropped == 0) & inn & (img != 0))[:3].tolist())
        ctx.expect(np.all(np.abs(coef - amps) < 3e-3), "large-recovery", {**case, "amps": amps}, coef)
