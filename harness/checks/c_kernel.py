"""C19 (KernelCrop.tla) and C23 (Convolution.tla)."""
import random

import numpy as np


def small_psf():
    from zernpy import ZernPol, ZernPSF
    return ZernPSF(ZernPol(m=1, n=1))


def check_C19(ctx):
    rnd = random.Random(ctx.seed)
    rows = ctx.tlc("KernelCrop", {"Sizes": {1, 3, 5, 7, 9} if not ctx.thorough else {1, 3, 5, 7, 9, 11}}, workers=4, heap="6g",
                   invariants=["NothingLost", "Maximal", "OddCentred", "SmallKept", "MarksOnRing", "Emit"], min_rows=500).rows
    psf = small_psf()
    cuts = {}
    for r in rows:
        s = r["s"]
        for rep in range(2):
            # exact products: dyadic maxima and fractions, so that a cell equal to the threshold is equal in floating point too
            part = rnd.choice([0.125, 0.25, 0.375, 0.46875, 0.0078125])
            top = rnd.choice([1.0, 4.0, 0.5, 1024.0])
            thr = part * top
            mode = rnd.choice(["equal", "above", "mixed"])
            k = np.array([[thr * rnd.choice([0.0, 0.5, 0.999999, rnd.random() * 0.99]) for _ in range(s)] for _ in range(s)])
            for i, j in r["marks"]:
                k[i, j] = thr if mode == "equal" or (mode == "mixed" and rnd.random() < 0.5) else thr + (top - thr) * rnd.random()
            k[s // 2, s // 2] = top
            if r["marks"] and rnd.random() < 0.2:  # the maximum need not be at the centre
                i, j = rnd.choice(r["marks"])
                k[i, j] = top
                k[s // 2, s // 2] = top * rnd.uniform(0.5, 1)
            psf.kernel = k.copy()
            psf.kernel_size = s
            case = {"kernel": k, "part": part}
            if rep == 0 and rnd.random() < 0.1 and s > 3:
                bad = rnd.choice([0.0, -0.25, 0.5, 0.75, 1.0, 5.0])
                try:
                    psf.crop_kernel(bad)
                    ctx.violate("fraction-accepted", {**case, "part": bad})
                except ValueError:
                    pass
                ctx.expect(np.array_equal(psf.kernel, k) and psf.kernel_size == s, "rejected-unchanged", {**case, "part": bad})
            out = psf.crop_kernel(part) if rnd.random() < 0.5 else psf.crop_kernel(min_part_of_max=part)
            ctx.traces += 1
            c = r["cut"]
            cuts[c] = cuts.get(c, 0) + 1
            want = k[c:s - c, c:s - c]
            ctx.expect(out is None and psf.kernel.shape == want.shape and np.array_equal(psf.kernel, want) and psf.kernel_size == s - 2 * c, "cropped", case,
                       np.asarray(psf.kernel), want)
            # once more: nothing is left to remove
            psf.crop_kernel(part)
            ctx.expect(np.array_equal(psf.kernel, want) and psf.kernel_size == s - 2 * c, "idempotent", case)
    ctx.notes["rings_removed"] = cuts
    # default fraction 1 %
    k = np.full((5, 5), 0.5)
    k[0, :] = k[4, :] = k[:, 0] = k[:, 4] = 0.0099
    k[2, 2] = 1.0
    for v, size in ((0.0099, 3), (0.0101, 5)):
        k[4, 3] = v
        psf.kernel, psf.kernel_size = k.copy(), 5
        psf.crop_kernel()
        ctx.expect(psf.kernel.shape == (size, size), "default-part", {"border": v}, psf.kernel.shape)
    # calculated kernels: the model's rule on real data
    from zernpy import ZernPol, ZernPSF
    for mn, c in (((0, 4), 0.3), ((1, 3), -0.25), ((-2, 2), 0.4), ((3, 3), 0.2)):
        p = ZernPSF(ZernPol(m=mn[0], n=mn[1]))
        p.set_physical_props(1.2, 0.5, c, 0.1)
        p.set_calculation_props(25, 25, 40)
        full = p.calculate_psf_kernel(suppress_warnings=True, normalized=rnd.random() < 0.5).copy()
        for part in (0.01, 0.05, 0.2, 0.45):
            p.kernel, p.kernel_size = full.copy(), 25
            p.crop_kernel(part)
            s = 0
            while True:
                q = full[s:25 - s, s:25 - s]
                if max(q[0].max(), q[-1].max(), q[:, 0].max(), q[:, -1].max()) >= part * full.max():
                    break
                s += 1
            ctx.traces += 1
            ctx.expect(np.array_equal(p.kernel, q) and p.kernel_size == q.shape[0], "real-kernel", {"pol": mn, "part": part}, p.kernel.shape, q.shape)
    ctx.sample(rows[17])


def check_C23(ctx):
    rnd = random.Random(ctx.seed)
    lengths = {1, 2, 3, 4, 5, 6, 7, 9, 12, 17} if not ctx.thorough else set(range(1, 33))
    sizes = {1, 3, 5, 7, 9} if not ctx.thorough else {1, 3, 5, 7, 9, 15, 21}
    rows = ctx.tlc("Convolution", {"Lengths": lengths, "KernelSizes": sizes}, invariants=["InRange", "CentreTap", "Shift", "Reversal", "Conserve", "Emit"], min_rows=50).rows
    big = ctx.tlc("Convolution", {"Lengths": {11, 130, 257, 300}, "KernelSizes": {5, 21}}, invariants=["InRange", "CentreTap", "Emit"], min_rows=4).rows
    maps = {(r["n"], r["s"]): np.array(r["map"]) for r in rows + big}
    psf = small_psf()

    def want(img, k):
        mi, mj = maps[(img.shape[0], k.shape[0])], maps[(img.shape[1], k.shape[1])]
        x = img.astype(float)
        # out[i, j] = sum_{p, q} k[p, q] x[mi[i, p], mj[j, q]]
        g = x[mi[:, None, :, None], mj[None, :, None, :]]
        return np.einsum("ijpq,pq->ij", g, k) / k.sum()

    def one(img, k, scale, case):
        psf.kernel, psf.kernel_size = k.copy(), k.shape[0]
        snap, ksnap = img.copy(), k.copy()
        got = psf.convolute_img(img) if scale is None else psf.convolute_img(image=img, scale2original=scale)
        ctx.traces += 1
        w = want(img, k)
        if scale in (None, True) and w.max() != 0:
            w = w * (float(img.max()) / w.max())
        ctx.expect(np.array_equal(img, snap) and np.array_equal(psf.kernel, ksnap), "unchanged", case)
        ok = got.dtype == img.dtype and got.shape == img.shape
        ctx.expect(ok, "type-shape", case, [str(got.dtype), got.shape], [str(img.dtype), img.shape])
        if not ok:
            return
        if img.dtype.kind == "f":
            tol = (1e-10 if img.dtype == np.float64 else 1e-5) * max(1.0, float(img.max()))
            d = np.max(np.abs(got.astype(float) - w))
            ctx.expect(np.all(np.isfinite(got)) and d <= tol, "values", case, got, w)
        else:
            d = np.max(np.abs(got.astype(float) - w))
            ctx.expect(d <= 1.0 + 1e-9 * max(1.0, float(w.max())), "values", case, got, w)
        if scale in (None, True) and img.max() > 0:
            ctx.expect(abs(float(got.max()) - float(img.max())) <= (1.0 if img.dtype.kind != "f" else 1e-5 * float(img.max())), "maximum", case, got.max(), img.max())

    # basis: unit impulses in image and kernel (float images: exact shifts)
    for h, w, s in ((3, 4, 3), (2, 5, 3), (1, 3, 3), (4, 1, 5), (5, 5, 5), (2, 2, 5), (6, 4, 7)):
        for a in range(h):
            for b in range(w):
                for p in range(s):
                    for q in range(s):
                        if (h, w, s) == (6, 4, 7) and rnd.random() < 0.7:
                            continue
                        img, k = np.zeros((h, w)), np.zeros((s, s))
                        img[a, b], k[p, q] = 1.0, 1.0
                        one(img, k, False, {"shape": (h, w), "impulse": (a, b), "kernel": s, "tap": (p, q)})
    # arbitrary contents
    hs = sorted(lengths)
    for rep in range(1500 if not ctx.thorough else 20000):
        h, w, s = rnd.choice(hs), rnd.choice(hs), rnd.choice(sorted(sizes))
        dt = rnd.choice(["uint8", "uint16", "int32", "int64", "float32", "float64", "uint8", "float64"])
        top = {"uint8": 255, "uint16": 65535, "int32": 10 ** 6, "int64": 10 ** 6}.get(dt, 0)
        if top:
            top = rnd.choice([1, 7, top])
            img = np.array([[rnd.randint(0, top) for _ in range(w)] for _ in range(h)], dtype=dt)
        else:
            img = np.array([[rnd.choice([0.0, rnd.random(), 100 * rnd.random()]) for _ in range(w)] for _ in range(h)], dtype=dt)
        k = np.array([[rnd.choice([0.0, rnd.random()]) for _ in range(s)] for _ in range(s)])
        k[rnd.randrange(s), rnd.randrange(s)] = rnd.choice([1.0, 0.01, 30.0])
        if rnd.random() < 0.1:
            img[:] = rnd.choice([0, 1])
        if rnd.random() < 0.2 and img.flags.c_contiguous:
            img = np.asfortranarray(img)
        one(img, k, rnd.choice([None, True, False]), {"image": img, "dtype": dt, "kernel": k, "rep": rep})
    # larger images
    for h, w, s in ((130, 257, 5), (300, 130, 5), (257, 300, 5), (11, 300, 21), (130, 130, 21)) * (1 if not ctx.thorough else 5):
        dt = rnd.choice(["float64", "uint8", "uint16", "float32"])
        img = np.random.default_rng(rnd.randrange(10 ** 6)).integers(0, 255, (h, w)).astype(dt)
        k = np.array([[rnd.random() for _ in range(s)] for _ in range(s)])
        scale = rnd.choice([None, True, False])
        one(img, k, scale, {"shape": (h, w), "kernel": s, "dtype": dt, "scale": scale})
    # not two-dimensional
    psf.kernel = np.ones((3, 3))
    for shape in ((4,), (4, 4, 3), (1, 4, 4)):
        try:
            psf.convolute_img(np.ones(shape))
            ctx.violate("not-2d-accepted", {"shape": shape})
        except Exception:  # noqa
            pass
    # a calculated, asymmetric kernel
    from zernpy import ZernPol, ZernPSF
    p = ZernPSF(ZernPol(m=1, n=3))
    p.set_physical_props(0.9, 0.5, 0.3, 0.1)
    p.set_calculation_props(7, 25, 40)
    for nrm in (True, False):
        k = p.calculate_psf_kernel(suppress_warnings=True, normalized=nrm)
        psf = p
        img = np.array([[rnd.randint(0, 255) for _ in range(12)] for _ in range(9)], dtype="uint8")
        for scale in (True, False):
            got = p.convolute_img(img, scale)
            w = want(img, k)
            if scale:
                w *= img.max() / w.max()
            ctx.expect(np.max(np.abs(got.astype(float) - w)) <= 1.0 + 1e-9, "real-kernel", {"normalized": nrm, "scale": scale})
    ctx.sample({"map": rows[8]})
    ctx.assumptions.append("images with non-negative values (as the statement says)")
