"""C26 (DiskGeom.tla): the sample disk and its convolution, as shown by ZernPSF.visualize_convolution."""
import random
import warnings

import numpy as np

LOW = 0.75        # the intensity inside of the disk is at least this part of the maximum


def check_C26(ctx):
    import matplotlib.pyplot as plt
    from zernpy import ZernPol, ZernPSF
    rnd = random.Random(ctx.seed + 26)
    top = 14 if ctx.thorough else 8
    radii = set(range(16, 16 * top + 1, 8 if ctx.thorough else 16)) | {4, 8, 24, 40, 56, 72, 88, 15, 31, 47, 63, 79} | {rnd.randint(1, 16 * top) for _ in range(60 if ctx.thorough else 20)}
    rows = ctx.tlc("DiskGeom", {"Radii": radii}, spec="Spec", workers=4, properties=["Terminates"], min_rows=len(radii),
                   invariants=["Outwards", "CentreFull", "Frame", "Diameter", "Emit"]).rows
    # large disks (the comparison of all pairs of classes takes too long for them)
    large = {rnd.randint(15 * 16, 20 * 16), rnd.randint(20 * 16, 32 * 16), rnd.choice([32, 33, 40, 48]) * 16} | (set() if not ctx.thorough else {64 * 16, 65 * 16 + 8, 100 * 16, 128 * 16})
    rows += ctx.tlc("DiskGeom", {"Radii": large}, spec="Spec", workers=4, properties=["Terminates"], min_rows=len(large), invariants=["CentreFull", "Frame", "Diameter", "Emit"]).rows
    psfs = []
    for mns, cs in (([(-1, 3)], 0.07), ([(1, 3), (-2, 2)], [0.06, -0.04])):
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        psf = ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(ps)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            psf.set_physical_props(0.2, 0.5, cs, 0.5)
            psf.set_calculation_props(5, 20, 36)
            psf.calculate_psf_kernel(accelerated=False)
        psfs.append(psf)
    kernels = [p.kernel.copy() for p in psfs]
    defaults = 0
    for row in rows:
        r, half = row["q"] / 16.0, row["half"]
        classes = {i * i + j * j: c for i, col in enumerate(row["cols"]) for j, c in enumerate(col)}
        levels = [255, rnd.choice([1, 2, 100, 254]), rnd.choice([256, 1000, 4095, 65535])]
        for level in levels if ctx.thorough else rnd.sample(levels, 2):
            k = rnd.randrange(len(psfs))
            psf = psfs[k]
            case = {"radius": r, "max_intensity": level}
            plt.close("all")
            args = {"radius": r, "max_intensity": level}
            if level == 255 and rnd.random() < 0.5:
                del args["max_intensity"]
            if r == 4.0 and rnd.random() < 0.7:
                del args["radius"]
                defaults += 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if rnd.random() < 0.3 and "radius" in args and "max_intensity" in args:
                    psf.visualize_convolution(r, level)
                else:
                    psf.visualize_convolution(**args)
            ims = [[im for ax in plt.figure(i).axes for im in ax.images] for i in sorted(plt.get_fignums())]
            ctx.traces += 1
            if not ctx.expect(len(ims) == 2 and all(len(x) == 1 for x in ims), "two-figures", case, [len(x) for x in ims]):
                continue
            disk, conv = (np.asarray(x[0].get_array()) for x in ims)
            if not ctx.expect(disk.ndim == 2 and disk.shape[0] == disk.shape[1] and disk.shape[0] % 2 == 1, "size", case, disk.shape):
                continue
            own = disk.shape[0] // 2         # the size of the frame is free
            yy, xx = np.mgrid[-own:own + 1, -own:own + 1]
            d2 = yy * yy + xx * xx
            ctx.expect(max(disk[0].max(), disk[-1].max(), disk[:, 0].max(), disk[:, -1].max()) == 0, "frame", case, disk[0])
            ctx.expect(disk.dtype.kind == "u" and np.iinfo(disk.dtype).max >= level, "type", case, str(disk.dtype))
            last = level
            for dist in sorted(set(d2.ravel().tolist())):
                vals, cls = disk[d2 == dist].astype(int), classes.get(dist, "zero")
                one = {**case, "squared distance": dist}
                if not ctx.expect(vals.min() == vals.max(), "round", one, vals, "equal intensities"):
                    break
                v = int(vals[0])
                ok = {"full": v == level, "body": LOW * level <= v <= level, "edge": 0 <= v <= level, "zero": v == 0}[cls]
                if not ctx.expect(ok, "intensity-" + cls, one, v, [LOW * level, level]):
                    break
                if not ctx.expect(v <= last, "falls-outwards", one, v, last):
                    break
                last = v
            want = psf.convolute_img(disk.copy())
            ctx.expect(conv.shape == disk.shape and conv.dtype == want.dtype and np.array_equal(conv, want), "convolved", case)
            ctx.expect(np.array_equal(psf.kernel, kernels[k]), "kernel-changed", case)
    plt.close("all")
    ctx.notes["radii"] = len(rows)
    ctx.assumptions.append("the figures are read back from matplotlib (Agg backend, nothing is rendered)")
    ctx.sample({k: rows[0][k] for k in ("q", "half")})
