"""C18: behaviours of PSFWorld.tla (several PSF objects, files, pools of workers, failing calculations) replayed on real objects."""
import contextlib
import copy
import io
import os
import pickle
import random
import warnings

import numpy as np


def boom(r, theta, use_exact_eq=False):
    """stands for a polynomial that fails in the middle of a calculation (called in this process and in workers)"""
    raise OverflowError("planned failure")


class Interrupting(io.StringIO):
    """an interrupt (Ctrl-C) that hits while progress is printed"""
    def __init__(self, after):
        io.StringIO.__init__(self)
        self.after = after

    def write(self, text):
        self.after -= 1
        if self.after <= 0:
            raise KeyboardInterrupt
        return io.StringIO.write(self, text)


def world(ctx, P, NODES, PHYS, POLS, airy):
    import matplotlib.pyplot as plt
    import zernpy.zernpsf as module
    from zernpy import ZernPol, ZernPSF
    rnd = random.Random(ctx.seed + 18)
    consts = {"Objects": {1, 2}, "Slots": {1}, "Kinds": {0, 1, 2}, "Sizes": {"3", "7"}, "Small": {"3"}, "Engines": {"plain", "compiled", "default", "parallel"},
              "Acts": {"compile", "phys", "calc", "rejected", "calculate", "fail", "crop", "pool", "unpool", "file", "new", "observe", "copy"}}
    ctx.tlc("PSFWorld", {**consts, "Kinds": {1, 2}, "Sizes": {"3"}, "Depth": 3 if ctx.thorough else 2}, emit=False, spec="Spec", workers=4,
            invariants=["KernelSized", "CropAgrees"], properties=["Isolated", "FilesStable", "KernelStable", "FailKeeps", "LoadExact", "CopyExact"])
    num, depth = (150, 90) if ctx.thorough else (14, 60)
    rows = ctx.tlc("PSFWorld", {**consts, "Slots": {1, 2}, "Depth": depth}, spec="Spec", simulate=(num, depth + 1), min_rows=num // 2,
                   invariants=["KernelSized", "CropAgrees", "Emit"]).rows
    short = {**consts, "Objects": {1}, "Kinds": {1}, "Sizes": {"3"}, "Engines": {"parallel"}, "Acts": {"phys", "calc", "calculate", "fail", "pool"}}
    rows += ctx.tlc("PSFWorld", {**short, "Slots": {1}, "Depth": 24}, spec="Spec", simulate=(24 if ctx.thorough else 8, 25), min_rows=4,
                    invariants=["KernelSized", "CropAgrees", "Emit"]).rows
    refs, ests = {}, {}
    outdir = ctx.scratch / "world"
    outdir.mkdir()
    compile_all = getattr(module, "force_get_psf_compilation", None)

    def build(kind):
        ps = [ZernPol(m=m, n=n) for m, n in POLS[kind]]
        psf = ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(ps)
        psf.n_int_r_points, psf.n_int_phi_points = NODES["n1"]
        return psf

    def set_phys(psf, kind, p):
        NA, wl, cs, pix = PHYS[kind][p]
        psf.set_physical_props(NA=NA, wavelength=wl, expansion_coeff=cs[0] if len(cs) == 1 else cs, pixel_physical_size=pix)

    def estimated(kind, p):
        if (kind, p) not in ests:
            f = build(kind)
            set_phys(f, kind, p)
            ests[(kind, p)] = f.kernel_size
        return ests[(kind, p)]

    def params(kind, phys):
        return PHYS[kind][phys] if phys != "none" else (1.0, 0.532, [0.5], 0.98 * 0.25 * 0.532)

    def reference(kind, phys, nodes, size, closed):
        key = (kind, phys, nodes, size, closed)
        if key not in refs:
            NA, wl, cs, pix = params(kind, phys)
            if closed:
                refs[key] = airy(wl, NA, pix, size)
            else:
                refs[key] = P.kernel([(m, n, c) for (m, n), c in zip(POLS[kind], cs)], wl, NA, pix, size, *NODES[nodes])
        return refs[key]

    def crop_model(k, part):
        lim, s = part * k.max(), 0
        while True:
            q = k[s:k.shape[0] - s, s:k.shape[1] - s]
            if max(q[0].max(), q[-1].max(), q[:, 0].max(), q[:, -1].max()) >= lim:
                return q
            s += 1

    def calculate(psf, eng, norm, verbose):
        if eng == "parallel":
            return psf.get_kernel_parallel(normalize_values=norm)
        return psf.calculate_psf_kernel(suppress_warnings=rnd.random() < 0.5, normalized=norm, verbose_info=verbose,
                                        accelerated={"plain": False, "compiled": True, "default": None}[eng])

    def walk(hist):
        objs = {o + 1: build(rec["kind"]) for o, rec in enumerate(first)}
        size = {o: 1 for o in objs}            # sizes and kernels in numbers
        kern = {o: np.ones((1, 1)) for o in objs}
        snap = {}
        try:
            for step, (act, state) in enumerate(hist):
                op, o = act[0], act[1]
                rec = state[o - 1] if o else None
                psf = objs.get(o)
                case = {"step": act, "state": state, "previous": [h[0] for h in hist[max(0, step - 8):step]]}
                ctx.traces += 1
                sink = io.StringIO()
                with warnings.catch_warnings(), contextlib.redirect_stdout(sink):
                    warnings.simplefilter("ignore")
                    if op == "compile":
                        if compile_all is not None:
                            compile_all()
                    elif op == "new":
                        psf.deinitialize_workers()
                        objs[o] = psf = build(act[2])
                        size[o], kern[o] = 1, np.ones((1, 1))
                    elif op == "copy":
                        src = objs[act[2]]
                        objs[o] = psf = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[act[3]](src)
                        size[o], kern[o] = size[act[2]], kern[act[2]].copy()
                    elif op == "phys":
                        set_phys(psf, rec["kind"], act[2])
                        size[o] = estimated(rec["kind"], act[2])
                    elif op == "calc":
                        psf.set_calculation_props(int(act[2]), *NODES[act[3]])
                        size[o] = int(act[2])
                    elif op == "rejected":
                        try:
                            if act[2] == "phys":
                                psf.set_physical_props(0.2, -0.5, 0.1, 0.1)
                            elif act[2] == "calc":
                                psf.set_calculation_props(9, 50, 35)
                            elif act[2] == "crop":
                                psf.crop_kernel(0.7)
                            else:
                                psf.read_json(str(outdir / "absent.json"))
                        except ValueError:
                            pass
                    elif op == "calculate":
                        if rec["size"] == "19":
                            size[o] = 19
                        ret = calculate(psf, act[2], act[3], rnd.random() < 0.3)
                        closed = rec["kind"] == 0 and act[2] == "plain"
                        want = reference(rec["kind"], rec["phys"], rec["nodes"], size[o], closed)
                        want = want / want.max() if act[3] else want
                        ok = ret.shape == want.shape and float(np.max(np.abs(ret - want))) < (1e-7 if closed else 1e-9)
                        if not ctx.expect(ok, "world-calculated", case, ret, want):
                            return
                        kern[o] = np.array(ret, copy=True)
                    elif op == "fail":
                        pols = [psf.zernpol] if psf.zernpol is not None else list(psf.polynomials)
                        failed, norm, planned = False, rnd.random() < 0.5, rnd.random() < 0.6
                        try:
                            if planned:
                                for p in pols:
                                    p.polynomial_value = boom
                                calculate(psf, act[2], norm, False)
                            else:
                                with contextlib.redirect_stdout(Interrupting(rnd.randint(3, 14))):
                                    calculate(psf, act[2], norm, True)
                        except (Exception, KeyboardInterrupt):
                            failed = True
                        finally:
                            for p in pols:
                                p.__dict__.pop("polynomial_value", None)
                        if not failed:      # nothing has failed (no such call or no output there): the rest of the behaviour doesn't apply
                            ctx.notes["failures without an effect"] = ctx.notes.get("failures without an effect", 0) + 1
                            return
                        if not planned and not (psf.kernel.shape == kern[o].shape and np.array_equal(psf.kernel, kern[o])):
                            # interrupted when the result has been already stored (final report): it has to be the complete result
                            want = reference(rec["kind"], rec["phys"], rec["nodes"], size[o], rec["kind"] == 0 and act[2] == "plain")
                            want = want / want.max() if norm else want
                            ok = psf.kernel.shape == want.shape and float(np.max(np.abs(psf.kernel - want))) < 1e-7
                            ctx.expect(ok, "world-kernel", case, psf.kernel, [kern[o], want])
                            return
                    elif op == "crop":
                        part = rnd.choice([0.01, 0.2, 0.45])
                        if kern[o].shape[0] > 3:
                            kern[o] = crop_model(kern[o], part)
                        psf.crop_kernel(part)
                        size[o] = kern[o].shape[0]
                    elif op == "pool":
                        psf.initialize_parallel_workers()
                    elif op == "unpool":
                        psf.deinitialize_workers()
                    elif op == "save":
                        psf.save_json(abs_path=outdir, overwrite=True)
                        os.replace(psf.json_file_path, outdir / ("slot%d.keep" % act[2]))
                        snap[act[2]] = (size[o], kern[o].copy())
                    elif op == "load":
                        psf.read_json(str(outdir / ("slot%d.keep" % act[2])))
                        size[o], kern[o] = snap[act[2]][0], snap[act[2]][1].copy()
                    elif act[2] == "convolve":
                        psf.convolute_img(np.arange(12.0).reshape(3, 4))
                    elif rnd.random() < 0.2:
                        psf.plot_kernel()
                        plt.close("all")
                for k, other in objs.items():
                    r = state[k - 1]
                    ok = other.kernel.shape == kern[k].shape and np.array_equal(other.kernel, kern[k])
                    if not ctx.expect(ok, "world-kernel", {**case, "object": k}, other.kernel, kern[k]):
                        return
                    NA, wl, cs, pix = params(r["kind"], r["phys"])
                    coefs = [other.expansion_coeff] if other.zernpol is not None else (list(other.coefficients) if other.coefficients is not None else None)
                    got = [other.kernel_size, other.n_int_r_points, other.n_int_phi_points, other.NA, other.wavelength, other.pixel_size, coefs,
                           [p.get_mn_orders() for p in ([other.zernpol] if other.zernpol is not None else other.polynomials)]]
                    want = [size[k], *NODES[r["nodes"]], NA, wl, pix, cs if (r["phys"] != "none" or r["kind"] != 2) else None, POLS[r["kind"]]]
                    ok = all(_same(a, b) for a, b in zip(got, want))
                    if not ctx.expect(ok, "world-config", {**case, "object": k}, got, want):
                        return
        finally:
            for psf in objs.values():
                psf.deinitialize_workers()

    for row in rows:
        hist = [(h["a"], h["o"]) for h in row["h"]]
        first = _initial(hist)
        walk(hist)
    ctx.notes["world_behaviours"] = len(rows)


def threads(ctx, P, NODES, PHYS, POLS, airy):
    """Schedules of PSFThreads.tla enforced on two threads which calculate the kernels of two objects."""
    import zernpy
    from interleave import interleave, count_lines, lines_of
    from zernpy import ZernPol, ZernPSF
    rnd = random.Random(ctx.seed + 81)
    consts = {"Pixels": 4, "Switches": 3, "SharedParams": False, "SharedBuffer": False}
    rows = ctx.tlc("PSFThreads", consts, spec="Spec", invariants=["Right", "Emit"], min_rows=50).rows
    for broken in ("SharedParams", "SharedBuffer"):
        ctx.tlc_fails("PSFThreads", {**consts, broken: True}, spec="Spec", invariants=["Right"])
    prefix = os.path.dirname(os.path.abspath(zernpy.__file__))
    cache, totals = {}, {}

    def make(kind, p, nodes):
        ps = [ZernPol(m=m, n=n) for m, n in POLS[kind]]
        psf = ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(ps)
        NA, wl, cs, pix = PHYS[kind][p]
        psf.set_physical_props(NA=NA, wavelength=wl, expansion_coeff=cs[0] if len(cs) == 1 else cs, pixel_physical_size=pix)
        psf.set_calculation_props(3, *NODES[nodes])
        return psf

    def want(kind, p, nodes, eng):
        key = (kind, p, nodes, eng)
        if key not in cache:
            NA, wl, cs, pix = PHYS[kind][p]
            if kind == 0 and eng == "plain":
                cache[key] = airy(wl, NA, pix, 3)
            else:
                cache[key] = P.kernel([(m, n, c) for (m, n), c in zip(POLS[kind], cs)], wl, NA, pix, 3, *NODES[nodes])
        return cache[key]

    def job(psf, eng):
        if eng == "parallel":       # without workers: in the calling thread
            return lambda: psf.get_kernel_parallel(normalize_values=False)
        return lambda: psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=eng == "compiled")

    free = 0
    for row in rnd.sample(rows, min(len(rows), 200 if ctx.thorough else 24)):
        confs = [(rnd.choice([0, 1, 2]), rnd.choice(["p1", "p2"]), rnd.choice(["n1", "n2"]), rnd.choice(["plain", "plain", "parallel", "compiled"])) for _ in (0, 1)]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            for c in confs:
                if c not in totals:
                    totals[c] = count_lines(job(make(*c[:3]), c[3]), prefix)
            psfs = [make(*c[:3]) for c in confs]
            segs = lines_of(row["s"], [totals[c] for c in confs], rnd)
            out, gate = interleave([job(psf, c[3]) for psf, c in zip(psfs, confs)], segs, prefix)
        ctx.traces += 1
        free += not gate.followed
        for psf, c, got in zip(psfs, confs, out):
            case = {"objects": confs, "schedule": row["s"], "object": c}
            w = want(*c)
            ok = not isinstance(got, BaseException) and np.shape(got) == w.shape and float(np.max(np.abs(got - w))) < 1e-7 and np.array_equal(psf.kernel, got)
            ctx.expect(ok, "threads", case, got if not isinstance(got, BaseException) else repr(got), w)
        ctx.expect(len(out) == 2, "threads-end", {"objects": confs, "schedule": row["s"]})
    ctx.notes["thread schedules not followed (locks)"] = free


def _initial(hist):
    """kinds at the beginning: the action of the first step doesn't tell the kind of the object replaced by it, any other kind will do"""
    act, state = hist[0]
    out = [dict(r) for r in state]
    if act[0] == "new":
        out[act[1] - 1]["kind"] = (act[2] + 1) % 3
    return out


def _same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(1.0, abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b
