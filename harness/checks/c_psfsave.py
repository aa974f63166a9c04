"""C20: transition tours over PSFSave.tla replayed on real objects and files; the package is used from a scratch copy, so nothing is written to /repo."""
import json
import os
import random
import shutil
import sys
import warnings
from pathlib import Path

import numpy as np

from core import tour

CONFIGS = {"A": dict(NA=0.2, wl=0.5, c=0.06, pix=0.45, size=3, nodes=(20, 36)), "B": dict(NA=0.25, wl=0.5, c=0.06, pix=0.4, size=5, nodes=(23, 40)),
           "C": dict(NA=0.2, wl=0.6, c=[0.06, -0.1], pix=0.3, size=3, nodes=(21, 36))}
CONFIGS["D"] = {**CONFIGS["A"], "c": 0.0600001}
CONFIGS["E"] = {**CONFIGS["C"], "c": [0.06, -0.1000001]}
NAME = {"A": "one", "B": "one", "C": "many", "D": "one-close", "E": "many-close"}
FAMILIES = {"coma": {"A": [(-1, 3)], "B": [(-1, 3)], "C": [(0, 2), (1, 3)]},
            "piston": {"A": [(0, 0)], "B": [(0, 0)], "C": [(0, 0), (-2, 2)]},
            "high": {"A": [(3, 9)], "B": [(3, 9)], "C": [(0, 2), (-4, 6)]}}


def snap(psf):
    """Everything a user can see of the object."""
    pols = [psf.zernpol] if psf.zernpol is not None else list(psf.polynomials)
    coefs = psf.expansion_coeff if psf.zernpol is not None else [float(x) for x in psf.coefficients]
    return {"kernel": [[float(x).hex() for x in row] for row in psf.kernel], "shape": psf.kernel.shape, "size": psf.kernel_size, "NA": psf.NA, "wavelength": psf.wavelength,
            "pixel": psf.pixel_size, "nodes": (psf.n_int_r_points, psf.n_int_phi_points), "airy": psf.airy if psf.zernpol is not None else None, "k": psf.k,
            "pols": [p.get_mn_orders() for p in pols], "coefs": coefs, "single": psf.zernpol is not None, "npols": len(psf.polynomials)}


def check_C20(ctx):
    rnd = random.Random(ctx.seed)
    root = ctx.scratch / "pkg"
    shutil.copytree("/repo/src/zernpy", root / "zernpy", ignore=shutil.ignore_patterns("saved_psfs", "__pycache__", "tests", "readme_images"))
    sys.path.insert(0, str(root))
    import zernpy
    from zernpy import ZernPol, ZernPSF
    if not str(Path(zernpy.__file__).resolve()).startswith(str(root.resolve())):
        raise RuntimeError("not the scratch copy: %s" % zernpy.__file__)
    pkgdir = root / "zernpy" / "saved_psfs"
    props = ["NeverUnasked", "ToldExists", "SavedIsOwn", "LoadsOnly", "FailedUnchanged"]
    one = ctx.tlc("PSFSave", {"Objs": {"x"}, "Locs": {"p", "q"}, "Contents": {"A", "B", "C"}}, view="View", action_constraint="Edge", invariants=["NamesFit"], properties=props, min_rows=2000).rows
    two = ctx.tlc("PSFSave", {"Objs": {"x", "y"}, "Locs": {"p"}, "Contents": {"A", "B", "C"}}, view="View", action_constraint="Edge", invariants=["NamesFit"], properties=props, min_rows=2000).rows
    close = ctx.tlc("PSFSave", {"Objs": {"x"}, "Locs": {"p"}, "Contents": {"A", "C", "D", "E"}}, view="View", action_constraint="Edge", invariants=["NamesFit"], properties=props,
                    min_rows=2000).rows
    if ctx.thorough:
        ctx.tlc("PSFSave", {"Objs": {"x", "y"}, "Locs": {"p", "q"}, "Contents": {"A", "B", "C"}}, view="View", invariants=["NamesFit"], properties=props, emit=False, workers=8, heap="8g", timeout=3000)

    def mkpsf(mns):
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        return ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(rnd.choice([list, tuple])(ps))

    def configure(psf, c):
        q = CONFIGS[c]
        psf.set_physical_props(NA=q["NA"], wavelength=q["wl"], expansion_coeff=q["c"], pixel_physical_size=q["pix"])
        psf.set_calculation_props(q["size"], *q["nodes"])

    def calc(psf):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return psf.calculate_psf_kernel(normalized=False, suppress_warnings=True)

    class World:
        def __init__(self, fam, where, objs):
            self.fam, self.where = {**FAMILIES[fam], "D": FAMILIES[fam]["A"], "E": FAMILIES[fam]["C"]}, where
            self.tag = {"family": fam, "places": where}
            self.dir = ctx.scratch / ("w_%s_%s" % (fam, "_".join(where.values())))
            shutil.rmtree(self.dir, ignore_errors=True)
            (self.dir / "cwd").mkdir(parents=True)
            os.chdir(self.dir / "cwd")
            shutil.rmtree(pkgdir, ignore_errors=True)
            self.place = {}
            for loc, w in where.items():
                if w in ("given", "givenpath"):
                    p = self.dir / ("dir_" + loc)
                    p.mkdir()
                elif w == "package":
                    p = pkgdir
                    p.mkdir()
                else:
                    p = self.dir / "cwd" / "saved_psfs"
                self.place[loc] = p
            self.ideal, self.names, self.bytes = {}, {}, {}
            for c in "ABCDE":
                psf = mkpsf(self.fam[c])
                configure(psf, c)
                calc(psf)
                self.ideal[c] = snap(psf)
            self.fresh = {}
            self.objs = {}
            for o in objs:
                # the object of the state "fresh": another polynomial, not calculated
                self.objs[o] = ZernPSF(ZernPol(m=2, n=2))
                self.fresh[o] = snap(self.objs[o])

        def arg(self, loc):
            w = self.where[loc]
            if w == "given":
                return str(self.place[loc])
            if w == "givenpath":
                return self.place[loc]
            if w in ("package", "nopackage"):
                return None
            return rnd.choice([str, Path])(self.dir / "does_not_exist")

        def listing(self):
            out = {}
            for loc, p in self.place.items():
                for f in sorted(p.glob("*")) if p.is_dir() else []:
                    out[str(f)] = f.read_bytes()
            return out

    def parsed(raw):
        d = json.loads(raw)
        single = "Polynomial" in d
        return {"kernel": [[float(x).hex() for x in row] for row in d["PSF Kernel"]], "size": d["Kernel Size"], "NA": d["NA"], "wavelength": d["Wavelength"],
                "pixel": d["Pixel Size"], "nodes": (d["# of integration points R"], d["# of integration points angle"]),
                "pols": [ZernPol(osa=i).get_mn_orders() for i in ([d["Polynomial"]] if single else d["Polynomials"])],
                "coefs": d["Expansion Coefficient"] if single else d["Amplitudes"], "single": single}

    def replay(w, edges, limit):
        walk = tour(edges, rnd, limit=limit)
        good = edges[0]
        warn_of = {}
        for e in edges:
            warn_of[(json.dumps(e["a"]), json.dumps([e["f"]], sort_keys=True))] = e["w"]
        state = good["f"]
        paths = {}          # (loc, name) -> path told by the code
        contents = {}       # path -> bytes as written
        for step, (act, nxt) in enumerate(walk):
            case = {**w.tag, "step": act, "before": state, "previous": [x[0] for x in walk[max(0, step - 4):step]]}
            want_warn = warn_of[(json.dumps(act), json.dumps([state], sort_keys=True))]
            ctx.traces += 1
            psf = w.objs.get(act[1]) if act[0] != "delete" else None
            raised = None
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    if act[0] == "make":
                        w.objs[act[1]] = psf = mkpsf(w.fam[act[2]])
                        configure(psf, act[2])
                        told = state[1][act[1]]
                        if told[0]:        # the model keeps the stored path per object: continue with it
                            psf.json_file_path = paths[tuple(told)]
                        else:
                            psf.json_file_path = ""
                        calc(psf)
                    elif act[0] == "recalc":
                        calc(psf)
                    elif act[0] == "save":
                        psf.save_json(abs_path=w.arg(act[2]), overwrite=act[3])
                        f = (act[2], NAME[state[0][act[1]]])
                        p = psf.json_file_path
                        ok = isinstance(p, str) and os.path.isabs(p) and Path(p).is_file() and Path(p).parent.resolve() == w.place[act[2]].resolve()
                        if not ctx.expect(ok, "told-path", case, p, str(w.place[act[2]])):
                            return
                        if not ctx.expect(paths.setdefault(f, p) == p, "told-path-changed", case, p, paths[f]):
                            return
                    elif act[0] == "read":
                        f = (act[2], act[3])
                        p = paths.get(f, str(w.dir / "never_saved.json"))
                        psf.read_json(rnd.choice([str, Path])(p))
                    elif act[0] == "readstored":
                        if rnd.random() < 0.5:
                            psf.read_json()
                        else:
                            psf.read_json(None)
                    elif act[0] == "delete":
                        os.remove(paths[(act[1], act[2])])
                    elif act[0] == "broken":
                        psf.read_json(rnd.choice([str, Path])(broken_file(w, act[2])))
                except Exception as e:
                    raised = e
            known = [x for x in rec if issubclass(x.category, UserWarning)]
            if act[0] == "broken":
                if not ctx.expect(bool(known) if want_warn else raised is not None, "broken-load-silent", case, repr(raised)):
                    return
                if want_warn and not ctx.expect(raised is None, "broken-load-raises", case, repr(raised)):
                    return
            elif not ctx.expect(raised is None, "raises", case, repr(raised)):
                return
            elif act[0] in ("save", "read", "readstored"):
                if not ctx.expect(bool(known) == want_warn, "warning", case, [str(x.message) for x in rec], want_warn):
                    return
            # objects
            for o, c in nxt[0].items():
                want = w.fresh[o] if c == "fresh" else w.ideal[c]
                got = snap(w.objs[o])
                if not ctx.expect(got == want, "object", {**case, "object": o, "content": c}, diff(got, want), diff(want, got)):
                    return
                t = nxt[1][o]
                wt = paths[tuple(t)] if t[0] else None
                gt = w.objs[o].json_file_path
                if not ctx.expect(gt == wt if wt else not (gt and Path(gt).is_file()), "stored-path", {**case, "object": o}, gt, wt):
                    return
            # files: exactly the model's ones with the model's contents; a file that the model does not change is not rewritten with anything else
            want_files = {paths[tuple(f)]: c for f, c in nxt[2] if c != "absent"}
            have = w.listing()
            if not ctx.expect(set(have) == set(want_files), "files", case, sorted(have), sorted(want_files)):
                return
            for p, c in want_files.items():
                try:
                    got = parsed(have[p])
                except Exception as e:
                    ctx.violate("file-content", {**case, "file": p}, repr(e))
                    return
                want = {k: w.ideal[c][k] for k in got}
                if not ctx.expect(got == want, "file-content", {**case, "content": c}, diff(got, want), diff(want, got)):
                    return
                if act[0] != "save" and contents.get(p) is not None and not ctx.expect(have[p] == contents[p], "file-touched", case):
                    return
            contents = have
            state = nxt
        return len(walk)

    def broken_file(w, kind):
        if kind == "missing":
            return w.dir / "nothing.json"
        if kind == "folder":
            return w.dir
        base = {"PSF Kernel": [[0.1, 0.2, 0.1], [0.2, 0.9, 0.2], [0.1, 0.2, 0.1]], "NA": 0.3, "Wavelength": 0.55, "Pixel Size": 0.35, "Kernel Size": 3,
                "# of integration points R": 24, "# of integration points angle": 38, "Expansion Coefficient": 0.11, "Polynomial": 7}
        if kind == "incomplete":
            keys = [k for k in base if k not in ("Polynomial", "Expansion Coefficient")]
            for k in rnd.sample(keys, rnd.randint(1, len(keys))):
                del base[k]
        elif kind == "nocoef":
            del base["Expansion Coefficient"]
        elif kind == "badNA":
            base[rnd.choice(["NA", "Wavelength"])] = rnd.choice([-0.2, 0.0])
        elif kind == "badpol":
            base["Polynomial"] = -4
        elif kind == "badcount":
            del base["Polynomial"], base["Expansion Coefficient"]
            base["Polynomials"], base["Amplitudes"] = [7, 8, 9], [0.1, 0.2]
        items = list(base.items())
        rnd.shuffle(items)
        text = json.dumps(dict(items))
        p = w.dir / "broken.json"
        p.write_text(text[:len(text) // 2] if kind == "nojson" else text)
        return p

    home = os.getcwd()
    try:
        lim = None if ctx.thorough else 1
        plan = [("coma", {"p": "given", "q": "package"}, one, lim and 2500), ("piston", {"p": "nopackage", "q": "givenpath"}, one, lim and 1500),
                ("high", {"p": "missingdir", "q": "package"}, one, lim and 1500),
                ("coma", {"p": "givenpath"}, close, lim and 2500), ("high", {"p": "package"}, close, lim and 1000),
                ("coma", {"p": "given"}, two, lim and 4000), ("piston", {"p": "package"}, two, lim and 2500), ("high", {"p": "missingdir"}, two, lim and 2000)]
        for fam, where, edges, limit in plan:
            w = World(fam, where, ["x", "y"] if edges is two else ["x"])
            ctx.notes["walk_%s_%s%s" % (fam, "_".join(where.values()), "_close" if edges is close else "")] = replay(w, edges, limit)
            shutil.rmtree(pkgdir, ignore_errors=True)
        random_contents(ctx, rnd, ZernPol, ZernPSF, calc, one)
    finally:
        os.chdir(home)
    ctx.sample({"edge": one[10]})
    ctx.assumptions.append("coefficients and parameters are Python numbers; the file name composed by the package fits the file system (see DESIGN.md)")


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}


def random_contents(ctx, rnd, ZernPol, ZernPSF, calc, edges):
    """The step Save;Read of the specification (an object gets exactly what was saved) for arbitrary contents and kernels, including integer parameters."""
    d = ctx.scratch / "random"
    d.mkdir()
    pool = [(m, n) for n in range(0, 11) for m in range(-n, n + 1, 2)]
    for i in range(150 if not ctx.thorough else 3000):
        num = rnd.choice([1, 1, 2, 3, 5]) if i != 7 else rnd.choice([30, 45])
        mns = rnd.sample(pool, num)
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        psf = ZernPSF(ps[0]) if num == 1 else ZernPSF(ps)
        wl = rnd.choice([rnd.uniform(0.3, 0.9), 1, 500, 632.8])
        NA = rnd.choice([rnd.uniform(0.05, 1.7), 1])
        cs = [rnd.choice([rnd.uniform(-0.5, 0.5) * wl, 0.0, 1e-17, -wl / 3]) for _ in mns]
        case = {"pols": mns, "NA": NA, "wavelength": wl, "coefs": cs}
        size = rnd.choice([3, 5, 7]) if num < 10 else 3
        if rnd.random() < 0.15:     # numpy numbers
            NA, size = rnd.choice([np.float32, np.float64])(NA), rnd.choice([np.int64, np.int32])(size)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            psf.set_physical_props(NA, wl, cs[0] if num == 1 else rnd.choice([list, tuple, np.asarray])(cs), 0.25 * wl / NA * rnd.uniform(0.3, 1.0))
            psf.set_calculation_props(size, rnd.randint(20, 26), rnd.choice([36, 40, 42]))
            psf.calculate_psf_kernel(normalized=rnd.random() < 0.5, suppress_warnings=True)
            other = rnd.choice([lambda: ZernPSF(ZernPol(m=0, n=0)), lambda: ZernPSF(ZernPol(m=1, n=5)), lambda: ZernPSF([ZernPol(m=0, n=2), ZernPol(m=0, n=4)])])()
            if rnd.random() < 0.5:
                other.set_calculation_props(rnd.choice([3, 9, 31]), 30, 48)
            psf.save_json(abs_path=rnd.choice([str, Path])(d), overwrite=True)
            keep = snap(psf)
            other.read_json(psf.json_file_path)
        ctx.traces += 1
        got = snap(other)
        if not ctx.expect(got == keep, "random-reload", case, diff(got, keep), diff(keep, got)):
            continue
        if rnd.random() < 0.4:      # the file is overwritten by another content of the same length, and read again (each reading gives what is in the file)
            psf.kernel = np.roll(psf.kernel.ravel(), rnd.choice([1, 2, -1])).reshape(psf.kernel.shape)
            path = psf.json_file_path
            st = os.stat(path)
            psf.save_json(abs_path=d, overwrite=True)
            if rnd.random() < 0.3:
                os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
            keep = snap(psf)
            other.read_json(path)
            ctx.expect(psf.json_file_path == path and snap(other) == keep, "random-reread", case, diff(snap(other), keep), diff(keep, snap(other)))
        if rnd.random() < 0.4 and num < 10 and not isinstance(NA, np.float32):   # the loaded object goes on exactly as the saved one
            nrm = rnd.random() < 0.5
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = psf.calculate_psf_kernel(normalized=nrm, suppress_warnings=True)
                b = other.calculate_psf_kernel(normalized=nrm, suppress_warnings=True)
            ctx.expect(np.array_equal(a, b), "random-continue", case)
            img = np.arange(30.0).reshape(5, 6)
            ctx.expect(np.array_equal(psf.convolute_img(img), other.convolute_img(img)), "random-convolve", case)
