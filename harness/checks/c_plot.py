"""C25: walks over PlotModel.tla replayed on matplotlib figures (Agg); the drawn artists are read back and compared with the plotted surface."""
import random
import warnings
from collections import namedtuple

import numpy as np
from scipy.spatial import cKDTree

from core import tour

MAPS = ["coolwarm", "jet", "turbo", "viridis", "plasma", "magma"]


def artist(fig, kind):
    import matplotlib.collections as mc
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    want = mc.QuadMesh if kind == "mesh" else Poly3DCollection
    found = [(ax, c) for ax in fig.axes for c in ax.collections if isinstance(c, want) and ax.get_label() != "<colorbar>"]
    return found


def check_mesh(ctx, fig, surf, r, theta, cmap, case, ranged):
    found = artist(fig, "mesh")
    if not ctx.expect(len(found) == 1 and found[0][0].name == "polar", "one-plot", case, [type(x[1]).__name__ for x in found]):
        return
    ax, q = found[0]
    data = np.asarray(q.get_array())
    if not ctx.expect(data.size == surf.size and np.array_equal(data.reshape(surf.shape), surf), "mesh-values", case, data.shape, surf.shape):
        return
    c = np.asarray(q.get_coordinates())
    T, R = np.meshgrid(theta, r)
    if c.shape[:2] == (surf.shape[0] + 1, surf.shape[1] + 1):     # corners of cells: every datum lies in its own cell
        tl, th = np.minimum(c[:-1, :-1, 0], c[1:, 1:, 0]), np.maximum(c[:-1, :-1, 0], c[1:, 1:, 0])
        rl, rh = np.minimum(c[:-1, :-1, 1], c[1:, 1:, 1]), np.maximum(c[:-1, :-1, 1], c[1:, 1:, 1])
        e = 1e-9
        ok = bool(np.all((tl <= T + e) & (T <= th + e) & (rl <= R + e) & (R <= rh + e)))
    else:                                                          # vertices themselves
        ok = c.shape[:2] == surf.shape and np.allclose(c[..., 0], T) and np.allclose(c[..., 1], R)
    ctx.expect(ok, "mesh-positions", case)
    lo, hi = q.get_clim()
    ctx.expect(np.isclose(lo, surf.min()) and np.isclose(hi, surf.max()), "range", case, (lo, hi), (surf.min(), surf.max()))
    ctx.expect(q.get_cmap().name == cmap, "colour-map", case, q.get_cmap().name, cmap)
    colorbar(ctx, fig, ax, q, case, ranged, surf)


def colorbar(ctx, fig, ax, q, case, ranged, surf):
    if ranged is None:
        return
    others = [a for a in fig.axes if a is not ax]
    if ranged:
        if ctx.expect(len(others) == 1 and q.colorbar is not None, "colour-bar", case, len(others)):
            lo, hi = q.colorbar.vmin, q.colorbar.vmax
            flat = surf.max() - surf.min() < 1e-12
            ctx.expect(flat or (lo >= surf.min() - 1e-9 and hi <= surf.max() + 1e-9), "colour-bar-range", case, (lo, hi))
    else:
        ctx.expect(not others, "colour-bar", case, len(others))


def check_surface(ctx, fig, surf, r, theta, cmap, case, ranged):
    found = artist(fig, "surface")
    if not ctx.expect(len(found) == 1 and found[0][0].name == "3d", "one-plot", case, [type(x[1]).__name__ for x in found]):
        return
    ax, q = found[0]
    faces, unused = np.asarray(q._faces), q._invalid_vertices
    v = (faces if unused is False else faces[~np.asarray(unused)]).reshape(-1, 3)
    T, R = np.meshgrid(theta, r)
    X, Y = R * np.cos(T), R * np.sin(T)
    tree = cKDTree(np.column_stack([X.ravel(), Y.ravel()]))
    z = surf.ravel()
    scale = 1e-9 + 1e-9 * float(np.max(np.abs(surf)))
    points = np.unique(np.round(v, 12), axis=0)
    rows, cols, bad = set(), set(), None
    for pt, near in zip(points, tree.query_ball_point(points[:, :2], 1e-7)):
        fit = [k for k in near if abs(z[k] - pt[2]) <= scale]
        if not fit:
            bad = (list(pt), [float(z[k]) for k in near[:4]])
            break
        for k in fit:
            rows.add(k // surf.shape[1])
            cols.add(k % surf.shape[1])
    if not ctx.expect(bad is None, "surface-values", case, bad):
        return
    # the surface is drawn completely: to the borders of both coordinates, and without gaps for what matplotlib draws without subsampling
    need_r = range(len(r)) if len(r) <= 50 else (0, len(r) - 1)
    need_t = range(len(theta)) if len(theta) <= 50 else (0, len(theta) - 1)
    ctx.expect(set(need_r) <= rows and set(need_t) <= cols, "surface-incomplete", case, (len(rows), len(cols)), (len(r), len(theta)))
    ctx.expect(q.get_cmap().name == cmap, "colour-map", case, q.get_cmap().name, cmap)
    colorbar(ctx, fig, ax, q, case, ranged, surf)


def check_C25(ctx):
    import matplotlib.pyplot as plt
    from zernpy import ZernPol
    rnd = random.Random(ctx.seed)
    Surface = namedtuple("ZernikesSurface", "ZernSurf R Theta")
    Polar = namedtuple("PolarVectors", "R Theta")
    one = ctx.tlc("PlotModel", {"Figs": {"f"}}, view="View", action_constraint="Edge", invariants=["CoordsFit"], properties=["OthersKept", "RejectedKeeps", "LastOnly"],
                  min_rows=300).rows
    two = ctx.tlc("PlotModel", {"Figs": {"f", "g"}}, view="View", action_constraint="Edge", invariants=["CoordsFit"], properties=["OthersKept", "RejectedKeeps", "LastOnly"],
                  min_rows=300).rows
    pool = [(m, n) for n in range(0, 10) for m in range(-n, n + 1, 2)]

    def terms(k=None):
        mns = rnd.sample(pool, k or rnd.randint(1, 3))
        return mns, [rnd.choice([1.0, rnd.uniform(-2, 2)]) for _ in mns]

    def coords(small):
        nr, nt = rnd.randint(2, 9 if small else 70), rnd.randint(3, 12 if small else 70)
        if rnd.random() < 0.3:
            nr = nt     # a square mesh
        r = np.sort(np.array(rnd.sample(range(0, 1001), nr))) / 1000.0
        if rnd.random() < 0.5:
            r[-1] = 1.0
        theta = np.sort(np.array(rnd.sample(range(0, 6284), nt))) / 1000.0
        theta = np.minimum(theta, 2 * np.pi)
        return r, theta

    surfaces = {}

    def exact_sum(mns, cs, r, theta):
        """The values of the sum (C09 decides that they are right): one polynomial after the other, without the mesh routine."""
        T, R = np.meshgrid(theta, r)
        total = np.zeros(T.shape)
        for (m, n), c in zip(mns, cs):
            if c != 0.0:
                total = total + c * ZernPol(m=m, n=n).polynomial_value(R.ravel().copy(), T.ravel().copy()).reshape(T.shape)
        return total

    default = {"polar": ZernPol.gen_polar_coordinates(), "mesh": ZernPol.gen_equal_polar_mesh()}

    def inspect(fig, desc, what, case):
        """what: terms, custom surface, colour map, title."""
        kind, source, place, deco = desc
        if source == "given":
            surf, r, theta = what["surface"]
        else:
            r, theta = what["coords"] if place == "given" else default[place]
            key = (str(what["terms"]), place)
            surf = what.get("computed") if place == "given" else surfaces.get(key)
            if surf is None:
                surf = exact_sum(what["terms"][0], what["terms"][1], r, theta)
                what["computed"] = surfaces[key] = surf
        # values of a sum computed by the code itself may differ from the reference by the rounding only
        ranged = deco if source != "single" else None
        got = drawn_values(fig, kind)
        if kind == "mesh" and got is not None and got.size == surf.size and np.allclose(got.reshape(surf.shape), surf, rtol=1e-12, atol=1e-10):
            surf = surf if source == "given" else got.reshape(surf.shape)
        (check_mesh if kind == "mesh" else check_surface)(ctx, fig, surf, r, theta, what["map"], case, ranged)
        if source == "single" and kind == "mesh":
            ax = artist(fig, "mesh")
            if ax:
                title = ax[0][0].get_title()
                ctx.expect(title == (what["title"] if deco else ""), "title", case, title, what["title"] if deco else "")

    def drawn_values(fig, kind):
        found = artist(fig, kind)
        return np.asarray(found[0][1].get_array()) if len(found) == 1 and kind == "mesh" else None

    def run(edges, limit, small):
        detail = {(json_key(e["f"]), json_key(e["a"])): e for e in edges}
        walk = tour(edges, rnd, limit=limit)
        state = edges[0]["f"]
        plt.close("all")
        figs = {f: plt.figure() for f in state}
        what = {}
        for step, (act, nxt) in enumerate(walk):
            e = detail[(json_key(state), json_key(act))]
            a = act[-1]
            case = {"step": act, "before": state, "number": step}
            ctx.traces += 1
            mns, cs = terms(None if act[0] == "sum" else 1)
            if act[0] == "profile":
                cs = [1.0]
            cmap = rnd.choice(MAPS)
            r, theta = coords(small)
            w = {"terms": (mns, cs), "map": cmap, "coords": (r, theta), "title": ZernPol(m=mns[0][0], n=mns[0][1]).get_polynomial_name()}
            kw = {}
            if rnd.random() < 0.8:
                kw["color_map"] = cmap
            else:
                w["map"] = "coolwarm"
            if a["proj"] != "default":
                kw["projection"] = a["proj"]
            if not (a["defaults"] and rnd.random() < 0.5):
                kw["use_defaults"] = a["defaults"]
            before = set(plt.get_fignums())
            error = result = None
            arrays = []
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if act[0] == "sum":
                    kw["show_range"] = a["range"]
                    if rnd.random() < 0.3 and a["range"]:
                        del kw["show_range"]
                    ps = [ZernPol(m=m, n=n) for m, n in mns]
                    if a["coefs"] == "some":
                        kw["coefficients"] = rnd.choice([list, tuple, np.asarray])(cs)
                    if a["pols"] == "some":
                        kw["polynomials"] = rnd.choice([list, tuple])(ps)
                    surf = np.asarray([[rnd.uniform(-3, 3) for _ in theta] for _ in r])
                    if a["surf"] == "tuple":
                        kw["zernikes_sum_surface"] = Surface(surf, r, theta)
                        w["surface"] = (surf.copy(), r.copy(), theta.copy())
                        arrays = [(surf, surf.copy()), (r, r.copy()), (theta, theta.copy())]
                    elif a["surf"] == "short":
                        kw["zernikes_sum_surface"] = rnd.choice([(surf, r), (surf,), (surf, r, theta, r)])
                    elif rnd.random() < 0.5:
                        kw["zernikes_sum_surface"] = ()
                    if a["coefs"] == "some" and isinstance(kw["coefficients"], np.ndarray):
                        arrays.append((kw["coefficients"], kw["coefficients"].copy()))
                    try:
                        result = ZernPol.plot_sum_zernikes_on_fig(figs[act[1]], **kw) if rnd.random() < 0.5 else ZernPol.plot_sum_zernikes_on_fig(figure=figs[act[1]], **kw)
                    except Exception as ex:
                        error = ex
                else:
                    if not a["title"] or rnd.random() < 0.5:
                        kw["show_title"] = a["title"]
                    if a["coords"] == "pair":
                        kw["polar_coordinates"] = Polar(r, theta)
                        arrays = [(r, r.copy()), (theta, theta.copy())]
                    elif a["coords"] == "short":
                        kw["polar_coordinates"] = rnd.choice([(r,), (r, theta, r)])
                    try:
                        result = ZernPol.plot_profile(ZernPol(m=mns[0][0], n=mns[0][1]), **kw)
                    except Exception as ex:
                        error = ex
            case["polynomials"] = mns
            if e["o"] == "ValueError":
                if not ctx.expect(isinstance(error, ValueError), "not-rejected", case, repr(error)):
                    return
            elif not ctx.expect(error is None, "raises", case, repr(error)):
                return
            ctx.expect(all(np.array_equal(x, y) for x, y in arrays), "data-changed", case)
            new = set(plt.get_fignums()) - before
            if e["n"]:
                if not ctx.expect(len(new) == 1, "new-figure", case, len(new)):
                    return
                inspect(plt.figure(new.pop()), e["n"], w, case)
            else:
                ctx.expect(not new, "unexpected-figure", case, len(new))
            if act[0] == "sum" and e["o"] == "drawn":
                ctx.expect(result is figs[act[1]], "returned-figure", case)
                what[act[1]] = w
            for f, d in nxt.items():     # all figures still show what they should (the untouched ones are looked at now and then)
                if not d:
                    ctx.expect(not figs[f].axes, "empty-figure", {**case, "figure": f})
                elif (act[0] == "sum" and act[1] == f) or rnd.random() < 0.08:
                    inspect(figs[f], d, what[f], {**case, "figure": f})
            state = nxt
            for k in set(plt.get_fignums()) - {f.number for f in figs.values()}:
                plt.close(k)
        plt.close("all")
        return len(walk)

    ctx.notes["walk one figure"] = run(one, None if ctx.thorough else 800, True)
    ctx.notes["walk two figures"] = run(two, 3000 if ctx.thorough else 300, False)
    # a rectangular check that the axes of the mesh are not exchanged, for every pair of small sizes
    for nr in range(2, 6):
        for nt in range(2, 6):
            for kind, proj in (("mesh", "2d"), ("surface", "3d")):
                surf = np.array([[rnd.uniform(-1, 1) for _ in range(nt)] for _ in range(nr)])
                r, theta = np.linspace(0.1, 1, nr), np.linspace(0.3, 5, nt)
                fig = plt.figure()
                case = {"sizes": (nr, nt), "projection": proj}
                ctx.traces += 1
                ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=Surface(surf, r, theta), projection=proj)
                (check_mesh if kind == "mesh" else check_surface)(ctx, fig, surf, r, theta, "coolwarm", case, True)
                plt.close(fig)
    # larger surfaces, fine in one of the coordinates or in both
    for nr, nt in [(40, 1500), (1300, 45), (260, 361)] + ([(512, 720), (900, 901), (100, 3601)] if ctx.thorough else []):
        surf = np.random.default_rng(ctx.seed).uniform(-1, 1, (nr, nt))
        r, theta = np.linspace(0.0, 1, nr), np.linspace(0.0, 2 * np.pi, nt)
        for kind, proj in (("mesh", "2d"), ("surface", "3d")):
            fig = plt.figure()
            ctx.traces += 1
            ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=Surface(surf, r, theta), projection=proj)
            (check_mesh if kind == "mesh" else check_surface)(ctx, fig, surf, r, theta, "coolwarm", {"sizes": (nr, nt), "projection": proj}, True)
            plt.close(fig)
    pyramid(ctx, plt)
    psf_displays(ctx, rnd, plt)
    ctx.sample({"edge": one[3]})
    ctx.assumptions.append("matplotlib draws what its artists contain (Agg backend, nothing is rendered)")


def pyramid(ctx, plt):
    """The half pyramid shows in its cells the polynomials that the specification puts there."""
    from zernpy import ZernPol
    rows = ctx.tlc("Pyramid", {"Rows": 6}, spec="Spec", invariants=["RowIsOrder", "Complete"], properties=["Ends"], min_rows=1).rows
    draw = getattr(ZernPol, "_plot_zernikes_half_pyramid", None)
    if draw is None:     # an internal routine
        return
    cells = {(c["row"], c["col"]): (c["m"], c["n"]) for c in rows[0]["cells"]}
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        draw()
    fig = plt.gcf()
    seen = {}
    for ax in fig.axes:
        at = ax.get_subplotspec()
        meshes = [c for c in ax.collections if hasattr(c, "get_coordinates")]
        if meshes:
            seen[(at.rowspan.start, at.colspan.start)] = meshes
    ctx.expect(set(seen) == set(cells), "pyramid-cells", {}, sorted(seen), sorted(cells))
    for cell in sorted(set(seen) & set(cells)):
        case = {"cell": cell, "pol": cells[cell]}
        ctx.traces += 1
        if not ctx.expect(len(seen[cell]) == 1, "pyramid-one", case):
            continue
        q = seen[cell][0]
        c, data = np.asarray(q.get_coordinates()), np.asarray(q.get_array())
        if c.shape[0] != data.shape[0]:      # centres of the cells of the mesh
            c = (c[:-1, :-1] + c[1:, 1:]) / 2
        theta, r = np.clip(c[2:-2, 2:-2, 0], 0, 2 * np.pi), np.clip(c[2:-2, 2:-2, 1], 0, 1)     # the border cells are cut
        want = ZernPol(m=cells[cell][0], n=cells[cell][1]).polynomial_value(r.ravel(), theta.ravel()).reshape(r.shape)
        ctx.expect(np.allclose(data[2:-2, 2:-2], want, rtol=0, atol=1e-9), "pyramid-values", case)
    plt.close("all")


def psf_displays(ctx, rnd, plt):
    """Displays of a PSF object show the stored kernel and the sample with its convolution."""
    from zernpy import ZernPol, ZernPSF
    for mns in ([(-1, 3)], [(0, 0)], [(0, 2), (2, 4)]):
        ps = [ZernPol(m=m, n=n) for m, n in mns]
        psf = ZernPSF(ps[0]) if len(ps) == 1 else ZernPSF(ps)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            psf.set_physical_props(0.2, 0.5, 0.07 if len(ps) == 1 else [0.05, -0.04], 0.5)
            psf.set_calculation_props(5, 20, 36)
            k = psf.calculate_psf_kernel(accelerated=False).copy()
            for label in ("", "id 1"):
                plt.close("all")
                psf.plot_kernel(label)
                fig = plt.gcf()
                ims = [im for ax in fig.axes for im in ax.images]
                case = {"pols": mns, "label": label}
                ctx.traces += 1
                ctx.expect(len(ims) == 1 and np.array_equal(np.asarray(ims[0].get_array()), k) and ims[0].origin == "upper", "kernel-display", case)
                ctx.expect(label in fig.get_label(), "kernel-label", case, fig.get_label())
                ctx.expect(all(str(mn) in fig.get_label() for mn in mns) or mns == [(0, 0)] and "Airy" in fig.get_label(), "kernel-label", case, fig.get_label())
            for radius, top in ((2.0, 255), (3.5, 200), (4.0, 4000)):
                plt.close("all")
                psf.visualize_convolution(radius=radius, max_intensity=top)
                ims = [[im for ax in plt.figure(i).axes for im in ax.images] for i in sorted(plt.get_fignums())]
                case = {"pols": mns, "radius": radius, "max": top}
                ctx.traces += 1
                if ctx.expect(len(ims) == 2 and all(len(x) == 1 for x in ims), "convolution-display", case):
                    disk, conv = np.asarray(ims[0][0].get_array()), np.asarray(ims[1][0].get_array())
                    ctx.expect(np.array_equal(conv, psf.convolute_img(disk)) and disk.max() == top and disk.min() == 0, "convolution-values", case)
            ctx.expect(np.array_equal(psf.kernel, k), "kernel-changed", {"pols": mns})
            plt.close("all")


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)
