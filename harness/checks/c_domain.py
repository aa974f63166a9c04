"""C08: the decision table of Domain.tla replayed on the evaluation methods."""
import random
import warnings

import numpy as np

POLS = [(0, 0), (1, 1), (-1, 1), (0, 2), (-3, 3), (2, 8), (-4, 12), (1, 13), (0, 14), (11, 41)]
RV = {"zero": [0.0], "one": [1.0], "neg": [-0.5, -1.0, -1e4], "neg_tiny": [-1e-9, -1e-6, -1e-13, -5e-324], "above": [1.5, 2.0, 1e4, float("inf")],
      "above_tiny": [1.0 + 1e-9, 1.0 + 1e-6, 1.0 + 1e-13, 1.0 + 2.0 ** -52]}
TV = {"zero": [0.0], "2pi": [2.0 * np.pi], "neg": [-2.0, -0.1, -9.0], "above": [8.0, 6.4, 20.0]}


def build(kind, cls, pos, table, rnd, inside):
    size = {"float": 1, "int": 1, "list": 3, "tuple": 3, "array1": 1, "array3": 3, "array3b": 3, "array23": 6, "array32": 6, "long": 300, "list100": 100, "array98": 72}[kind]
    vals = [inside(rnd) for _ in range(size)]
    if size > 6 and rnd.random() < 0.8:
        vals.sort(reverse=rnd.random() < 0.3)
    if cls != "inside":
        vals[pos - 1] = rnd.choice(table[cls])
    if kind == "float":
        return vals[0]
    if kind == "int":
        return {"zero": 0, "one": 1, "neg": -1, "above": 2 if table is RV else 7, "inside": 1 if table is RV else 3}[cls]
    if kind in ("list", "list100"):
        return vals
    if kind == "tuple":
        return tuple(vals)
    a = np.array(vals)
    return a.reshape({"array1": (1,), "array3": (3,), "array3b": (3,), "array23": (2, 3), "array32": (3, 2), "long": (300,), "array98": (9, 8)}[kind])


def show(x, kind):
    """text of an argument for the report"""
    return repr(x) if np.size(x) <= 6 else "%s: %s" % (kind, "first %r, last %r, min %r, max %r" % (np.ravel(x)[0], np.ravel(x)[-1], np.min(x), np.max(x)))


def element(x, idx):
    a = np.asarray(x, dtype=float)
    return float(a) if a.ndim == 0 else float(a[idx])


def check_C08(ctx):
    from zernpy import ZernPol
    rows = ctx.tlc("Domain", {"Polys": set(range(1, len(POLS) + 1))}, invariants=["AnglesFree", "ScalarOnlyFromScalars", "Emit"], min_rows=1000).rows
    rnd = random.Random(ctx.seed)
    if not ctx.thorough:
        rnd.shuffle(rows)
        rows = [r for r in rows if "long" in (r["rk"], r["tk"]) or "list100" in (r["rk"], r["tk"]) or "array98" in (r["rk"], r["tk"])][:4000] + rows[:14000]
    pols = [ZernPol(m=m, n=n) for m, n in POLS]
    for r in rows:
        p = pols[r["p"] - 1]
        ra = build(r["rk"], r["rc"], r["rpos"], RV, rnd, lambda g: g.uniform(0.01, 0.99))
        ta = build(r["tk"], r["tc"], r["tpos"], TV, rnd, lambda g: g.uniform(0.05, 6.2))
        me = r["me"]
        args = {"polynomial_value": (ra, ta), "radial": (ra,), "radial_dr": (ra,), "triangular": (ta,), "triangular_dtheta": (ta,)}[me]
        snap = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        exact = (r["rpos"] + r["tpos"] + r["p"]) % 3 == 0 and me in ("polynomial_value", "radial", "radial_dr") and POLS[r["p"] - 1][1] <= 38
        kw = {"use_exact_eq": True} if exact else {}
        case = {"method": me, "pol": POLS[r["p"] - 1], "r": show(ra, r["rk"]) if me not in ("triangular", "triangular_dtheta") else None,
                "pos": [r["rpos"], r["tpos"]], "theta": show(ta, r["tk"]) if me not in ("radial", "radial_dr") else None, "exact_way": exact}
        ctx.traces += 1
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                out, got = "ok", getattr(p, me)(*args, **kw)
            except Exception as e:  # noqa
                out, got = type(e).__name__, None
        if not ctx.expect(out == r["out"], "acceptance", case, out, r["out"]):
            continue
        for a, s in zip(args, snap):
            if isinstance(a, np.ndarray):
                ctx.expect(np.array_equal(a, s), "input-unchanged", case)
        if out != "ok":
            continue
        # m = 0: the angular part is a constant, a scalar is as good as an array filled with it (the product has the shape of the radial part)
        shape = tuple(r["shape"])
        ctx.expect(tuple(np.shape(got)) == shape, "result-shape", case, np.shape(got), shape)
        if shape != ():
            ctx.expect(isinstance(got, np.ndarray), "result-type", case, type(got).__name__)
        ctx.expect((len(w) > 0) == r["warn"], "warning", case, [str(x.message) for x in w], r["warn"])
        # elementwise = scalar calls, angles by their position on the circle
        idxs = list(np.ndindex(shape)) if np.shape(got) == shape else []
        if len(idxs) > 2:
            idxs = rnd.sample(idxs, 2)
        for idx in idxs:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rr = element(ra, idx)
                tt = element(ta, idx)
                sc = {"polynomial_value": lambda: p.polynomial_value(rr, tt, **kw), "radial": lambda: p.radial(rr, **kw), "radial_dr": lambda: p.radial_dr(rr, **kw),
                      "triangular": lambda: p.triangular(tt), "triangular_dtheta": lambda: p.triangular_dtheta(tt)}[me]()
                sc2 = sc
                if r["warn"]:  # the same angle reduced to [0, 2pi]
                    t2 = tt % (2 * np.pi)
                    sc2 = {"polynomial_value": lambda: p.polynomial_value(rr, t2, **kw), "triangular": lambda: p.triangular(t2),
                           "triangular_dtheta": lambda: p.triangular_dtheta(t2)}[me]()
            g = float(np.asarray(got)[idx])
            ctx.expect(np.ndim(sc) == 0 and abs(g - sc) <= 1e-10 * max(1.0, abs(sc)), "elementwise", case, g, sc)
            ctx.expect(abs(g - sc2) <= 1e-9 * max(1.0, abs(sc2), 50.0), "angle-period", case, g, sc2)
    ctx.notes["acceptance"] = {o: sum(1 for r in rows if r["out"] == o) for o in ("ok", "ValueError")}
    ctx.sample(rows[0])
    layouts(ctx, rnd, pols)
    # not numbers at all
    for p in pols[:4]:
        for me in ("radial", "radial_dr", "triangular", "triangular_dtheta"):
            try:
                getattr(p, me)("abc")
                out = "ok"
            except Exception as e:  # noqa
                out = type(e).__name__
            ctx.expect(out == "ValueError", "not-a-number", {"method": me}, out, "ValueError")


def layouts(ctx, rnd, pols):
    """Elementwise the same values for every layout of arrays in memory: transposed, reversed, strided, read-only, three-dimensional."""
    gen = np.random.default_rng(ctx.seed)
    views = {"C": lambda a: a, "Fortran": np.asfortranarray, "transposed": lambda a: a.T, "reversed": lambda a: a[::-1, ::-1], "every second": lambda a: a[::2, 1::2],
             "rotated": np.rot90, "read-only": lambda a: np.broadcast_to(a[0], (3,) + a[0].shape), "deep": lambda a: np.moveaxis(a.reshape(4, 2, 7), 0, 2), "0-d": lambda a: a[2, 3].reshape(())}
    for p, mn in zip(pols, POLS):
        for name, view in views.items():
            r, t = view(gen.uniform(0, 1, (8, 7))), view(gen.uniform(0, 6.2, (8, 7)))
            rc, tc = np.array(r, order="C").ravel(), np.array(t, order="C").ravel()
            for exact in (False, True):
                if exact and mn[1] > 38:
                    continue
                kw = {"use_exact_eq": True} if exact else {}
                for me, args, flat in (("polynomial_value", (r, t), (rc, tc)), ("radial", (r,), (rc,)), ("radial_dr", (r,), (rc,)), ("triangular", (t,), (tc,)), ("triangular_dtheta", (t,), (tc,))):
                    if exact and me.startswith("triangular"):
                        continue
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        want, got = getattr(p, me)(*flat, **kw), getattr(p, me)(*args, **kw)
                    ctx.traces += 1
                    want = np.broadcast_to(want, rc.shape).reshape(r.shape)
                    ok = np.allclose(got, want, rtol=1e-10, atol=1e-10 * max(1.0, float(np.max(np.abs(want)))))
                    ctx.expect(ok, "memory-layout", {"pol": mn, "method": me, "layout": name, "exact_way": exact}, got, want)
    # long vectors: the values of their parts
    from zernpy import ZernPol
    long = [(ZernPol(m=m, n=n), (m, n)) for n in range(13) for m in range(-n, n + 1, 2)]
    for p, mn in long:
        size = rnd.choice([4097, 5001, 8193, 10001, 16385, 65537, 100001])
        r, t = gen.uniform(0, 1, size), gen.uniform(0, 6.2, size)
        for me, args in (("polynomial_value", (r, t)), ("radial", (r,)), ("radial_dr", (r,)), ("triangular", (t,)), ("triangular_dtheta", (t,))):
            got = getattr(p, me)(*args)
            ctx.traces += 1
            parts = [getattr(p, me)(*(a[k:k + 1021] for a in args)) for k in range(0, size, 1021)]
            if np.shape(got) == (size,):
                want = np.concatenate(parts)
                ok = np.abs(got - want) <= 1e-10 * np.maximum(1.0, np.abs(want))
                ctx.expect(ok.all(), "long-vector", {"pol": mn, "method": me, "length": size}, np.argwhere(~ok).ravel()[:4].tolist())
