"""C04, C05, C06: radial values, derivatives, full values (ZernRadial.tla gives the exact coefficients; AngTable.tla the exact trigonometry)."""
import random
import warnings

import numpy as np

from reference import Ref, all_orders, angular, angular_d, norm

EPS = 2.0 ** -52


def tol(n, s):
    """rounding of a sum with the condition sum s and about n operations"""
    return (24 + 6 * n) * EPS * float(s) + 1e-300


def budget_orders(ctx):
    """Orders evaluated: all with n <= 44; above, the recursion of the library costs seconds to minutes for small |m|, the quick tier keeps
    those whose recursion is short."""
    out = []
    for m, n in all_orders(54):
        if n <= 44 or abs(m) >= 2 * n - 62 or (ctx.thorough and abs(m) >= 2 * n - 88):
            out.append((m, n))
    return out


def radii(ctx, rnd, k):
    return [0.0, 1.0, 0.5, 0.25, 0.8125, 1e-3, 0.999] + [rnd.random() for _ in range(k)] + [np.sqrt(rnd.random()) for _ in range(k)]


def run_method(ctx, method, exact, limit, low):
    from zernpy import ZernPol
    ref = Ref(ctx, 54, 14)
    rnd = random.Random(ctx.seed)
    k = 3 if not ctx.thorough else 25
    orders = budget_orders(ctx)
    if method == "radial_dr":
        orders = [(m, n) for m, n in orders if n <= 42 or abs(m) >= 2 * n - 60 or ctx.thorough]
    rnd.shuffle(orders)  # the order of evaluation is arbitrary
    nmax = 0
    for m, n in orders:
        p = ZernPol(m=m, n=n)
        rs = radii(ctx, rnd, k)
        arr = np.asarray(rs)
        ways = [False] + ([True] if n <= limit else [])
        for way in ways:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                vals = getattr(p, method)(arr.copy(), use_exact_eq=way) if way else getattr(p, method)(arr.copy())
            ctx.traces += 1
            if not ctx.expect(isinstance(vals, np.ndarray) and vals.shape == arr.shape, "shape", {"m": m, "n": n, "exact_way": way}, str(type(vals))):
                continue
            for r, v in zip(rs, vals):
                e, s = exact(ref, m, n, float(r))
                ctx.expect(abs(float(v) - float(e)) <= tol(n, s), "value", {"m": m, "n": n, "r": float(r), "exact_way": way}, float(v), float(e))
            if n <= 40 or rnd.random() < 0.05:  # scalar call
                i = rnd.choice([0, 1, rnd.randrange(len(rs))])
                r = float(rs[i])
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = getattr(p, method)(r, use_exact_eq=way) if way else getattr(p, method)(r)
                e, s = exact(ref, m, n, r)
                ctx.expect(np.ndim(v) == 0 and abs(float(v) - float(e)) <= tol(n, s), "scalar-value", {"m": m, "n": n, "r": r, "exact_way": way}, v, float(e))
        nmax = max(nmax, n)
    # 2D arrays, lists
    for m, n in [(0, 0), (1, 1), (-1, 1), (0, 2), (2, 2), (3, 11), (0, 12), (-5, 13), (0, 14), (7, 21), (40, 40), (43, 43)]:
        p = ZernPol(m=m, n=n)
        a = np.array([[0.0, 0.3, 0.7], [1.0, 0.45, 0.99]])
        got = getattr(p, method)(a)
        ctx.expect(np.shape(got) == (2, 3), "shape-2d", {"m": m, "n": n}, np.shape(got))
        for idx in np.ndindex(2, 3):
            e, s = exact(ref, m, n, float(a[idx]))
            ctx.expect(abs(float(got[idx]) - float(e)) <= tol(n, s), "value-2d", {"m": m, "n": n, "at": idx}, float(got[idx]), float(e))
    # above the documented limit the exact way gives zeros and warns
    for m, n in [(limit + 1, limit + 1), (limit, limit + 2), (-45, 45), (0, 46), (54, 54), (limit % 2, limit + 2 - (limit % 2) * 1 if False else limit + 2)]:
        if (n - abs(m)) % 2:
            continue
        p = ZernPol(m=m, n=n)
        for arg in (0.5, np.array([0.2, 0.9])):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                v = getattr(p, method)(arg, use_exact_eq=True)
            ctx.expect(len(w) >= 1, "limit-warning", {"m": m, "n": n})
            ctx.expect(np.shape(v) == np.shape(arg) and np.all(np.asarray(v) == 0.0), "limit-zeros", {"m": m, "n": n}, v)
    # just at the limit the exact way is still offered
    p = ZernPol(m=limit, n=limit)
    e, s = exact(ref, limit, limit, 0.9)
    v = getattr(p, method)(0.9, use_exact_eq=True)
    ctx.expect(abs(float(v) - float(e)) <= tol(limit, s), "at-limit", {"n": limit}, v, float(e))
    ctx.sample({"orders_evaluated": len(orders), "highest_n": nmax})
    return ref


def long_vectors(ctx, method):
    """Long vectors of radii: the values of their parts (which are compared with the exact ones above), in every element."""
    from zernpy import ZernPol
    gen = np.random.default_rng(ctx.seed)
    for m, n in all_orders(14 if not ctx.thorough else 24):
        fn = getattr(ZernPol(m=m, n=n), method)
        for size in ((4097, 5001, 10001) if n <= 12 else (4097,)) if not ctx.thorough else (1025, 2049, 4097, 5001, 8193, 10001, 16385, 32769, 65537, 100001, 262145):
            r = np.sort(gen.uniform(0, 1, size))
            r[0], r[-1] = 0.0, 1.0
            got = fn(r)
            want = np.concatenate([np.broadcast_to(fn(r[k:k + 1021]), r[k:k + 1021].shape) for k in range(0, size, 1021)])
            ctx.traces += 1
            ok = np.shape(got) == (size,) and np.abs(got - want) <= 1e-9 * np.maximum(1.0, np.abs(want))
            ctx.expect(np.all(ok), "long-vector", {"m": m, "n": n, "length": size}, None if np.ndim(ok) == 0 else np.argwhere(~ok).ravel()[:4].tolist())


def check_C04(ctx):
    ref = run_method(ctx, "radial", lambda ref, m, n, r: ref.radial_exact(m, n, r), 40, 12)
    from zernpy import ZernPol
    long_vectors(ctx, "radial")
    # independence of the sign of m is part of the values; the edge identity R(1) = 1 as the specification states it
    for m, n in all_orders(20):
        v = ZernPol(m=m, n=n).radial(1.0)
        ctx.expect(abs(v - 1.0) < 1e-7, "edge", {"m": m, "n": n}, v, 1.0)


def check_C05(ctx):
    ref = run_method(ctx, "radial_dr", lambda ref, m, n, r: ref.radial_dr_exact(m, n, r), 38, 12)
    from zernpy import ZernPol
    long_vectors(ctx, "radial_dr")
    for m, n in all_orders(20):
        v = ZernPol(m=m, n=n).radial_dr(1.0)
        ctx.expect(abs(v - ref.slope[(n, abs(m))]) < 1e-6 * max(1, ref.slope[(n, abs(m))]), "edge-slope", {"m": m, "n": n}, v, ref.slope[(n, abs(m))])


def surd(c):
    """value of (c0 + c1 sqrt2 + c2 sqrt3 + c3 sqrt6) / 4"""
    return (c[0] + c[1] * 2 ** 0.5 + c[2] * 3 ** 0.5 + c[3] * 6 ** 0.5) / 4.0


def check_C06(ctx):
    from zernpy import ZernPol
    ref = Ref(ctx, 54, 24 if not ctx.thorough else 54)
    rows = ctx.tlc("AngTable", {"MaxM": 54}, invariants=["Pythagoras", "AngleAddition", "Parity", "DiscreteOrthogonality", "Emit"], min_rows=100).rows
    rnd = random.Random(ctx.seed)
    # exact trigonometric table: the angular part and its derivative at multiples of 15 degrees
    angles = [j * np.pi / 12.0 for j in range(25)]
    angles[24] = 2.0 * np.pi
    tab = {r["m"]: r for r in rows}
    for m in range(-54, 55):
        n = abs(m)
        p = ZernPol(m=m, n=n)
        r = tab[m]
        got, gotd = p.triangular(np.asarray(angles)), p.triangular_dtheta(np.asarray(angles))
        ctx.traces += 1
        t = 1e-13 * (4 + abs(m))
        for j in range(25):
            w, wd = surd(r["v"][j]), surd(r["d"][j])
            ctx.expect(abs(got[j] - w) <= t, "angular", {"m": m, "angle": "%d*pi/12" % j}, got[j], w)
            ctx.expect(abs(gotd[j] - wd) <= t * (1 + abs(m)), "angular-derivative", {"m": m, "angle": "%d*pi/12" % j}, gotd[j], wd)
            v = p.triangular(float(angles[j]))
            ctx.expect(np.ndim(v) == 0 and abs(v - w) <= t, "angular-scalar", {"m": m, "angle": "%d*pi/12" % j}, v, w)
        for _ in range(6):
            th = rnd.uniform(0, 2 * np.pi)
            ctx.expect(abs(p.triangular(th) - float(angular(m, th))) <= t, "angular", {"m": m, "angle": th}, p.triangular(th), float(angular(m, th)))
            ctx.expect(abs(p.triangular_dtheta(th) - float(angular_d(m, th))) <= t * (1 + abs(m)), "angular-derivative", {"m": m, "angle": th})
        # in the vicinity of every zero and extremum of the angular part (nothing is lost by rounding there)
        for q in rnd.sample(range(4 * max(1, abs(m)) + 1), min(6, 4 * max(1, abs(m)))):
            for eps in (0.0, 1e-7, -1e-7, 1e-9, 3e-5, -1e-12):
                th = max(0.0, min(2 * np.pi, q * np.pi / (2 * max(1, abs(m))) + eps))
                for th2 in (th, np.asarray([th, 0.5])):
                    g, gd = np.ravel(p.triangular(th2))[0], np.ravel(p.triangular_dtheta(th2))[0]
                    ctx.expect(abs(g - float(angular(m, th))) <= t, "angular-zeros", {"m": m, "angle": th}, g, float(angular(m, th)))
                    ctx.expect(abs(gd - float(angular_d(m, th))) <= t * (1 + abs(m)), "angular-derivative-zeros", {"m": m, "angle": th}, gd, float(angular_d(m, th)))
        nn = p.normf()
        # the norm depends on n and m = 0
        for n2 in range(abs(m), 55, 2):
            w = norm(m, n2)
            g = ZernPol(m=m, n=n2).normf()
            ctx.expect(abs(g - w) <= 1e-13 * w, "norm", {"m": m, "n": n2}, g, w)
    # products
    todo = [(m, n) for m, n in all_orders(40)] + [(m, n) for m, n in all_orders(54) if n > 40 and abs(m) >= 2 * n - 60]
    for m, n in todo:
        p = ZernPol(m=m, n=n)
        rs = np.asarray([0.0, 1.0, rnd.random(), rnd.random(), 0.5])
        th = np.asarray([rnd.uniform(0, 6.28), rnd.uniform(0, 6.28), rnd.uniform(0, 6.28), 0.0, rnd.choice(angles)])
        ctx.traces += 1
        for way in ([False, True] if n <= 40 else [False]):
            got = p.polynomial_value(rs, th, use_exact_eq=way) if way else p.polynomial_value(rs, th)
            for i in range(len(rs)):
                e, s = ref.radial_exact(m, n, float(rs[i]))
                w = norm(m, n) * float(e) * float(angular(m, th[i]))
                tl = norm(m, n) * (tol(n, s) + abs(float(e)) * 1e-13 * (4 + abs(m)))
                ctx.expect(abs(got[i] - w) <= tl, "polynomial-value", {"m": m, "n": n, "r": float(rs[i]), "theta": float(th[i]), "exact_way": way}, got[i], w)
    # limit of the exact way
    for m, n in [(41, 41), (0, 42), (-54, 54)]:
        p = ZernPol(m=m, n=n)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            v = p.polynomial_value(np.array([0.5, 0.9]), np.array([0.5, 0.9]), use_exact_eq=True)
            v1 = p.polynomial_value(0.5, 0.9, use_exact_eq=True)
        ctx.expect(len(w) >= 1 and np.shape(v) == (2,) and np.all(v == 0.0) and v1 == 0.0, "limit-zeros", {"m": m, "n": n}, v)
    # orthonormality of the values of the code by a quadrature that is exact for the products (Gauss-Legendre in r^2, equidistant in theta)
    top = 16 if not ctx.thorough else 26
    x, wx = np.polynomial.legendre.leggauss(top + 2)
    u, wu = (x + 1) / 2, wx / 2
    nt = 2 * top + 2
    th = np.arange(nt) * 2 * np.pi / nt
    rr, tt = np.meshgrid(np.sqrt(u), th, indexing="ij")
    ww = np.repeat(wu[:, None], nt, axis=1) / nt
    vals = np.array([ZernPol(m=m, n=n).polynomial_value(rr, tt).ravel() for m, n in all_orders(top)])
    gram = (vals * ww.ravel()) @ vals.T
    dev = np.abs(gram - np.eye(len(vals)))
    worst = np.unravel_index(np.argmax(dev), dev.shape)
    ctx.evaluations += dev.size
    ctx.expect(dev.max() < 1e-8, "orthonormal", {"pair": [all_orders(top)[worst[0]], all_orders(top)[worst[1]]]}, float(dev.max()), 0.0)
    ctx.sample({"pairs": int(dev.size), "worst_deviation": float(dev.max())})
