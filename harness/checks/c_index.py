"""C01, C02, C03, C24: indices, conversions, construction, names and comparison (ZernIndex.tla, ZernCtor.tla, ZernNames.tla)."""
import copy
import pickle
import random
import warnings

import numpy as np

INT = int


def walk(ctx, max_n, max_shell):
    return ctx.tlc("ZernIndex", {"MaxN": max_n, "MaxShell": max_shell},
                   invariants=["OrdersValid", "FormulaIsRank", "InverseIsWalk", "Complete", "NollParity", "EmitInv"], min_rows=10)


def tables(rows):
    """{(m, n): {scheme: index}} and the inverse {scheme: {index: (m, n)}}"""
    fw, inv = {}, {"osa": {}, "noll": {}, "fringe": {}}
    for r in rows:
        fw.setdefault((r["m"], r["n"]), {})[r["s"]] = r["i"]
        inv[r["s"]][r["i"]] = (r["m"], r["n"])
    return fw, inv


def is_int(x):
    return type(x) is int


def call(fn, *a, **k):
    """('ok', value) or ('err', exception type name)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:  # noqa
        return "err", type(e).__name__


def check_C01(ctx):
    from zernpy import ZernPol
    top = 54 if not ctx.thorough else 120
    res = walk(ctx, top, top)
    fw, inv = tables(res.rows)
    for (m, n), d in sorted(fw.items(), key=lambda kv: (kv[0][1], kv[0][0])):
        for s, fn in (("osa", ZernPol.get_osa_index), ("noll", ZernPol.get_noll_index), ("fringe", ZernPol.get_fringe_index)):
            if s in d:
                k, v = call(fn, m, n)
                ctx.traces += 1
                ctx.expect(k == "ok" and v == d[s] and is_int(v), "index-function", {"scheme": s, "m": m, "n": n}, v, d[s])
        if n <= 54:
            k, p = call(ZernPol, n=n, m=m)
            if not ctx.expect(k == "ok", "construct", {"m": m, "n": n}, p):
                continue
            ind = p.get_indices()
            want = ((m, n), d["osa"], d["noll"], d["fringe"])
            ctx.expect(tuple(ind) == want and all(is_int(x) for x in (ind[0][0], ind[0][1], ind[1], ind[2], ind[3])), "indices", {"m": m, "n": n}, ind, want)
            ctx.expect(tuple(p.get_mn_orders()) == (m, n), "orders", {"m": m, "n": n}, p.get_mn_orders(), (m, n))
            ctx.sample({"m": m, "n": n, "indices": ind})
    # each map is a bijection onto an unbroken range: checked on the values of the code itself
    for s, fn, start in (("osa", ZernPol.get_osa_index, 0), ("noll", ZernPol.get_noll_index, 1)):
        got = sorted(fn(m, n) for n in range(55) for m in range(-n, n + 1, 2))
        ctx.expect(got == list(range(start, start + 55 * 28)), "bijective", {"scheme": s})
    got = sorted(ZernPol.get_fringe_index(m, 2 * s - abs(m)) for s in range(55) for m in range(-s, s + 1))
    ctx.expect(got == list(range(1, 55 * 55 + 1)), "bijective", {"scheme": "fringe"})


def check_C02(ctx):
    from zernpy import ZernPol, generate_polynomials
    res = walk(ctx, 57, 127)
    fw, inv = tables(res.rows)
    key = {"osa": "osa_index", "noll": "noll_index", "fringe": "fringe_index"}
    conv = {("osa", "noll"): ZernPol.osa2noll, ("noll", "osa"): ZernPol.noll2osa, ("osa", "fringe"): ZernPol.osa2fringe, ("fringe", "osa"): ZernPol.fringe2osa}

    def legal(kind, val, want, clause, case, must):
        """in the supported range: the wanted value; outside: the wanted value or ValueError, never anything else"""
        if kind == "ok":
            ctx.expect(val == want, clause, case, val, want)
        else:
            ctx.expect((not must) and val == "ValueError", clause, case, val, want)

    idx_sets = {s: sorted(inv[s]) for s in inv}
    rnd = random.Random(ctx.seed)
    if not ctx.thorough:  # the index search of the code is a linear scan: all supported ones plus a sample beyond
        sup = [i for i in idx_sets["fringe"] if inv["fringe"][i][1] <= 54]
        beyond = [i for i in idx_sets["fringe"] if inv["fringe"][i][1] > 54]
        idx_sets["fringe"] = sup + sorted(rnd.sample(beyond, 400)) + [max(beyond), max(sup) + 1]
    for s in ("osa", "noll", "fringe"):
        for i in idx_sets[s]:
            o = inv[s][i]
            must = o[1] <= 54
            ctx.traces += 1
            k, v = call(ZernPol.index2orders, **{key[s]: i})
            legal(k, tuple(v) if k == "ok" else v, o, "index2orders", {"scheme": s, "index": i}, must)
            for (a, b), fn in conv.items():
                if a == s and (b in fw[o]):
                    k, v = call(fn, i)
                    legal(k, v, fw[o][b], "convert", {"from": a, "to": b, "index": i}, must)
                    if k == "ok":
                        ctx.expect(is_int(v), "convert-type", {"from": a, "to": b, "index": i}, type(v).__name__)
                        if must and (b, a) in conv:
                            k2, v2 = call(conv[(b, a)], v)
                            ctx.expect(k2 == "ok" and v2 == i, "round-trip", {"from": a, "to": b, "index": i}, v2, i)
            if must and (s != "fringe" or i % 3 == 0 or ctx.thorough):
                k, p = call(ZernPol, **{key[s]: i})
                ctx.expect(k == "ok" and tuple(p.get_indices()) == (o, fw[o]["osa"], fw[o]["noll"], fw[o]["fringe"]), "constructed", {"scheme": s, "index": i},
                           p.get_indices() if k == "ok" else p)
    ctx.sample({"scheme": "noll", "index": 1000, "orders": inv["noll"][1000]})
    # indices of no supported polynomial: an error, never orders of something else
    far = {"osa": [-1, -5, 1700, 3000, 10 ** 6], "noll": [0, -1, -7, 1700, 5000, 10 ** 6], "fringe": [0, -1, -9, 10 ** 5, 10 ** 6]}
    for s in far:
        for i in far[s]:
            for (a, b), fn in conv.items():
                if a == s:
                    k, v = call(fn, i)
                    if k == "ok":  # only a right value is possible (unlimited implementation)
                        ctx.violate("convert-far", {"from": a, "to": b, "index": i}, v, "ValueError")
                    else:
                        ctx.expect(v == "ValueError", "convert-far", {"from": a, "to": b, "index": i}, v, "ValueError")
            if i > 0:
                k, v = call(ZernPol.index2orders, **{key[s]: i})
                ctx.expect(k == "err" and v == "ValueError", "index2orders-far", {"scheme": s, "index": i}, v, "ValueError")
    for s, fn in (("osa", ZernPol.osa2noll), ("noll", ZernPol.noll2osa), ("osa", ZernPol.osa2fringe), ("fringe", ZernPol.fringe2osa)):
        for bad in (2.0, "3", [1]):
            k, v = call(fn, bad)
            ctx.expect(k == "err" and v == "ValueError", "convert-type-error", {"fn": fn.__name__, "arg": repr(bad)}, v, "ValueError")
    # list of polynomials up to a radial order = the OSA walk
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for order in list(range(0, 25)) + [30, 31, 54]:
            k, ps = call(generate_polynomials, order)
            want = [inv["osa"][i] for i in range((order + 1) * (order + 2) // 2)]
            ctx.traces += 1
            ctx.expect(k == "ok" and isinstance(ps, tuple) and [tuple(p.get_mn_orders()) for p in ps] == want, "generate", {"max_order": order})
            ctx.expect(k == "ok" and [p.get_indices()[1] for p in ps] == list(range(len(want))), "generate-indices", {"max_order": order})
        k, ps = call(generate_polynomials)
        ctx.expect(k == "ok" and len(ps) == 66, "generate-default", {})
        for given in (3.0, np.int64(3), np.float32(3.0)):     # converted (with a warning) where it is no plain integer
            k, ps = call(generate_polynomials, given)
            ctx.expect(k == "ok" and [tuple(p.get_mn_orders()) for p in ps] == [inv["osa"][i] for i in range(10)], "generate-converted", {"max_order": repr(given)}, k)
        k, v = call(generate_polynomials, -1)
        ctx.expect(k == "err" and v == "ValueError", "generate-negative", {"max_order": -1}, v)


VALUES = {"float": [1.0, 4.0, 2.5], "str": ["4", "a"], "none": [None], "list": [[4]]}


def check_C03(ctx):
    from zernpy import ZernPol
    rows = []
    for part in ("keys", "orders", "index"):
        rows += ctx.tlc("ZernCtor", {"Part": part}, invariants=["AtMostOneMeaning", "DenotesSupported", "IndexConsistent", "Emit"], min_rows=100).rows
    acc = {}
    rnd = random.Random(ctx.seed)
    for r in rows:
        ctx.traces += 1
        args = [tuple(a) for a in r["args"]]
        for rep in range(2):
            rnd.shuffle(args)  # the order of the keywords is irrelevant
            kwargs = {}
            for k, kind, val in args:
                kwargs[k] = val if kind == "int" else VALUES[kind][rep % len(VALUES[kind])]
            k, p = call(ZernPol, **kwargs)
            if r["ok"]:
                (m, n), (o, no, f) = r["ok"][0], r["idx"][0]
                want = ((m, n), o, no, f)
                if ctx.expect(k == "ok", "accept", {"kwargs": repr(kwargs)}, p, want):
                    ctx.expect(tuple(p.get_indices()) == want and tuple(p.get_mn_orders()) == (m, n), "meaning", {"kwargs": repr(kwargs)}, p.get_indices(), want)
                    acc.setdefault((m, n), []).append(p)
            else:
                ctx.expect(k == "err" and p == "ValueError", "reject", {"kwargs": repr(kwargs)}, p.get_indices() if k == "ok" else p, "ValueError")
            if len(args) < 2 and not any(a[1] != "int" for a in args):
                break
    ctx.notes["accepted_specifications"] = sum(len(v) for v in acc.values())
    for o, ps in acc.items():
        for p in ps[1:]:
            ctx.expect(p == ps[0], "equivalent", {"orders": o})
    ctx.sample({"rows": len(rows), "accepted_polynomials": len(acc)})


def check_C24(ctx):
    from zernpy import ZernPol
    import re
    row_max = 10 if not ctx.thorough else 20
    rnd = random.Random(ctx.seed)
    count = (row_max + 1) * (row_max + 2) // 2
    rows = ctx.tlc("ZernNames", {"Items": set(range(count))}, invariants=["Trichotomy", "NamesUnique", "Emit"], min_rows=100).rows
    # higher orders: pairs of neighbours, of the ends of the rows and of arbitrary polynomials
    num = 60 if not ctx.thorough else 220
    some = {0}
    while len(some) < num:
        n = rnd.randint(11, 54)
        first = n * (n + 1) // 2
        some |= {rnd.choice([first, first + n, first + rnd.randint(0, n)]), first + n // 2, first + n // 2 + 1}
    rows += [r for r in ctx.tlc("ZernNames", {"Items": some}, invariants=["Trichotomy", "NamesUnique", "Emit"], min_rows=100).rows if "full" not in r or r["n"] > row_max]
    ways = [lambda i, r: ZernPol(osa=i), lambda i, r: ZernPol(m=r[0], n=r[1]), lambda i, r: ZernPol(noll_index=r[2]), lambda i, r: ZernPol(fringe_index=r[3])]
    names = {(r["m"], r["n"]): r for r in rows if "full" in r}
    cache = {}

    def pol(i, way):
        if (i, way) not in cache:
            b = ZernPol(osa_index=i)
            (m, n), o, no, f = b.get_indices()
            cache[(i, way)] = ways[way](i, (m, n, no, f))
        return cache[(i, way)]

    for r in rows:
        if "full" in r:
            continue
        ctx.traces += 1
        a, b = pol(r["a"], (r["a"] + r["b"]) % 4), pol(r["b"], (r["a"] + 3 * r["b"] + 1) % 4)
        case = {"a": r["a"], "b": r["b"]}
        ctx.expect((a == b) is r["eq"], "equal", case, a == b, r["eq"])
        ctx.expect((a != b) is (not r["eq"]), "not-equal", case)
        ctx.expect((a > b) is r["gt"], "greater", case, a > b, r["gt"])
        ctx.expect((b < a) is r["gt"], "less", case)
    # the order in use: sorting, searching; copies of polynomials are the same polynomials
    for rep in range(4 if not ctx.thorough else 40):
        items = rnd.sample(sorted(some | set(range(count))), 30)
        ps = [pol(i, rnd.randrange(4)) for i in items]
        ps = [rnd.choice([lambda x: x, copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(p) for p in ps]
        ctx.traces += 1
        got = [p.get_indices()[1] for p in sorted(ps)]
        ctx.expect(got == sorted(items), "sorted", {"osa": items}, got)
        got = [max(ps).get_indices()[1], min(ps).get_indices()[1]]
        ctx.expect(got == [max(items), min(items)], "extremes", {"osa": items}, got)
        k = rnd.randrange(30)
        ctx.expect(ps.index(pol(items[k], rep % 4)) == k, "found", {"osa": items, "k": k})
        for i, p in zip(items, ps):
            q = pol(i, 0)
            ctx.expect(p == q and str(p) == str(q) and p.get_polynomial_name() == q.get_polynomial_name() and p.get_indices() == q.get_indices(), "copied", {"osa": i}, str(p))
            if q.get_mn_orders()[1] <= 10:
                ctx.expect(p.polynomial_value(0.61, 2.1) == q.polynomial_value(0.61, 2.1) and p.radial_dr(0.61) == q.radial_dr(0.61), "copied-value", {"osa": i})
    for other in (0, 4, 2.0, "4", None, (0, 2), [ZernPol(osa=4)], object()):       # nothing else is comparable
        for op, fn in (("==", lambda x, y: x == y), ("!=", lambda x, y: x != y), (">", lambda x, y: x > y)):
            try:
                out = repr(fn(ZernPol(osa=4), other))
            except Exception as e:  # noqa
                out = type(e).__name__
            ctx.expect(out == "ValueError", "foreign-object", {"op": op, "other": type(other).__name__}, out, "ValueError")
    for (m, n), r in names.items():
        p = ZernPol(m=m, n=n)
        full = " ".join(x for x in r["full"] if x)
        short = "".join(x for x in r["short"] if x).replace(" ", "")
        ctx.traces += 1
        got = p.get_polynomial_name()
        ctx.expect(got == full, "name", {"m": m, "n": n}, got, full)
        got = p.get_polynomial_name(short=True)
        ctx.expect(isinstance(got, str) and got.replace(" ", "") == short, "short-name", {"m": m, "n": n}, got, short)
        ctx.sample({"m": m, "n": n, "name": full})
    # text form of every supported polynomial (indices of ZernIndex)
    fw, _ = tables(walk(ctx, 54, 54).rows)
    for (m, n), d in fw.items():
        if n > 54:
            continue
        p = ZernPol(m=m, n=n)
        s = str(p)
        ctx.traces += 1
        nums = {k.lower(): int(v) for k, v in re.findall(r"(\bn|\bm|OSA|Noll|Fringe)\s*=\s*(-?\d+)", s)}
        want = {"n": n, "m": m, "osa": d["osa"], "noll": d["noll"], "fringe": d["fringe"]}
        ctx.expect(nums == want, "text", {"m": m, "n": n}, s, want)
        nm = p.get_polynomial_name()
        ctx.expect(nm in s, "text-name", {"m": m, "n": n}, s, nm)
        if n > 7:
            ctx.expect(nm == "" and p.get_polynomial_name(short=True) == "", "no-name", {"m": m, "n": n}, nm)
