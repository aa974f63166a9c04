"""C27: walks over Warnings.tla replayed on PSF objects and polynomials; the emitted warnings of every step are counted, the results compared with those of silenced calls."""
import contextlib
import importlib.util
import io
import random
import sys
import warnings

import numpy as np

import nonumba
from core import tour


@contextlib.contextmanager
def listen():
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(io.StringIO()) as text:
        warnings.simplefilter("always")
        told = []
        yield told, text
    told += [str(w.message) for w in rec if issubclass(w.category, UserWarning)]


def walks(ctx, machine, orders, properties, single=True, numba=True):
    edges = ctx.tlc("Warnings", {"Machine": machine, "Orders": orders, "Single": single, "Numba": numba}, view="View", action_constraint="Edge", properties=properties, min_rows=10).rows
    parts = {}
    for e in edges:
        parts.setdefault(e["f"][2], []).append(e)
    return parts


def check_C27(ctx):
    rnd = random.Random(ctx.seed)
    edges = {numba: [walks(ctx, "psf", {0}, ["Silenced", "CutIsTold", "DefaultsTold", "AccelerationTold"], single, numba)[0] for single in (False, True)] for numba in (True, False)}
    without = nonumba.Run(ctx, "c_warn", "kernels", edges[False])
    kernels(ctx, edges[True], True)
    without.finish()
    collections(ctx, rnd)
    evaluations(ctx, rnd)


KINDS = [[(0, 2)], [(-1, 1)], [(1, 3)], [(0, 2), (1, 1)], [(-2, 2), (0, 4), (3, 3)]]


def pixel(mns, NA, wl, cs):
    """A pixel size for which the estimated kernel is small, but not the smallest."""
    from zernpy import ZernPol, ZernPSF
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f in (0.97, 0.8, 0.6, 0.45, 0.35, 0.25, 0.2, 0.15):
            p = ZernPSF([ZernPol(m=m, n=n) for m, n in mns])
            p.set_physical_props(NA, wl, list(cs), 0.25 * wl / NA * f)
            if p.kernel_size >= 5:
                break
    return 0.25 * wl / NA * f


def kernels(ctx, edges, numba=False):
    from zernpy import ZernPol, ZernPSF, force_get_psf_compilation
    rnd = random.Random(ctx.seed)
    if (importlib.util.find_spec("numba") is not None if numba else "numba" in sys.modules) != numba:
        raise AssertionError("numba")
    machines = [(ee, {repr((e["f"], e["a"])): (sorted(e["e"]), e["t"]) for e in ee}) for ee in edges]
    cuts = {True: 0, False: 0}
    stats = {"calculations": 0, "warnings": 0}

    class Player:
        """One object with its own walk."""

        def __init__(self, mns):
            self.mns = mns
            ps = [ZernPol(m=m, n=n) for m, n in mns]
            self.psf = ZernPSF(ps[0]) if len(ps) == 1 and rnd.random() < 0.5 else ZernPSF(ps)
            edges, self.told_of = machines[len(ps) == 1]
            self.walk = tour(edges, rnd)
            self.state, self.k, self.est, self.given, self.heavy, self.known = edges[0]["f"], 0, None, None, False, {}

        def step(self):
            act, _ = self.walk[self.k]
            self.k += 1
            if act[0] == "kernel":
                return self.kernel(act)
            if act[0] == "precompile":
                return self.precompile(act)
            case = {"pols": self.mns, "step": act, "before": self.state, "number": self.k}
            refused = None
            with listen() as (told, _):
                try:
                    self.phys(act[1], case) if act[0] == "phys" else self.calc(act[1], act[2], case)
                except ValueError as ex:
                    refused = ex
            self.verdict(case, act, told)
            ctx.expect((refused is not None) == ("bad" in act), "refusal", case, repr(refused))
            if act[0] == "phys" and refused is None:
                self.est = self.psf.kernel_size
            return None

        def verdict(self, case, act, told):
            want, after = self.told_of[repr((self.state, act))]
            ctx.traces += 1
            stats["warnings"] += len(told)
            ctx.expect(len(told) == len(want), "warnings", case, told, want)
            self.state = after

        def phys(self, amp, case):
            wl, NA = 0.5, 0.2
            top = {"ok": rnd.choice([0.05, -0.2, 0.7, 3.0, 9.99, -9.99]), "ten": 10.0, "minus ten": -10.0, "above": rnd.choice([10.001, 11.0]), "minus above": rnd.choice([-10.001, -11.0]),
                   "bad": 0.3}[amp]
            cs = [wl * top] + [wl * rnd.uniform(-1, 1) * min(1.0, abs(top)) for _ in self.mns[1:]]
            rnd.shuffle(cs)
            c = (cs[0] if rnd.random() < 0.6 else [cs[0]]) if len(cs) == 1 else rnd.choice([list, tuple, np.asarray])(cs)
            given = (NA, wl, tuple(cs), pixel(self.mns, NA, wl, cs))
            arg = dict(NA=NA, wavelength=wl, expansion_coeff=c, pixel_physical_size=given[3])
            if amp == "bad":
                arg.update(rnd.choice([{"NA": 1.8}, {"NA": -0.1}, {"wavelength": 0.0}, {"pixel_physical_size": -0.1}, {"pixel_physical_size": 0.26 * wl / NA}]))
            case.update(arg)
            self.psf.set_physical_props(**arg)
            self.given = given

        def calc(self, rel, points, case):
            e = self.est if self.est is not None else 9
            small = [s for s in (3, 5, 7, e - 6, e - 4, e - 3, e - 2) if 3 <= s <= e - 2]
            size = {"below": rnd.choice(small or [3]), "equal": rnd.choice([e, e - 1]), "above": e + rnd.choice([1, 2, 4]), "huge": rnd.choice([86, 87])}[rel]
            nr, nphi = {"usual": (rnd.randint(20, 30), 2 * rnd.randint(18, 24)), "radii": (501, 400), "angles": (500, rnd.choice([402, 403])), "both": (501, 402), "limits": (500, 400),
                        "bad": rnd.choice([(19, 40), (25, 35)])}[points]
            if points == "bad" and rnd.random() < 0.3:
                size, nr, nphi = 2, 25, 40
            case.update({"size": size, "estimation": e, "points": (nr, nphi)})
            self.psf.set_calculation_props(size, nr, nphi)
            self.heavy = points != "usual"

        def precompile(self, act):
            before = np.array(self.psf.kernel)
            verbose = rnd.random() < 0.2
            with listen() as (told, text):
                got = force_get_psf_compilation(verbose)
            case = {"pols": self.mns, "step": act, "number": self.k}
            self.verdict(case, act, told)
            if numba:
                ok = isinstance(got, tuple) and len(got) == 2 and all(isinstance(g, ZernPSF) and np.all(np.isfinite(g.kernel)) and g.kernel.max() > 0 for g in got)
                ctx.expect(ok and got[0] is not self.psf and got[1] is not self.psf, "precompiled", case, got)
            else:
                ctx.expect(got is None, "precompiled", case, got)
            if not verbose:
                ctx.expect(text.getvalue() == "", "precompilation-prints", case, text.getvalue()[:80])
            ctx.expect(np.array_equal(before, self.psf.kernel), "precompilation-touches", case)

        def kernel(self, act):
            quiet, ask = act[1], act[2]
            if self.heavy:      # the same step with fewer points (a step of the specification that stays in its state)
                with listen():
                    self.psf.set_calculation_props(self.psf.kernel_size, 20, 36)
                self.heavy = False
            case = {"pols": self.mns, "step": act[:3], "before": self.state, "number": self.k, "size": self.psf.kernel_size}
            verbose = rnd.random() < 0.2
            normal = rnd.random() < 0.6
            kw = {}
            if quiet or rnd.random() < 0.3:
                kw["suppress_warnings"] = quiet
            with listen() as (told, text):
                k = np.array(self.psf.calculate_psf_kernel(normalized=normal, verbose_info=verbose, accelerated={"plain": False, "accelerated": True, "default": None}[ask], **kw))
            stats["calculations"] += 1
            border = max(k[0].max(), k[-1].max(), k[:, 0].max(), k[:, -1].max())
            cut = bool(border > k.max() / 20.0)
            if abs(border * 20.0 - k.max()) < 1e-9 * k.max():
                cut = len(told) == len(self.told_of[repr((self.state, act[:3] + [True]))][0])
            cuts[cut] += 1
            self.verdict({**case, "cut": cut}, act[:3] + [cut], told)
            if quiet and not verbose:
                ctx.expect(text.getvalue() == "", "silenced-prints", case, text.getvalue()[:80])
            key = (self.given, self.psf.kernel_size, self.psf.n_int_r_points, self.psf.n_int_phi_points, normal)
            if key in self.known:       # silenced or not, the kernel is the same
                ctx.expect(np.allclose(k, self.known[key], rtol=1e-9, atol=1e-12), "silenced-changes", case)
            self.known[key] = k
            return None

    for pair in ([(0, 3)] if not ctx.thorough else [(0, 3), (1, 4), (2, 0), (3, 4), (4, 1)]):
        players = [Player(KINDS[i]) for i in pair]
        while any(p.k < len(p.walk) for p in players):     # two objects, interleaved at random
            p = rnd.choice([p for p in players if p.k < len(p.walk)])
            p.step()
    ctx.notes.update(stats)
    ctx.notes["kernels cut / not cut by their frame"] = [cuts[True], cuts[False]]
    if numba and min(cuts.values()) < 1 and not ctx.violations:
        raise AssertionError("the walks met too few kernels of one kind: %s" % cuts)


def evaluations(ctx, rnd):
    from zernpy import ZernPol
    orders = {1, 8, 12, 13, 38, 39, 40, 41, 48, 49, 50, 51, 53, 54}
    parts = walks(ctx, "pol", orders, ["WrongNotSilent", "SlowOnce", "ToldStays"])
    rs = np.array([0.0, 0.31, 0.8, 1.0])
    players = []
    for n, edges in parts.items():
        told_of = {repr((e["f"], e["a"])): (sorted(e["e"]), e["t"]) for e in edges}
        for m in {n, -n, n - 2, 2 - n} if n > 1 else {1, -1}:
            players.append({"mn": (m, n), "pol": ZernPol(m=m, n=n), "walk": tour(edges, rnd), "of": told_of, "state": edges[0]["f"]})
    slow = 0
    while players:
        p = rnd.choice(players)
        act, _ = p["walk"].pop(0)
        if not p["walk"]:
            players.remove(p)
        pol, case = p["pol"], {"pol": p["mn"], "step": act, "before": p["state"]}
        single = rnd.random() < 0.4
        r = float(rnd.choice(rs)) if single else rs.copy()
        theta = rnd.uniform(0, 6.2) if single else np.array([0.1, 1.0, 3.0, 6.0])
        got = None
        with listen() as (told, _):
            if act[0] == "angular":
                pol.triangular(theta), pol.triangular_dtheta(theta), pol.normf(), pol.get_indices(), str(pol), pol.get_polynomial_name()
            else:
                exact = {"use_exact_eq": act[2]} if act[2] or rnd.random() < 0.5 else {}
                got = pol.polynomial_value(r, theta, **exact) if act[1] == "value" else pol.radial(r, **exact) if act[1] == "radial" else pol.radial_dr(r, **exact)
        want, after = p["of"][repr((p["state"], act))]
        ctx.traces += 1
        ctx.expect(len(told) == len(want), "evaluation-warnings", case, told, want)
        if "not exact" in want:     # told: zeros instead of values
            ctx.expect(np.shape(got) == np.shape(r) and not np.any(got), "not-exact-zeros", case, got)
        slow += "slow" in want
        p["state"] = after
    ctx.notes["slow polynomials told"] = slow


def collections(ctx, rnd):
    from zernpy import generate_polynomials
    edges = walks(ctx, "all", {0}, [])[0]
    rnd.shuffle(edges)
    for e in edges * 2:
        _, n, whole = e["a"]
        given = n if whole else rnd.choice([float(n), n + 0.3 if n >= 0 else n - 0.3, np.int64(n), np.float32(n)])
        got = None
        with listen() as (told, _):
            try:
                got = generate_polynomials(given)
            except ValueError:
                pass
        case = {"order": n, "given": repr(given)}
        ctx.traces += 1
        ctx.expect(len(told) == len(e["e"]), "collection-warnings", case, told, e["e"])
        ctx.expect((got is None) == (n < 0) and (got is None or len(got) == (n + 1) * (n + 2) // 2), "collection", case, got if got is None else len(got))
