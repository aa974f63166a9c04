"""Exact reference values interpreted from the rows that ZernRadial.tla emits (integer coefficients)."""
import math
from fractions import Fraction

import numpy as np


class Ref:
    """R(l, n; r) etc. from exact coefficients {(n, l): [c0, c1, ...]} (signed, k-th belongs to r^(n-2k))."""

    def __init__(self, ctx, max_n, ortho_n=0):
        res = ctx.tlc("ZernRadial", {"MaxN": max_n, "OrthoN": ortho_n}, min_rows=1, heap="4g",
                      invariants=["ClosedForm", "UnitAtEdge", "SlopeAtEdge", "UnitAtOrigin", "Orthogonal", "Emit"])
        self.c = {}
        self.max_n = max_n
        self.slope = {}
        for r in res.rows:
            vals = []
            for k, limbs in enumerate(r["c"]):
                v = sum(d * 10000 ** i for i, d in enumerate(limbs))
                vals.append(v if k % 2 == 0 else -v)
            self.c[(r["n"], r["l"])] = vals
            self.slope[(r["n"], r["l"])] = r["slope"]

    def radial_exact(self, m, n, r):
        """exact rational value and the condition sum S = sum |c| r^k for a float r"""
        x = Fraction(r)
        c = self.c[(n, abs(m))]
        x2 = x * x
        acc = Fraction(0)
        accs = Fraction(0)
        for v in c:  # Horner in r^2: c0 r^(2K) + ...
            acc = acc * x2 + v
            accs = accs * x2 + abs(v)
        p = x ** abs(m)
        return acc * p, accs * p

    def radial_dr_exact(self, m, n, r):
        x = Fraction(r)
        l = abs(m)
        tot = Fraction(0)
        s = Fraction(0)
        for k, v in enumerate(self.c[(n, l)]):
            e = n - 2 * k
            if e == 0:
                continue
            t = v * e * x ** (e - 1)
            tot += t
            s += abs(t)
        return tot, s

    def radial(self, m, n, r):
        """float (array) value from the exact coefficients, for n <= ~14 only"""
        r = np.asarray(r, dtype=float)
        c = self.c[(n, abs(m))]
        acc = np.zeros(r.shape)
        for v in c:
            acc = acc * (r * r) + float(v)
        return acc * r ** abs(m)

    def value(self, m, n, r, theta):
        return norm(m, n) * self.radial(m, n, r) * angular(m, theta)


def norm(m, n):
    return math.sqrt((n + 1) * (1 if m == 0 else 2))


def angular(m, theta):
    theta = np.asarray(theta, dtype=float)
    return np.cos(m * theta) if m >= 0 else np.sin(-m * theta)


def angular_d(m, theta):
    theta = np.asarray(theta, dtype=float)
    return -m * np.sin(m * theta) if m >= 0 else -m * np.cos(-m * theta)


def all_orders(max_n):
    return [(m, n) for n in range(max_n + 1) for m in range(-n, n + 1, 2)]
