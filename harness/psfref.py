"""Reference values of PSF kernels: the sums of Quadrature.tla with exact Zernike polynomials (ZernRadial.tla)."""
import math
from fractions import Fraction

import numpy as np

from reference import Ref


class PsfRef:
    def __init__(self, ctx, nrs, nphis, max_n=14):
        self.ref = Ref(ctx, max_n, 6)
        rows = ctx.tlc("Quadrature", {"NRs": set(nrs), "NPhis": set(nphis)}, min_rows=len(set(nrs)) + len(set(nphis)),
                       invariants=["Total", "Linear", "Quadratic", "Cubic", "Even", "Reflect", "Quarter", "HalfTurn", "Emit"]).rows
        self.tab = {(r["rule"], r["n"]): np.array(r["w"], dtype=float) for r in rows}
        self._z = {}

    def _zern(self, m, n, nr, nphi):
        key = (m, n, nr, nphi)
        if key not in self._z:
            P = (np.arange(nr + 1) / nr)[:, None]
            F = (2 * math.pi * np.arange(nphi + 1) / nphi)[None, :]
            self._z[key] = self.ref.value(m, n, P, F)
        return self._z[key]

    def point(self, terms, r, theta, nr, nphi):
        """terms: [(m, n, amplitude in wavelengths)]; r = k*NA*distance."""
        p = np.arange(nr + 1) / nr
        phi = 2 * math.pi * np.arange(nphi + 1) / nphi
        ph = -r * p[:, None] * np.cos(phi - theta)[None, :]
        for m, n, a in terms:
            ph = ph + a * self._zern(m, n, nr, nphi)
        wr = self.tab[("trapezoid", nr)] / (2 * nr)
        wp = self.tab[("simpson", nphi)] * (2 * math.pi / (3 * nphi))
        u = (wr * p) @ np.exp(1j * ph) @ wp
        return abs(u) ** 2 / math.pi ** 2

    def kernel(self, terms, wavelength, NA, pixel, size, nr, nphi):
        """coefficients in terms are physical (same unit as the wavelength)"""
        terms = [(m, n, c / wavelength) for m, n, c in terms]
        c = size // 2
        out = np.empty((size, size))
        for i in range(size):
            for j in range(size):
                out[i, j] = self.point(terms, 2 * math.pi / wavelength * NA * pixel * math.hypot(i - c, j - c),
                                       math.atan2(i - c, j - c) + math.pi, nr, nphi)
        return out


def bessel_j1(x):
    """power series in rational arithmetic"""
    h = Fraction(x) / 2
    t, s, k = h, h, 0
    while abs(t) > Fraction(1, 10 ** 22):
        k += 1
        t = -t * h * h / (k * (k + 1))
        s += t
    return float(s)


def airy(x):
    return 1.0 if abs(x) < 1e-9 else (2 * bessel_j1(x) / x) ** 2


def airy_kernel(wavelength, NA, pixel, size):
    c = size // 2
    return np.array([[airy(2 * math.pi / wavelength * NA * pixel * math.hypot(i - c, j - c)) for j in range(size)] for i in range(size)])


def gauss_point(ref, terms, r, theta, nr=48, nphi=256):
    """the true integral (Gauss-Legendre on the radius, equidistant nodes on the full turn): smooth integrand, both converge exponentially"""
    x, w = np.polynomial.legendre.leggauss(nr)
    p, w = (x + 1) / 2, w / 2
    phi = 2 * math.pi * np.arange(nphi) / nphi
    ph = -r * p[:, None] * np.cos(phi - theta)[None, :]
    for m, n, a in terms:
        ph = ph + a * ref.value(m, n, p[:, None], phi[None, :])
    return abs(((w * p) @ np.exp(1j * ph)).sum() * 2 * math.pi / nphi) ** 2 / math.pi ** 2
