"""Independent reference for planar multilayers.

Scalar Sturm-Liouville problem in z for in-plane wavevector g:
   (p phi')' + p w phi ... with p = 1 (TE, phi = E_y) or p = 1/eps (TM, phi=H_y)
   -(p phi')' + p g^2 phi = omega^2 p eps phi
Number of guided modes below omega = number of zeros of the solution decaying
into the lower cladding (Sturm oscillation theorem), counted analytically.
"""
import numpy as np
from math import sqrt, sin, cos, sinh, cosh, atan2, floor, pi, exp


def _step(phi, psi, q2, p, d):
    """Propagate (phi, p*phi') over d; returns new pair and zeros in (0,d]."""
    if q2 > 1e-14:
        q = sqrt(q2)
        th = atan2(phi, psi / p / q)
        n = floor((th + q * d) / pi + 1e-15) - floor(th / pi + 1e-15)
        c, s = cos(q * d), sin(q * d)
        return c * phi + s / q * psi / p, -q * p * s * phi + c * psi, n
    if q2 < -1e-14:
        k = sqrt(-q2)
        c, s = cosh(k * d), sinh(k * d)
        a, b = c * phi + s / k * psi / p, k * p * s * phi + c * psi
    else:
        a, b = phi + d * psi / p, psi
    return a, b, 1 if (a <= 0 < phi or a >= 0 > phi) else 0


def count(om, g, eps, d, pol):
    """Number of guided modes with frequency < om (om below the light line)."""
    p = [1.] * len(eps) if pol == "TE" else [1. / e for e in eps]
    k0 = sqrt(max(g * g - eps[0] * om * om, 0))
    phi, psi, n = 1., p[0] * k0, 0
    for i, di in enumerate(d):
        phi, psi, m = _step(phi, psi, eps[i + 1] * om * om - g * g, p[i + 1],
                            di)
        n += m
        s = max(abs(phi), abs(psi))
        phi, psi = phi / s, psi / s
    kN = sqrt(max(g * g - eps[-1] * om * om, 0))
    a = phi * kN * p[-1] + psi      # growing amplitude (times 2 k p)
    if a * phi < 0:
        n += 1
    return n


def modes(g, eps, d, pol, nmax, ub=None):
    """The first nmax guided-mode frequencies below ub, by bisection."""
    hi0 = g / sqrt(max(eps[0], eps[-1])) if ub is None else ub
    lo0 = g / sqrt(max(eps[1:-1]))
    if lo0 >= hi0:
        return []
    tot = count(hi0, g, eps, d, pol)
    out = []
    for j in range(min(tot, nmax)):
        lo, hi = (out[-1] if out else lo0 * .999999), hi0
        while hi - lo > 1e-14 * hi:
            mid = .5 * (lo + hi)
            if mid <= lo or mid >= hi:
                break
            if count(mid, g, eps, d, pol) > j:
                hi = mid
            else:
                lo = mid
        out.append(.5 * (lo + hi))
    return out


class Mode:
    """phi(z) of a guided mode at (om, g); z=0 at the bottom of the first
    layer.  Propagated from both sides and joined at one interface."""

    def __init__(self, om, g, eps, d, pol):
        self.om, self.g, self.pol = om, g, pol
        self.eps, self.d = list(eps), list(d)
        self.p = [1.] * len(eps) if pol == "TE" else [1. / e for e in eps]
        self.k0 = sqrt(max(g * g - eps[0] * om * om, 0))
        self.kN = sqrt(max(g * g - eps[-1] * om * om, 0))
        self.zb = np.concatenate(([0.], np.cumsum(d)))
        up = [(1., self.p[0] * self.k0)]
        for i in range(len(d)):
            a, b, _ = _step(*up[-1], eps[i + 1] * om**2 - g**2, self.p[i + 1],
                            d[i])
            up.append((a, b))
        dn = [(1., -self.p[-1] * self.kN)]
        for i in reversed(range(len(d))):
            a, b, _ = _step(*dn[-1], eps[i + 1] * om**2 - g**2, self.p[i + 1],
                            -d[i])
            dn.append((a, b))
        dn = dn[::-1]

        # join where both agree best: errors grow away from the maximum of
        # the mode, so both are accurate there
        def miss(t):
            u, v = np.array(up[t]), np.array(dn[t])
            r = u.dot(v) / v.dot(v)
            return np.linalg.norm(u - r * v) / np.linalg.norm(u), t, r

        self.mismatch, j, r = min(map(miss, range(len(up))))
        self.bnd = [np.array(x) for x in up[:j + 1]] + \
            [r * np.array(x) for x in dn[j + 1:]]
        self.j = j
        n2 = self._norm2()
        self.bnd = [b / sqrt(n2) for b in self.bnd]

    def layer(self, i, t):
        """phi, p phi' at heights t above the bottom of inner layer i."""
        phi, psi = self.bnd[i] if i < self.j or True else self.bnd[i + 1]
        q2 = self.eps[i + 1] * self.om**2 - self.g**2
        p = self.p[i + 1]
        if i < self.j:
            (phi, psi), s = self.bnd[i], t
        else:
            (phi, psi), s = self.bnd[i + 1], t - self.d[i]
        q = np.sqrt(complex(q2))
        c = np.cos(q * s).real
        sn = (np.sin(q * s) / q).real
        return c * phi + sn * psi / p, -q2 * p * sn * phi + c * psi

    def at(self, z):
        z = np.asarray(z, float)
        f, h = np.zeros(z.shape), np.zeros(z.shape)
        m = z < 0
        f[m] = self.bnd[0][0] * np.exp(self.k0 * z[m])
        h[m] = self.p[0] * self.k0 * f[m]
        top = self.zb[-1]
        m = z > top
        f[m] = self.bnd[-1][0] * np.exp(-self.kN * (z[m] - top))
        h[m] = -self.p[-1] * self.kN * f[m]
        for i in range(len(self.d)):
            m = (z >= self.zb[i]) & (z <= self.zb[i + 1])
            f[m], h[m] = self.layer(i, z[m] - self.zb[i])
        return f, h

    def quad(self, n=40):
        """Gauss points per region: list of (z, w, layer index)."""
        out = []
        x, w = np.polynomial.legendre.leggauss(n)
        xl, wl = np.polynomial.laguerre.laggauss(n)
        return x, w, xl, wl

    def _norm2(self):
        """int |H|^2 dz with H = phi (TM) or (phi', g phi) (TE)."""
        tot = 0.
        x, w = np.polynomial.legendre.leggauss(60)
        for i, di in enumerate(self.d):
            t = .5 * di * (x + 1)
            f, h = self.layer(i, t)
            e = f * f if self.pol == "TM" else h * h + self.g**2 * f * f
            tot += .5 * di * np.dot(w, e)
        for b, k in ((self.bnd[0], self.k0), (self.bnd[-1], self.kN)):
            e = b[0]**2 / (2 * k)
            tot += e if self.pol == "TM" else e * (k * k + self.g**2)
        return tot
