"""exact solution of the Riemann problem of an ideal gas (independent of the code under test)"""

import numpy as np


def wave(P, rho, Pk, g):
    """velocity change across the wave joining a state to pressure P, and its derivative"""
    c = np.sqrt(g * Pk / rho)
    if P > Pk:
        A, B = 2 / ((g + 1) * rho), (g - 1) / (g + 1) * Pk
        q = np.sqrt(A / (P + B))
        return (P - Pk) * q, q * (1 - 0.5 * (P - Pk) / (B + P))
    r = P / Pk
    return (
        2 * c / (g - 1) * (r ** ((g - 1) / (2 * g)) - 1),
        r ** (-(g + 1) / (2 * g)) / (rho * c),
    )


class Riemann:
    """left and right states (rho, v, P); vacuum is not supported"""

    def __init__(self, L, R, g):
        self.L, self.R, self.g = L, R, g
        (r1, v1, p1), (r2, v2, p2) = L, R
        c1, c2 = np.sqrt(g * p1 / r1), np.sqrt(g * p2 / r2)
        self.cL, self.cR = c1, c2
        self.vacuum = 2 * (c1 + c2) / (g - 1) <= v2 - v1
        if self.vacuum:
            return
        f = lambda P: wave(P, r1, p1, g)[0] + wave(P, r2, p2, g)[0] + v2 - v1
        lo, hi = 1e-12 * min(p1, p2), max(p1, p2)
        while f(hi) < 0:
            hi *= 2
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if f(mid) < 0:
                lo = mid
            else:
                hi = mid
        P = 0.5 * (lo + hi)
        self.P = P
        self.v = 0.5 * (v1 + v2) + 0.5 * (wave(P, r2, p2, g)[0] - wave(P, r1, p1, g)[0])
        self.rL = self.star(r1, p1)
        self.rR = self.star(r2, p2)
        # speeds of the edges of the left and right waves
        self.left = self.edges(r1, v1, p1, c1, self.rL, -1)
        self.right = self.edges(r2, v2, p2, c2, self.rR, 1)

    def star(self, r, p):
        g, q = self.g, self.P / p
        if q > 1:
            m = (g - 1) / (g + 1)
            return r * (q + m) / (m * q + 1)
        return r * q ** (1 / g)

    def edges(self, r, v, p, c, rs, sgn):
        """(outer, inner) speed of the wave; equal for a shock"""
        g, q = self.g, self.P / p
        if q > 1:
            s = v + sgn * c * np.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
            return s, s
        return v + sgn * c, self.v + sgn * np.sqrt(g * self.P / rs)

    def __call__(self, xi):
        """rho, v, P and side (0 left, 1 right of the contact) at speeds xi = (x - x0) / t"""
        xi = np.asarray(xi, float)
        g = self.g
        side = (xi > self.v).astype(int)
        out = []
        for (r, v, p), c, rs, (outer, inner), sgn in (
            (self.L, self.cL, self.rL, self.left, -1),
            (self.R, self.cR, self.rR, self.right, 1),
        ):
            a = 2 / (g + 1) - sgn * (g - 1) / ((g + 1) * c) * (v - xi)
            a = np.maximum(a, 1e-12)
            fan = (
                r * a ** (2 / (g - 1)),
                2 / (g + 1) * (-sgn * c + (g - 1) / 2 * v + xi),
                p * a ** (2 * g / (g - 1)),
            )
            out_of = sgn * xi >= sgn * outer
            in_star = sgn * xi <= sgn * inner
            vals = []
            for k, s, f in zip((r, v, p), (rs, self.v, self.P), fan):
                vals.append(np.where(out_of, k, np.where(in_star, s, f)))
            out.append(vals)
        return [np.where(side == 0, a, b) for a, b in zip(*out)] + [side]
