"""A stand-in for opencamlib: the few classes cq-cam uses, with an exact drop cutter.

The cutter is dropped along -Z on every triangle; contacts are with vertices, edges and the
facet.  `install()` makes it importable as `opencamlib`.
"""
import math
import sys
import types

import numpy as np


class Point:
    def __init__(self, x=0.0, y=0.0, z=0.0):
        self.x, self.y, self.z = float(x), float(y), float(z)


class CLPoint(Point):
    pass


class Triangle:
    def __init__(self, a, b, c):
        self.p = (a, b, c)


class STLSurf:
    def __init__(self):
        self.tris = []

    def addTriangle(self, t):
        self.tris.append(t)

    def size(self):
        return len(self.tris)


class MillingCutter:
    def __init__(self, diameter, length):
        self.d, self.l = float(diameter), float(length)

    def getDiameter(self):
        return self.d

    def getRadius(self):
        return self.d / 2

    def getLength(self):
        return self.l

    def drop(self, x, y, tris):
        """height of the tip at rest on the triangles (n x 3 x 3), -inf where it falls through"""
        r = self.d / 2
        P = tris - (x, y, 0)
        best = -math.inf
        # vertices
        d2 = P[..., 0] ** 2 + P[..., 1] ** 2
        m = d2 <= r * r + 1e-12
        if m.any():
            best = max(best, float((P[..., 2][m] - self.profile(np.sqrt(d2[m]))).max()))
        # edges
        A, Bv = P, np.roll(P, -1, axis=1)
        best = max(best, self.edges(A.reshape(-1, 3), Bv.reshape(-1, 3), r))
        # facets
        n = np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
        ln = np.linalg.norm(n, axis=1)
        ok = (ln > 1e-14) & (np.abs(n[:, 2]) > 1e-9 * np.maximum(ln, 1e-300))
        P, n, ln = P[ok], n[ok], ln[ok]
        if len(P):
            n = n / ln[:, None]
            n[n[:, 2] < 0] *= -1
            c, z = self.facet(P, n, r)
            inside = np.ones(len(P), bool)
            s = np.sign(_cross2(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]))
            for k in range(3):
                a, b = P[:, k], P[:, (k + 1) % 3]
                inside &= s * ((b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])) >= -1e-12
            if inside.any():
                best = max(best, float(z[inside].max()))
        return best


def _cross2(a, b):
    return a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]


class CylCutter(MillingCutter):
    def profile(self, d):
        return 0 * d

    def edges(self, a, b, r):
        """highest point of each edge within the disc: ends of the clipped edge"""
        d = b - a
        A = d[:, 0] ** 2 + d[:, 1] ** 2
        Bq = a[:, 0] * d[:, 0] + a[:, 1] * d[:, 1]
        C = a[:, 0] ** 2 + a[:, 1] ** 2 - r * r
        disc = Bq * Bq - A * C
        ok = (A > 1e-18) & (disc >= 0)
        a, d, A, Bq, disc = a[ok], d[ok], A[ok], Bq[ok], disc[ok]
        if not len(a):
            return -math.inf
        q = np.sqrt(disc)
        lo, hi = np.maximum((-Bq - q) / A, 0), np.minimum((-Bq + q) / A, 1)
        m = lo <= hi
        if not m.any():
            return -math.inf
        return float(np.maximum(a[m, 2] + d[m, 2] * lo[m], a[m, 2] + d[m, 2] * hi[m]).max())

    def facet(self, P, n, r):
        h = np.hypot(n[:, 0], n[:, 1])
        u = np.where(h[:, None] > 1e-12, -n[:, :2] / np.maximum(h, 1e-300)[:, None], 0)
        c = u * r
        z = P[:, 0, 2] - (n[:, 0] * (c[:, 0] - P[:, 0, 0]) + n[:, 1] * (c[:, 1] - P[:, 0, 1])) / n[:, 2]
        return c, z


class BallCutter(MillingCutter):
    def profile(self, d):
        r = self.d / 2
        return r - np.sqrt(np.maximum(r * r - d * d, 0))

    def edges(self, a, b, r):
        """ball on the line of an edge: in the vertical plane of the edge the section is a circle"""
        d = b - a
        L = np.hypot(d[:, 0], d[:, 1])
        ok = L > 1e-9
        a, d, L = a[ok], d[ok], L[ok]
        if not len(a):
            return -math.inf
        dist = (d[:, 0] * a[:, 1] - d[:, 1] * a[:, 0]) / L          # of the axis from the line
        rho2 = r * r - dist * dist
        ok = rho2 > 0
        a, d, L, rho = a[ok], d[ok], L[ok], np.sqrt(rho2[ok])
        if not len(a):
            return -math.inf
        t0 = -(a[:, 0] * d[:, 0] + a[:, 1] * d[:, 1]) / L           # foot of the axis along the edge
        s = d[:, 2] / L
        t = t0 + rho * s / np.sqrt(1 + s * s)                       # contact along the edge
        ok = (t >= 0) & (t <= L)
        if not ok.any():
            return -math.inf
        a, s, t, t0, rho = a[ok], s[ok], t[ok], t0[ok], rho[ok]
        zc = a[:, 2] + s * t + np.sqrt(np.maximum(rho ** 2 - (t - t0) ** 2, 0))
        return float((zc - r).max())

    def facet(self, P, n, r):
        c = -n[:, :2] * r
        z = P[:, 0, 2] - (n[:, 0] * (c[:, 0] - P[:, 0, 0]) + n[:, 1] * (c[:, 1] - P[:, 0, 1])) / n[:, 2]
        return c, z + r * n[:, 2] - r


class BatchDropCutter:
    def __init__(self):
        self.points, self.cutter, self.surf = [], None, None

    def setCutter(self, c):
        self.cutter = c

    def setSTL(self, s):
        self.surf = s

    def appendPoint(self, p):
        self.points.append(p)

    def run(self):
        t = np.array([[(p.x, p.y, p.z) for p in t.p] for t in self.surf.tris], float).reshape(-1, 3, 3)
        lo, hi = t[..., :2].min(axis=1), t[..., :2].max(axis=1)
        r = self.cutter.d / 2 + 1e-9
        for p in self.points:
            near = (lo[:, 0] <= p.x + r) & (hi[:, 0] >= p.x - r) & (lo[:, 1] <= p.y + r) & (hi[:, 1] >= p.y - r)
            if near.any():
                p.z = max(p.z, self.cutter.drop(p.x, p.y, t[near]))

    def getCLPoints(self):
        return self.points


def install():
    m = types.ModuleType("opencamlib")
    for k in (Point, CLPoint, Triangle, STLSurf, MillingCutter, CylCutter, BallCutter, BatchDropCutter):
        setattr(m, k.__name__, k)
    m.ocl = m
    sys.modules["opencamlib"] = m
    return m
