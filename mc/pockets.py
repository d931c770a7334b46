"""Pocket scenarios shared by the pocket checks: construction, execution and
the exact oracle of the region the tool centre may be in."""
from __future__ import annotations

import numpy as np
import shapely

from mc import build as B
from mc import oracle as O
from mc import shapes as S

OUT = {
    "rect": S.rect(0, 0, 20, 16),
    "L": S.poly((-10, -8), (10, -8), (10, 0), (2, 0), (2, 8), (-10, 8)),
    "U": S.poly((-10, -8), (10, -8), (10, 8), (4, 8), (4, -1), (-4, -1), (-4, 8), (-10, 8)),
    "hex": S.poly(*[(11 * np.cos(np.pi * k / 3), 11 * np.sin(np.pi * k / 3)) for k in range(6)]),
    "neck": S.poly((-10, -8), (-2, -8), (-2, -1.9), (2, -1.9), (2, -7), (10, -7), (10, 7), (2, 7), (2, 1.9),
                   (-2, 1.9), (-2, 8), (-10, 8)),
    "comb": S.poly((-10, -8), (10, -8), (10, 8), (6, 8), (6, -2), (2.6, -2), (2.6, 8), (-2, 8), (-2, -2),
                   (-5.3, -2), (-5.3, 8), (-10, 8)),
    "circle": S.circle((0, 0), 8),
    "slot": S.slot(0, 0, 12, 5),
    "D": [("L", (0, -7), (0, 7)), ("A", (0, 7), (-8, 0), (0, -7))],
}
ISL = {
    "t": S.poly((-3, 3), (0, -3), (3, 3)),
    "s": S.rect(0, 0, 4, 4),
    "w": S.rect(0, 0, 7, .5),
    "c": S.circle((0, 0), 1),
    "p": S.poly((-1, 0), (1, 2), (2, 0), (1, -2)),
    "L": S.poly((-3, -3), (3, -3), (3, -1), (-1, -1), (-1, 3), (-3, 3)),
    "d": [("L", (0, -1.5), (0, 1.5)), ("A", (0, 1.5), (-1.5, 0), (0, -1.5))],
}
CURVED = {"circle", "slot", "D", "keyhole", "pie", "C", "flower", "scallop", "3arc", "round", "2arc", "lens", "bite"}


def loop(spec):
    """[name, rot, dx, dy, scale, rev] | raw points"""
    if isinstance(spec, str):
        spec = [spec]
    name, rot, dx, dy, sc, rev = (list(spec) + [0, 0, 0, 1, 0][len(spec) - 1:])
    lp = (OUT.get(name) or ISL.get(name) or B.named(name)) if not name.startswith("i:") else ISL[name[2:]]
    mod = {"rot": rot, "dx": dx, "dy": dy, "scale": sc if sc != 1 else None, "rev": rev}
    return B.outline([lp, mod])


def num(v):
    """offsets are numbers or [multiplier, distance]"""
    return tuple(v) if isinstance(v, list) else v


def absolute(r, v, default):
    if v is None:
        v = default
    return r * v[0] + v[1] if isinstance(v, (list, tuple)) else r * v


_boxes = {}


def near(lp, P, off):
    """signed distance to the outline; where it is well above the offset, just
    the distance to its bounding box, which is less"""
    P = np.asarray(P, float).reshape(-1, 2)
    k = id(lp)
    if k not in _boxes or _boxes[k][0] is not lp:
        if len(_boxes) > 500:
            _boxes.clear()
        _boxes[k] = lp, S.polygon(lp).bounds
    x0, y0, x1, y1 = _boxes[k][1]
    dx = np.maximum(np.maximum(x0 - P[:, 0], P[:, 0] - x1), 0)
    dy = np.maximum(np.maximum(y0 - P[:, 1], P[:, 1] - y1), 0)
    v = np.hypot(dx, dy)
    sel = v <= max(off, 0) + max(1, .1 * max(x1 - x0, y1 - y0))
    if sel.any():
        v[sel] = O.signed(lp, P[sel])
    return v


class Scenario:
    """areas: [[outer, [inners], depth]]; avoids: [[outer, depth]]; noise: of all corners, see B.noisy"""

    def __init__(self, case):
        self.case = case
        self.dia = case["dia"]
        self.r = self.dia / 2
        self.precision = case.get("prec", 3)
        # interpolation, offset arcs and output are each rounded to the precision
        self.tol = 1.5e-3 + 1.2 * 10 ** -self.precision + 2 * (case.get("noise") or (0,))[0]
        self.areas = [(loop(o), [loop(i) for i in ins], d) for o, ins, d in case["areas"]]
        self.avoids = [(loop(o), d) for o, d in case.get("avoids", [])]
        oo = case.get("oo")
        if self.avoids and oo is None:
            oo = 0
        self.oo = absolute(self.r, oo, -1)
        self.io = absolute(self.r, case.get("io"), 1)
        self.ao = absolute(self.r, case.get("ao"), 1)
        self.so = absolute(self.r, case.get("so"), .5)
        self.plane = case.get("plane", "XY")

    def valid(self):
        """islands lie inside their area"""
        for o, ins, _ in self.areas:
            P = shapely.Polygon(S.polygon(o).exterior)
            if not P.is_valid:
                return False
            for i in ins:
                Q = S.polygon(i)
                if not P.buffer(-1e-3).contains(Q):
                    return False
        return True

    def run(self, **kw):
        pl = B.plane(self.plane)
        j = B.job(self.plane, dia=self.dia, precision=self.precision, **kw)
        how = self.case.get("how", "face")
        noise = self.case.get("noise")

        def noisy(lp):
            return B.noisy(lp, *noise) if noise else lp
        areas = [(noisy(o), [noisy(i) for i in ins], d) for o, ins, d in self.areas]
        fs = [S.face(o, ins, -d, pl) if how in ("face", "single", "workplane") or d == 0 else
              S.solid_face(o, ins, d, how, pl) for o, ins, d in areas]
        av = [S.face(noisy(o), (), -d, pl) for o, d in self.avoids] or None
        arg = fs
        if how == "single":
            arg = fs[0]
            av = av[0] if av else None
        elif how == "workplane":
            import cadquery as cq
            arg = cq.Workplane(pl).newObject(fs)
            av = cq.Workplane(pl).newObject(av) if av else None
        c = self.case
        opts = {k: num(v) for k, v in (("outer_offset", c.get("oo")), ("inner_offset", c.get("io")),
                                       ("avoid_outer_offset", c.get("ao")), ("stepover", c.get("so")),
                                       ("stepdown", c.get("sd"))) if v is not None}
        return j.pocket(arg, avoid_areas=av, **opts)

    # -- oracle ---------------------------------------------------------------
    def inside(self, P):
        """how far every point lies outside of the allowed region of each area
        (negative: allowed), one row per area"""
        out = []
        for o, ins, d in self.areas:
            v = near(o, P, self.oo) - self.oo
            for i in ins:
                v = np.maximum(v, self.io - near(i, P, self.io))
            out.append(v)
        return np.array(out)

    def avoid(self, P):
        return [(self.ao - near(a, P, self.ao), d) for a, d in self.avoids]

    def excess(self, P, z):
        """how far every point is outside of where the tool may cut at z"""
        ins = self.inside(P)
        ok = [k for k, (_, _, d) in enumerate(self.areas) if -d <= z + 6e-4]
        if not ok:
            return np.full(len(P), np.inf)
        e = ins[ok].min(axis=0)
        for v, d in self.avoid(P):
            if -d >= z - 6e-4:
                e = np.maximum(e, v)
        return e

    def edge(self, z, step=.3):
        """points of the boundary of the allowed region at z (walls)"""
        C = []
        for o, ins, d in self.areas:
            if -d <= z + 6e-4:
                C.append(O.parallel(o, self.oo, step))
                C += [O.parallel(i, self.io, step) for i in ins]
        for a, d in self.avoids:
            if -d >= z - 6e-4:
                C.append(O.parallel(a, self.ao, step))
        C = np.concatenate([c for c in C if len(c)] or [np.zeros((0, 2))])
        if not len(C):
            return C
        # on the boundary: allowed here, not allowed just next to it
        e = self.excess(C, z)
        C = C[abs(e) < 1e-6]
        # not covered by another area that continues across
        keep = np.zeros(len(C), bool)
        for k in range(12):
            a = 2 * np.pi * k / 12
            keep |= self.excess(C + 4e-3 * np.array([np.cos(a), np.sin(a)]), z) > 3e-4
        return C[keep]

    def grid(self, h):
        xs, ys = [], []
        for o, _, _ in self.areas:
            x0, y0, x1, y1 = S.polygon(o).bounds
            m = max(self.oo, 0)
            xs += [x0 - m, x1 + m]
            ys += [y0 - m, y1 + m]
        X, Y = np.meshgrid(np.arange(min(xs) + h * .31, max(xs), h), np.arange(min(ys) + h * .47, max(ys), h))
        return np.column_stack([X.ravel(), Y.ravel()])


def cutting(motions):
    return [m for m in motions if m.kind in O.CUTS and O.lateral(m)]


def samples(ms, step):
    """(n,3) samples of straight cutting moves, vectorised"""
    if not ms:
        return np.zeros((0, 3))
    a = np.array([m.start for m in ms], float)
    b = np.array([m.end for m in ms], float)
    n = np.maximum(1, np.ceil(np.hypot(*(b - a)[:, :2].T) / step).astype(int))
    idx = np.repeat(np.arange(len(ms)), n + 1)
    off = np.concatenate([np.arange(k + 1) / k for k in n])
    return a[idx] + (b - a)[idx] * off[:, None]
