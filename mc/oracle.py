"""Exact planar geometry of the part alphabet, independent of cq_cam.

Distances to an outline are analytic (segments and arcs), so that no
polygonisation or buffering error enters a verdict.
"""
from __future__ import annotations

import math

import numpy as np
import shapely
from mc import shapes as S


def segs(loop):
    """[('L', p0, p1)] / [('A', centre, r, a0, sweep)]"""
    out = []
    for s in loop:
        if s[0] == "L":
            if s[1] != s[2]:
                out.append(("L", np.array(s[1], float), np.array(s[2], float)))
        elif s[0] == "C":
            out.append(("A", np.array(s[1], float), float(s[2]), 0.0, 2 * math.pi))
        else:
            c, r, a0, sw = S.arc_geom(*s[1:])
            out.append(("A", np.array(c), r, a0, sw))
    return out


def _dist_seg(s, P):
    if s[0] == "L":
        a, b = s[1], s[2]
        d = b - a
        t = np.clip(((P - a) @ d) / ((d @ d) or 1), 0, 1)
        return np.hypot(*(P - (a + t[:, None] * d)).T)
    _, c, r, a0, sw = s
    v = P - c
    rho = np.hypot(v[:, 0], v[:, 1])
    if abs(sw) >= 2 * math.pi - 1e-12:
        return np.abs(rho - r)
    ang = np.arctan2(v[:, 1], v[:, 0])
    rel = ((ang - a0) if sw > 0 else (a0 - ang)) % (2 * math.pi)
    on = rel <= abs(sw)
    e0 = c + r * np.array([math.cos(a0), math.sin(a0)])
    e1 = c + r * np.array([math.cos(a0 + sw), math.sin(a0 + sw)])
    ends = np.minimum(np.hypot(*(P - e0).T), np.hypot(*(P - e1).T))
    return np.where(on, np.abs(rho - r), ends)


def dist(loops, P):
    """distance of every point to the union of the loops' boundaries"""
    P = np.asarray(P, float).reshape(-1, 2)
    best = np.full(len(P), np.inf)
    for loop in loops:
        for s in segs(loop):
            best = np.minimum(best, _dist_seg(s, P))
    return best


_polys = {}


def _poly(loop):
    k = repr(loop)
    if k not in _polys:
        if len(_polys) > 500:
            _polys.clear()
        p = S.polygon(loop)
        shapely.prepare(p)
        _polys[k] = p
    return _polys[k]


def inside(loop, P):
    P = np.asarray(P, float).reshape(-1, 2)
    return shapely.contains_xy(_poly(loop), P[:, 0], P[:, 1])


def signed(loop, P):
    """positive outside the loop, negative inside"""
    d = dist([loop], P)
    return np.where(inside(loop, P), -d, d)


def parallel(loop, d, step=0.15):
    """points of the true parallel curve at signed distance d (outside > 0):
    all b + d*n that no other part of the outline comes closer to"""
    ccw = S.is_ccw(loop)
    sign = 1 if ccw else -1
    cand = []
    ss = segs(loop)
    r = abs(d)

    def tangent(s, at_end):
        if s[0] == "L":
            t = s[2] - s[1]
            return t / np.hypot(*t)
        a = s[3] + (s[4] if at_end else 0)
        return np.array([-math.sin(a), math.cos(a)]) * (1 if s[4] > 0 else -1)

    for i, s in enumerate(ss):
        if s[0] == "L":
            l = np.hypot(*(s[2] - s[1]))
            n = max(2, math.ceil(l / step))
            t = s[2] - s[1]
            t = t / np.hypot(*t)
            nrm = np.array([t[1], -t[0]]) * sign        # outward
            for k in range(n + 1):
                cand.append(s[1] + (s[2] - s[1]) * k / n + nrm * d)
        else:
            _, c, rad, a0, sw = s
            n = max(8, math.ceil(abs(sw) * max(rad, r) / step))
            full = abs(sw) >= 2 * math.pi - 1e-12
            for k in range(n + (0 if full else 1)):
                a = a0 + sw * k / n
                t = np.array([-math.sin(a), math.cos(a)]) * (1 if sw > 0 else -1)
                nrm = np.array([t[1], -t[0]]) * sign
                cand.append(c + rad * np.array([math.cos(a), math.sin(a)]) + nrm * d)
        # the fan of normals at the vertex to the next segment
        if r > 0 and len(ss) > 1:
            q = ss[(i + 1) % len(ss)]
            p = s[2] if s[0] == "L" else s[1] + s[2] * np.array(
                [math.cos(s[3] + s[4]), math.sin(s[3] + s[4])])
            t0, t1 = tangent(s, True), tangent(q, False)
            a0 = math.atan2(t0[1], t0[0])
            turn = (math.atan2(t1[1], t1[0]) - a0 + math.pi) % (2 * math.pi) - math.pi
            if turn * sign * d > 1e-9:
                n = max(2, math.ceil(abs(turn) * r / step))
                for k in range(n + 1):
                    a = a0 + turn * k / n
                    cand.append(p + np.array([math.sin(a), -math.cos(a)]) * sign * d)
    C = np.array(cand)
    if r == 0:
        return C
    keep = dist([loop], C) >= r - 1e-7
    sd = signed(loop, C)
    keep &= (sd > 0) if d > 0 else (sd < 0)
    return C[keep]


# ------------------------------------------------------------------ toolpath
CUTS = ("G1", "G2", "G3")


def cut_points(motions, step=0.1):
    """(n, 3) samples of feed motions"""
    pts = [p for m in motions if m.kind in CUTS for p in m.points(step)]
    return np.array(pts, float).reshape(-1, 3)


def lateral(m):
    return m.start[:2] != m.end[:2] or m.kind in ("G2", "G3")


def passes(motions):
    """maximal runs of feed motions between rapids, the vertical entry dropped;
    each pass is a list of lateral or climbing motions"""
    out, cur = [], []
    for m in motions:
        if m.kind == "G0":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(m)
    if cur:
        out.append(cur)
    res = []
    for run in out:
        k = 0
        while k < len(run) and not lateral(run[k]):
            k += 1
        if run[k:]:
            res.append(run[k:])
    return res


def line(motions, step=0.05):
    """shapely line of consecutive motions in XY"""
    pts = []
    for m in motions:
        q = m.points(step) if m.kind in ("G2", "G3") else [m.start, m.end]
        pts += [p[:2] for p in q]
    return shapely.LineString(pts)


def path_distance(motions, P, step=0.05):
    """distance of every point to the union of XY paths"""
    P = np.asarray(P, float).reshape(-1, 2)
    parts = []
    for m in motions:
        if lateral(m):
            q = [p[:2] for p in (m.points(step) if m.kind in ("G2", "G3") else [m.start, m.end])]
            parts += zip(q, q[1:])
    if not parts:
        return np.full(len(P), np.inf)
    if not len(P):
        return np.zeros(0)
    tree = shapely.STRtree(shapely.linestrings(np.array(parts, float)))
    idx, d = tree.query_nearest(shapely.points(P), return_distance=True, all_matches=False)
    out = np.empty(len(P))
    out[idx[0]] = d
    return out


def levels(motions, digits=4):
    """z levels that lateral feed motions happen at"""
    return sorted({round(z, digits) for m in motions if m.kind in CUTS and lateral(m)
                   for z in (m.start[2], m.end[2])}, reverse=True)
