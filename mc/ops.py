"""The operation alphabet shared by the history checks.

Every operation is described in the coordinates of the job plane and can be
called on a job in any plane; shapes are cached per (operation, plane) because
operations must not modify them (C03 uses fresh ones)."""
from __future__ import annotations

import functools
import math

import cadquery as cq

from cq_cam.operations.tabs import EdgeTabs, WireTabs
from mc import build as B
from mc import shapes as S


def _spline(z, pl):
    pts = [cq.Vector(x, y, z) for x, y in ((8, 0), (3, 5), (-6, 6), (-7, -3), (1, -7))]
    w = cq.Wire.assembleEdges([cq.Edge.makeSpline(pts, periodic=True)])
    return w.transformShape(pl.rG)


SHAPES = {
    "p": lambda pl: S.face(S.rect(0, 0, 16, 12), [S.circle((-3, 0), 2.6)], -2, pl),
    "ps": lambda pl: S.face(S.OUTLINES["L"], [S.rect(2.6, 2.6, 3.4, 3.2)], -3, pl),
    "pt": lambda pl: S.solid_face(S.OUTLINES["slot"], [], 3, "bottom", pl),
    "pe": lambda pl: S.wire(S.OUTLINES["round"], -3, pl),
    "w2": lambda pl: [S.wire(S.circle((4, 3), 5), -1.5, pl), S.wire(S.OUTLINES["D"], -2.5, pl)],
    "w0": lambda pl: S.wire(S.OUTLINES["bite"], -1, pl),
    "k": lambda pl: S.face(S.rect(1, -1, 14, 10), (), -2, pl),
    "ki": lambda pl: S.solid_face(S.OUTLINES["hex"], [S.rect(0, 1, 2, 2.5)], 2.2, "bottom", pl),
    "kk": lambda pl: [S.face(S.rect(0, 0, 14, 12), (), -1, pl), S.face(S.rect(2, 1, 7, 6), (), -2.7, pl)],
    "ka": lambda pl: (S.face(S.rect(0, 0, 14, 12), (), -2, pl), S.face(S.rect(6, 4, 6, 6), (), -2, pl)),
    "k2": lambda pl: S.face(S.rect(0, 0, 1, 1), (), -2, pl),
    "d": lambda pl: [pl.toWorldCoords(cq.Vector(x, y, 0)) for x, y in ((0, 0), (9, 1), (4, -2))],
    "df": lambda pl: cq.Workplane(pl).newObject([S.face(S.rect(0, 0, 20, 20), [S.circle((5, 5), 1), S.circle((-4, 2), 1)], 0, pl)]),
    "sp": lambda pl: _spline(-1, pl),
    "p0": lambda pl: S.face(S.rect(3, 3, 9, 9), (), 0, pl),
}
CALLS = {
    "p": lambda j, o, t: j.profile(o, tool=t),
    "ps": lambda j, o, t: j.profile(o, stepdown=.8, tool=t),
    "pt": lambda j, o, t: j.profile(o, stepdown=1, tabs=WireTabs(count=3, width=1.5, height=1.2), tool=t),
    "pe": lambda j, o, t: j.profile(o, tabs=EdgeTabs(spacing=2.7, width=1, height=1), tool=t),
    "w2": lambda j, o, t: j.wire_profile(o, offset=-1, stepdown=1, tool=t),
    "w0": lambda j, o, t: j.wire_profile(o, offset=0, tool=t),
    "k": lambda j, o, t: j.pocket(o, tool=t),
    "ki": lambda j, o, t: j.pocket(o, stepdown=.9, stepover=.8, tool=t),
    "kk": lambda j, o, t: j.pocket(o, stepover=.9, tool=t),
    "ka": lambda j, o, t: j.pocket(o[0], avoid_areas=o[1], stepover=.9, tool=t),
    "k2": lambda j, o, t: j.pocket(o, tool=t),
    "d": lambda j, o, t: j.drill(o, depth=4, tool=t),
    "df": lambda j, o, t: j.drill(o, depth=2.5, tool=t),
    "sp": lambda j, o, t: j.wire_profile(o, offset=1, tool=t),
    "p0": lambda j, o, t: j.profile(o, tool=t),
}
ALL = tuple(CALLS)
DRILLS = ("d", "df")


@functools.lru_cache(maxsize=None)
def shape(name, plane):
    return SHAPES[name](B.plane(plane))


def call(j, name, plane="XY", tool=None):
    return CALLS[name](j, shape(name, plane), tool)


def precision(names):
    """free-form curves make huge programs at the default precision"""
    return 1 if "sp" in names else 3
