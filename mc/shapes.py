"""Part alphabet: 2-D outlines defined independently of cq_cam.

A loop is a list of segments ('L', p0, p1), ('A', p0, mid, p1), or a single
('C', centre, radius).  Every loop has two renderings: a shapely polygon (the
oracle's exact-enough geometry) and a CadQuery wire (the input of the code
under test).
"""
from __future__ import annotations

import math

import cadquery as cq
import shapely
from shapely.geometry import LinearRing, Polygon

SAG = 2e-5


def poly(*pts):
    return [("L", pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]


def circle(c, r):
    return [("C", c, r)]


def rect(cx, cy, w, h):
    x0, x1, y0, y1 = cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2
    return poly((x0, y0), (x1, y0), (x1, y1), (x0, y1))


def slot(cx, cy, l, r):
    a, b = cx - l / 2, cx + l / 2
    return [("L", (a, cy - r), (b, cy - r)), ("A", (b, cy - r), (b + r, cy), (b, cy + r)),
            ("L", (b, cy + r), (a, cy + r)), ("A", (a, cy + r), (a - r, cy), (a, cy - r))]


def rot(loop, deg, c=(0, 0)):
    t = math.radians(deg)
    cs, sn = math.cos(t), math.sin(t)

    def f(p):
        x, y = p[0] - c[0], p[1] - c[1]
        return (c[0] + x * cs - y * sn, c[1] + x * sn + y * cs)

    return mapl(loop, f)


def shift(loop, dx, dy):
    return mapl(loop, lambda p: (p[0] + dx, p[1] + dy))


def mapl(loop, f):
    out = []
    for s in loop:
        if s[0] == "C":
            out.append(("C", f(s[1]), s[2]))
        else:
            out.append((s[0],) + tuple(f(p) for p in s[1:]))
    return out


def reverse(loop):
    return [(s[0],) + tuple(reversed(s[1:])) if s[0] != "C" else s for s in reversed(loop)]


def startat(loop, k):
    k %= len(loop)
    return loop[k:] + loop[:k]


def arc_geom(p0, pm, p1):
    """centre, radius, start angle, signed sweep"""
    ax, ay = p0; bx, by = pm; cx, cy = p1
    d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
    ux = ((ax**2 + ay**2) * (by - cy) + (bx**2 + by**2) * (cy - ay) + (cx**2 + cy**2) * (ay - by)) / d
    uy = ((ax**2 + ay**2) * (cx - bx) + (bx**2 + by**2) * (ax - cx) + (cx**2 + cy**2) * (bx - ax)) / d
    r = math.hypot(ax - ux, ay - uy)
    a0 = math.atan2(ay - uy, ax - ux)
    am = (math.atan2(by - uy, bx - ux) - a0) % (2 * math.pi)
    a1 = (math.atan2(cy - uy, cx - ux) - a0) % (2 * math.pi)
    return (ux, uy), r, a0, (a1 if am < a1 else a1 - 2 * math.pi)


def loop_points(loop, sag=SAG):
    pts = []
    for s in loop:
        if s[0] == "C":
            (cx, cy), r = s[1], s[2]
            n = max(16, math.ceil(math.pi / math.acos(1 - sag / r)))
            return [(cx + r * math.cos(2 * math.pi * i / n), cy + r * math.sin(2 * math.pi * i / n))
                    for i in range(n)]
        if s[0] == "L":
            pts.append(s[1])
        else:
            (cx, cy), r, a0, sw = arc_geom(*s[1:])
            n = max(4, math.ceil(abs(sw) / (2 * math.acos(1 - sag / r))))
            pts += [(cx + r * math.cos(a0 + sw * i / n), cy + r * math.sin(a0 + sw * i / n))
                    for i in range(n)]
    return pts


def ring(loop):
    return LinearRing(loop_points(loop))


def polygon(outer, inners=()):
    return Polygon(loop_points(outer), [loop_points(i) for i in inners])


def is_ccw(loop):
    return ring(loop).is_ccw


# ------------------------------------------------------------------ cadquery
def wire(loop, z=0.0, plane=None):
    """geometry baked directly in the plane's world position"""
    def P(p):
        v = cq.Vector(p[0], p[1], z)
        return plane.toWorldCoords(v) if plane is not None else v
    edges = []
    for s in loop:
        if s[0] == "L":
            edges.append(cq.Edge.makeLine(P(s[1]), P(s[2])))
        elif s[0] == "A":
            edges.append(cq.Edge.makeThreePointArc(P(s[1]), P(s[2]), P(s[3])))
        else:
            # built in the plane's coordinates: makeCircle picks the start point by the world's
            # direction of the normal, which would make it another part in every plane
            e = cq.Edge.makeCircle(s[2], cq.Vector(s[1][0], s[1][1], z), cq.Vector(0, 0, 1))
            edges.append(e.transformShape(plane.rG) if plane is not None else e)
    return cq.Wire.assembleEdges(edges)


def face(outer, inners=(), z=0.0, plane=None):
    return cq.Face.makeFromWires(wire(outer, z, plane), [wire(i, z, plane) for i in inners])


def bottom_face(outer, inners=(), depth=5.0, plane=None):
    """bottom face of an extruded solid whose top lies in the plane (the usual
    CadQuery way: the face of a body, with reversed orientation)"""
    f = face(outer, inners, -depth)
    solid = cq.Solid.extrudeLinear(f.outerWire(), f.innerWires(), cq.Vector(0, 0, depth))
    b = min(solid.Faces(), key=lambda q: q.Center().z)
    if plane is not None:
        b = b.transformShape(plane.rG)
    return b


# ------------------------------------------------------------------ planes
def planes():
    P = cq.Plane
    s = math.sqrt(0.5)
    return {
        "XY": P((0, 0, 0), (1, 0, 0), (0, 0, 1)),
        "XY+z": P((0, 0, 7.3), (1, 0, 0), (0, 0, 1)),
        "XY+t": P((11, -7, 3), (1, 0, 0), (0, 0, 1)),
        "XY-t": P((-4, 2.5, -6), (1, 0, 0), (0, 0, 1)),
        "XYr90": P((2, 3, 1), (0, 1, 0), (0, 0, 1)),
        "XYr30": P((2, 3, 1), (math.cos(math.pi / 6), 0.5, 0), (0, 0, 1)),
        "-Z": P((1, 2, -3), (1, 0, 0), (0, 0, -1)),
        "+X": P((5, 1, 2), (0, 1, 0), (1, 0, 0)),
        "-X": P((-5, 1, 2), (0, 1, 0), (-1, 0, 0)),
        "+Y": P((1, 6, 2), (1, 0, 0), (0, 1, 0)),
        "-Y": P((1, -6, 2), (0, 0, 1), (0, -1, 0)),
        "skew": P((1, 2, 3), (s, -s, 0), (1, 1, 2)),
    }


OUTLINES = {
    "rect": rect(0, 0, 12, 8),
    "rect-off": rect(7, -3, 10, 6),
    "rect30": rot(rect(1, 2, 12, 8), 30),
    "circle": circle((0, 0), 6),
    "circle-off": circle((4, -3), 5),
    "tri": poly((-6, -4), (7, -4), (0, 7)),
    "hex": poly(*[(7 * math.cos(math.pi * k / 3), 7 * math.sin(math.pi * k / 3)) for k in range(6)]),
    "L": poly((0, 0), (12, 0), (12, 5), (5, 5), (5, 11), (0, 11)),
    "T": poly((-8, 6), (-8, 1), (-2.5, 1), (-2.5, -7), (2.5, -7), (2.5, 1), (8, 1), (8, 6)),
    "U": poly((-8, -6), (8, -6), (8, 6), (3, 6), (3, -1), (-3, -1), (-3, 6), (-8, 6)),
    "slot": slot(0, 0, 8, 4),
    "D": [("L", (0, -5), (0, 5)), ("A", (0, 5), (-7, 0), (0, -5))],
    "bite": [("L", (-8, -5), (8, -5)), ("L", (8, -5), (8, 5)), ("L", (8, 5), (3, 5)),
             ("A", (3, 5), (0, 2), (-3, 5)), ("L", (-3, 5), (-8, 5)), ("L", (-8, 5), (-8, -5))],
    "dumbbell": poly((-10, -5), (-2, -5), (-2, -0.6), (2, -0.6), (2, -3), (9, -3), (9, 4),
                     (2, 4), (2, 0.6), (-2, 0.6), (-2, 5), (-10, 5)),
    "round": [("L", (-5, -5), (5, -5)), ("A", (5, -5), (5 + 2 * math.sqrt(.5), -3 - 2 * math.sqrt(.5)), (7, -3)),
              ("L", (7, -3), (7, 3)), ("A", (7, 3), (5 + 2 * math.sqrt(.5), 3 + 2 * math.sqrt(.5)), (5, 5)),
              ("L", (5, 5), (-5, 5)), ("A", (-5, 5), (-5 - 2 * math.sqrt(.5), 3 + 2 * math.sqrt(.5)), (-7, 3)),
              ("L", (-7, 3), (-7, -3)), ("A", (-7, -3), (-5 - 2 * math.sqrt(.5), -3 - 2 * math.sqrt(.5)), (-5, -5))],
    "2arc": [("A", (5, 0), (0, 5), (-5, 0)), ("A", (-5, 0), (0, -5), (5, 0))],
    "lens": [("A", (6, 0), (0, 3), (-6, 0)), ("A", (-6, 0), (0, -3), (6, 0))],
    "split": poly((-6, -4), (-1, -4), (3, -4), (6, -4), (6, 1), (6, 4), (-6, 4), (-6, 0)),
    "spike": poly((-7, -4), (7, -4), (7, 1), (1, 1.5), (0, 7), (-1, 1.5), (-7, 1)),
}


def _pol(r, deg):
    return (r * math.cos(math.radians(deg)), r * math.sin(math.radians(deg)))


def _ring(n, r, bulge):
    """n arcs around a circle, bulging outwards or inwards"""
    return [("A", _pol(r, 360 * k / n), _pol(r + bulge, 360 * (k + .5) / n), _pol(r, 360 * (k + 1) / n)) for k in range(n)]


# outlines with many edges, long arcs and narrow parts
MORE = {
    "star": poly(*[_pol(8 if k % 2 else 5, 15 * k) for k in range(24)]),
    "poly48": poly(*[_pol(8, 7.5 * k) for k in range(48)]),
    "flower": _ring(8, 6, 1.5),
    "scallop": _ring(7, 8, -1.1),
    "stairs": poly(*([(0, 0), (12, 0)] + [p for k in range(6) for p in ((12 - 2 * k, 1.5 * (k + 1)), (10 - 2 * k, 1.5 * (k + 1)))])),
    "keyhole": [("A", _pol(5, -60), _pol(5, 90), _pol(5, 240)), ("L", _pol(5, 240), (-2.5, -9)), ("L", (-2.5, -9), (2.5, -9)),
                ("L", (2.5, -9), _pol(5, -60))],
    "pie": [("L", (0, 0), _pol(7, 20)), ("A", _pol(7, 20), _pol(7, 155), _pol(7, 290)), ("L", _pol(7, 290), (0, 0))],
    "C": [("A", _pol(8, 30), _pol(8, 180), _pol(8, 330)), ("L", _pol(8, 330), _pol(4, 330)), ("A", _pol(4, 330), _pol(4, 180), _pol(4, 30)),
          ("L", _pol(4, 30), _pol(8, 30))],
    "long": poly((-40, -1.6), (40, -1.6), (40, 1.6), (-40, 1.6)),
    "wedge": poly((0, 0), (14, -1), (14, 1.4)),
    "3arc": [("A", _pol(6, a), _pol(6, a + 60), _pol(6, a + 120)) for a in (10, 130, 250)],
}


def numbered(name):
    """outlines of any number of edges: ngon:N, gear:N, comb:N, arcs:N (edges about 2 long)"""
    kind, n = name.split(":")
    n = int(n)
    r = max(n / 3, 5)
    if kind == "ngon":
        return poly(*[_pol(r, 360 * k / n) for k in range(n)])
    if kind == "box":
        return rect(0, 0, 54, n)
    if kind == "gear":
        return poly(*[_pol(r if k % 4 < 2 else r - 1.5, 360 * k / n) for k in range(n // 4 * 4)])
    if kind == "comb":
        m = n // 4
        return poly((0, -4), (6 * m, -4), *[p for k in range(m) for p in (
            (6 * (m - k), 3), (6 * (m - k) - 3, 3), (6 * (m - k) - 3, 0), (6 * (m - k) - 6, 0))])
    if kind == "arcs":
        return _ring(n, r, .6)
    raise KeyError(name)


def solid_face(outer, inners, depth, how, plane):
    """bottom face of a body that was modelled in different ways; the face lies
    at -depth in the plane"""
    z = -depth
    f = face(outer, inners, z)
    if how == "bottom":           # extruded upwards, reversed bottom face
        s = cq.Solid.extrudeLinear(f.outerWire(), f.innerWires(), cq.Vector(0, 0, depth))
        b = min(s.Faces(), key=lambda q: q.Center().z)
    elif how == "floor":          # top face of a body below
        s = cq.Solid.extrudeLinear(f.outerWire(), f.innerWires(), cq.Vector(0, 0, -3))
        b = max(s.Faces(), key=lambda q: q.Center().z)
    elif how == "cut":            # holes cut by a boolean operation
        s = cq.Solid.extrudeLinear(f.outerWire(), [], cq.Vector(0, 0, depth))
        for w in inners:
            t = cq.Solid.extrudeLinear(wire(w, z - 1), [], cq.Vector(0, 0, depth + 2))
            s = s.cut(t)
        b = min(s.Faces(), key=lambda q: q.Center().z)
    elif how == "mirror":         # mirrored body
        m = face([tuple([q[0]] + [((p[0], -p[1]) if isinstance(p, tuple) else p) for p in q[1:]]) for q in outer],
                 [[tuple([q[0]] + [((p[0], -p[1]) if isinstance(p, tuple) else p) for p in q[1:]]) for q in w]
                  for w in inners], z)
        s = cq.Solid.extrudeLinear(m.outerWire(), m.innerWires(), cq.Vector(0, 0, depth)).mirror("XZ")
        b = min(s.Faces(), key=lambda q: q.Center().z)
    elif how == "moved":          # body with a location
        f0 = face(outer, inners, 0)
        s = cq.Solid.extrudeLinear(f0.outerWire(), f0.innerWires(), cq.Vector(0, 0, depth))
        s = s.moved(cq.Location(cq.Vector(0, 0, z)))
        b = min(s.Faces(), key=lambda q: q.Center().z)
    elif how == "flip":           # modelled upside down and turned over
        m = face([tuple([q[0]] + [((p[0], -p[1]) if isinstance(p, tuple) else p) for p in q[1:]]) for q in outer],
                 [[tuple([q[0]] + [((p[0], -p[1]) if isinstance(p, tuple) else p) for p in q[1:]]) for q in w]
                  for w in inners], 0)
        s = cq.Solid.extrudeLinear(m.outerWire(), m.innerWires(), cq.Vector(0, 0, -depth))
        s = s.rotate(cq.Vector(), cq.Vector(1, 0, 0), 180).moved(cq.Location(cq.Vector(0, 0, z)))
        b = min(s.Faces(), key=lambda q: q.Center().z)
    else:
        raise KeyError(how)
    if plane is not None:
        b = b.moved(cq.Location(plane)) if how in ("moved", "flip") else b.transformShape(plane.rG)
    return b
