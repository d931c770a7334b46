"""C18 - arcs are the requested circle pieces."""
import itertools
import math

import cadquery as cq
import numpy as np
from OCP.TopAbs import TopAbs_REVERSED

from cq_cam import Job
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C18"
RULE = ("every case is one closed outline with an arc of given start angle, sweep, radius, direction and construction in one job plane; the "
        "executed cuts are compared with the exact circle piece both ways (nothing else is cut, all of it is); non-trivial when "
        "an arc is executed")
ASSUMPTIONS = ["closed outlines; arcs that leave a gap leave at least 4e-4 and 1/50000 of the radius", "tolerance 2.5e-3 program units: positions and centres are rounded to thousandths"]
TOL = 2.5e-3
SWEEPS = (1e-6, .003, .1, 1, 45, 89.9995, 90, 120, 179.99, 180, 180.01, 200, 270, 330, 359, 359.99, 359.99999)
DEEP_SWEEPS = SWEEPS + (.01, .5, 10, 30, 60, 135, 150, 179.999, 180.001, 225, 300, 345, 359.9, 359.999)
STARTS = (0, 17, 90, 180, 225, 359.9999, -90)
RADII = (.0005, .001, .004, .05, .5, 3, 47.7, 1000)
# how the edge is made: three points, angles of a circle, from the other end, flipped, mirrored, moved and turned by locations
HOW = ("3pt", "angles", "back", "flag", "moved", "mirror", "turned")


def cases(tier):
    deep = tier == "thorough"
    # a slice of a cake
    for sw, st, r, how in itertools.product(DEEP_SWEEPS if deep else SWEEPS, STARTS, RADII[3:], HOW if deep else HOW[:4]):
        if r * math.radians(min(sw, 360 - sw)) > .02:
            yield {"k": "sector", "sw": sw, "st": st, "r": r, "how": how, "f": 0, "pl": "XY"}
    for sw, st, how, pl in itertools.product(DEEP_SWEEPS if deep else SWEEPS[2::2], STARTS if deep else STARTS[::3], HOW, B.PLANES):
        if 1 <= sw <= 359:
            yield {"k": "sector", "sw": sw, "st": st, "r": 7.5, "how": how, "f": 0, "pl": pl}
    # a corner of a triangle rounded off or bitten out
    for sw, st, r, how, bite, f in itertools.product((30, 60, 90, 120, 150), STARTS if deep else STARTS[::2], RADII[:6], HOW[:4],
                                                     (0, 1), (0, .5, 2)):
        if f == 0 or r >= .004:
            yield {"k": "corner", "sw": sw, "st": st, "r": r, "how": how, "bite": bite, "f": f,
                   "pl": "XY" if how != "back" else "skew"}
    # closed with a chord, along it and beside it
    for sw, st, r, how, f in itertools.product(DEEP_SWEEPS[2:] if deep else SWEEPS[2::2], STARTS if deep else STARTS[::2], RADII[3:], HOW[:3],
                                               (0, .3, -.1)):
        if 40 <= sw <= 320 and .5 <= r < 900:
            yield {"k": "cap", "sw": sw, "st": st, "r": r, "how": how, "f": f, "pl": "XY" if how == "3pt" else "skew"}
    # all but closed
    for gap, st, r, how, pl in itertools.product((4e-4, 7e-4, 1.1e-3, 2e-3, .01), STARTS, RADII[3:], HOW[:4], ("XY", "skew")):
        if 2e-5 * r < gap < r / 10:
            yield {"k": "cap", "sw": 360 - math.degrees(gap / r), "st": st, "r": r, "how": how, "f": 0, "pl": pl}
    # whole circles
    for st, r, rev, f, pl in itertools.product(STARTS, RADII, (0, 1), (0, .25, -.25), list(B.PLANES) if deep else ("XY", "-Z", "+X", "skew")):
        yield {"k": "circle", "st": st, "r": r, "rev": rev, "f": f, "pl": pl}
    # split by tabs
    for sw, st, r, rev, tab, pl in itertools.product((90, 135, 180, 225, 300) if not deep else DEEP_SWEEPS[10:-5], STARTS[:5], (2, 9), (0, 1),
                                                     ("W", "E"), ("XY", "-Z", "skew")):
        if 40 <= sw <= 320:
            yield {"k": "tabs", "sw": sw, "st": st, "r": r, "how": "back" if rev else "3pt", "tab": tab, "pl": pl}


def arc_edge(c, r, st, sw, how):
    """a counter-clockwise piece of the circle, from either end"""
    a0, a1 = math.radians(st), math.radians(st + sw)
    P = [cq.Vector(c[0] + r * math.cos(a), c[1] + r * math.sin(a), 0) for a in (a0, (a0 + a1) / 2, a1)]
    C = cq.Vector(c[0], c[1], 0)
    Z = cq.Vector(0, 0, 1)
    if how == "3pt":
        return cq.Edge.makeThreePointArc(*P)
    if how == "back":
        return cq.Edge.makeThreePointArc(*reversed(P))
    if how == "angles":
        return cq.Edge.makeCircle(r, C, Z, st, st + sw)
    if how == "flag":
        e = cq.Edge.makeThreePointArc(*P)
        e.wrapped.Orientation(TopAbs_REVERSED)
        return e
    if how == "moved":      # made at the origin, turned and moved by its location
        q = [cq.Vector(r * math.cos(a - a0), r * math.sin(a - a0), 0) for a in (a0, (a0 + a1) / 2, a1)]
        e = cq.Edge.makeThreePointArc(*q)
        return e.moved(cq.Location(C, Z, st))
    if how == "mirror":
        q = [cq.Vector(p.x, -p.y, 0) for p in P]
        return cq.Edge.makeThreePointArc(*q).mirror("XZ")
    if how == "turned":     # made upside down
        q = [cq.Vector(p.x, -p.y, 0) for p in P]
        return cq.Edge.makeThreePointArc(*q).rotate(cq.Vector(), cq.Vector(1, 0, 0), 180)
    raise KeyError(how)


def wire(edges, pl):
    w = cq.Wire.assembleEdges([e.translate(cq.Vector(0, 0, -1)) for e in edges])
    return w.transformShape(pl.rG)


def build(case):
    """-> wire, [(kind, data)] exact outline as a loop of the shape alphabet"""
    r, c = case["r"], (2.5, -1.25)
    if case["k"] == "circle":
        st, pl = case["st"], B.plane(case["pl"])
        e = cq.Edge.makeCircle(r, cq.Vector(c[0], c[1], 0), cq.Vector(0, 0, -1 if case["rev"] else 1))
        e = e.rotate(cq.Vector(c[0], c[1], 0), cq.Vector(c[0], c[1], 1), st)
        return wire([e], pl), [("C", c, r)]
    st, sw = case["st"], case["sw"]
    a0, a1 = math.radians(st), math.radians(st + sw)
    p = [(c[0] + r * math.cos(a), c[1] + r * math.sin(a)) for a in (a0, (a0 + a1) / 2, a1)]
    e = arc_edge(c, r, st, sw, case["how"])
    exact = [("A", p[0], p[1], p[2])]
    edges = [e]
    if case["k"] in ("cap", "tabs"):
        edges.append(cq.Edge.makeLine(cq.Vector(*p[2]), cq.Vector(*p[0])))
        exact.append(("L", p[2], p[0]))
    if case["k"] == "sector":
        edges += [cq.Edge.makeLine(cq.Vector(*p[2]), cq.Vector(*c)), cq.Edge.makeLine(cq.Vector(*c), cq.Vector(*p[0]))]
        exact += [("L", p[2], c), ("L", c, p[0])]
    if case["k"] == "corner":
        # tangents at the ends of the arc, or the radii for a bite
        t0, t1 = ((math.sin(a0), -math.cos(a0)), (-math.sin(a1), math.cos(a1))) if not case["bite"] else (
            (math.cos(a0), math.sin(a0)), (math.cos(a1), math.sin(a1)))
        q0, q1 = ((p[k][0] + 9 * t[0], p[k][1] + 9 * t[1]) for k, t in ((0, t0), (2, t1)))
        edges += [cq.Edge.makeLine(cq.Vector(*u), cq.Vector(*v)) for u, v in ((p[2], q1), (q1, q0), (q0, p[0]))]
        exact += [("L", p[2], q1), ("L", q1, q0), ("L", q0, p[0])]
    return wire(edges, B.plane(case["pl"])), exact


def exact_points(s, n=200):
    if s[0] == "L":
        return [tuple(s[1] + (s[2] - s[1]) * k / n) for k in range(n + 1)]
    _, c, r, a0, sw = s
    return [(c[0] + r * math.cos(a0 + sw * k / n), c[1] + r * math.sin(a0 + sw * k / n)) for k in range(n + 1)]


def evaluate(case):
    r = Result()
    w, exact = build(case)
    rad = case["r"]
    dia = 2 * rad if case["k"] != "corner" else .6
    j = Job(B.plane(case["pl"]), 100, tool_diameter=dia)
    tabs = None
    if case["k"] == "tabs":
        tabs = (WireTabs(count=5, width=rad / 8, height=.4) if case["tab"] == "W" else EdgeTabs(spacing=rad / 2.3, width=rad / 9, height=.4))
    j = j.wire_profile(w, offset=case.get("f", 0), tabs=tabs)
    tr = run(j.to_gcode())
    r.trace(tr)
    ms = [m for m in tr.motions if m.kind != "G0" and (math.dist(m.start[:2], m.end[:2]) > 0 or m.centre)]
    small = case["k"] == "circle" and rad * (1 + case["f"]) < .001      # going down there is all there is to cut
    if small and not ms:
        ms = [m for m in tr.motions if m.kind == "G1"]
    P = np.array([q[:2] for m in ms for q in m.points(max(rad / 40, .02))]).reshape(-1, 2)
    ss = O.segs(exact)
    if case.get("f"):
        d = case["f"] * dia / 2
        off = abs(O.signed(exact, P) - d) if len(P) else np.zeros(0)
        Q = O.parallel(exact, d, step=max(rad / 30, .02))
    else:
        off = np.min([O._dist_seg(s, P) for s in ss], axis=0) if len(P) else np.zeros(0)
        Q = [q for s in ss for q in exact_points(s)]
    if len(P) and off.max() > TOL:
        k = off.argmax()
        r.fail(f"cut at ({P[k][0]:.4f}, {P[k][1]:.4f}), {off[k]:.4f} away from the outline")
    length = sum(math.dist(a, b) for a, b in zip(Q, Q[1:]))
    if length > 4e-3 and not ms:
        r.fail("nothing is cut")
    elif ms:
        # samples of the executed path may be half a step away from the nearest point
        c = distance(ms, np.array(Q))
        k = c.argmax()
        if c[k] > TOL + 1e-4:
            r.fail(f"({Q[k][0]:.4f}, {Q[k][1]:.4f}) of the outline is not cut, nearest cut {c[k]:.4f} away")
    for a, b in zip(ms, ms[1:]):
        if a.end[:2] != b.start[:2]:
            r.fail(f"gap between {a.text} and {b.text}")
    total = sum(m.length() for m in ms)
    if not case.get("f") and not small:
        want = sum(abs(s[4]) * s[2] if s[0] == "A" else math.dist(s[1], s[2]) for s in ss)
        if abs(total - want) > .004 * want + .01:
            r.fail(f"{total:.4f} are cut along an outline of {want:.4f}")
    r.nontrivial = any(m.centre for m in ms)
    r.outcome = hash((case["k"], tuple(m.kind for m in ms), round(total, 2)))
    return r


def distance(ms, Q):
    """exact distance of points to the executed cuts"""
    best = np.full(len(Q), np.inf)
    for m in ms:
        a, b = np.array(m.start[:2]), np.array(m.end[:2])
        if m.centre is None:
            best = np.minimum(best, O._dist_seg(("L", a, b), Q))
        else:
            c = np.array(m.centre)
            best = np.minimum(best, O._dist_seg(("A", c, math.dist(a, c), math.atan2(*(a - c)[::-1]), m.sweep()), Q))
    return best
