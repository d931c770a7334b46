"""C20 - free-form outlines are followed within tolerance."""
import functools
import itertools
import math

import cadquery as cq
import numpy as np
import shapely
from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
from OCP.Geom import Geom_BezierCurve
from OCP.gp import gp_Ax2, gp_Dir, gp_Hypr, gp_Parab, gp_Pnt
from OCP.TColgp import TColgp_Array1OfPnt

from cq_cam import Job
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from mc import build as B
from mc import oracle as O
from mc.engine import Result
from mc.machine import run

ID = "C20"
RULE = ("every case is one profile or pocket of an outline with free-form curves: outline x size x way of making it x offset x job plane x "
        "precision x stepdown/tabs; the executed cuts are compared both ways with the parallel curve of a dense sampling of the outline; "
        "non-trivial when there are cuts")
ASSUMPTIONS = ["the dense sampling of the outline trusts CadQuery's evaluation of its curves",
               "tolerance .05 at precision 1 and .01 from precision 2 on for profiles, .08 and .025 for pockets; offsets smaller than the radius of curvature or clearly beyond"]
V = cq.Vector


# an S of a typeface
LETTER = [[(4.79, 7.9), (4.79, 5.78)], [(4.79, 5.78), (3.56, 6.37), (2.46, 6.66)], [(2.46, 6.66), (1.36, 6.95), (0.34, 6.95)],
          [(0.34, 6.95), (-1.43, 6.95), (-2.39, 6.26)], [(-2.39, 6.26), (-3.35, 5.58), (-3.35, 4.31)], [(-3.35, 4.31), (-3.35,
          3.24), (-2.71, 2.7)], [(-2.71, 2.7), (-2.07, 2.16), (-0.29, 1.83)], [(-0.29, 1.83), (1.02, 1.56)], [(1.02, 1.56), (3.45,
          1.1), (4.6, -0.07)], [(4.6, -0.07), (5.76, -1.24), (5.76, -3.19)], [(5.76, -3.19), (5.76, -5.52), (4.19, -6.72)],
          [(4.19, -6.72), (2.63, -7.93), (-0.39, -7.93)], [(-0.39, -7.93), (-1.53, -7.93), (-2.81, -7.67)], [(-2.81, -7.67),
          (-4.09, -7.41), (-5.47, -6.91)], [(-5.47, -6.91), (-5.47, -4.67)], [(-5.47, -4.67), (-4.15, -5.41), (-2.88, -5.79)],
          [(-2.88, -5.79), (-1.61, -6.17), (-0.39, -6.17)], [(-0.39, -6.17), (1.47, -6.17), (2.48, -5.44)], [(2.48, -5.44), (3.49,
          -4.71), (3.49, -3.35)], [(3.49, -3.35), (3.49, -2.17), (2.77, -1.5)], [(2.77, -1.5), (2.04, -0.84), (0.39, -0.5)],
          [(0.39, -0.5), (-0.93, -0.25)], [(-0.93, -0.25), (-3.36, 0.24), (-4.45, 1.27)], [(-4.45, 1.27), (-5.53, 2.3), (-5.53,
          4.14)], [(-5.53, 4.14), (-5.53, 6.26), (-4.03, 7.49)], [(-4.03, 7.49), (-2.54, 8.71), (0.1, 8.71)], [(0.1, 8.71), (1.22,
          8.71), (2.4, 8.51)], [(2.4, 8.51), (3.57, 8.3), (4.79, 7.9)]]


def spline(pts, periodic=False, tangents=None):
    return cq.Edge.makeSpline([V(*p) for p in pts], periodic=periodic, tangents=tangents)


def bezier(pts):
    a = TColgp_Array1OfPnt(1, len(pts))
    for i, p in enumerate(pts):
        a.SetValue(i + 1, gp_Pnt(p[0], p[1], 0))
    return cq.Edge(BRepBuilderAPI_MakeEdge(Geom_BezierCurve(a)).Edge())


def line(a, b):
    return cq.Edge.makeLine(V(*a), V(*b))


def ellipse(a, b, rot=0, a1=360, a2=360):
    return cq.Edge.makeEllipse(a, b, V(), V(0, 0, 1), V(math.cos(rot), math.sin(rot)), a1, a2)


@functools.lru_cache(maxsize=None)
def outlines0():
    o = {
        "ell": [ellipse(8, 5)],
        "ell-thin": [ellipse(9, 3, .7)],
        "ell-half": [ellipse(8, 5, 0, 0, 180), line((-8, 0), (8, 0))],
        "ell-quarter": [ellipse(8, 5, 0, 0, 90), line((0, 5), (0, 0)), line((0, 0), (8, 0))],
        "periodic": [spline(((8, 0), (3, 5), (-6, 6), (-7, -3), (1, -7)), True)],
        "wave": [spline(((8, 0), (3, 5), (-2, 3), (-6, 6), (-7, 0))), line((-7, 0), (-7, -5)), line((-7, -5), (8, -5)), line((8, -5), (8, 0))],
        "wave-in": [spline(((8, 5), (3, 1), (-2, 2), (-8, 5))), line((-8, 5), (-8, -5)), line((-8, -5), (8, -5)), line((8, -5), (8, 5))],
        "bezier": [bezier(((8, 0), (9, 9), (-9, 9), (-7, 0))), line((-7, 0), (8, 0))],
        "arc+spline": [cq.Edge.makeThreePointArc(V(6, 0), V(0, -6), V(-6, 0)), spline(((-6, 0), (-2, 4), (3, 3), (6, 0)))],
        "two": [spline(((7, 0), (0, 5), (-7, 0))), spline(((-7, 0), (0, -4), (7, 0)))],
        "bean": [spline(((9, 0), (6, 5), (0, 2.5), (-6, 5), (-9, 0), (-5, -5), (0, -6), (5, -5)), True)],
    }
    return o


@functools.lru_cache(maxsize=None)
def more():
    """outlines as they come out of modelling: trimmed, sectioned, offset, conic and lettering"""
    base = outlines0()
    wire = cq.Wire.assembleEdges
    band = cq.Face.makeFromWires(cq.Wire.makePolygon([V(-20, -2), V(20, -2), V(20, 3), V(-20, 3)], close=True))
    tilted = cq.Solid.makeCylinder(4, 30, V(0, 0, -15)).rotate(V(), V(0, 1, 0), 40).intersect(cq.Solid.makeBox(40, 40, 1, V(-20, -20, 0)))
    up = gp_Ax2(gp_Pnt(0, -4, 0), gp_Dir(0, 0, 1), gp_Dir(0, 1, 0))
    par = cq.Edge(BRepBuilderAPI_MakeEdge(gp_Parab(up, 1.5), -6, 6).Edge())
    hyp = cq.Edge(BRepBuilderAPI_MakeEdge(gp_Hypr(up, 3, 4), -1.2, 1.2).Edge())
    pts = lambda e: [p.toTuple()[:2] for p in (e.endPoint(), e.startPoint())]
    return {
        "trimmed": cq.Face.makeFromWires(wire(base["periodic"])).intersect(band).Faces()[0].outerWire().Edges(),
        "section": min(tilted.Faces(), key=lambda f: f.Center().z).outerWire().Edges(),
        "offset-bean": wire(base["bean"]).offset2D(.8)[0].Edges(),
        "offset-wave": wire(base["wave"]).offset2D(1)[0].Edges(),
        "parabola": [par, line(*pts(par))],
        "hyperbola": [hyp, line(*pts(hyp))],
        "teardrop": [spline(((8, 0), (0, 5), (-6, 4), (-8, 0), (-6, -4), (0, -5), (8, 0)))],
        "ell-300": [ellipse(8, 6, 0, 0, 290), line(*pts(ellipse(8, 6, 0, 0, 290)))],
        "letter": [line(*q) if len(q) == 2 else bezier(q) for q in LETTER],
    }


def outlines():
    return {**outlines0(), **more()}


NAMES = ("ell", "ell-thin", "ell-half", "ell-quarter", "periodic", "wave", "wave-in", "bezier", "arc+spline", "two", "bean", "trimmed",
         "section", "offset-bean", "offset-wave", "parabola", "hyperbola", "teardrop", "ell-300", "letter")
DEPTH = 2


@functools.lru_cache(maxsize=None)
def sampled(name, scale, n=1500):
    """closed polyline of the outline and whether it runs counter-clockwise"""
    pts = []
    edges = outlines()[name]
    chains = []
    for e in edges:
        k = 2 if e.geomType() == "LINE" else n if len(edges) < 7 else n // 8
        a, b = e._bounds()
        chains.append([(p.x * scale, p.y * scale) for p in (e.positionAt(a + (b - a) * i / (k - 1), "parameter") for i in range(k))])
    pts = chains.pop(0)
    while chains:
        for c in chains:
            if math.dist(c[0], pts[-1]) < 1e-6:
                break
            if math.dist(c[-1], pts[-1]) < 1e-6:
                c.reverse()
                break
        else:
            pts.reverse()
            continue
        chains = [q for q in chains if q is not c]
        pts += c[1:]
    if math.dist(pts[0], pts[-1]) < 1e-6:
        pts[-1] = pts[0]
    ring = shapely.LinearRing(pts)
    poly = shapely.Polygon(ring)
    shapely.prepare(ring)
    shapely.prepare(poly)
    return ring, poly


def signed(name, scale, P):
    ring, poly = sampled(name, scale)
    d = shapely.distance(ring, shapely.points(P))
    return np.where(shapely.contains_xy(poly, P[:, 0], P[:, 1]), -d, d)


def parallel(name, scale, d, step=.05):
    """points of the parallel curve at the signed distance d (outside positive)"""
    ring, poly = sampled(name, scale)
    C = np.array(ring.coords)
    if not ring.is_ccw:
        C = C[::-1]
    cand = []
    prev = None
    for a, b in zip(C[:-1], C[1:]):
        l = math.dist(a, b)
        if l < 1e-12:
            continue
        t = (b - a) / l
        nrm = np.array([t[1], -t[0]])
        for k in range(max(1, math.ceil(l / step))):
            cand.append(a + (b - a) * k * step / l + nrm * d)
        if prev is not None and d:
            a0, a1 = math.atan2(prev[1], prev[0]), math.atan2(nrm[1], nrm[0])
            da = (a1 - a0 + math.pi) % (2 * math.pi) - math.pi
            m = int(abs(da) / .05)
            for k in range(1, m):
                g = a0 + da * k / m
                cand.append(a + d * np.array([math.cos(g), math.sin(g)]))
        prev = nrm
    Q = np.array(cand)
    return Q[abs(signed(name, scale, Q) - d) < 1e-4 + 1e-5 * scale] if d else Q


# ------------------------------------------------------------------------ cases
MAKE = ("wire", "face", "body", "floor", "moved", "mirror", "reversed", "xz")


def cases(tier):
    for c in all_cases(tier):
        # the kernel fails to offset some offsets of curves, depending on noise (see known_findings.txt): only where it is
        # reliable and at one size at which it isn't
        if (c["o"][:6] == "offset" and (c["k"] == "hole" or c["k"] == "profile" and c["off"] != 0) and c["sc"] != 1
                and (c["k"], c["mk"], c["o"], c["pl"]) != ("hole", "face", "offset-wave", "XY")):
            continue
        if tier == "quick" and c["o"] in NAMES[11:] and c["mk"] in ("floor", "moved", "reversed", "xz"):
            continue
        yield c


def all_cases(tier):
    deep = tier == "thorough"
    names = NAMES     # no shape is made before the workers are forked, the threads of the kernel would not survive that
    for n, off, mk in itertools.product(names, (0, 1, -1, .5, -.4, 2.5) if deep else (0, 1, -1), MAKE):
        for pl in ("XY", "skew", "-Z") if deep else ("XY",) if mk != "wire" else ("XY", "skew", "-Z", "+X"):
            yield {"k": "profile", "o": n, "off": off, "mk": mk, "pl": pl, "sc": 1, "p": 1}
    for n, off, sc in itertools.product(names, (0, 1, -1), (.2, .5, 3) if deep else (.2, 3)):
        yield {"k": "profile", "o": n, "off": off, "mk": "wire", "pl": "XY+t", "sc": sc, "p": 1 if sc > 1 else 2}
    for n, off in itertools.product(names, (0, 1, -1)):
        yield {"k": "profile", "o": n, "off": off, "mk": "wire", "pl": "XYr30", "sc": .4, "p": 3 if deep else 2}
    for n, off, sd, tab in itertools.product(names, (0, 1, -1), (None, .9), (None, "W", "E")):
        if sd or tab:
            yield {"k": "profile", "o": n, "off": off, "mk": "wire", "pl": "XY" if sd else "skew", "sc": 1, "p": 1, "sd": sd, "tab": tab}
    # large parts and fine programs: tens of thousands of pieces
    for n, off, (sc, p) in itertools.product(("ell", "wave-in", "bezier", "bean", "ell-300"), (0, 1, -1), ((12, 1), (3, 2), (.3, 3))):
        if deep or off != -1 or n == "ell":
            yield {"k": "profile", "o": n, "off": off, "mk": "wire", "pl": "XY", "sc": sc, "p": p}
    for n, off, (sc, p) in itertools.product(("ell", "wave-in", "bezier") if deep else ("ell",), (0, 1), ((1.7, 3), (17, 2), (45, 1)) if deep else ((1.7, 3), (30, 1))):
        yield {"k": "profile", "o": n, "off": off, "mk": "wire", "pl": "XY", "sc": sc, "p": p}
    for n, mk, so in itertools.product(names, MAKE[1:], (None, .7)):
        for pl in ("XY", "skew", "+X") if deep else ("XY",) if mk != "face" else ("XY", "skew"):
            yield {"k": "pocket", "o": n, "mk": mk, "pl": pl, "sc": 1, "p": 2, "so": so}
    for n, sc in itertools.product(names, (.4, 2)):
        yield {"k": "pocket", "o": n, "mk": "face", "pl": "XY", "sc": sc, "p": 3 if sc < 1 else 1, "so": None}
    for n, mk, pl in itertools.product(names, ("face", "body", "floor", "mirror"), ("XY", "-Z", "skew") if deep else ("XY", "skew")):
        yield {"k": "hole", "o": n, "mk": mk, "pl": pl, "sc": .5, "p": 1}
        yield {"k": "island", "o": n, "mk": mk, "pl": pl, "sc": .5, "p": 2}


def shape(case):
    es = [e.scale(case["sc"]) for e in outlines()[case["o"]]]
    mk = case["mk"]
    W = cq.Wire.assembleEdges(es).translate(V(0, 0, -DEPTH))
    inner = []
    if case["k"] in ("hole", "island"):
        inner = [W]
        W = cq.Wire.assembleEdges([line(a, b) for a, b in zip(BOX, BOX[1:] + BOX[:1])]).translate(V(0, 0, -DEPTH))
    if mk == "wire":
        out = W
    elif mk == "reversed":
        out = cq.Wire(W.wrapped.Reversed())
        if case["k"] == "pocket":
            out = cq.Face.makeFromWires(out, inner)
    elif mk in ("face", "xz"):
        out = cq.Face.makeFromWires(W, inner)
        if mk == "xz":      # turned upright and back by locations
            out = out.moved(cq.Location(V(), V(1, 0, 0), 90)).moved(cq.Location(V(), V(1, 0, 0), -90))
    elif mk == "moved":
        out = cq.Face.makeFromWires(W, inner).translate(V(-7, 3, 5)).moved(cq.Location(V(7, -3, -5)))
    elif mk == "body":
        s = cq.Solid.extrudeLinear(W, inner, V(0, 0, DEPTH))
        out = min(s.Faces(), key=lambda f: f.Center().z)
    elif mk == "floor":
        s = cq.Solid.extrudeLinear(W, inner, V(0, 0, -3))
        out = max(s.Faces(), key=lambda f: f.Center().z)
    elif mk == "mirror":
        s = cq.Solid.extrudeLinear(W.mirror("XZ"), [w.mirror("XZ") for w in inner], V(0, 0, DEPTH)).mirror("XZ")
        out = min(s.Faces(), key=lambda f: f.Center().z)
    return out.moved(cq.Location(B.plane(case["pl"]))) if mk in ("moved", "xz") else out.transformShape(B.plane(case["pl"]).rG)


BOX = [(-9, -8), (10, -8), (10, 7), (-9, 7)]


def evaluate(case):
    r = Result()
    sc, p, name = case["sc"], case["p"], case["o"]
    tol = (.05, .01) if case['k'] in ('profile', 'hole') else (.08, .025)
    tol = tol[p > 1]
    dia = 1.6 * min(sc, 1)
    j = Job(B.plane(case["pl"]), 100, tool_diameter=dia, precision=p)
    w = shape(case)
    tabs = {None: None, "W": WireTabs(count=4, width=1, height=.8), "E": EdgeTabs(spacing=3.1, width=1, height=.8)}[case.get("tab")]
    k = case["k"]
    if k == "profile":
        if isinstance(w, cq.Wire):
            j = j.wire_profile(w, offset=case["off"], stepdown=case.get("sd"), tabs=tabs)
        else:
            j = j.profile(w, outer_offset=case["off"])
        want = [(name, case["off"] * dia / 2)]
    elif k == "hole":
        j = j.profile(w, outer_offset=None)
        want = [(name, -dia / 2)]
    else:
        j = j.pocket(w, stepover=case.get("so"))
    tr = run(j.to_gcode())
    r.trace(tr)
    ms = [m for m in tr.motions if m.kind != "G0" and math.dist(m.start[:2], m.end[:2]) > 1e-9]
    r.nontrivial = bool(ms)
    r.outcome = hash((k, len(ms)))
    if k in ("profile", "hole"):
        d = want[0][1]
        Q = parallel(name, sc, d, .05 * max(1, sc))
        if not ms:
            if len(Q):
                r.fail("nothing is cut")
            return r
        P = np.array([q for m in ms for q in m.points(.1 * max(1, sc))])
        off = abs(signed(name, sc, P[:, :2]) - d) if d else abs(signed(name, sc, P[:, :2]))
        i = off.argmax()
        if off[i] > tol:
            r.fail(f"cut at ({P[i][0]:.3f}, {P[i][1]:.3f}) is {off[i]:.4f} away from the requested contour")
        for z, part in by_level(ms, tabs).items():
            c = path_distance(part, Q)
            i = c.argmax()
            if c[i] > tol:
                r.fail(f"({Q[i][0]:.3f}, {Q[i][1]:.3f}) of the contour is not cut at {z}, {c[i]:.4f} away")
        zs = sorted({round(m.end[2], 3) for m in ms})
        sd = case.get("sd")
        levels = {-DEPTH}
        if sd:
            levels = {round(-DEPTH + sd * i, 3) for i in range(int(DEPTH / sd) + 1)}
        if tabs:
            levels |= {-DEPTH + .8}
        if set(zs) != {round(z, 3) for z in levels}:
            r.fail(f"cuts at the heights {zs} instead of {sorted(levels)}")
        return r
    # pockets
    rad = dia / 2
    P = np.array([q for m in ms for q in m.points(.1)]) if ms else np.zeros((0, 3))
    s = signed(name, sc, P[:, :2]) if len(P) else np.zeros(0)
    if k == "pocket":
        room, Q = -s - rad, parallel(name, sc, -rad)
    else:
        box = shapely.Polygon(BOX)
        b = np.where(shapely.contains_xy(box, P[:, 0], P[:, 1]), 1, -1) * shapely.distance(box.exterior, shapely.points(P[:, :2]))
        room, Q = np.minimum(s, b) - rad, parallel(name, sc, rad)
        Q = Q[shapely.contains_xy(box.buffer(-rad - .01), Q[:, 0], Q[:, 1])]
    if len(P):
        i = room.argmin()
        if room[i] < -tol:
            r.fail(f"the tool leaves the pocket by {-room[i]:.4f} at ({P[i][0]:.3f}, {P[i][1]:.3f})")
    if len(Q):
        if not ms:
            r.fail("nothing is cut")
            return r
        c = path_distance([m for m in ms if abs(m.end[2] + DEPTH) < 1e-3], Q)
        i = c.argmax()
        if c[i] > tol:
            r.fail(f"wall position ({Q[i][0]:.3f}, {Q[i][1]:.3f}) is not cut, {c[i]:.4f} away")
    # nothing the tool can get at is left standing
    lo, hi = P[:, :2].min(0), P[:, :2].max(0)
    G = np.stack(np.meshgrid(np.linspace(lo[0], hi[0], 40), np.linspace(lo[1], hi[1], 40)), -1).reshape(-1, 2)
    g = signed(name, sc, G)
    if k == "pocket":
        G = G[g < -rad]
    else:
        b = np.where(shapely.contains_xy(box, G[:, 0], G[:, 1]), 1, -1) * shapely.distance(box.exterior, shapely.points(G))
        G = G[(g > rad) & (b > rad)]
    if len(G) and (case.get("so") or .5) <= 1:
        c = path_distance(ms, G)
        i = c.argmax()
        if c[i] > rad + tol:
            r.fail(f"({G[i][0]:.3f}, {G[i][1]:.3f}) is {c[i]:.4f} away from all cuts, more than the radius {rad}")
    return r


def by_level(ms, tabs):
    if tabs:
        return {"any height": ms}
    out = {}
    for m in ms:
        out.setdefault(round(m.end[2], 3), []).append(m)
    return out


def path_distance(ms, Q):
    return O.path_distance(ms, Q, .02)
