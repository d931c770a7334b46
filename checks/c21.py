"""C21 - 3D surfacing: heights, passes and area of the finishing moves."""
import functools
import itertools
import math

import cadquery as cq
import numpy as np
import shapely.prepared
from shapely.geometry import LineString, Point, Polygon

from mc import ocl

ocl.install()       # before cq_cam.operations.op3d is imported

from mc import build as B           # noqa: E402
from mc import shapes as S          # noqa: E402
from mc.engine import Result        # noqa: E402
from mc.machine import State, run   # noqa: E402

ID = "C21"
RULE = ("every case is a request: surface x cutter x stepover x interpolation step x offset x stepdown x plane x way the faces are made; "
        "the drop cutter library is replaced by an exact stand-in, itself replayed against brute force and against the program "
        "recorded with the real library; non-trivial when something is cut")
ASSUMPTIONS = ["opencamlib is not installed: its drop cutter is modelled (exact contact with triangles)",
               "surfaces lie at or below the job's plane",
               "the height between two neighbouring locations is not asserted (they are one interpolation step apart)"]
CASE_TIMEOUT = 300

# --- surfaces in job coordinates: (outline, faces as lists of 3D loops | curved) ---
R = [(-10, -8), (10, -8), (10, 8), (-10, 8)]


def up(pts, z):
    return [(x, y, z(x, y) if callable(z) else z) for x, y in pts]


def strip(xs, zs, y0=-8, y1=8):
    """faces extruded along y from a polyline in the xz plane"""
    return [[(a, y0, p), (b, y0, q), (b, y1, q), (a, y1, p)] for (a, p), (b, q) in itertools.pairwise(zip(xs, zs))]


def polyhedral(name):
    if name == "flat":
        return [up(R, -4)]
    if name == "flat-start1":
        return [up(R[1:] + R[:1], -4)]
    if name == "flat-start2":
        return [up(R[2:] + R[:2], -4)]
    if name == "flat-start3":
        return [up(R[3:] + R[:3], -4)]
    if name == "flat-reversed":
        return [up(R[::-1], -4)]
    if name == "narrow":
        return [up([(-10, -4), (10, -4), (10, 4), (-10, 4)], -2)]
    if name == "hexagon":
        return [up([(10 * math.cos(math.radians(a)), 10 * math.sin(math.radians(a))) for a in range(0, 360, 60)], -3)]
    if name == "triangle":
        return [up([(-10, -8), (10, -8), (0, 9)], -3)]
    if name == "ell":
        return [up([(-10, -8), (10, -8), (10, 0), (1, 0), (1, 8), (-10, 8)], -3)]
    if name == "slope-x":
        return [up(R, lambda x, y: -5 + x * .3)]
    if name == "slope-y":
        return [up(R, lambda x, y: -5 - y * .5)]
    if name == "slope-xy":
        return [up(R, lambda x, y: -6 + x * .25 - y * .3)]
    if name == "roof":
        return strip((-10, 0, 10), (-6, -1, -6))
    if name == "valley":
        return strip((-10, 0, 10), (-1, -7, -1))
    if name == "zigzag":
        return strip((-10, -5, 0, 5, 10), (-2, -6, -1, -8, -3))
    if name == "ledge":
        return strip((-10, -1, 0, 10), (-2, -2, -7, -7))
    if name == "step":
        return strip((-10, 0, 0, 10), (-1, -1, -6, -6))
    if name == "steps":
        return strip((-10, -4, -4, 3, 3, 10), (-9, -9, -5, -5, -2, -2))
    if name == "pyramid":
        apex = (0, 0, -1)
        return [[a, b, apex] for a, b in zip(up(R, -7), up(R[1:] + R[:1], -7))]
    if name == "pit":
        apex = (0, 0, -9)
        return [[a, b, apex] for a, b in zip(up(R, -1), up(R[1:] + R[:1], -1))]
    if name == "two-levels":          # two areas apart
        return [up([(-12, -8), (-2, -8), (-2, 8), (-12, 8)], -3), up([(2, -8), (12, -8), (12, 8), (2, 8)], -6)]
    if name == "hole":
        return [up(R, -4)]
    if name in AREAS:
        return [up(AREAS[name], -4)]
    raise KeyError(name)


AREAS = {      # that fall apart when they are offset, or have notches
    "dumbbell": [(-12, -8), (-2.3, -8), (-2.3, -1.3), (2.3, -1.3), (2.3, -8), (12, -8), (12, 8), (2.3, 8), (2.3, 1.3), (-2.3, 1.3),
                 (-2.3, 8), (-12, 8)],
    "dumbbell-y": [(-8, -12), (8, -12), (8, -2.3), (1.3, -2.3), (1.3, 2.3), (8, 2.3), (8, 12), (-8, 12), (-8, 2.3), (-1.3, 2.3),
                   (-1.3, -2.3), (-8, -2.3)],
    "notch": [(-12, -8), (12, -8), (12, 8), (3, 8), (0, -2), (-3, 8), (-12, 8)],
    "comb": [(-12, -8), (12, -8), (12, 8), (6, 8), (6, -1), (3, -1), (3, 8), (-3, 8), (-3, -1), (-6, -1), (-6, 8), (-12, 8)],
}
HOLE = [(-4, -3), (3, -3), (3, 2), (-4, 2)]
SOLID = {"solid-pocket": (-1, -5), "solid-boss": (-6, -2), "solid-deep": (0, -9)}      # heights of the rim and of the middle
POLY = ("flat", "flat-start1", "flat-start2", "flat-start3", "flat-reversed", "narrow", "hexagon", "triangle", "ell", "slope-x", "slope-y",
        "slope-xy", "roof", "valley", "zigzag", "ledge", "step", "steps", "pyramid", "pit", "two-levels", "hole") + tuple(AREAS)
CURVED = ("dome", "bowl", "barrel", "cone", "disc")
BODY = tuple(SOLID)
MADE_OF_FACES = CURVED + BODY


def revolved(name):
    """(z of the radius, radius at the rim)"""
    if name == "dome":
        return (lambda r: -13 + math.sqrt(12 ** 2 - r * r)), 9
    if name == "bowl":
        return (lambda r: 10 - math.sqrt(12 ** 2 - r * r)), 6
    if name == "cone":
        return (lambda r: -1 - .6 * r), 9
    if name == "disc":
        return (lambda r: -3.0), 9
    raise KeyError(name)


def curved_shape(name):
    if name == "barrel":      # a piece of a cylinder along y
        e = cq.Edge.makeThreePointArc(cq.Vector(-8, -8, -5), cq.Vector(0, -8, -1), cq.Vector(8, -8, -5))
        f = cq.Edge.makeThreePointArc(cq.Vector(-8, 8, -5), cq.Vector(0, 8, -1), cq.Vector(8, 8, -5))
        return [cq.Face.makeRuledSurface(e, f)]
    z, rim = revolved(name)
    if name == "disc":
        return [S.face(S.circle((0, 0), rim), (), -3)]
    if name == "cone":
        e = cq.Edge.makeLine(cq.Vector(0, 0, z(0)), cq.Vector(rim, 0, z(rim)))
    else:
        e = cq.Edge.makeThreePointArc(cq.Vector(0, 0, z(0)), cq.Vector(rim / 2, 0, z(rim / 2)), cq.Vector(rim, 0, z(rim)))
    return _revolve(e)


def _revolve(e):
    from OCP.BRepPrimAPI import BRepPrimAPI_MakeRevol
    from OCP.gp import gp_Ax1, gp_Dir, gp_Pnt
    return cq.Shape.cast(BRepPrimAPI_MakeRevol(e.wrapped, gp_Ax1(gp_Pnt(0, 0, 0), gp_Dir(0, 0, 1))).Shape()).Faces()


@functools.lru_cache(maxsize=None)
def surface(name):
    """(outlines as polygons, triangles of the oracle)"""
    if name in SOLID:
        rim, mid = SOLID[name]
        tris = fan(up(HOLE, mid)) + fan(up(R, -12))
        for x0, y0, x1, y1 in ((-10, -8, 10, -3), (-10, 2, 10, 8), (-10, -8, -4, 8), (3, -8, 10, 8)):
            tris += fan([(x0, y0, rim), (x1, y0, rim), (x1, y1, rim), (x0, y1, rim)])
        return [Polygon(R)], np.array(tris, float)
    if name == "hole":
        tris = []
        for x0, y0, x1, y1 in ((-10, -8, 10, -3), (-10, 2, 10, 8), (-10, -8, -4, 8), (3, -8, 10, 8)):
            tris += fan([(x0, y0, -4), (x1, y0, -4), (x1, y1, -4), (x0, y1, -4)])
        return [Polygon(R)], np.array(tris, float)
    if name in POLY:
        loops = polyhedral(name)
        tris = []
        for l in loops:
            tris += fan(l)
        if name == "two-levels":
            return [Polygon([p[:2] for p in l]) for l in loops], np.array(tris, float)
        if name in ("hexagon", "triangle", "ell", "narrow") or name in AREAS:
            out = Polygon([p[:2] for p in loops[0]])
        else:
            out = Polygon(R)
        return [out], np.array(tris, float)
    tris = []
    if name == "barrel":
        # circle through (-8,-5), (0,-1), (8,-5)
        rad = (64 + 16) / 8
        xs = np.linspace(-8, 8, 81)
        for l in strip(list(xs), [-1 - rad + math.sqrt(rad * rad - x * x) for x in xs]):
            tris += fan(l)
        return [Polygon([(-8, -8), (8, -8), (8, 8), (-8, 8)])], np.array(tris, float)
    z, rim = revolved(name)
    rs, an = np.linspace(0, rim, 31 if name != "cone" else 2), np.radians(np.arange(0, 361, 3))
    for (a, b), (s, t) in itertools.product(itertools.pairwise(rs), itertools.pairwise(an)):
        q = [(r * math.cos(w), r * math.sin(w), z(r)) for r, w in ((a, s), (b, s), (b, t), (a, t))]
        tris += fan(q)
    return [Point(0, 0).buffer(rim, quad_segs=90)], np.array(tris, float)


def fan(l):
    if len(l) > 4:       # planar outline that needn't be convex
        from shapely.ops import triangulate
        poly = Polygon([p[:2] for p in l])
        return [[(x, y, l[0][2]) for x, y in t.exterior.coords[:3]] for t in triangulate(poly) if poly.contains(t.representative_point())]
    return [[l[0], l[k], l[k + 1]] for k in range(1, len(l) - 1)]


def faces(name, how, plane):
    """cadquery faces of a surface placed on a plane"""
    if name in CURVED:
        return [f.moved(plane.location) for f in curved_shape(name)]
    if name in SOLID:
        rim, mid = SOLID[name]
        body = cq.Workplane("XY", origin=(0, 0, -12)).rect(20, 16).extrude(12 + min(rim, mid))
        tool = cq.Workplane("XY", origin=(-.5, -.5, min(rim, mid))).rect(7, 5).extrude(abs(rim - mid))
        if mid > rim:
            body = body.union(tool)
        else:
            body = cq.Workplane("XY", origin=(0, 0, -12)).rect(20, 16).extrude(12 + rim).cut(tool)
        return body.val().moved(plane.location).Faces()
    if name == "hole":
        f = S.face([("L", a, b) for a, b in zip(R, R[1:] + R[:1])], [[("L", a, b) for a, b in zip(HOLE, HOLE[1:] + HOLE[:1])]], -4)
        return [f.moved(plane.location)]
    loops = polyhedral(name)
    if how == "made":
        loops = [[plane.toWorldCoords(p).toTuple() for p in l] for l in loops]
    out = [cq.Face.makeFromWires(cq.Wire.makePolygon([cq.Vector(*p) for p in l], close=True)) for l in loops]
    return out if how == "made" else [f.moved(plane.location) for f in out]


def cutter(spec):
    kind, d = spec
    return {"cyl": ocl.CylCutter, "ball": ocl.BallCutter}[kind](d, 20)


def cases(tier):
    deep = tier == "thorough"
    base = {"s": "flat", "c": ["cyl", 2], "pl": "XY", "how": "made"}
    A = POLY + CURVED + BODY
    cuts = (["cyl", 2], ["ball", 2], ["cyl", 3.5], ["ball", 4])
    for s, c in itertools.product(A, cuts):
        yield base | {"s": s, "c": c}
    for s, pl, how in itertools.product(A, list(S.planes()), ("made", "moved")):
        if s in MADE_OF_FACES + ("hole",) and how == "made":
            continue
        yield base | {"s": s, "pl": pl, "how": how}
    for s, sd, c in itertools.product(A, (-1, -2, -2.5, -3, -20) if not deep else (-.7, -1, -1.5, -2, -2.5, -3, -4, -5, -8, -20), cuts[:2]):
        yield base | {"s": s, "c": c, "stepdown": sd}
    for s, (so, st) in itertools.product(A, itertools.product((.1, .2, .3, .5, .7, .9, 1), (.1, .5, 1.3)) if deep else
                                         ((.2, .5), (.2, 1.3), (.5, .2), (.5, 1.3), (1, .5), (1, 1.3))):
        yield base | {"s": s, "stepover": so, "interpolation_step": st}
    for s, k in itertools.product(A, (0, .5, 1, 1.5, -.5, -1.5, -2, [-1, .5], [0, -1], [.5, 1])):
        if (s, k) != ("barrel", 0):       # outlines of free-form curves have to be offset
            yield base | {"s": s, "outer_boundary_offset": k}
    for s, t in itertools.product(("flat", "roof", "steps", "dome"), (0, -.5, -1)):
        yield base | {"s": s, "stepdown": -1, "top_height": t}
    for s in ("flat", "step", "dome"):
        for n in (1, 2):
            yield base | {"s": s, "chain": n, "stepdown": -2}
        yield base | {"s": s, "inner_boundary_offset": None}
    # small cutters, on part of the surfaces
    for s, d, st in itertools.product(("narrow", "dumbbell-y", "steps", "pyramid", "disc") + (("comb", "ell", "bowl") if deep else ()), (.5, .8, 1),
                                      (.5, 1.3)):
        yield base | {"s": s, "c": ["cyl", d], "interpolation_step": st, "stepdown": -3}
    # what is given
    for s, pl, g in itertools.product(("flat", "roof", "steps", "two-levels", "ell", "hole"), ("XY", "skew") if not deep else list(S.planes()),
                                      ("wp", "wp-sel", "one", "wires", "wp-wires", "mixed")):
        if g in ("one", "wires", "wp-wires", "mixed") and s == "hole" and g != "one":
            continue
        if g == "one" and s in ("roof", "steps", "two-levels"):
            continue
        yield base | {"s": s, "given": g, "pl": pl, "how": "made" if s != "hole" else "moved"}
    for b, g in itertools.product(("empty", "none", "edge", "vertex", "solid", "face-and-edge", "vector"), ("list", "wp", "one")):
        yield {"refused": b, "given": g}
    # the stand-in itself
    for c, k in itertools.product((["cyl", 2], ["ball", 2], ["cyl", 3], ["ball", 3.5]), range(len(PROBES))):
        yield {"probe": k, "c": c}
    yield {"recorded": 1}


PROBES = [
    [(0, 0, 0), (4, 0, 0), (0, 4, 0)], [(0, 0, 0), (4, 0, 2), (0, 4, 1)], [(0, 0, -3), (4, 0, 2), (0, 4, -1)],
    [(0, 0, 0), (5, 0, 0), (2, .1, 3)], [(0, 0, 0), (3, 1, -4), (1, 3, 2)], [(0, 0, 0), (2, 0, 0), (2, 0, 3)],
    [(0, 0, 0), (.1, 0, .2), (0, .1, -.1)], [(-3, -3, -1), (4, -2, -2), (1, 5, 0)], [(0, 0, -6), (1, 0, 0), (0, 6, -6)],
]


def evaluate(case):
    r = Result()
    if "probe" in case:
        probe(r, case)
    elif "recorded" in case:
        recorded(r)
    elif "refused" in case:
        refused(r, case)
    else:
        request(r, case)
    return r


def probe(r, case):
    """exact drop against a dense grid of contact points"""
    t = np.array([PROBES[case["probe"]]], float)
    c = cutter(case["c"])
    rad = c.d / 2
    n = 240
    u, v = np.meshgrid(np.arange(n + 1) / n, np.arange(n + 1) / n)
    m = u + v <= 1 + 1e-12
    P = t[0, 0] + u[m][:, None] * (t[0, 1] - t[0, 0]) + v[m][:, None] * (t[0, 2] - t[0, 0])
    for x, y in itertools.product(np.arange(-4, 7.1, .7), repeat=2):
        got = c.drop(x, y, t)
        d = np.hypot(P[:, 0] - x, P[:, 1] - y)
        near = d <= rad
        want = (P[near, 2] - c.profile(d[near])).max() if near.any() else -math.inf
        r.transitions += 1
        if got < want - 1e-9:
            raise RuntimeError(f"stand-in: {case} at {x},{y}: {got} below {want}")
        # the grid is dense: the exact height is close above, except where the contact is near the rim
        near = d <= rad + .06
        loose = (P[near, 2] - (c.profile(np.minimum(d[near], rad)))).max() if near.any() else -math.inf
        if got > max(want, loose) + .25:
            raise RuntimeError(f"stand-in: {case} at {x},{y}: {got} above {want}")
    r.outcome = hash(str(case))


def recorded(r):
    """the locations the real library gave (test_op3d.py)"""
    box = cq.Workplane("XY").rect(5, 5).extrude(2).faces(">Z").workplane().rect(2, 2).cutBlind(1)
    job = B.job(cq.Plane((0, 0, 2)), 200, 1.5)
    tr = run(job.surface3d(o=box.faces(), tool=ocl.CylCutter(1, 15)).to_gcode(), State(feed=1))
    r.trace(tr)
    want = {(x / 2, y, 0) for x, y in itertools.product(range(-3, 4), (1, .2, -.6, -1.4))}
    want |= {(1.5, .5, 0), (-1.5, -.3, 0), (1.5, -1.1, 0)}
    got = {m.end for m in tr.motions if m.kind == "G1"}
    got = {tuple(round(v, 4) + 0.0 for v in p) for p in got}
    r.outcome = hash(tuple(sorted(got)))
    if got != want:
        r.fail(f"locations differ from those with the real library: {sorted(got ^ want)}")


def refused(r, case):
    """selections without an area are refused, and nothing is added"""
    f = faces("flat", "made", cq.Plane((0, 0, 0)))[0]
    body = cq.Workplane("XY").box(4, 4, 4)
    o = {"empty": [], "none": [None], "edge": [f.Edges()[0]], "vertex": [f.Vertices()[0]], "solid": [body.val()],
         "face-and-edge": [f, f.Edges()[0]], "vector": [cq.Vector(0, 0, 0)]}[case["refused"]]
    if case["given"] == "wp":
        w = cq.Workplane("XY")
        w.objects = list(o)
        o = w
    elif case["given"] == "one":
        o = o[0] if o else None
        if case["refused"] == "face-and-edge":
            return
    job = B.job(cq.Plane((0, 0, 0)), 100)
    before = job.to_gcode()
    r.transitions += 1
    try:
        new = job.surface3d(o=o, tool=ocl.CylCutter(2, 20))
    except Exception as e:   # noqa
        r.outcome = hash(type(e).__name__)
    else:
        r.fail(f"a selection of {case['refused']} is accepted: {new.operations[-1].to_gcode()[:60]!r}")
    if job.to_gcode() != before:
        r.fail("the job is changed")


def give(o, how, plane):
    """the same faces, handed over another way"""
    if how in ("wp", "wp-sel"):
        w = cq.Workplane(plane if how == "wp" else cq.Plane((3, -4, 5)))
        return w.newObject(o) if how == "wp" else w.add(cq.Compound.makeCompound(o)).faces()
    if how == "one":
        return o[0]
    if how == "mixed":
        return [x if k % 2 else x.outerWire() for k, x in enumerate(o)]
    wires = [x.outerWire() for x in o]
    return wires if how == "wires" else cq.Workplane("XY").newObject(wires)


def request(r, case):
    plane = B.fresh_plane(case["pl"])
    c = cutter(case["c"])
    outlines, tris = surface(case["s"])
    job = B.job(plane, 100)
    for _ in range(case.get("chain", 0)):
        job = job.drill([cq.Vector(1, 2, 0)], depth=1)
    before = job.to_gcode()
    kw = {k: case[k] for k in ("stepdown", "stepover", "interpolation_step", "outer_boundary_offset", "inner_boundary_offset", "top_height") if k in case}
    if isinstance(kw.get("outer_boundary_offset"), list):
        kw["outer_boundary_offset"] = tuple(kw["outer_boundary_offset"])
    off = case.get("outer_boundary_offset", -1)
    off = off if isinstance(off, list) else [off, 0]
    off = off[0] * c.d + off[1]
    region = [p.buffer(off, join_style="round", quad_segs=90) for p in outlines]
    over = case.get("stepover", .8) * c.d
    o = faces(case["s"], case["how"], plane)
    if "given" in case:
        o = give(o, case["given"], plane)
    if all(p.buffer(-over / 2 - .01).is_empty for p in region):
        try:         # the cutter doesn't fit
            new = job.surface3d(o=o, tool=c, **kw)
        except Exception:   # noqa
            r.nontrivial = False
            return
    else:
        new = job.surface3d(o=o, tool=c, **kw)
    if job.to_gcode() != before:
        r.fail("the job is changed")
    body = new.operations[-1].to_gcode()
    tr = run(body, State(feed=1), strict=False)
    r.trace(tr)
    region = [p for p in region if not p.is_empty]
    check(r, case, tr, c, region, tris)


def check(r, case, tr, c, region, tris):
    step = case.get("interpolation_step", .5)
    over = case.get("stepover", .8) * c.d
    down = abs(case.get("stepdown", 1e9))
    curved = case["s"] in CURVED
    tol = .002 if not curved else .03
    low, high = type(c)(c.d - .006 - (.01 if curved else 0), 20), type(c)(c.d + .006 + (.01 if curved else 0), 20)
    zmin = tris[..., 2].min()
    lo2, hi2 = tris[..., :2].min(axis=1), tris[..., :2].max(axis=1)

    @functools.lru_cache(maxsize=None)
    def rest(x, y):
        q = c.d / 2 + .1
        near = tris[(lo2[:, 0] <= x + q) & (hi2[:, 0] >= x - q) & (lo2[:, 1] <= y + q) & (hi2[:, 1] >= y - q)]
        if not len(near):
            return zmin, zmin
        return max(zmin, low.drop(x, y, near)), max(zmin, high.drop(x, y, near))

    at = {}
    around = [shapely.prepared.prep(p.buffer(.01 + (.03 if curved or case["s"] == "disc" else 0))) for p in region]
    runs, last = [], None
    for m in tr.motions:
        r.transitions += 1
        x, y, z = m.end
        if m.kind == "G0":
            if m.start[:2] != m.end[:2] and (m.start[2] if m.start[2] is not None else z) < 10 - 1e-6:
                r.fail(f"rapid sideways at Z{m.start[2]}: {m.text}")
            if z < 1 - 1e-6:
                r.fail(f"rapid down to Z{z}")
            last = None
            continue
        a, b = rest(x, y)
        if z < a - tol:
            r.fail(f"{m.text}: gouges, the cutter rests at {a:.4f} ({case['s']})")
        if math.dist(m.start[:2], m.end[:2]) > step + 2e-3:
            r.fail(f"{m.text}: {math.dist(m.start[:2], m.end[:2]):.3f} from the location before")
        if region and not any(p.distance(Point(x, y)) <= 3e-3 + (.02 if curved or case["s"] == 'disc' else 0) for p in region):
            r.fail(f"{m.text}: outside the area")
        if last is None:
            runs.append([(x, y)])
        else:
            if last != (x, y) and not any(p.contains(LineString([last, (x, y)])) for p in around):
                r.fail(f"{m.text}: leaves the area on the way from {last}")
            runs[-1].append((x, y))
        last = x, y
        at.setdefault((x, y), []).append(z)
    top = case.get("top_height", 0)
    for (x, y), zs in at.items():
        a, b = rest(x, y)
        if min(zs) > b + tol:
            r.fail(f"at X{x} Y{y} the cutter stops at Z{min(zs)}, it rests at {b:.4f}")
        levels = sorted({top, *zs}, reverse=True)
        for p, q in itertools.pairwise(levels):
            if p - q > down + tol:
                r.fail(f"at X{x} Y{y} from Z{p} to Z{q} in one pass, stepdown {down}")
    # any spot in a circle as wide as the stepover that fits in the area is within a stepover of a row
    moves = [q for run_ in runs for q in itertools.pairwise(run_)]
    seg = np.array(moves, float) if moves else np.zeros((0, 2, 2))
    p0, dv = seg[:, 0], seg[:, 1] - seg[:, 0]
    ll = np.maximum((dv ** 2).sum(axis=1), 1e-12) if len(seg) else None
    slack = .02 + (.05 if curved or case["s"] == "disc" else 0)
    for p in region:
        p = p.buffer(-over / 2 - .01).buffer(over / 2)      # where it is as wide as the stepover
        if p.is_empty:
            continue
        x0, y0, x1, y1 = p.bounds
        inside = shapely.prepared.prep(p)
        spots = [q for q in itertools.product(np.linspace(x0, x1, 25), np.linspace(y0, y1, 25)) if inside.contains(Point(q))]
        spots += [q for g in getattr(p, "geoms", [p]) for q in g.exterior.simplify(.01).coords]
        for x, y in spots:
            r.transitions += 1
            far = math.inf
            if len(seg):
                t = np.clip((((x, y) - p0) * dv).sum(axis=1) / ll, 0, 1)
                far = math.sqrt((((x, y) - p0 - dv * t[:, None]) ** 2).sum(axis=1).min())
            if far > over + slack:
                r.fail(f"nothing is cut within a stepover of X{x:.2f} Y{y:.2f}: {far:.3f}")
                break
    r.nontrivial = bool(at)
    r.outcome = hash(tuple(m.text for m in tr.motions))
