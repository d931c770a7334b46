"""C11 - drilling: each hole once, at its place and depth, nearest first."""
import itertools
import math

import cadquery as cq

from cq_cam.tool import Tool
from mc import build as B
from mc import shapes as S
from mc.engine import Result

ID = "C11"
RULE = ("every case is one drill call: an ordered selection of positions x kinds of object they are handed over as x "
        "depth x job plane x heights; the holes of the executed program are compared with the positions and with a "
        "nearest-neighbour walk; non-trivial when there are at least two holes")
ASSUMPTIONS = ["positions are distinct", "a face with inner outlines stands for its inner outlines (as implemented)"]
GRID = [(x, y) for x in (-7.25, 0, 5.5) for y in (-3, 0.0005, 8.1234)]
IRREG = [(0, 0), (1, .2), (2.1, -.3), (3.5, .1), (-1.2, .4), (-2.7, 0), (.3, 1.7)]
KINDS = ("vector", "wire", "face", "holes", "mixed", "workplane", "wpwires", "single")
TOL = 6e-4


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 5 if deep else 4):
        for sel in itertools.permutations(range(9), n):
            yield {"p": [GRID[i] for i in sel], "d": 3, "pl": "XY" if n < 3 else "skew", "kind": "vector"}
    for n in (5, 6, 7) if deep else (5,):
        for sel in itertools.permutations(range(7), n):
            if deep or sel[0] in (0, 4) :
                yield {"p": [IRREG[i] for i in sel], "d": 2, "pl": "XY", "kind": "vector"}
    for kind, pl, d, n in itertools.product(KINDS, B.PLANES, (1, 2.5, 10) if not deep else (.001, .5, 1, 2.5, 10, 100), (1, 2, 4)):
        pts = [GRID[(3 * i + 1) % 9] for i in range(n)] if n != 4 else [GRID[i] for i in (8, 2, 4, 3)]
        yield {"p": pts, "d": d, "pl": pl, "kind": kind}
    # heights, feeds, sign of the depth, height the positions are given at, tool
    for s, feed, z, t, u in itertools.product((None, .5, 3), ((100, None), (100, 35), (80.5, 12.25)), (0, -4, 6),
                                              (0, 1), ("mm", "in")):
        for d in (2, -2):
            yield {"p": [GRID[0], GRID[7], GRID[3]], "d": d, "pl": "+X", "kind": "vector", "safe": s, "feed": feed,
                   "z": z, "tool": t, "u": u}
    # every pair of hole distances: nearest must win however close
    for a, b in itertools.product([k * .1 for k in range(1, 13)], repeat=2):
        yield {"p": [(0, 0), (a, 0), (0, b), (-a, -b)], "d": 1, "pl": "XY", "kind": "vector"}
    # holes closer together than anything else, down to the output resolution, and holes in line
    for e, f in itertools.product((.002, .004, .011, .03, .049, .051, .09, .4), repeat=2):
        for x, y in ((0, 0), (-3.3335, 17.0495), (999.9995, -250)):
            yield {"p": [(x, y), (x + e, y), (x, y + f), (x + e, y + f), (x - f, y)], "d": 1, "pl": "XY", "kind": "vector"}
    for n, dx, dy in itertools.product((2, 3, 4), (0, .5, 7), (0, .5, 7)):
        if dx or dy:
            for a in (0, 1, n - 1):
                pts = [(k * dx - 3, k * dy + 2) for k in range(n)]
                yield {"p": pts[a:] + pts[:a], "d": 2, "pl": "skew", "kind": ("wire", "holes", "vector")[a % 3]}
    # outlines of every shape
    for n, how, pl, rev in itertools.product(S.OUTLINES, ("wire", "face", "holes", "bottom", "cut", "mirror", "moved", "flip", "wp"),
                                             ("XY", "XYr30", "-Z", "skew") if not deep else B.PLANES, (0, 1)):
        yield {"o": [[n, {"rev": rev, "scale": .3, "dx": 6 * k, "dy": 3 * (k == 1), "rot": 35 * k}] for k in range(3)], "d": 2, "pl": pl, "kind": how}
    # many holes: rows, grids and circles of every size
    for n in range(5, 41 if deep else 26):
        for what in ("row", "grid", "circle", "spiral"):
            for kind in ("vector", "holes") if n % 5 else KINDS:
                if not (kind == "single" or kind == "holes" and n > 30):
                    yield {"p": many(what, n), "d": 2, "pl": ("XY", "-X", "skew")[n % 3], "kind": kind}
    # depths with decimals, deep ones, far from the origin and far apart
    for d in (.0004, .0625, 1 / 3, 1.2345, 3.175, 6.35, 9.9996, 10.0004, 12.7, 99.999, 250, 1000.5):
        for n in (1, 3):
            yield {"p": [GRID[0], GRID[7], GRID[3]][:n], "d": d, "pl": "XY", "kind": "vector"}
    for k, (x, y), kind in itertools.product((7, 900, 10001), ((0, 0), (1500, -700), (-12000, 4000), (300, 99999)), ("vector", "wire")):
        yield {"p": [(x + k * a, y + k * b) for a, b in ((0, 0), (3, 1), (1, 0), (2, -1), (0, 4))], "d": 2, "pl": "XY", "kind": kind}
    for n in (60, 128, 200, 300, 520, 1100) if not deep else (60, 128, 200, 300, 520, 1100, 2500):
        yield {"p": many("grid", n), "d": 2, "pl": "XY", "kind": "vector"}


def many(what, n):
    import math
    if what == "row":
        return [((k * 7 % n) * 1.25, 3) if math.gcd(n, 7) == 1 else (k * 1.25, 3) for k in range(n)]
    if what == "grid":
        w = math.isqrt(n - 1) + 1
        return [(k % w * 2.5, k // w * 1.75) for k in range(n)]
    if what == "circle":
        return [(20 * math.cos(2 * math.pi * k * 3 / n if n % 3 else 2 * math.pi * k / n),
                 20 * math.sin(2 * math.pi * k * 3 / n if n % 3 else 2 * math.pi * k / n)) for k in range(n)]
    return [((2 + k * .7) * math.cos(k), (2 + k * .7) * math.sin(k)) for k in range(n)]


def objects(kind, pts, z, pl):
    V = [pl.toWorldCoords(cq.Vector(x, y, z)) for x, y in pts]
    circ = [S.wire(S.circle(p, .4 + .1 * i), z, pl) for i, p in enumerate(pts)]
    if kind == "vector":
        return V
    if kind == "single":
        return V[0] if len(pts) == 1 else V
    if kind == "wire":
        return circ
    if kind == "face":
        return [S.face(S.circle(p, .4 + .1 * i), (), z, pl) for i, p in enumerate(pts)]
    if kind == "holes":
        return [S.face(S.rect(0, 2, 60, 60), [S.circle(p, .4) for p in pts], z, pl)]
    if kind == "mixed":
        f = [lambda i: V[i], lambda i: circ[i], lambda i: S.face(S.circle(pts[i], .7), (), z, pl)]
        return [f[i % 3](i) for i in range(len(pts))]
    if kind == "workplane":
        return cq.Workplane(pl).newObject([S.face(S.circle(p, .4), (), z, pl) for p in pts])
    if kind == "wpwires":
        return cq.Workplane(pl).newObject(circ)
    raise KeyError(kind)


def outlines(kind, loops, pl):
    if kind in ("wire", "wp"):
        W = [S.wire(l, -1, pl) for l in loops]
        return W if kind == "wire" else cq.Workplane(pl).newObject(W)
    if kind == "face":
        return [S.face(l, (), -1, pl) for l in loops]
    if kind == "holes":
        return S.face(S.rect(6, 0, 40, 30), loops, -1, pl)
    return S.solid_face(S.rect(6, 0, 40, 30), loops, 2, kind, pl)


def evaluate(case):
    r = Result()
    pl = B.plane(case["pl"])
    if "o" in case:
        loops = [B.outline(o) for o in case["o"]]
        pts = [S.Polygon(S.loop_points(l, 1e-6)).centroid.coords[0] for l in loops]
    else:
        pts = [tuple(p) for p in case["p"]]
    feed, plunge = case.get("feed", (100, None))
    kw = {}
    if case.get("safe") is not None:
        kw["op_safe_height"] = case["safe"]
    if plunge is not None:
        kw["plunge_feed"] = plunge
    j = B.job(pl, feed=feed, dia=3, unit=case.get("u", "mm"), **kw)
    tool = Tool(2, 5) if case.get("tool") else None
    safe = case.get("safe") if case.get("safe") is not None else (1 if case.get("u", "mm") == "mm" else .04)
    o = outlines(case["kind"], loops, pl) if "o" in case else objects(case["kind"], pts, case.get("z", 0), pl)
    j = j.drill(o, depth=case["d"], tool=tool)
    tr = B.body(j)
    r.trace(tr)
    holes = []
    at_xy = None
    for m in tr.motions:
        lateral = m.start[0] is None or m.start[:2] != m.end[:2]
        if m.kind == "G0":
            if m.end[0] is not None and lateral:
                if min(m.end[2], m.start[2]) < safe - 1e-9:
                    r.fail(f"moves to another hole below the safe height: {m.text}")
            elif m.start[2] is not None and m.end[2] < m.start[2] and m.end[2] < -1e-9:
                r.fail(f"rapid into the material: {m.text}")
        elif m.kind == "G1":
            if lateral:
                r.fail(f"sideways cut: {m.text}")
            if m.start[2] is None or m.start[2] < -1e-9 or m.start[2] > safe + 1e-9:
                r.fail(f"bore does not start between job plane and safe height: z {m.start[2]}")
            if abs(m.end[2] + abs(case["d"])) > TOL:
                r.fail(f"hole is {m.end[2]} deep instead of {-abs(case['d'])}")
            if abs(m.feed - (feed if plunge is None else plunge)) > TOL:
                r.fail(f"bores with feed {m.feed}")
            holes.append(m.end[:2])
        else:
            r.fail(f"arc in a drill program: {m.text}")
    rest = list(pts)
    last = None
    order = []
    for h in holes:
        near = [p for p in rest if math.dist(p, h) < 2e-3]
        if not near:
            r.fail(f"hole at {h} was not requested (or made twice)")
            break
        p = min(near, key=lambda q: math.dist(q, h))
        if max(abs(p[0] - h[0]), abs(p[1] - h[1])) > TOL:
            r.fail(f"hole at {h} instead of {p}")
        if last is not None:
            d = math.dist(last, p)
            best = min(math.dist(last, q) for q in rest)
            if d > best + 1e-6:
                r.fail(f"goes from {last} to {p} ({d:.3f}) with a nearer hole left ({best:.3f})")
        rest.remove(p)
        last = p
        order.append(p)
    if rest:
        r.fail(f"holes missing: {rest}")
    r.nontrivial = len(pts) > 1
    r.outcome = hash((tuple(order), case["d"]))
    return r
