"""C08 - pockets never cut outside of the requested area."""
import itertools

from mc import build as B
from mc import pockets as K
from mc.engine import Result

ID = "C08"
RULE = ("every case is one pocket call: outline x islands (kind, rotation, position) x tool x stepover x offsets x "
        "avoid areas x overlap/nesting x depth layout x job plane x size; every cutting move is sampled and compared "
        "with the exact region the tool centre may be in at that height; non-trivial when something is cut")
ASSUMPTIONS = [
    "islands lie inside of their area",
    "tolerance 1.5e-3 + 1.2 * 10^-precision (interpolation, offset arcs and output are rounded to the precision)",
    "curved outlines run with precision 2 (time)",
    "avoid areas keep the tool out with their outer contour only (documented limitation in the code)",
]


def cases(tier):
    deep = tier == "thorough"
    yield from base(deep)
    yield from offsets(deep)
    yield from avoid(deep)
    yield from several(deep)
    yield from planes(deep)
    yield from sizes(deep)
    yield from many(deep)
    yield from counts(deep)
    yield from noise(deep)
    yield from thin(deep)


def thin(deep):
    """islands and avoid areas which are thinner than the stepover, at the place, with the angle and at the size they happen to have"""
    for o, isl, a, (dx, dy), dia, so in itertools.product(
            ("rect", "L", "hex") if not deep else ("rect", "L", "hex", "U", "comb"), "wp" if not deep else "wptsL", (0, 20, 90) if not deep else (0, 20, 45, 90, 111),
            ((-4, -3), (0, 0), (3, 2)) if not deep else ((-4, -3), (-2, 1), (0, 0), (3, 2), (5, -2)), (2, 3), (.8, 1, 1.6) if not deep else (None, .4, .8, 1, 1.6, 1.9)):
        yield {"areas": [[o, [["i:" + isl, a, dx, dy]], 2]], "dia": dia, "so": so, "io": 0 if isl == "p" else [0, .1]}
        if deep or a:
            yield {"areas": [[o, [], 2]], "avoids": [[["i:" + isl, a, dx, dy], 2]], "dia": dia, "so": so, "ao": 0, "oo": -1}


def noise(deep):
    """float noise on all corners of the scenarios above"""
    for i, c in enumerate(itertools.chain(base(False), offsets(False), avoid(False), several(False), planes(False))):
        for k, gap in enumerate((1e-9, 1e-8, 1e-7, 1e-6, 1e-5)):
            if (i + 3 * k) % (10 if deep else 73) == 0:
                yield {**c, "noise": [gap, 1000 + i % 4]}


def prec(names):
    return 2 if any(n in K.CURVED for n in names) else 3


def base(deep):
    angs = (0, 15, 37, 90, 180) if deep else (0, 37, 90)
    for o in K.OUT:
        for dia, so in itertools.product((1.5, 2, 3, 5, 7), (None, .3, 1, 1.6, [0, .7])):
            if o in K.CURVED and so == .3 and not deep:
                continue
            yield {"areas": [[o, [], 2]], "dia": dia, "so": so, "prec": prec([o])}
    for o, isl, a, (dx, dy), dia, so in itertools.product(
            ("rect", "L", "hex", "circle") if not deep else tuple(K.OUT), K.ISL, angs,
            ((-4, -3), (-3, 1), (0, 0), (4, -4)) if not deep else itertools.product((-5, -2, 0, 4), (-4, 0, 1.3, 3)),
            (2, 3) if not deep else (1, 2, 3), (None, 1, 1.6) if not deep else (.4, None, 1, 1.6)):
        if o in K.CURVED and (isl in "cd" or so == .4):
            continue
        yield {"areas": [[o, [["i:" + isl, a, dx, dy]], 2]], "dia": dia, "so": so, "prec": prec([o])}
    # two islands, from far apart to a gap the tool does not fit through
    for i1, i2, gap, dia in itertools.product("tswcpL", "ts", (3.5, 5, 7, 8), (1.5, 3)):
        yield {"areas": [["rect", [["i:" + i1, 20, -gap, 1], ["i:" + i2, 0, gap - 1, -2]], 2]], "dia": dia, "so": 1}
    for gx, gy, dia in itertools.product((4, 5, 6), (4, 5), (1.5, 2.2)):
        yield {"areas": [["rect", [["i:s", 45, sx * gx, sy * gy, .6] for sx in (-1, 1) for sy in (-1, 1)], 2]],
               "dia": dia, "so": .8}


def offsets(deep):
    OO = (None, -1, -1.5, 0, [-1, -.4], [0, 1], 1, [-1, .3])
    IO = (None, 1, 1.5, 0, [1, .4], -.2, [0, .8])
    for o, oo, io, dia in itertools.product(("rect", "hex"), OO, IO, (3,) if not deep else (1.5, 2, 3, 4)):
        for isl in ("s", "t"):
            yield {"areas": [[o, [["i:" + isl, 15, -2, 1]], 2]], "dia": dia, "oo": oo, "io": io, "so": .9}


def avoid(deep):
    for o, av, a, (dx, dy) in itertools.product(
            ("rect", "L") if not deep else ("rect", "L", "U", "hex", "neck"), K.ISL, (0, 37),
            ((0, 0), (-7, -6), (8, -3), (-10, 0), (14, 0))):
        for oo, ao in (((None, None), (-1, None), (1, 1.5)) if not deep else
                       ((None, None), (-1, None), (1, 1.5), (0, 0), ([-1, -.2], [1, .5]), (0, 2))):
            yield {"areas": [[o, [], 2]], "avoids": [[["i:" + av, a, dx, dy], 2]], "dia": 3, "oo": oo, "ao": ao,
                   "so": .9}
    # avoid areas at other depths, islands and several avoid areas at once
    for ad, isl in itertools.product((0, 1, 2, 3), (0, 1)):
        for two in (0, 1):
            av = [[["i:s", 30, 4, 3], ad]] + ([[["i:p", 0, 1, -5], 2 - ad if ad < 2 else ad]] if two else [])
            yield {"areas": [["rect", [["i:t", 0, -5, -3]] if isl else [], 2]], "avoids": av, "dia": 2.4, "so": .8}
    # overlapping avoid areas
    for d, ao in itertools.product((0, 1, 2, 3, 5), (None, 0, [0, .5])):
        yield {"areas": [["rect", [], 2]], "avoids": [[["i:s", 0, 0, 0], 2], [["i:s", 20, d, 1], 2]], "dia": 3, "ao": ao,
               "so": .9}


def several(deep):
    # two areas: apart, touching, overlapping, nested; same or different depth
    for a2, dx, dy, d2, dia in itertools.product(
            ("s", "t", "L"), (0, 5, 9, 11, 12.5, 16), (0, 3) if not deep else (-4, 0, 3, 7), (2, 3.5, 1),
            (1.5, 3) if not deep else (1, 1.5, 2, 3)):
        yield {"areas": [["rect", [], 2], [["i:" + a2, 10, dx, dy, 2.2], [], d2]], "dia": dia, "so": .9}
    # an area inside of the island of another one, at every depth relation
    for d2, dia, isl in itertools.product((1, 2, 4), (1, 1.5, 3), ("s", "L", "t")):
        yield {"areas": [["rect", [["i:" + isl, 0, 0, 0, 2]], 2], [["i:" + isl, 0, 0, 0, 2], [], d2]], "dia": dia, "so": .9}
        yield {"areas": [["rect", [["i:s", 0, 0, 0, 2.4]], 2], [["i:s", 0, 0, 0, 1.6], [["i:s", 0, 0, 0, .4]], d2]],
               "dia": dia, "so": .9}
    # islands of one area inside of another area
    for dx, d2, dia in itertools.product((-6, -3, 0, 4, 8), (2, 3, 1), (1.5, 2.5)):
        yield {"areas": [["rect", [["i:s", 0, 4, 2]], 2], [["rect", 0, dx, 1, .6], [["i:c", 0, dx, 1]], d2]],
               "dia": dia, "so": .9}
    for sd in (.5, .75, 1.2, 5):
        for a2, d2 in itertools.product(("s", "t"), (1, 2, 3.3)):
            yield {"areas": [["rect", [["i:s", 0, -5, 0]], 2], [["i:" + a2, 0, 5, 0, 1.5], [], d2]], "dia": 2, "so": 1,
                   "sd": sd}


def planes(deep):
    for pl in B.PLANES:
        for how, d in itertools.product(("face", "bottom", "cut", "mirror", "moved", "flip", "workplane", "single"),
                                        (3.3,) if not deep else (0, 1, 3.3)):
            yield {"areas": [["rect", [["i:s", 20, -4, 2]], d]], "dia": 3, "plane": pl, "how": how}
            if d:
                yield {"areas": [["L", [], d]], "avoids": [[["i:s", 20, -4, 2], d]], "dia": 3, "plane": pl, "how": how}
        yield {"areas": [["rect", [], 2], [["i:s", 0, 5, 0, 1.5], [], 3.7]], "dia": 2, "plane": pl, "sd": .9}
        yield {"areas": [["circle", [["i:s", 20, -3, 2]], 2]], "dia": 3, "plane": pl, "prec": 2}


def sizes(deep):
    for k, o, isl in itertools.product((.04, .08, .2, 4), ("rect", "L", "hex"), ("s", "t", "p", "w")):
        for dia, so in ((3, None), (2, 1)) if not deep else itertools.product((1.5, 2, 3, 5), (.4, None, 1, 1.6)):
            yield {"areas": [[[o, 0, 0, 0, k], [["i:" + isl, 25, -4 * k, -3 * k, k]], 2 * k]], "dia": dia * k, "so": so,
                   "prec": 3}


GRID = [(-13 + 8.7 * (k % 4), -9 + 9 * (k // 4)) for k in range(12)]
KIND = ("i:s", "i:t", "i:p", "i:L", "i:w")


def many(deep):
    """more outlines; many islands, areas and avoid areas at once"""
    for o in ("star", "stairs", "wedge", "long", "split", "spike", "dumbbell", "T", "poly48", "C", "pie", "keyhole", "scallop", "bite", "3arc"):
        for dia, so in ((1, None), (2, .9), (3, 1), (5, None)):
            if deep or o not in K.CURVED or so:
                yield {"areas": [[o, [], 2]], "dia": dia, "so": so, "prec": prec([o])}
    for n, dia, so in itertools.product((3, 5, 6, 8, 11, 12), (1.2, 2, 3.3), (None, .9) if deep else (.9,)):
        isl = [[KIND[(k * k + n) % 5], 25 * k, *GRID[(5 * k) % 12], .6] for k in range(n)]
        yield {"areas": [[["rect", 0, 0, 0, 1.9], isl, 2]], "dia": dia, "so": so}
        yield {"areas": [[["rect", 0, 0, 0, 1.9], isl, 2]], "dia": dia, "so": so, "sd": .8, "plane": "skew", "how": "cut"}
    for n, dia, sd in itertools.product((3, 4, 6, 9, 12), (1.2, 2), (None, .7)):
        yield {"areas": [[["rect", 20 * k, 1.6 * GRID[k][0], 1.6 * GRID[k][1], .4], [], .5 + .4 * (5 * k % 7)] for k in range(n)], "dia": dia,
               "so": .9, "sd": sd}
        # steps of a stair, each inside of the one above
        yield {"areas": [[["rect", 0, .3 * k, 0, 2 - .15 * k], [], .4 + .5 * k] for k in range(n)], "dia": dia, "so": .9, "sd": sd}
    for n, ao, dia in itertools.product((2, 3, 4, 7, 12), (None, 0, 1.4), (1.2, 2.5)):
        av = [[[KIND[(k * k + n) % 5], 25 * k, *GRID[(5 * k) % 12], .7], 2 + (k % 3 - 1) * (n % 2)] for k in range(n)]
        yield {"areas": [[["rect", 0, 0, 0, 1.9], [], 2]], "avoids": av, "dia": dia, "so": .9, "ao": ao}
        if n < 7:
            yield {"areas": [[["rect", 0, -9, 0, .9], [], 2], [["rect", 0, 9, 0, .9], [], 3]], "avoids": av, "dia": dia, "so": .9, "ao": ao, "sd": 1.1}


def counts(deep):
    """magnitudes of numbers, sizes and distances"""
    for n in (20, 45, 70) if not deep else (17, 20, 33, 45, 70, 110):
        h = -(-n // 10)
        at = [(5 * (k % 10) - 22.5, 5 * (k // 10) - 2.5 * (h - 1)) for k in range(n)]
        isl = [["i:" + "stp"[k % 3], 20 * k, x, y, .45] for k, (x, y) in enumerate(at)]
        big = ["box:%d" % (5 * h + 3)]
        yield {"areas": [[big, isl, 2]], "dia": 1, "so": 1}
        yield {"areas": [[big, [], 2]], "avoids": [[i, 2] for i in isl], "dia": 1, "so": 1}
        for sd in (None, .7):
            yield {"areas": [[["i:" + "sL"[k % 2], 0, x, y, .7], [], 1 + .25 * (k * 7 % 9)] for k, (x, y) in enumerate(at)], "dia": .8, "so": 1, "sd": sd}
    for n, sd in ((18, None), (18, .8), (30, .8)):
        yield {"areas": [[["rect", 0, 0, 0, 3.2 - .09 * k], [], .3 + .2 * k] for k in range(n)], "dia": 1.1, "so": 1, "sd": sd}
    # edges
    for o, n in itertools.product(("ngon", "gear", "comb", "arcs"), (70, 160, 330)):
        if n > 70 and not deep and (o == "arcs" or (o == "gear" and n > 160)):
            continue
        yield {"areas": [[["%s:%d" % (o, n)], [], 2]], "dia": 2 if o != "comb" else 2.5, "so": 1, "prec": 2}
    # rings
    for dia in (.4, .15) if not deep else (.4, .2, .15, .08):
        yield {"areas": [[["rect"], [], 2]], "dia": dia, "so": 1}
        yield {"areas": [[["rect"], [["i:s", 20, 3, 1]], 2]], "dia": dia, "so": 1}
    # sizes and distances
    for k in (25, 120):
        for o, isl, (dia, so) in itertools.product(("rect", "L", "neck"), ("s", "p"), ((3, None), (1.5, 1))):
            yield {"areas": [[[o, 0, 0, 0, k], [["i:" + isl, 25, -4 * k, -5 * k, k]], 2]], "dia": dia * k, "so": so}
    for dx, dy in ((3000, 0), (-1500, 2500), (0, -9000), (400, 20000)):
        yield {"areas": [[["L", 0, dx, dy], [["i:s", 20, dx - 5, dy]], 2]], "dia": 3, "so": 1}
        yield {"areas": [[["rect", 0, dx, dy], [], 2]], "avoids": [[["i:t", 20, dx - 5, dy], 2]], "dia": 3, "so": 1}
    for d in (30, 250, 1200):
        for sd in (None, d / 7):
            yield {"areas": [[["L"], [["i:s", 20, -5, 0]], d], [["i:s", 0, 5, -5], [], d + 3]], "dia": 3, "so": 1, "sd": sd}


def evaluate(case):
    r = Result()
    s = K.Scenario(case)
    if not s.valid():
        r.nontrivial = False
        r.outcome = "invalid"
        return r
    tr = B.body(s.run())
    r.trace(tr)
    ms = K.cutting(tr.motions)
    r.nontrivial = bool(ms)
    P = K.samples(ms, max(.08, .02 * s.dia) * case["areas"][0][0][4] if isinstance(case["areas"][0][0], list)
                  and len(case["areas"][0][0]) > 4 else .1)
    worst = 0.0
    for z in {round(float(v), 4) for v in P[:, 2]}:
        sel = P[abs(P[:, 2] - z) < 1e-4]
        e = s.excess(sel[:, :2], z)
        k = e.argmax()
        worst = max(worst, float(min(e[k], 99)))
        if e[k] > s.tol:
            r.fail(f"tool centre at ({sel[k][0]:.3f}, {sel[k][1]:.3f}, {z}) is {e[k]:.4f} outside of the allowed region")
    # the tool also only plunges where it may cut
    Q = [m for m in tr.motions if m.kind in K.O.CUTS and not K.O.lateral(m) and m.end[2] < m.start[2]]
    for m in Q:
        e = s.excess([m.end[:2]], m.end[2])[0]
        if e > s.tol:
            r.fail(f"plunge at ({m.end[0]}, {m.end[1]}) to z {m.end[2]} is {e:.4f} outside of the allowed region")
    r.notes = {"max_excess": worst, "cuts": len(ms)}
    r.outcome = hash((len(ms), tuple(round(m.end[0] + m.end[1], 2) for m in ms[::7])))
    return r
