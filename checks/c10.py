"""C10 - pocket floors are at their depth and are reached in safe steps."""
import itertools

import numpy as np

from checks import c08
from mc import build as B
from mc import oracle as O
from mc import pockets as K
from mc.engine import Result

ID = "C10"
RULE = ("every case is one pocket call: depths x stepdown x layout of the areas (single, island, disjoint, overlapping, nested, "
        "in an island, avoided) x offsets x job plane x kind of face; the material is a height map that the program removes move by "
        "move; non-trivial when more than one level is cut")
ASSUMPTIONS = ["stepover of at most the tool radius", "tolerance 2e-3 on heights"]
TOL = 2e-3
DEPTHS = (.3, .5, 1, 1.05, 2, 2.4, 3, 3.3)
STEPS = (None, .15, .3, .5, .7, 1, 1.1, 2, 3, 9)
BOX = ["rect", 0, 0, 0, .5]


def cases(tier):
    deep = tier == "thorough"
    for d, s in itertools.product(DEPTHS, STEPS):
        if s and d / s > 25:
            continue
        for ins, o in itertools.product(([], [["i:s", 20, 1, 0, .4]]), (BOX, ["L", 0, 0, 0, .6], ["hex", 0, 0, 0, .5])):
            yield {"areas": [[o, ins, d]], "dia": 2, "so": .8, "sd": s}
    for d1, d2, s in itertools.product(DEPTHS if deep else (.5, 1, 2, 2.4, 3), DEPTHS if deep else (.3, 1, 2, 3.3), STEPS):
        if s and max(d1, d2) / s > 16:
            continue
        for name, a2 in LAYOUT.items():
            if not deep and name in ("inisland", "avoid") and s in (.15, 9, 3):
                continue
            c = two(name, a2, d1, d2)
            yield c | {"dia": 1.6, "so": .9, "sd": s}
            if s in (None, .7, 1) :
                yield c | {"dia": 1.6, "so": .7, "sd": s, "oo": 0}
    for ds, s in itertools.product(itertools.product((.5, 1.2, 2, 3.1), repeat=3), (None, .5, .8, 1.3)):
        yield {"areas": [[BOX, [], ds[0]], [["rect", 0, 0, 0, .33], [], ds[1]], [["rect", 0, .2, .1, .2], [], ds[2]]],
               "dia": 1.2, "so": .9, "sd": s}
        yield {"areas": [[BOX, [], ds[0]], [["rect", 0, 9, 1, .3], [], ds[1]], [["rect", 0, -2, 1, .2], [], ds[2]]],
               "dia": 1.2, "so": .9, "sd": s}
    for pl, how, d, s in itertools.product(B.PLANES, ("face", "bottom", "floor", "cut", "moved", "flip", "workplane"),
                                           (1, 2.4), (None, .7, 1.2)):
        yield {"areas": [[BOX, [["i:t", 10, 1, 0, .3]], d]], "dia": 2, "so": .9, "sd": s, "plane": pl, "how": how}
        yield two("nested", LAYOUT["nested"], d, d + 1.3) | {"dia": 1.6, "so": .9, "sd": s, "plane": pl, "how": how}
    # numbers of steps: dividing exactly, just not
    for n, e in itertools.product(range(1, 41 if deep else 25), (0, .004, -.004)):
        yield {"areas": [[["rect", 0, 0, 0, .2], [], round(n * .1 + e, 4)]], "dia": 1.5, "so": .9, "sd": .1}
        yield {"areas": [[["rect", 0, 0, 0, .2], [], round(n * .7 + e, 4)]], "dia": 1.5, "so": .9, "sd": .7}
    for n, s in itertools.product((50, 99, 100, 101, 128, 150), (.3, .5)):
        yield {"areas": [[["rect", 0, 0, 0, .1], [], round(n * s, 4)]], "dia": 1, "so": 1, "sd": s}
    # many islands, areas and avoid areas at once
    for c in c08.many(deep):
        if isinstance(c["areas"][0][0], list) and len(c["areas"][0][0]) > 4:
            for sd in (None, .45, 1.3):
                yield c | {"sd": sd}
    for k, u in itertools.product((.04, .1), (.02, .05, .0625)):
        for d in (.05, .125, .25):
            yield {"areas": [[["rect", 0, 0, 0, k], [["i:s", 5, 0, 0, k]], d]], "dia": 2 * k, "so": .9, "sd": u}


LAYOUT = {"disjoint": ["rect", 0, 12, 1, .35], "touching": ["rect", 0, 8, 0, .3], "overlap": ["rect", 0, 4.5, 2, .35],
          "nested": ["rect", 0, .5, .5, .3], "edge": ["rect", 0, 2, 0, .3], "same": BOX, "inisland": None, "avoid": None}


def two(name, a2, d1, d2):
    if name == "inisland":
        return {"areas": [[BOX, [["rect", 0, 0, 0, .26]], d1], [["rect", 0, 0, 0, .2], [], d2]]}
    if name == "avoid":
        return {"areas": [[BOX, [], d1]], "avoids": [[["i:s", 20, 2, 1, .8], d2]]}
    return {"areas": [[BOX, [], d1], [a2, [], d2]]}


def evaluate(case):
    r = Result()
    s = K.Scenario(case)
    sd = case.get("sd")
    tr = B.body(s.run())
    r.trace(tr)
    scale = case["areas"][0][0][4]
    h = .5 * scale
    G = s.grid(h)
    lo = G.min(axis=0)
    nx = int(round((G[:, 0].max() - lo[0]) / h)) + 1
    ny = int(round((G[:, 1].max() - lo[1]) / h)) + 1
    H = np.zeros((ny, nx))
    X = lo[0] + h * np.arange(nx)
    Y = lo[1] + h * np.arange(ny)
    worst = 0.0
    deepest = max(d for _, _, d in s.areas)
    levels = set()
    rr = s.r - 2e-3
    done = False
    for m in tr.motions:
        if m.kind == "G0" or m.end[0] is None:
            if m.end[0] is None:
                continue
            if m.kind == "G0" and m.end[2] >= -1e-9:
                continue
        if O.lateral(m) and m.kind != "G0":
            levels.add(m.end[2])
            if abs(m.start[2] - m.end[2]) > 1e-9:
                r.fail(f"cut is not level: {m.text} from {m.start}")
        P = K.samples([m], h * .6)
        for x, y, z in P:
            i0, i1 = np.searchsorted(X, (x - rr, x + rr))
            j0, j1 = np.searchsorted(Y, (y - rr, y + rr))
            if i0 == i1 or j0 == j1:
                continue
            W = H[j0:j1, i0:i1]
            mask = ((X[i0:i1] - x) ** 2)[None, :] + ((Y[j0:j1] - y) ** 2)[:, None] <= rr * rr
            cut = W[mask] - z
            if len(cut):
                e = cut.max()
                if e > 0:
                    worst = max(worst, float(e))
                    if sd and e > sd + TOL and not done:
                        done = True
                        r.fail(f"cut at ({x:.3f}, {y:.3f}, {z:.4f}) takes off {e:.4f} at once with a stepdown of {sd}")
                    W[mask] = np.minimum(W[mask], z)
    # floors
    C = np.array([(x, y) for y in Y for x in X])
    Hc = H.ravel()
    want = np.zeros(len(C))
    deeper = np.zeros(len(C))
    for d in sorted({d for _, _, d in s.areas}):
        e = s.excess(C, -d)
        want = np.where(e < -3e-3, -d, want)
        deeper = np.where(e < s.r + 3e-3, -d, deeper)
    bad = Hc > want + TOL
    if bad.any():
        k = int(bad.argmax())
        r.fail(f"floor at ({C[k][0]:.3f}, {C[k][1]:.3f}) is at {Hc[k]:.4f} instead of {want[k]}")
    bad = Hc < deeper - TOL
    if bad.any():
        k = int(bad.argmax())
        r.fail(f"floor at ({C[k][0]:.3f}, {C[k][1]:.3f}) is at {Hc[k]:.4f}, not deeper than {deeper[k]} was asked for")
    ds = [-d for _, _, d in s.areas]
    if not sd and any(min(abs(z - d) for d in ds) > 6e-4 for z in levels):
        r.fail(f"cuts at {sorted(levels)} without a stepdown for depths {ds}")
    r.nontrivial = len(levels) > 1
    r.notes = {"max_engagement": worst, "levels": len(levels)}
    r.outcome = hash((tuple(sorted(levels)), round(float(Hc.sum()), 1)))
    return r
