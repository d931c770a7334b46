"""C06 - profile stepdown: complete passes, never deeper than a step at a time."""
import itertools

import cadquery as cq

from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result

ID = "C06"
RULE = ("every case is one profile (of one or of many contours) with a depth, a stepdown, an outline, an offset and a job plane; "
        "the passes of the program are executed in order and compared with the removed depth; "
        "non-trivial when more than one pass is cut")
ASSUMPTIONS = ["tolerance 2e-3 program units on heights (the code skips a top layer thinner than 1e-3)",
               "more than 100 steps may be refused with an error"]
TOL = 2e-3
DEPTHS = [.2, .3, .5, 1, 1.05, 2, 2.999, 3, 3.001, 3.3, 5, 7.5, 10]
STEPS = [None, .1, .15, .3, .5, .7, .75, 1, 1.1, 2, 2.5, 3, 3.3, 6, 20]
SHAPES = [("rect", 3, 1), ("circle", 3, -1), ("D", 2, 0), ("L", 2, -1), ("dumbbell", 3.4, -1), ("slot", 1, 1)]


def cases(tier):
    deep = tier == "thorough"
    for (n, dia, off), d, s in itertools.product(SHAPES, DEPTHS, STEPS):
        if s and d / s > 60:
            continue
        yield {"o": n, "dia": dia, "off": off, "d": d, "s": s, "plane": "XY"}
    for (n, dia, off), d, s, pl in itertools.product(
            SHAPES if deep else SHAPES[:2], DEPTHS if deep else (1, 3, 7.5), STEPS if deep else (.5, .7, 1, 2.5, None),
            list(B.PLANES)[1:]):
        if s and d / s > 60:
            continue
        yield {"o": n, "dia": dia, "off": off, "d": d, "s": s, "plane": pl}
    # every number of steps up to the limit of the implementation
    for n in range(1, 111 if deep else 104):
        yield {"o": "rect", "dia": 1, "off": 1, "d": round(n * .05, 4), "s": .05, "plane": "XY"}
    # every depth for one step: dividing exactly, just missing it, just exceeding it
    for k in range(1, 41):
        for eps in (0, -.01, .01) if deep else (0, .01):
            yield {"o": "circle", "dia": 1, "off": 1, "d": round(k * .1 + eps, 4), "s": .3, "plane": "skew"}
    # outlines of every kind, several contours at once, each at a depth of its own
    for n, (dia, off), d, s in itertools.product(S.MORE, ((1, 1), (1, -1), (2.6, -1)), (1, 3.1, 7) if deep else (3.1,), (None, .4, 1.6)):
        for pl in ("XY", "skew", "-Y"):
            yield {"o": n, "dia": dia, "off": off, "d": d, "s": s, "plane": pl}
    for how, ds, s in itertools.product(("wires", "faces", "wp"), itertools.chain(*(itertools.product((.5, 1.2, 2, 3.7), repeat=k) for k in (2, 3))),
                                        (None, .3, .5, .9, 1.2, 2)):
        yield {"multi": how, "ds": ds, "s": s, "plane": "XY"}
        if deep:
            yield {"multi": how, "ds": ds, "s": s, "plane": "skew"}
    for how, n, s in itertools.product(("wires", "faces", "wp"), range(4, 13), (None, .7, 1.1)):
        yield {"multi": how, "ds": [.4 + (k * 5 % 7) * .5 for k in range(n)], "s": s, "plane": "XYr30"}
    for d, s in itertools.product((12, 25, 60, 140), (.9, 1.25, 2, 3, 7, 30)):
        if d / s < 99:
            yield {"o": "rect", "dia": 1, "off": 1, "d": d, "s": s, "plane": "XY"}
    # depths and stepdowns with more decimals than the output, large and distant parts, very many contours
    for (n, dia, off), d, s in itertools.product(SHAPES if deep else SHAPES[:3], (1 / 3, 2.71828, 3.175, 6.0001, .9999), (1 / 3, .12345, .0625, 1.5875, 1.00005)):
        if d / s < 60:
            yield {"o": n, "dia": dia, "off": off, "d": d, "s": s, "plane": "XY"}
    for n, o, s in itertools.product(("rect", "circle", "slot"), ({"scale": 60}, {"dx": 1500, "dy": -700}, {"dx": -12000, "dy": 4000}), (None, .7, 1.25)):
        yield {"o": [n, o], "dia": 3, "off": 1, "d": 3, "s": s, "plane": "XY"}
    for o, s in itertools.product(("ngon:90", "gear:270", "comb:260", "arcs:60"), (None, .7, 1.25)):
        yield {"o": o, "dia": 1, "off": 1, "d": 3, "s": s, "plane": "XY"}
    for how, n, s in itertools.product(("wires", "faces"), (25, 45), (None, .7)):
        yield {"multi": how, "ds": [.4 + (k * 5 % 7) * .5 for k in range(n)], "s": s, "plane": "XY"}
    for sc in (.04, .1):
        for d, s in itertools.product((.05, .125, .25, .5), (.02, .05, .0625, .1, .125, .3)):
            yield {"o": ["L", {"scale": sc}], "dia": 1 * sc, "off": -1, "d": d, "s": s, "plane": "+X"}


def evaluate(case):
    r = Result()
    pl = B.plane(case["plane"])
    if "multi" in case:
        return multi(r, case, pl)
    lp = B.outline(case["o"])
    d, s = case["d"], case["s"]
    try:
        j = B.job(case["plane"], dia=case["dia"]).wire_profile(S.wire(lp, -d, pl), offset=case["off"], stepdown=s)
    except RuntimeError:
        if s and d / s > 99:
            r.nontrivial = False
            return r
        raise
    tr = B.body(j)
    r.trace(tr)
    ps = O.passes(tr.motions)
    check_layers(r, ps, lp, case["off"] * case["dia"] / 2, d, s)
    r.nontrivial = len(ps) > 1
    r.outcome = hash(tuple(round(p[0].start[2], 3) for p in ps))
    return r


KIND = ("rect", "circle", "D", "L", "slot")


def multi(r, case, pl):
    """several contours, 40 apart; the ones of faces have two holes each"""
    how, ds, s = case["multi"], case["ds"], case["s"]
    W = [S.shift(S.OUTLINES[KIND[k % 5]], 40 * k, 0) for k in range(len(ds))]
    holes = [[S.circle((40 * k + x, y), 1) for x, y in ((1, 1.5), (3.2, 2)) if O.signed(W[k], [(x + 40 * k, y)])[0] < -1.2] for k in range(len(ds))]
    if how == "wires":
        arg = [S.wire(w, -d, pl) for w, d in zip(W, ds)]
        j = B.job(case["plane"], dia=1).wire_profile(arg, stepdown=s)
        holes = [[] for _ in ds]
    else:
        arg = [S.face(w, h, -d, pl) for w, h, d in zip(W, holes, ds)]
        j = B.job(case["plane"], dia=1).profile(cq.Workplane(pl).newObject(arg) if how == "wp" else arg, stepdown=s)
    tr = B.body(j)
    r.trace(tr)
    groups = {(k, i): [] for k in range(len(ds)) for i in range(1 + len(holes[k]))}
    for p in O.passes(tr.motions):
        x, y = p[0].start[:2]
        k = round((x - 2) / 40)
        at = [abs(O.signed(W[k], [(x, y)])[0] - .5)] + [abs(O.signed(h, [(x, y)])[0] + .5) for h in holes[k]]
        groups[k, at.index(min(at))].append(p)
    for (k, i), ps in groups.items():
        check_layers(r, ps, holes[k][i - 1] if i else W[k], -.5 if i else .5, ds[k], s)
    r.nontrivial = True
    r.outcome = hash(tuple((g, tuple(round(p[0].start[2], 3) for p in ps)) for g, ps in groups.items()))
    return r


def check_layers(r, ps, lp, off, d, s):
    Q = O.parallel(lp, off)
    if not ps:
        if len(Q):
            r.fail("nothing is cut")
        return
    # contours: passes over the same outline in XY
    contours = []
    for p in ps:
        zs = {round(z, 4) for m in p for z in (m.start[2], m.end[2])}
        if len(zs) > 1:
            r.fail(f"pass is not level: z {sorted(zs)}")
            return
        z = zs.pop()
        key = (round(sum(m.length() for m in p), 2), round(O.line(p).centroid.x, 2), round(O.line(p).centroid.y, 2))
        for c in contours:
            if all(abs(a - b) < .02 for a, b in zip(c[0], key)):
                c[1].append(z)
                c[2].append(p)
                break
        else:
            contours.append((key, [z], [p]))
    final = []
    for key, zs, pp in contours:
        if abs(zs[-1] + d) > 6e-4:
            r.fail(f"contour ends at z {zs[-1]} instead of {-d}")
        top = 0.0
        for z in zs:
            if z > -1e-9:
                r.fail(f"pass above the stock at z {z}")
            if z >= top - 1e-9:
                r.fail(f"pass at z {z} after a pass at z {top}")
            if s and top - z > s + TOL:
                r.fail(f"pass at z {z} cuts {top - z:.4f} deep with a stepdown of {s}")
            top = z
        if not s and len(zs) != 1:
            r.fail(f"{len(zs)} passes without a stepdown")
        final.append(pp[-1])
    # every level is complete
    for level in {z for _, zs, _ in contours for z in zs}:
        ms = [m for _, zs, pp in contours for z, p in zip(zs, pp) if z == level for m in p]
        c = O.path_distance(ms, Q)
        if len(Q) and c.max() > 2.5e-3:
            r.fail(f"the pass at z {level} leaves out a part of the contour")
            break
