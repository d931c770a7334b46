"""C15 - cuts are made in a safe order."""
import itertools

import cadquery as cq

from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool
from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C15"
RULE = ("every case is a history of up to three (thorough: four) operations, each at its own place of the part, or a profile "
        "of faces with holes, or a pocket of areas of different depth; the order of sections and cuts is read off the executed "
        "program; non-trivial when there are at least two cuts to order")
ASSUMPTIONS = ["contours are told apart by their place"]
OPS = {"P": "Profile", "W": "Wire Profile", "K": "Pocket", "D": "Drill"}
TOOLS = (None, "t", "s")
TABS = {None: None, "W": dict(count=3, width=1, height=.7), "E": dict(spacing=4, width=1, height=.7)}


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 5 if deep else 4):
        for ops in itertools.product(OPS, repeat=n):
            for ts in itertools.product(TOOLS if n < 3 or deep and n < 4 else (None, "t"), repeat=n) if n < 4 else [(None,) * n]:
                for name in ("Job", "x y") if n < 3 else ("Job",):
                    yield {"kind": "hist", "ops": "".join(ops), "tools": ts, "name": name}
    for n, a, b, t in itertools.product((8, 13, 26, 60), range(4), (1, 3), (0, 1)):
        yield {"kind": "hist", "ops": "".join(list(OPS)[(a + k * b + k // 5) % 4] for k in range(n)),
               "tools": [((None, "t", "s")[k % 3] if t else None) for k in range(n)], "name": "Job"}
    for n, m, sd, tabs, way in itertools.product((1, 2, 3), (0, 1, 2, 3), (None, .4, 1, 5), TABS, ("face", "wp", "solid", "moved")):
        for oo, io in ((1, -1), (0, 0), (1, None), (None, -1)) if way == "face" or deep else ((1, -1),):
            yield {"kind": "profile", "faces": n, "holes": m, "sd": sd, "tabs": tabs, "way": way, "oo": oo, "io": io}
    for n, m, sd, tabs in itertools.product((1, 4, 6), (4, 6, 8), (None, .7), TABS):
        for oo, io in ((1, -1), (0, 0), (1, None), (None, -1)):
            yield {"kind": "profile", "faces": n, "holes": m, "sd": sd, "tabs": tabs, "way": "face", "oo": oo, "io": io}
    for n, m, sd in itertools.product((9, 17, 33), (0, 1, 3), (None, .7)):
        yield {"kind": "profile", "faces": n, "holes": m, "sd": sd, "tabs": None, "way": "face", "oo": 1, "io": -1}
    for n, s, tb in itertools.product((13, 20, 40, 70), (None, 1), (None, "W")):
        yield {"kind": "wires", "d": 2, "sd": s, "n": n, "tabs": tb}
    for n, sd in itertools.product((6, 8, 12, 20), (None, .8)):
        yield {"kind": "pocket", "d": [.4 + (k * 5 % 7) * .5 for k in range(n)], "sd": sd, "so": None, "nest": 0}
    # deep ones
    for d, s in itertools.product((8, 20, 45), (1, 2.5, None)):
        for tb in (None, "W"):
            yield {"kind": "wires", "d": d, "sd": s, "n": 3, "tabs": tb}
        yield {"kind": "pocket", "d": [d, d / 2, 1], "sd": s, "so": None, "nest": 0}
        yield {"kind": "pocket", "d": [d, d / 2, 1], "sd": s, "so": None, "nest": 1}
    # areas of a pocket in every order of their depths, one above the other and beside each other
    for n in (3, 4, 5) if deep else (3, 4):
        for d in itertools.permutations((3, 1.2, 2, .5, 2.6)[:n]):
            for sd, nest in itertools.product((None, .8), (0, 1)):
                yield {"kind": "pocket", "d": list(d), "sd": sd, "so": None, "nest": nest}
    for depths in itertools.product((1, 2, 3.5), repeat=2):
        for sd, so, ds3 in itertools.product((None, .5, .8, 10), (None, 1), (None, 1, 5)):
            yield {"kind": "pocket", "d": list(depths) + ([ds3] if ds3 else []), "sd": sd, "so": so, "nest": 0}
            yield {"kind": "pocket", "d": list(depths) + ([ds3] if ds3 else []), "sd": sd, "so": so, "nest": 1}
    for d, s, n, tabs in itertools.product((1, 2, 3.3), (.3, .7, 1, None), (1, 2, 3, 5, 8), TABS):
        yield {"kind": "wires", "d": d, "sd": s, "n": n, "tabs": tabs}


def tabs(k):
    return None if k is None else (WireTabs if k == "W" else EdgeTabs)(**TABS[k])


def evaluate(case):
    r = Result()
    {"hist": hist, "profile": prof, "pocket": pocket, "wires": wires}[case["kind"]](r, case)
    return r


def hist(r, case):
    j = B.job(dia=2, tool_number=1, speed=1000, name=case["name"])
    want = []
    for k, (o, t) in enumerate(zip(case["ops"], case["tools"])):
        x = 40 * k
        tool = Tool(2, 10 + k) if t == "t" else Tool(2, speed=2000 + k) if t == "s" else None
        if t == "t":
            want.append(("Tool Change", None))
        elif t == "s":
            want.append(("Speed Change", None))
        want.append((OPS[o], x))
        f = S.face(S.rect(x, 0, 14, 12), [S.rect(x, 0, 5, 5)], -1)
        if o == "P":
            j = j.profile(f, tool=tool)
        elif o == "W":
            j = j.wire_profile(f.outerWire(), tool=tool)
        elif o == "K":
            j = j.pocket(f, tool=tool)
        else:
            j = j.drill([cq.Vector(x, 3, 0), cq.Vector(x + 4, 3, 0)], depth=2, tool=tool)
    tr = run(j.to_gcode())
    r.trace(tr)
    heads = tr.sections[1:]
    want = [(n, x) for n, x in want]
    got = [h for h in heads]
    main = [(h, k) for k, h in enumerate(got) if any(h == f"{case['name']} - {n}" for n in OPS.values())]
    wmain = [(f"{case['name']} - {n}", x) for n, x in want if x is not None]
    if [h for h, _ in main] != [h for h, _ in wmain]:
        r.fail(f"sections {got} instead of {[h for h, _ in wmain]}")
        return
    for (h, k), (_, x) in zip(main, wmain):
        xs = [m.end[0] for m in tr.motions if m.section == k + 1 and m.kind != "G0"]
        if not xs or min(xs) < x - 20 or max(xs) > x + 20:
            r.fail(f"section {h} does not hold its own cuts")
    # tool and speed changes come before the operation they are for
    for k, t in enumerate(case["tools"]):
        secs = [m for m in tr.motions if m.section == main[k][1] + 1 and m.kind != "G0"]
        if t == "t" and any(m.tool != 10 + k for m in secs):
            r.fail(f"operation {k} runs before its tool change")
        if t == "s" and any(m.speed != 2000 + k for m in secs):
            r.fail(f"operation {k} runs before its speed change")
    r.nontrivial = len(case["ops"]) > 1
    r.outcome = hash(tuple(got))


def grouped(tr, key):
    """[(group, lowest z)] of the passes in order; groups by place"""
    out = []
    for p in O.passes(tr.motions):
        xs = [m.end[0] for m in p] + [m.start[0] for m in p]
        ys = [m.end[1] for m in p] + [m.start[1] for m in p]
        out.append((key((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2, max(xs) - min(xs), max(ys) - min(ys)),
                    min(m.end[2] for m in p)))
    return out


def descending(r, seq, what):
    last = {}
    for g, z in seq:
        if g in last and z > last[g] + 1e-6:
            r.fail(f"{what} {g}: pass at z {z} after a pass at z {last[g]}")
        last[g] = z


HOLE = [(-6, -3), (5, 4), (6, -5), (-6, 4.5), (0, -1), (-.5, 6), (0, -6.5), (9.3, 0)]


def prof(r, case):
    F = []
    for k in range(case["faces"]):
        holes = [S.circle((40 * k + x, y), (2.5 + .2 * i) if case["holes"] < 4 else 1.4) if i != 1 else S.rect(40 * k + x, y, 5, 6)
                 for i, (x, y) in enumerate(HOLE[:case["holes"]])]
        o = S.rect(40 * k, 0, 22, 18)
        how = {"face": None, "wp": None, "solid": "bottom", "moved": "moved"}[case["way"]]
        F.append(S.face(o, holes, -2) if how is None else S.solid_face(o, holes, 2, how, B.plane("XY")))
    arg = cq.Workplane().newObject(F) if case["way"] == "wp" else F
    j = B.job(dia=1.5).profile(arg, outer_offset=case["oo"], inner_offset=case["io"], stepdown=case["sd"],
                               tabs=tabs(case["tabs"]))
    tr = B.body(j)
    r.trace(tr)

    def key(cx, cy, w, h):
        f = round(cx / 40)
        return (f, "outer") if w > 12 else (f, min(range(len(HOLE)), key=lambda i: abs(cx - 40 * f - HOLE[i][0]) + abs(cy - HOLE[i][1])))
    seq = grouped(tr, key)
    descending(r, seq, "contour")
    outer = [k for k, (g, _) in enumerate(seq) if g[1] == "outer"]
    inner = [k for k, (g, _) in enumerate(seq) if g[1] != "outer"]
    want = {(f, "outer") for f in range(case["faces"])} if case["oo"] is not None else set()
    if case["io"] is not None:
        want |= {(f, i) for f in range(case["faces"]) for i in range(case["holes"])}
    if {g for g, _ in seq} != want:
        r.fail(f"contours cut: {sorted(map(str, {g for g, _ in seq}))} instead of {sorted(map(str, want))}")
    if inner and outer and max(inner) > min(outer):
        r.fail("an outer contour is cut before the inner ones are finished")
    r.nontrivial = len(seq) > 1
    r.outcome = hash(tuple(seq))


def pocket(r, case):
    if case["nest"]:
        F = [S.face(S.rect(0, 0, (16, 30)[len(case["d"]) > 3] - 5 * k, (12, 26)[len(case["d"]) > 3] - 4 * k), (), -d) for k, d in enumerate(case["d"])]
    else:
        F = [S.face(S.rect(40 * k, 0, 8, 6), (), -d) for k, d in enumerate(case["d"])]
    j = B.job(dia=1.5).pocket(F, stepover=case["so"], stepdown=case["sd"])
    tr = B.body(j)
    r.trace(tr)
    seq = [((round(m.end[0] / 40)) if not case["nest"] else 0, m.end[2]) for m in tr.motions
           if m.kind != "G0" and m.start[:2] != m.end[:2]]
    descending(r, seq, "area")
    r.nontrivial = len({z for _, z in seq}) > 1
    r.outcome = hash(tuple(seq))


def wires(r, case):
    W = [S.wire(S.rect(40 * k, 0, 10, 8 + k), -case["d"]) for k in range(case["n"])]
    j = B.job(dia=1.5).wire_profile(W, stepdown=case["sd"], tabs=tabs(case["tabs"]))
    tr = B.body(j)
    r.trace(tr)
    seq = grouped(tr, lambda cx, cy, w, h: round(cx / 40))
    descending(r, seq, "contour")
    first = []
    for g, _ in seq:
        if g not in first:
            first.append(g)
    if sorted(first) != list(range(case["n"])):
        r.fail(f"wires cut: {first}")
    r.nontrivial = len(seq) > 1
    r.outcome = hash(tuple(seq))
