"""C05 - profiles follow the requested contour exactly, completely and once."""
import itertools

import shapely

from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result

ID = "C05"
RULE = ("every case is one profile/wire_profile call: outline x direction x first edge x tool diameter x "
        "offset x job plane x way of handing the shape over; non-trivial when the program has lateral cuts")
ASSUMPTIONS = [
    "outlines made of lines and circular arcs (free-form curves: C20); offsets that do not touch a collapse of "
    "the contour exactly (gap == tool diameter)",
    "tolerance 2.5e-3 program units (coordinates and arc centres are rounded to 1e-3)",
]
TOL = 2.5e-3
NAMES = list(S.OUTLINES)
COMBOS = [(1, 1), (1, -1), (2.6, -1), (3, 1), (1.7, 0), (2, 2), (2.2, -0.5), (4.2, -1), (7, 1), (6.4, -1), (13, -1), (21, -1)]
HOLES = {
    "none": [],
    "one": [("circle", {"scale": .35})],
    "two": [("circle", {"scale": .3, "dx": -4}), ("rect", {"scale": .3, "dx": 3.5, "rot": 20})],
    "three": [("slot", {"scale": .3, "dx": -5, "rot": 90}), ("tri", {"scale": .3, "dx": 0}),
              ("D", {"scale": .35, "dx": 6})],
}
SMALL = (("circle", .2), ("rect", .22), ("tri", .25), ("slot", .2), ("D", .3), ("hex", .22), ("2arc", .3), ("lens", .27))
for _n in (6, 12):
    HOLES[f"{_n}"] = [(SMALL[k % 8][0], {"scale": SMALL[k % 8][1], "dx": -9 + 6 * (k % 4), "dy": -5 + 5 * (k // 4), "rot": 10 * k, "rev": k % 2})
                      for k in range(_n)]
NUMBERED = ("ngon:60", "ngon:160", "ngon:330", "gear:90", "gear:270", "gear:600", "comb:120", "comb:260", "arcs:60", "arcs:130", "arcs:250")
WAYS = ("face", "list", "workplane", "bottom", "floor", "cut", "mirror", "moved", "flip", "wires", "two")
BIG = ("rect", {"scale": 2})


def expected(loops):
    """[(loop, signed offset)] with a collapsed contour dropped"""
    return loops


def compare(r, motions, want, z, tol=TOL):
    """motions: feed motions of the final depth; want: [(loop, d)]"""
    want_pts = [(lp, d, O.parallel(lp, d)) for lp, d in want]
    ms = [m for m in motions if m.kind in O.CUTS and O.lateral(m)]
    P = O.cut_points(ms)
    if len(P):
        import numpy as np
        off = np.full(len(P), np.inf)
        for lp, d in want:
            off = np.minimum(off, abs(O.signed(lp, P[:, :2]) - d) if d else O.dist([lp], P[:, :2]))
        k = off.argmax()
        if off[k] > tol:
            r.fail(f"cut at ({P[k][0]:.3f}, {P[k][1]:.3f}) is {off[k]:.4f} away from the requested contour")
        if abs(P[:, 2] - z).max() > 6e-4:
            r.fail(f"contour cut at z {P[:, 2].min():.3f}..{P[:, 2].max():.3f} instead of {z}")
    for lp, d, Q in want_pts:
        if not len(Q):
            continue
        if not len(P):
            r.fail("contour not cut at all")
            continue
        c = O.path_distance(ms, Q)
        k = c.argmax()
        if c[k] > tol:
            r.fail(f"contour point ({Q[k][0]:.3f}, {Q[k][1]:.3f}) is not cut ({c[k]:.4f} away)")
    for p in O.passes(motions):
        # the two ends may round to neighbouring thousandths
        if max(abs(a - b) for a, b in zip(p[0].start[:2], p[-1].end[:2])) > 1.1e-3:
            r.fail(f"contour not closed: {p[0].start} .. {p[-1].end}")
    if ms:
        total = sum(m.length() for m in ms)
        L = [O.line(p) for p in O.passes(motions)]
        once = shapely.unary_union(L).length
        if total > once * 1.01 + 0.01:
            r.fail(f"contour cut more than once: {total:.3f} of {once:.3f}")
    return bool(ms)


def cases(tier):
    deep = tier == "thorough"
    # A: every direction and first edge
    for n, rev in itertools.product(NAMES, (0, 1)):
        for st in range(len(S.OUTLINES[n])) if deep else range(min(3, len(S.OUTLINES[n]))):
            for dia, off in COMBOS:
                if degenerate(n, 1, dia * off / 2):
                    continue
                yield {"kind": "wire", "o": [n, {"rev": rev, "start": st}], "dia": dia, "off": off, "plane": "XY"}
    # B: planes
    for n, pl, rev in itertools.product(NAMES, list(B.PLANES)[1:], (0, 1)):
        for dia, off in (COMBOS if deep else [(1, 1), (2.6, -1), (1.7, 0)]):
            if not degenerate(n, 1, dia * off / 2):
                yield {"kind": "wire", "o": [n, {"rev": rev}], "dia": dia, "off": off, "plane": pl}
    # C: sizes (imperial and large parts) and rotations
    for n, k, rot in itertools.product(NAMES, (.04, .2, 5, 25), (0, 33, 90) if not deep else range(0, 180, 15)):
        for dia, off in [(1, 1), (2.6, -1)] + ([(2, 2), (2.2, -.5)] if deep else []):
            yield {"kind": "wire", "o": [n, {"scale": k, "rot": rot}], "dia": dia * k, "off": off, "plane": "XY"}
    # D: faces with holes, offsets of outer and inner contours, ways of handing shapes over
    OFFS = [(1, -1), (None, -1), (1, None), (0, 0), (-1, 1), (2, -2), (0.5, -1.5)]
    for h, (oo, io), how, pl in itertools.product(
            HOLES, OFFS, WAYS,
            ["XY", "skew"] if not deep else list(B.PLANES)):
        for dia in (1, 1.9) if not deep else (.5, 1, 1.5, 1.9):
            yield {"kind": "face", "holes": h, "oo": oo, "io": io, "how": how, "plane": pl, "dia": dia}
    for h, (oo, io), how, dia in itertools.product(("6", "12"), OFFS, WAYS, (.5, 1) if deep else (.5,)):
        yield {"kind": "face", "holes": h, "oo": oo, "io": io, "how": how, "plane": "XYr30", "dia": dia}
    # more outlines: many edges, long arcs, narrow parts
    for n, rev, (dia, off) in itertools.product(S.MORE, (0, 1), [(1, 1), (1, -1), (.3, -1), (1.7, 0), (2.6, -1), (2.2, -.5), (5, .7)]):
        for st in range(0, len(S.MORE[n]), 1 if deep else 5):
            for pl in ("XY", "skew") if not deep else ("XY", "skew", "-Z", "+Y", "XYr30"):
                yield {"kind": "wire", "o": [n, {"rev": rev, "start": st}], "dia": dia, "off": off, "plane": pl}
        for k in (.1, 12):
            yield {"kind": "wire", "o": [n, {"rev": rev, "scale": k, "rot": 57}], "dia": dia * k, "off": off, "plane": "XY-t"}
    # very many edges, contours and holes; large parts and parts far from the origin
    for o in NUMBERED + (("comb:800", "gear:1200", "ngon:2000") if deep else ()):
        for (dia, off), pl in itertools.product([(1, 1), (1, -1), (1.7, 0)], ("XY", "skew") if deep else ("XY",)):
            yield {"kind": "wire", "o": [o, {"rot": 7}], "dia": dia, "off": off, "plane": pl}
    for n, w, off, how in itertools.product((20, 45, 110) if not deep else (20, 30, 45, 70, 110, 150, 270), (0, 1), (1, 0, -1), ("wires", "faces", "holes")):
        yield {"kind": "grid", "n": n, "mixed": w, "off": off, "how": how, "plane": "-Z" if w else "XY", "dia": 1}
    for n, k, at in itertools.product(NAMES, (100, 400), ((0, 0), (-7, 11))):
        yield {"kind": "wire", "o": [n, {"scale": k, "rot": 20, "dx": at[0] * k, "dy": at[1] * k}], "dia": 30 if k > 100 else 8, "off": 1, "plane": "XY"}
    for n, (x, y), off in itertools.product(NAMES, ((1500, -700), (-12000, 4000), (300, 99999)) if not deep else
                                            ((1500, -700), (-12000, 4000), (300, 99999), (-65536, -40000), (9999.5, 0)), (1, -.8, 0)):
        if not degenerate(n, 1, off / 2):
            yield {"kind": "wire", "o": [n, {"dx": x, "dy": y}], "dia": 1, "off": off, "plane": "XY"}
    # float noise on the corners, as models read from a file have: on each single corner, and on all of them at once
    for n, gap in itertools.product(NAMES + list(S.MORE), (1e-9, 1e-8, 1e-7, 1e-6, 1e-5) if not deep else (
            1e-11, 1e-10, 1e-9, 3e-9, 1e-8, 3e-8, 1e-7, 3e-7, 1e-6, 3e-6, 1e-5, 3e-5)):
        corners = len({q for s in (S.OUTLINES.get(n) or S.MORE[n]) if s[0] != "C" for q in s[1:]})
        if not corners:
            continue
        ps = list(range(0, 4 * corners, 1 if deep else 1 + corners // 3)) + list(range(1000, 1012 if deep else 1003))
        for p, (dia, off) in itertools.product(ps, [(1, 1), (1, -1), (1, .37), (2.6, 1), (2.2, -1), (1.7, 0)] if deep else [(1, -1), (2.6, 1)]):
            if not degenerate(n, 1, dia * off / 2):
                yield {"kind": "wire", "o": [n, {"noise": [gap, p]}], "dia": dia, "off": off, "plane": "XY"}
    # E: small features that only just fit
    for n in ("circle", "rect", "hex", "tri", "slot"):
        for gap in (.3, .1, .03, .01) if not deep else (.5, .3, .2, .1, .07, .05, .03, .02, .01, .007, .005):
            for sc in (.05, .3, 1):
                yield {"kind": "fit", "o": [n, {"scale": sc}], "gap": gap, "plane": "XY"}


INR = {"circle": 6, "rect": 4, "hex": 7 * 3 ** .5 / 2, "slot": 4, "tri": None}


def degenerate(n, k, d):
    """offset that collapses a feature exactly: excluded"""
    crit = {"L": (-2.5,), "T": (-2.5,), "U": (-2.5, 3), "dumbbell": (-.6, 2, -4), "bite": (3,), "rect": (-4,),
            "rect-off": (-3,), "rect30": (-4,), "circle": (-6,), "circle-off": (-5,), "slot": (-4,), "2arc": (-5,),
            "lens": (-3,), "split": (-4,)}
    return any(abs(d - c * k) < 1e-3 for c in crit.get(n, ()))


def evaluate(case):
    r = Result()
    pl = B.plane(case["plane"])
    if case["kind"] == "wire":
        lp = B.outline(case["o"])
        z = -2
        j = B.job(case["plane"], dia=case["dia"]).wire_profile(S.wire(lp, z, pl), offset=case["off"])
        tr = B.body(j)
        r.trace(tr)
        noise = isinstance(case["o"], list) and case["o"][1].get("noise")
        if noise:
            lp = B.outline([case["o"][0], {k: v for k, v in case["o"][1].items() if k != "noise"}])
        r.nontrivial = compare(r, tr.motions, [(lp, case["off"] * case["dia"] / 2)], z, TOL + (2 * noise[0] if noise else 0))
    elif case["kind"] == "fit":
        lp = B.outline(case["o"])
        ss = O.segs(lp)
        # inradius: the largest inscribed circle, from the outline itself
        n, k = case["o"][0], case["o"][1]["scale"]
        inr = (INR[n] or inradius_tri(lp) / k) * k
        dia = 2 * inr - case["gap"]
        if dia <= 0.01:
            r.nontrivial = False
            return r
        j = B.job(case["plane"], dia=dia).wire_profile(S.wire(lp, -1, pl), offset=-1)
        tr = B.body(j)
        r.trace(tr)
        r.nontrivial = compare(r, tr.motions, [(lp, -dia / 2)], -1)
    elif case["kind"] == "grid":
        n, z, cols = case["n"], -1.5, max(4, int(case["n"] ** .5))
        lps = [S.shift(S.rot(B.named(("circle", "hex", "slot", "rect")[i % 4 if case["mixed"] else 0]), i), 22 * (i % cols), 22 * (i // cols))
               for i in range(n)]
        j = B.job(case["plane"], dia=case["dia"])
        kw = {"outer_offset": case["off"], "inner_offset": None}
        if case["how"] == "wires":
            j = j.wire_profile([S.wire(lp, z, pl) for lp in lps], offset=case["off"])
        elif case["how"] == "faces":
            j = j.profile([S.face(lp, [], z, pl) for lp in lps], **kw)
        else:
            j = j.profile(S.face(S.poly((-15, -15), (22 * cols, -15), (22 * cols, 22 * (n // cols) + 15), (-15, 22 * (n // cols) + 15)), lps, z, pl),
                          outer_offset=None, inner_offset=case["off"])
        tr = B.body(j)
        r.trace(tr)
        ms = [m for m in tr.motions if m.kind in O.CUTS and O.lateral(m)]
        own = {}
        for p in O.passes(tr.motions):
            x, y = p[0].start[:2]
            own.setdefault((round(x / 22), round(y / 22)), []).extend(p)
        for i, lp in enumerate(lps):
            compare(r, own.pop((i % cols, i // cols), []), [(lp, case["off"] * case["dia"] / 2)], z)
        if own:
            r.fail(f"cuts where nothing was asked for: {sorted(own)[:3]}")
        r.nontrivial = len(ms) >= n
    else:
        outer = B.outline(BIG)
        holes = [B.outline(h) for h in HOLES[case["holes"]]]
        oo, io, dia = case["oo"], case["io"], case["dia"]
        how = case["how"]
        z = -3
        if how in ("bottom", "floor", "cut", "mirror", "moved", "flip"):
            shape = S.solid_face(outer, holes, 3, how, pl)
        elif how == "wires":
            shape = [S.wire(outer, z, pl)] + [S.wire(h, z, pl) for h in holes]
        else:
            shape = S.face(outer, holes, z, pl)
        extra = []
        if how == "list":
            shape = [shape]
        elif how == "workplane":
            import cadquery as cq
            shape = cq.Workplane(pl).newObject([shape])
        elif how == "two":
            o2 = S.shift(outer, 40, 5)
            h2 = [S.shift(h, 40, 5) for h in holes]
            shape = [shape, S.face(o2, h2, z, pl)]
            extra = [(o2, h2)]
        j = B.job(case["plane"], dia=dia).profile(shape, outer_offset=oo, inner_offset=io)
        tr = B.body(j)
        r.trace(tr)
        want = []
        for o, hs in [(outer, holes)] + extra:
            if oo is not None:
                want.append((o, oo * dia / 2))
            for h in hs:
                if how == "wires":
                    if oo is not None:      # bare wires are outer contours
                        want.append((h, oo * dia / 2))
                elif io is not None:
                    want.append((h, io * dia / 2))
        if want:
            r.nontrivial = compare(r, tr.motions, want, z)
        elif any(O.lateral(m) for m in tr.motions if m.kind != "G0"):
            r.fail("cuts although nothing was requested")
    r.outcome = hash(tuple(round(m.length(), 2) for m in tr.motions if m.kind != "G0"))
    return r


def inradius_tri(lp):
    import math
    (a, b, c) = [s[1] for s in lp]
    la, lb, lc = math.dist(b, c), math.dist(a, c), math.dist(a, b)
    area = abs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])) / 2
    return 2 * area / (la + lb + lc)
