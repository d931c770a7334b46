"""C07 - tabs: the requested bridges stay, everything else is cut."""
import itertools
import math

import numpy as np

from cq_cam.operations.tabs import EdgeTabs, WireTabs

from checks import c20
from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result

ID = "C07"
RULE = ("every case is one profile with tabs: outline x direction x tab kind/count/spacing/width/height x offset x "
        "stepdown x job plane; the lowest height cut at every position along the contour is compared with the tab "
        "layout computed from the contour; non-trivial when the program leaves at least one tab")
ASSUMPTIONS = [
    "tab widths and spacings are measured along the tool path, edges are the edges of the offset contour "
    "(taken from the program without tabs, which C05 decides)",
    "tabs of one contour that do not fill it completely",
]
D = 4


def TABS(spec):
    k, p = spec
    return WireTabs(**p) if k == "W" else EdgeTabs(**p)


def specs(deep):
    for c in (1, 2, 3, 4, 5, 8) if not deep else range(1, 13):
        yield ["W", {"count": c, "width": 1.5, "height": 1.5}]
    yield ["W", {"count": 3, "width": 4, "height": .8}]
    yield ["W", {"count": 2, "width": .4, "height": 3.2}]
    yield ["W", {"count": 4, "width": 1, "height": 5}]
    for s in (2.1, 3, 4.5, 7, 9) if not deep else (1.6, 2.1, 2.5, 3, 4, 4.5, 5.5, 7, 8, 9, 11, 14):
        yield ["E", {"spacing": s, "width": 1.5, "height": 1.5}]
    yield ["E", {"spacing": 2, "width": 1.9, "height": 1}]
    yield ["E", {"spacing": 5, "width": 4, "height": 2}]
    yield ["E", {"spacing": 4, "width": 1, "height": 1.5, "only": "LINE"}]
    yield ["E", {"spacing": 3, "width": 1, "height": 1.5, "only": "CIRCLE"}]


ROUND = ("ell", "ell-thin", "periodic", "bean", "teardrop")     # of a single edge
NAMES = ["rect", "circle", "circle-off", "L", "slot", "D", "hex", "round", "U", "2arc", "split", "bite"]


def cases(tier):
    deep = tier == "thorough"
    for n, rev, sp, off in itertools.product(NAMES, (0, 1), list(specs(deep)), (1, 0, -1)):
        yield {"o": [n, {"rev": rev}], "tabs": sp, "off": off, "dia": 1, "s": None, "plane": "XY"}
    for n, sp, s in itertools.product(NAMES, list(specs(deep)), (.6, 1, 1.25, 2.5, 3.9)):
        yield {"o": [n, {}], "tabs": sp, "off": 1, "dia": 1, "s": s, "plane": "XY"}
    for n, sp, pl, rev in itertools.product(NAMES, list(specs(False))[::1 if deep else 3], list(B.PLANES)[1:], (0, 1)):
        yield {"o": [n, {"rev": rev}], "tabs": sp, "off": 1, "dia": 1, "s": 1.3 if rev else None, "plane": pl}
    for n, sp, st in itertools.product(("rect", "slot", "round", "hex"), list(specs(deep)), (1, 2, 3)):
        yield {"o": [n, {"start": st}], "tabs": sp, "off": 1, "dia": 2, "s": None, "plane": "XY"}
    # one tabs object shared by several contours and by several operations
    for sp, s, how in itertools.product(list(specs(deep)), (None, 1.5), ("face", "wires", "twice")):
        yield {"multi": how, "tabs": sp, "off": 1, "dia": 1, "s": s, "plane": "XY"}
    # faces with holes: which contours get the tabs, at which offset, from which side and in which plane
    for (oo, io), sp, rest in itertools.product(((1, -1), (1, None), (None, -1), (0, -1), (1, 0), (-.6, .7)), list(specs(deep))[::1 if deep else 2],
                                                (("XY", None, "face"), ("XY", 1.5, "face"), ("-Z", 1.5, "face"), ("skew", None, "two"),
                                                 ("XY", 2.5, "solid"), ("XY+t", None, "solid"))):
        yield {"multi": rest[2], "tabs": sp, "oo": oo, "io": io, "dia": 1, "s": rest[1], "plane": rest[0]}
    # many edges, long arcs; wide and many tabs on a long contour
    for n, rev, off in itertools.product(S.MORE, (0, 1), (1, 0, -.4)):
        for sp in list(specs(deep)) if deep else list(specs(False))[off == 0::2]:
            yield {"o": [n, {"rev": rev}], "tabs": sp, "off": off, "dia": 1, "s": 1.1 if rev else None, "plane": "XY"}
    for n, c, s in itertools.product(("long", "rect", "C", "circle"), (6, 10, 15, 20, 30), (None, 1.7)):
        for st in (0, 1):
            yield {"o": [n, {"scale": 3, "start": st}], "tabs": ["W", {"count": c, "width": 1.2, "height": .9}], "off": 1, "dia": 3, "s": s, "plane": "XY"}
            yield {"o": [n, {"scale": 3, "start": st}], "tabs": ["E", {"spacing": 60 / c, "width": 1.2, "height": .9}], "off": 1, "dia": 3, "s": s,
                   "plane": "-X"}
    # sizes as they are measured rather than chosen: decimals of widths, heights, spacings, depths and stepdowns
    for n, (w, h), d, sd, kind in itertools.product(("rect", "slot", "circle", "hex"), ((1.04, .333), (2.567, 1.449), (.875, .0625), (1.111, 2.02), (3.3, .95)),
                                                    (4, 3.175, 6.35) if deep else (4, 3.175), (None, 1.27, .333), "WE"):
        if sd == .333 and not deep and n != "rect":
            continue
        t = {"count": 3} if kind == "W" else {"spacing": 2 * w + .321}
        yield {"o": [n, {"rot": 12}], "tabs": [kind, {**t, "width": w, "height": h}], "off": 1, "dia": 1.5, "s": sd, "plane": "XY", "d": d}
    # many tabs, many edges with tabs
    for n, c in itertools.product(("ngon:60", "gear:90", "arcs:60", "ngon:210", "comb:200") if not deep else
                                  ("ngon:60", "gear:90", "arcs:60", "ngon:210", "comb:200", "gear:400", "arcs:130"), (40, 100)):
        yield {"o": [n, {}], "tabs": ["W", {"count": c, "width": .5, "height": .9}], "off": 1, "dia": 1, "s": None, "plane": "XY"}
        yield {"o": [n, {}], "tabs": ["E", {"spacing": 1.1 if c == 40 else 1.7, "width": .4, "height": .9}], "off": 1, "dia": 1, "s": 2, "plane": "XY"}
    for c in (50, 120, 300):
        yield {"o": ["circle", {"scale": 25}], "tabs": ["W", {"count": c, "width": 1.5, "height": .9}], "off": 1, "dia": 3, "s": None, "plane": "XY"}
        yield {"o": ["rect", {"scale": 25}], "tabs": ["E", {"spacing": 900 / c, "width": 1.5, "height": .9}], "off": -1, "dia": 3, "s": None, "plane": "XY"}
    # far from the origin
    for n, (x, y), kind in itertools.product(("rect", "circle", "slot", "round"), ((1500, -700), (-12000, 4000)), "WE"):
        t = {"count": 4} if kind == "W" else {"spacing": 3.1}
        yield {"o": [n, {"dx": x, "dy": y}], "tabs": [kind, {**t, "width": 1.2, "height": .9}], "off": 1, "dia": 1, "s": 1.5, "plane": "XY"}
    # float noise on the corners
    for n, gap, p in itertools.product(NAMES + list(S.MORE), (1e-9, 1e-8, 1e-7, 1e-6, 1e-5), (2, 7, 1000, 1001) if not deep else
                                       (0, 1, 2, 3, 5, 7, 9, 10, 12, 1000, 1001, 1002, 1003)):
        for sp, off in ((["W", {"count": 3, "width": 1.1, "height": .7}], 1), (["E", {"spacing": 2.3, "width": .9, "height": .7}], -.7))[::1 if deep or p > 2 else 2]:
            yield {"o": [n, {"noise": [gap, p]}], "tabs": sp, "off": off, "dia": 1, "s": None, "plane": "XY"}
    # free-form outlines, which are interpolated
    for n, off, s in itertools.product(c20.NAMES, (1, 0, -1), (None, 1.5)):
        if not deep and s and off < 1:
            continue
        for sp in (["W", {"count": c, "width": w, "height": .8}] for c, w in ((1, 2), (3, 1.5), (4, .6), (6, 1)) if deep or not (s and c % 2)):
            yield {"free": n, "off": off, "tabs": sp, "s": s, "dia": 1.6, "plane": "XY" if s else "skew"}
    for n, sp, s in itertools.product(ROUND, (3, 5.2, 9, 17), (None, 1.5)):
        if deep or not (s and sp > 9):
            yield {"free": n, "off": 0, "tabs": ["E", {"spacing": sp, "width": 1.4, "height": .7}], "s": s, "dia": 1.6, "plane": "-Z" if s else "XY"}
    for sc in (.05, 8):
        for n in ("rect", "circle", "slot"):
            for sp in list(specs(False))[::2]:
                q = [sp[0], {k: (v * sc if k in ("width", "spacing") else v) for k, v in sp[1].items()}]
                yield {"o": [n, {"scale": sc}], "tabs": q, "off": 1, "dia": sc, "s": None, "plane": "XY"}


def walk(p):
    """[(t0, t1, motion)] of the lateral motions of a pass by length in XY"""
    t, out = 0.0, []
    for m in p:
        if O.lateral(m):
            l = m.length() if m.kind != "G1" else math.dist(m.start[:2], m.end[:2])
            out.append((t, t + l, m))
            t += l
    return out, t


def at(w, t):
    for t0, t1, m in w:
        if t <= t1 or m is w[-1][2]:
            f = 0 if t1 == t0 else min(max((t - t0) / (t1 - t0), 0), 1)
            if m.kind == "G1":
                return tuple(a + (b - a) * f for a, b in zip(m.start, m.end))
            cx, cy = m.centre
            a0 = math.atan2(m.start[1] - cy, m.start[0] - cx)
            rr = math.hypot(m.start[0] - cx, m.start[1] - cy)
            a = a0 + m.sweep() * f
            return (cx + rr * math.cos(a), cy + rr * math.sin(a), m.start[2] + (m.end[2] - m.start[2]) * f)


def edges_of(p):
    """lengths and kinds of the edges of an untabbed pass"""
    out = []
    arcs = [m for m in p if m.kind in ("G2", "G3")]
    if len(p) == 2 and len(arcs) == 2 and abs(abs(arcs[0].sweep()) - math.pi) < .01 and full_circle:
        return [(sum(m.length() for m in p), "CIRCLE")]
    for m in p:
        out.append((m.length(), "LINE" if m.kind == "G1" else "CIRCLE"))
    return out


full_circle = False


def layout(spec, edges, P):
    """expected tab intervals on [0, P]; None when only the cyclic layout is fixed"""
    k, p = spec
    w = p["width"]
    if k == "W":
        return [(P * i / p["count"] - w / 2, P * i / p["count"] + w / 2) for i in range(p["count"])]
    out, t = [], 0.0
    for l, kind in edges:
        n = int((l + 1e-9) // p["spacing"])
        if (not p.get("only") or p["only"] == kind) and n > 0:
            out += [(t + l * (i + 1) / (n + 1) - w / 2, t + l * (i + 1) / (n + 1) + w / 2) for i in range(n)]
        t += l
    return out


def borderline(spec, edges):
    return spec[0] == "E" and any(abs(l / spec[1]["spacing"] - round(l / spec[1]["spacing"])) < 2e-3
                                  for l, _ in edges)


def check_contour(r, spec, plain, tabbed, d, circle):
    """plain, tabbed: passes over one contour, top to bottom"""
    global full_circle
    full_circle = circle
    w0, P = walk(plain[-1])
    if P == 0:
        return False
    edges = edges_of(plain[-1])
    if borderline(spec, edges) or spec[1].get("count", 0) * spec[1]["width"] >= P * .95:
        return False
    tab_z = -d + spec[1]["height"]
    tabs = layout(spec, edges, P)
    N = 240
    margin = max(.012, .004 * spec[1]["width"])
    ts = list((np.arange(N) + .37) / N * P)
    for a, b in tabs:
        ts += [a + margin, b - margin, a - margin, b + margin]
    lines = []
    for p in tabbed:
        w, L = walk(p)
        if abs(L - P) > .02:
            r.fail(f"pass with tabs is {L:.3f} long, the contour {P:.3f}")
            return True
        # where the cut of the contour starts is not specified
        shift = 0.0
        if w and math.dist(at(w, 0)[:2], at(w0, 0)[:2]) > .02:
            shift = min((t0 for t0, _, _ in w), key=lambda t: math.dist(at(w, t)[:2], at(w0, 0)[:2]))
            near = np.linspace(shift - .02 * P, shift + .02 * P, 801) if math.dist(at(w, shift)[:2], at(w0, 0)[:2]) > .01 else [shift]
            shift = min(near, key=lambda t: math.dist(at(w, t % L)[:2], at(w0, 0)[:2]))
        lines.append((w, L, shift))
    levels = [p[0].start[2] for p in plain]
    left = 0
    for t in ts:
        t = t % P
        inside = any(a <= t + k * P <= b for a, b in tabs for k in (-1, 0, 1))
        edge = min((min(abs(t + k * P - a), abs(t + k * P - b)) for a, b in tabs for k in (-1, 0, 1)), default=9)
        ref = at(w0, t)
        got = []
        for w, L, shift in lines:
            q = at(w, (t + shift) % L if shift else t)
            if math.dist(q[:2], ref[:2]) > .02:
                r.fail(f"the pass with tabs leaves the contour at ({q[0]:.3f}, {q[1]:.3f})")
                return True
            got.append(q[2])
        if edge < margin * .9:
            continue
        # each pass keeps its level, over the tabs it is never below their top
        for q, z, level in zip(plain, got, levels):
            want = max(level, tab_z) if inside else level
            if abs(z - want) > 1e-3:
                r.fail(f"pass at z {level} goes through ({ref[0]:.3f}, {ref[1]:.3f}) at z {z} instead of {want:.3f}")
                return True
        low = min(got)
        if inside:
            left += 1
            if low < tab_z - 1e-3:
                r.fail(f"tab at ({ref[0]:.3f}, {ref[1]:.3f}) is cut down to z {low} (top of the tabs: {tab_z:.3f})")
                return True
            if low > max(tab_z, -d) + 1e-3:
                r.fail(f"tab at ({ref[0]:.3f}, {ref[1]:.3f}) is as high as z {low} (top of the tabs: {tab_z:.3f})")
                return True
        elif abs(low + d) > 1e-3:
            r.fail(f"({ref[0]:.3f}, {ref[1]:.3f}) is only cut to z {low}, there is no tab")
            return True
    return left > 0


def free(case, r):
    """the outline has no exact parallel curve: the tabs have to be as many, as wide, as high and as evenly spread as requested"""
    pl, spec = B.plane(case["plane"]), case["tabs"]
    w = c20.cq.Wire.assembleEdges(c20.outlines()[case["free"]]).translate(c20.V(0, 0, -D)).transformShape(pl.rG)
    j = B.job(case["plane"], dia=case["dia"], precision=2)
    t = B.body(j.wire_profile(w, offset=case["off"], stepdown=case["s"], tabs=TABS(spec)))
    r.trace(t)
    width, tab_z = spec[1]["width"], -D + spec[1]["height"]
    ps = O.passes(t.motions)
    levels = [-D + case["s"] * k for k in range(int(D / case["s"]) + 1)][::-1] if case["s"] else [-D]
    if len(ps) != len(levels):
        r.fail(f"{len(ps)} passes instead of {len(levels)}")
    for p, z in zip(ps, levels):
        ms, P = walk(p)
        tol = .03 + .006 * P      # lengths of curves are not exact
        runs = []
        for t0, t1, m in ms:
            h = [min((z, tab_z), key=lambda v: abs(v - e)) for e in (m.start[2], m.end[2])]
            if h[0] != h[1] or max(abs(h[0] - m.start[2]), abs(h[1] - m.end[2])) > 1e-3:
                r.fail(f"cut at z {m.start[2]} .. {m.end[2]} in a pass at {z} with tabs up to {tab_z}")
                return
            up = h[0] > z + 1e-3
            if runs and runs[-1][2] == up:
                runs[-1][1] = t1
            else:
                runs.append([t0, t1, up])
        tabs = [q for q in runs if q[2]]
        if len(tabs) > 1 and tabs[0][0] == 0 and abs(tabs[-1][1] - P) < 1e-6:
            tabs[-1][1] += tabs.pop(0)[1]
        if z >= tab_z - 1e-3:
            n = 0
        elif spec[0] == "W":
            n = spec[1]["count"]
        else:
            n = P / spec[1]["spacing"]
            if abs(n - round(n)) < .05:
                continue
            n = int(n)
        if len(tabs) != n:
            r.fail(f"{len(tabs)} tabs instead of {n} at z {z}")
            return
        for a, b, _ in tabs:
            if abs(b - a - width) > .03 + .04 * width:
                r.fail(f"tab of {b - a:.3f} instead of {width} at z {z}")
        mids = sorted((a + b) / 2 % P for a, b, _ in tabs)
        gaps = sorted((y - x) % P or P for x, y in zip(mids, mids[1:] + mids[:1]))
        want = [P / n] * n if spec[0] == "W" and n else sorted([P / (n + 1)] * (n - 1) + [2 * P / (n + 1) if n > 1 else P])
        if n and max(abs(x - y) for x, y in zip(gaps, want)) > tol:
            r.fail(f"distances {[round(g, 3) for g in gaps]} of the tabs instead of {[round(g, 3) for g in want]} at z {z}")
        r.nontrivial |= n > 0
    r.outcome = hash((len(ps), len(t.motions)))


def group(ps, tps):
    out = []
    for p, q in zip(ps, tps):
        l = O.line(p)
        key = (l.length, l.centroid.x, l.centroid.y)
        for c in out:
            if all(abs(a - b) < .02 for a, b in zip(c[0], key)):
                c[1].append(p)
                c[2].append(q)
                break
        else:
            out.append((key, [p], [q]))
    return out


def evaluate(case):
    r = Result()
    pl = B.plane(case["plane"])
    spec = case["tabs"]
    t = TABS(spec)
    j = B.job(case["plane"], dia=case["dia"])
    kw = dict(stepdown=case["s"])
    circle = False
    if "free" in case:
        r.nontrivial = False
        free(case, r)
        return r
    if "multi" in case:
        outer, h1, h2 = S.rect(0, 0, 40, 24), S.circle((-8, 0), 5), S.rect(8, 0, 9, 11)
        if case["multi"] in ("face", "two", "solid"):
            if case["multi"] == "solid":
                f = S.solid_face(outer, [h1, h2], D, "bottom", pl)
            else:
                f = S.face(outer, [h1, h2], -D, pl)
            if case["multi"] == "two":
                f = [f, S.face(S.OUTLINES["hex"], [S.rect(0, 0, 3, 4)], -D, pl).translate(pl.xDir * 50)]
            if "oo" in case:
                kw |= {"outer_offset": case["oo"], "inner_offset": case["io"]}
            jobs = [(j.profile(f, **kw), j.profile(f, tabs=t, **kw))]
        elif case["multi"] == "wires":
            ws = [S.wire(x, -D, pl) for x in (outer, h1, h2)]
            jobs = [(j.wire_profile(ws, **kw), j.wire_profile(ws, tabs=t, **kw))]
        else:
            ws = [S.wire(x, -D, pl) for x in (h1, outer)]
            a, b = j, j
            jobs = []
            for w in ws:
                a, b = a.wire_profile(w, **kw), b.wire_profile(w, tabs=t, **kw)
                jobs.append((a, b))
    else:
        w = S.wire(B.outline(case["o"]), -case.get("d", D), pl)
        circle = case["o"][0].startswith("circle")
        jobs = [(j.wire_profile(w, offset=case["off"], **kw), j.wire_profile(w, offset=case["off"], tabs=t, **kw))]
    n = 0
    r.nontrivial = False
    for a, b in jobs:
        ta, tb = B.body(a), B.body(b)
        r.trace(ta)
        r.trace(tb)
        pa, pb = O.passes(ta.motions), O.passes(tb.motions)
        if len(pa) != len(pb):
            r.fail(f"{len(pb)} passes with tabs, {len(pa)} without")
            continue
        for key, ps, tps in group(pa, pb):
            c = circle or ("multi" in case and abs(key[1] + 8) < .1)
            r.nontrivial |= bool(check_contour(r, spec, ps, tps, case.get("d", D), c))
            n += len(ps)
    r.outcome = hash((n, len(tb.motions), tuple(round(m.end[2], 2) for m in tb.motions)))
    return r
