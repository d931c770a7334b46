"""C14 - the visualization shows the moves of the program."""
import itertools
import math
import sys
import types

import OCP.AIS as _AIS
import cadquery as cq
from OCP.gp import gp_Pnt, gp_Trsf
from OCP.Quantity import Quantity_Color, Quantity_NOC_RED

ID = "C14"
RULE = ("every case is a job displayed in one mode (list of edges, list of AIS objects, show() for ocp_vscode, cq-editor and an unknown "
        "viewer, handed over or found in the main module); every displayed line and arc is compared with the motion of the executed program, transformed into the world by "
        "the job plane; non-trivial when more than ten motions are displayed")
ASSUMPTIONS = ["where the tool comes from before an operation is not known, the line drawn for that approach is not compared",
               "moves shorter than 3 um may be left out", "the viewers are stand-ins that keep what they are given; colours are not compared"]
TOL = 4e-3

# AIS_Line doesn't give its ends back to Python, so they are kept beside; this has to happen before cq_cam is imported
class Line(_AIS.AIS_Line):
    kept = []

    def __init__(self, a, b):
        super().__init__(a, b)
        self.ends = [(p.X(), p.Y(), p.Z()) for p in (a.Pnt(), b.Pnt())]
        Line.kept.append(self)


_AIS.AIS_Line = Line

from cq_cam import Job  # noqa: E402
from cq_cam.operations.tabs import EdgeTabs, WireTabs  # noqa: E402
from cq_cam.tool import Tool  # noqa: E402
from mc import build as B  # noqa: E402
from mc import ops as P  # noqa: E402
from mc import shapes as S  # noqa: E402
from mc.engine import Result  # noqa: E402
from mc.machine import run  # noqa: E402

# a stand-in for the colour helper of cq-editor, which is not installed
if "cq_editor" not in sys.modules:
    _m, _u = types.ModuleType("cq_editor"), types.ModuleType("cq_editor.cq_utils")
    _u.to_occ_color = lambda *a: Quantity_Color(Quantity_NOC_RED)
    _m.cq_utils = _u
    sys.modules["cq_editor"], sys.modules["cq_editor.cq_utils"] = _m, _u

MODES = ("edges", "ais", "show:ocp_vscode.show", "show:cq_editor.main", "show:jupyter", "main:ocp_vscode", "main:cq_editor.main")
SMALL = ("ps", "pt", "w2", "w0", "kk", "d", "df")


def cases(tier):
    deep = tier == "thorough"
    for pl, o, m in itertools.product(B.PLANES, P.ALL, MODES):
        if o == "sp" and not deep and (pl not in ("XY", "skew") or m not in ("edges", "ais")):
            continue
        yield {"h": [o], "pl": pl, "m": m}
    for h in itertools.product(P.ALL if deep else SMALL, repeat=2):
        for m, pl in itertools.product(MODES if deep else MODES[:5], ("XY+t", "-X") if deep else ("-X",)):
            if "sp" not in h:
                yield {"h": list(h), "pl": pl, "m": m}
    for h in itertools.product(SMALL if deep else SMALL[::2], repeat=3):
        for m in MODES[1:4] if deep else MODES[1:3]:
            yield {"h": list(h), "pl": "+Y", "m": m}
    ALL = [o for o in P.ALL if o != "sp"]
    for k, n, m in itertools.product(range(len(ALL)), (5, 9) if not deep else (4, 5, 9, 16, 30), MODES[:3] if not deep else MODES):
        yield {"h": [ALL[(k + i * (1 + k % 3)) % len(ALL)] for i in range(n)], "pl": "skew", "m": m}
    for o, off, pl in itertools.product([*S.OUTLINES, *S.MORE], (-.5, 0, 1, 2.3), list(B.PLANES) if deep else ("XY", "-Z", "skew", "XYr30")):
        for rev, tab in itertools.product((0, 1), (0, 1, 2)):
            if o in S.MORE and not deep and (rev or off == 2.3 or pl not in ("-Z", "skew")):
                continue
            for m in MODES[:2] if deep else MODES[:1]:
                yield {"o": o, "off": off, "rev": rev, "tab": tab, "pl": pl, "m": m}
    # long moves, many moves, far from the origin
    for o, k, off in itertools.product(("rect", "circle", "slot", "D", "L"), (60, 500), (1, 0)):
        for pl, m in (("XY", "edges"), ("skew", "edges"), ("-X", "ais"), ("XYr30", "show:cq_editor.main")):
            yield {"o": o, "sc": [k, 0, 0], "off": off, "rev": 0, "tab": 1, "pl": pl, "m": m}
    for o, (x, y) in itertools.product(("rect", "circle", "slot"), ((1500, -700), (-12000, 4000))):
        for pl, m in (("XY", "edges"), ("skew", "ais"), ("-X", "show:ocp_vscode.show")):
            yield {"o": o, "sc": [1, x, y], "off": 1, "rev": 0, "tab": 2, "pl": pl, "m": m}
    for o, off in itertools.product(("ngon:60", "gear:270", "comb:260", "arcs:130") + (("gear:1200", "comb:2000") if deep else ()), (0, 1)):
        for pl, m in (("XY", "edges"), ("skew", "edges"), ("-X", "ais"), ("XYr30", "show:cq_editor.main")):
            yield {"o": o, "off": off, "rev": 0, "tab": 0, "pl": pl, "m": m}
    for k, n, m in itertools.product("wpd", (25, 60), ("edges", "ais")):
        yield {"k": k, "n": n, "sd": None, "tool": None, "pl": "XY", "m": m}
    # many contours, areas and holes, the tool changed for them, in one or more stepdowns
    for k, n, sd, tool, pl in itertools.product("wfpd", (2, 3, 5), (None, .8), (None, 7, "s"), list(B.PLANES) if deep else ("XY", "-X", "skew")):
        for m in MODES:
            if m in MODES[:2] or deep or (n == 3 and m in MODES[2:5]):
                yield {"k": k, "n": n, "sd": sd, "tool": tool, "pl": pl, "m": m}


def many(case):
    pl, n = B.plane(case["pl"]), case["n"]
    tool = None if case["tool"] is None else Tool(1.5, speed=2000) if case["tool"] == "s" else Tool(1.5, case["tool"])
    j = Job(pl, 120, tool_diameter=2, tool_number=3, speed=1000, name="Part 7")
    at = [(11 * (i % 3), 9 * (i // 3)) for i in range(n)]
    if case["k"] == "w":
        return j.wire_profile([S.wire(S.rect(x, y, 6, 5) if i % 2 else S.circle((x, y), 2.5), -2 - .5 * (i % 8), pl) for i, (x, y) in enumerate(at)],
                              stepdown=case["sd"], tool=tool)
    if case["k"] == "f":
        return j.profile([S.face(S.rect(20 * i, 0, 16, 12), [S.circle((20 * i - 4, 1), 1.6), S.rect(20 * i + 3, 0, 4, 3)], -2, pl)
                          for i in range(n)], stepdown=case["sd"], tool=tool, tabs=EdgeTabs(spacing=4, width=1, height=.5))
    if case["k"] == "p":
        return j.pocket([S.face(S.rect(x, y, 7, 6 - .5 * (i % 8)), [S.circle((x, y), .6)] if i % 2 else [], -1 - .4 * (i % 8), pl) for i, (x, y) in enumerate(at)],
                        stepdown=case["sd"], tool=tool)
    return j.drill([pl.toWorldCoords(cq.Vector(x + .3 * i, y, 0)) for i, (x, y) in enumerate(at)], depth=3, tool=tool)


def make(case):
    if "k" in case:
        return many(case)
    pl = case["pl"]
    j = Job(B.plane(pl), 120, tool_diameter=2, precision=P.precision(case.get("h", ())), name="Part 7")
    if "h" in case:
        for o in case["h"]:
            j = P.call(j, o, pl)
        return j
    lp = B.named(case["o"])
    if "sc" in case:
        k, x, y = case["sc"]
        lp = B.outline([case["o"], {"scale": k, "dx": x, "dy": y}])
    if case["rev"]:
        lp = S.reverse(lp)
    tabs = (None, WireTabs(count=3, width=1.1, height=.7), EdgeTabs(spacing=3.3, width=.9, height=.7))[case["tab"]]
    return j.wire_profile(S.wire(lp, -2, B.plane(pl)), offset=case["off"], stepdown=1.5, tabs=tabs)


# ---------------------------------------------------------------- what is displayed
def curve(shape, trsf=None):
    """start, middle and end of a displayed edge in the world"""
    if not isinstance(shape, cq.Edge):
        shape = cq.Shape.cast(shape)
    if shape.ShapeType() == "Wire":
        return [c for e in shape.Edges() for c in curve(e, trsf)]
    pts = [shape.startPoint(), shape.positionAt(.5), shape.endPoint()]
    out = [place(p.toPnt(), trsf) for p in pts]
    return [(out[0], out[1], out[2], shape.geomType())]


def place(pnt, trsf):
    if trsf is not None:
        pnt = pnt.Transformed(trsf)
    return (pnt.X(), pnt.Y(), pnt.Z())


def leaves(obj, trsf=None):
    """curves of a tree of AIS objects, with all transformations on the way applied"""
    t = gp_Trsf() if trsf is None else trsf
    t = t.Multiplied(obj.LocalTransformation())
    kids = list(obj.Children())
    if kids:
        return [c for k in kids for c in leaves(k, t)]
    if isinstance(obj, _AIS.AIS_MultipleConnectedInteractive):
        return []
    if hasattr(obj, "ConnectedTo"):
        return leaves(obj.ConnectedTo(), t)
    if hasattr(obj, "Shape"):
        return curve(obj.Shape(), t)
    p, q = (place(gp_Pnt(*e), t) for e in obj.ends)
    return [(p, tuple((x + y) / 2 for x, y in zip(p, q)), q, "LINE")]


def without_axes(cs, plane):
    """the coordinate cross of the job plane, one line of the same length along each axis"""
    o = plane.origin.toTuple()
    out, axes = list(cs[:-3]), []
    for c in cs[-3:]:
        d = [y - x for x, y in zip(c[0], c[2])]
        n = math.sqrt(sum(x * x for x in d)) or 1
        axes += [k for k, a in enumerate((plane.xDir, plane.yDir, plane.zDir))
                 if math.dist(c[0], o) < 1e-9 and sum((x / n - y) ** 2 for x, y in zip(d, a.toTuple())) < 1e-12]
    return out if sorted(axes) == [0, 1, 2] else list(cs)


def displayed(j, mode):
    """-> list of (title or None, curves) or a single list for all operations"""
    if mode == "edges":
        return None, [c for e in j.to_shapes(as_edges=True) for c in curve(e)]
    if mode == "ais":
        return [None] * len(j.operations), [without_axes(leaves(o), j.top) for o in j.to_shapes()]
    got = []

    def show_object(obj, name=None, **kw):
        got.append((name, obj))

    show_object.__module__ = mode.split(":")[1]
    if mode.startswith("main"):      # found in the main module, as the viewers put it there
        import __main__
        __main__.show_object = show_object
        try:
            j.show()
        finally:
            del __main__.show_object
    else:
        j.show(show_object)
    res = []
    for name, obj in got:
        if isinstance(obj, (list, tuple)):
            res.append([c for e in obj for c in curve(e)])
        else:
            res.append(without_axes(leaves(obj), j.top))
    return [n for n, _ in got], res


# ------------------------------------------------------------------- what is moved
def expected(op, plane):
    """(first known position, curves) of one operation's text in the world"""
    out, first = [], None
    for m in run(op.to_gcode(), strict=False).motions:
        if any(v is None for v in m.start):
            if all(v is not None for v in m.end):
                first = m.end
            continue
        a, b = m.start, m.end
        if m.centre:
            c = m.centre
            r = math.dist(a[:2], c)
            t0 = math.atan2(a[1] - c[1], a[0] - c[0])
            sw = math.atan2(b[1] - c[1], b[0] - c[0]) - t0
            sw = sw % (2 * math.pi) if m.kind == "G3" else -((-sw) % (2 * math.pi))
            if abs(sw) < 1e-9:
                sw = 2 * math.pi if m.kind == "G3" else -2 * math.pi
            mid = (c[0] + r * math.cos(t0 + sw / 2), c[1] + r * math.sin(t0 + sw / 2), (a[2] + b[2]) / 2)
            length = abs(sw) * r
        else:
            mid = tuple((x + y) / 2 for x, y in zip(a, b))
            length = math.dist(a, b)
        w = [plane.toWorldCoords(cq.Vector(*p)).toTuple() for p in (a, mid, b)]
        out.append((w[0], w[1], w[2], "CIRCLE" if m.centre else "LINE", length, m.text))
    return (plane.toWorldCoords(cq.Vector(*first)).toTuple() if first else None), out


def match(first, exp, got, r, what):
    """consumes the curves of one operation from got, returns how many"""
    i = k = 0
    # the approach
    if got and first and math.dist(got[0][2], first) < TOL and (not exp or math.dist(got[0][0], exp[0][0]) > TOL
                                                                or math.dist(got[0][2], exp[0][2]) > TOL):
        k = 1
    while i < len(exp):
        e = exp[i]
        if k < len(got):
            g = got[k]
            tol = TOL if e[3] == "LINE" else TOL + 2e-3
            if all(math.dist(x, y) < tol for x, y in zip(e[:3], g[:3])):
                i, k = i + 1, k + 1
                continue
            if math.dist(g[0], g[2]) < 3e-3 and math.dist(g[0], g[1]) < 3e-3:
                k += 1
                continue
        if e[4] < 3e-3:
            i += 1
            continue
        shown = "nothing" if k >= len(got) else "a %s from %s over %s to %s" % (
            (got[k][3],) + tuple("(%.3f %.3f %.3f)" % p for p in got[k][:3]))
        r.fail(f"{what}: {e[5]} is to be seen from (%.3f %.3f %.3f) over (%.3f %.3f %.3f) to (%.3f %.3f %.3f), but {shown} is"
               % (e[0] + e[1] + e[2]))
        return len(got)
    while k < len(got) and math.dist(got[k][0], got[k][2]) < 3e-3 and math.dist(got[k][0], got[k][1]) < 3e-3:
        k += 1
    return k


def evaluate(case):
    r = Result()
    Line.kept.clear()
    j = make(case)
    text = j.to_gcode()
    exp = [expected(o, j.top) for o in j.operations]
    for o in j.operations:
        r.trace(run(o.to_gcode(), strict=False))
    titles, got = displayed(j, case["m"])
    if titles is None:
        rest = got
        for n, (first, e) in enumerate(exp):
            rest = rest[match(first, e, rest, r, f"operation {n}"):]
        if rest and not r.violations:
            r.fail(f"{len(rest)} more edges are displayed than moves are made")
    else:
        if len(got) != len(exp):
            r.fail(f"{len(got)} objects are displayed for {len(exp)} operations")
        for n, ((first, e), g) in enumerate(zip(exp, got)):
            k = match(first, e, g, r, f"operation {n}")
            if k < len(g) and not r.violations:
                r.fail(f"operation {n}: {len(g) - k} more edges are displayed than moves are made")
            t = titles[n]
            if t is not None and not (j.operations[n].name in t and "Part 7" in t):
                r.fail(f"operation {n} ({j.operations[n].name}) is displayed as {t!r}")
    if j.to_gcode() != text:
        r.fail("displaying the job changed its program")
    n = sum(len(e[1]) for e in exp)
    r.nontrivial = n > 10
    r.outcome = hash((n, tuple(e[3] for x in exp for e in x[1][:50])))
    return r
