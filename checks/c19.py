"""C19 - impossible requests are refused and change nothing."""
import itertools
import math

import cadquery as cq

from cq_cam import Job
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool
from mc import build as B
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C19"
RULE = ("every case is one request, impossible or just possible (controls on the other side of every limit), made after a history of "
        "valid operations and followed by a valid one; impossible ones have to raise, possible ones must not, and the job has to be "
        "unchanged and usable; non-trivial when the request is impossible")
ASSUMPTIONS = ["faces count as parallel to the job plane within 1e-3 and as above it beyond 1e-3",
               "a bare vertex as pocket area counts as an empty collection of faces (shapes are iterable)"]
OBJECTS = ("solid", "edge", "vertex", "compound", "shell", "str", "none", "int", "plane", "tuple", "mixed", "location")
HIST = ("", "d", "p", "dp", "dt")


def cases(tier):
    deep = tier == "thorough"
    planes = list(B.PLANES) if deep else ["XY", "XY+t", "-Z", "+X", "skew"]
    for h, t in itertools.product(HIST, (0, 1)):
        for oo, io in itertools.product((None, 1, 0, -1), repeat=2):
            yield {"req": "offsets", "oo": oo, "io": io, "h": h, "tool": t}
        for op, dia in itertools.product(("profile", "wire", "pocket", "drill"), (None, 2)):
            yield {"req": "diameter", "op": op, "dia": dia, "h": h if dia else "", "tool": 0}
            yield {"req": "diameter", "op": op, "dia": dia, "h": "", "tool": 1}
            yield {"req": "diameter", "op": op, "dia": dia, "h": "", "tool": 2}
        for depth in (None, 0, 1, -1):
            yield {"req": "depth", "d": depth, "h": h, "tool": t}
        for op, o in itertools.product(("profile", "pocket", "drill"), OBJECTS):
            if (op, o) != ("pocket", "vertex"):
                yield {"req": "object", "op": op, "o": o, "h": h, "tool": t}
        for o in (0, 1):
            yield {"req": "show", "o": o, "h": h, "tool": 0}
        for o in ("list", "workplane"):
            yield {"req": "nothing", "o": o, "h": h, "tool": t}
    for pl, z in itertools.product(planes, (-2, -.01, 0, .002, .01, .5, 1, 20)):
        for what in ("op", "avoid", "second", "workplane"):
            for sd, t in itertools.product((None, .5), (0, 1)):
                yield {"req": "above", "z": z, "pl": pl, "what": what, "sd": sd, "h": "d" if z > 1 else "", "tool": t}
    for pl, a, ax in itertools.product(planes, (0, .02, .05, .5, 5, 30, 89, 90, 180), (0, 1, 2)):
        for what in ("op", "avoid", "second"):
            yield {"req": "tilt", "a": a, "ax": ax, "pl": pl, "what": what, "h": "", "tool": 0}
    for w, s in itertools.product([k * .25 for k in range(1, 13)], repeat=2):
        yield {"req": "tabs", "w": w, "s": s, "h": "", "tool": 0}
    for n, op in itertools.product(list(range(90, 99)) + list(range(103, 130, 3)) + [200, 1000, 100000], ("profile", "wire")):
        yield {"req": "steps", "n": n, "op": op, "h": "d", "tool": 0}


def thing(kind):
    sol = cq.Workplane().box(4, 4, 4)
    w = S.wire(S.rect(0, 0, 9, 7), -1)
    return {"solid": lambda: sol.val(), "edge": lambda: w.Edges()[0], "vertex": lambda: w.Vertices()[0],
            "compound": lambda: cq.Compound.makeCompound([sol.val()]), "shell": lambda: sol.val().Shells()[0],
            "str": lambda: "face", "none": lambda: None, "int": lambda: 3, "plane": lambda: cq.Plane.XY(),
            "tuple": lambda: (1.0, 2.0, 3.0), "mixed": lambda: [S.face(S.rect(0, 0, 9, 7), (), -1), sol.val()],
            "location": lambda: cq.Location(cq.Vector(1, 2, 3))}[kind]()


def request(case, j, tool):
    """-> (must it be refused, call)"""
    q = case["req"]
    pl = B.plane(case.get("pl", "XY"))
    F = lambda z=-1.0: S.face(S.rect(0, 0, 9, 7), [S.rect(0, 0, 3, 2)], z, pl)
    if q == "offsets":
        oo, io = case["oo"], case["io"]
        return oo is None and io is None, lambda: j.profile(F(), outer_offset=oo, inner_offset=io, tool=tool)
    if q == "diameter":
        op = case["op"]
        f = {"profile": lambda: j.profile(F(), tool=tool), "wire": lambda: j.wire_profile(F().outerWire(), tool=tool),
             "pocket": lambda: j.pocket(F(), tool=tool),
             "drill": lambda: j.drill([pl.toWorldCoords(cq.Vector(1, 1, 0))], depth=1, tool=tool)}[op]
        known = case["dia"] is not None or (tool is not None and tool.tool_diameter is not None)
        return not known and op != "drill", f
    if q == "depth":
        d = case["d"]
        kw = {} if d is None else {"depth": d}
        return d is None, lambda: j.drill([cq.Vector(1, 1, 0)], tool=tool, **kw)
    if q == "object":
        o = thing(case["o"])
        f = {"profile": lambda: j.profile(o, tool=tool), "pocket": lambda: j.pocket(o, tool=tool),
             "drill": lambda: j.drill(o, depth=1, tool=tool)}[case["op"]]
        return True, f
    if q == "show":      # nothing to show it with
        def show(shown=lambda *a, **k: None):
            shown.__module__ = "ocp_vscode"
            j.show(shown) if case["o"] else j.show()
            return j
        return not case["o"], show
    if q == "nothing":
        o = [] if case["o"] == "list" else cq.Workplane().newObject([])
        return True, lambda: j.drill(o, depth=1, tool=tool)
    if q in ("above", "tilt"):
        good = S.face(S.rect(0, 0, 20, 20), (), -1, pl)
        if q == "above":
            bad, refuse = F(case["z"]), case["z"] > 1e-3
        else:
            f = S.face(S.rect(0, 0, 9, 7), (), 0).moved(cq.Location(cq.Vector(0, 0, -8)))
            ax = [(1, 0, 0), (0, 1, 0), (1, 1, 0)][case["ax"]]
            f = f.rotate(cq.Vector(0, 0, -8), cq.Vector(*ax) + cq.Vector(0, 0, -8), case["a"])
            bb = f.BoundingBox()
            bad, refuse = f.transformShape(pl.rG), bb.zmax - bb.zmin > 2e-3
        w = case["what"]
        a, k = {"op": ((bad,), {}), "avoid": ((good, bad), {}), "second": (([good, bad],), {}),
                "workplane": ((cq.Workplane(pl).newObject([bad]),), {})}[w]
        return refuse, lambda: j.pocket(*a, stepdown=case.get("sd"), tool=tool, **k)
    if q == "tabs":
        return case["s"] <= case["w"], lambda: j.profile(F(-4.0), tabs=EdgeTabs(spacing=case["s"], width=case["w"], height=1))
    if q == "steps":
        s = 10 / case["n"]
        f = {"profile": lambda: j.profile(F(-10.0), stepdown=s), "wire": lambda: j.wire_profile(F(-10.0).outerWire(), stepdown=s)}
        return case["n"] > 102, f[case["op"]]
    raise KeyError(q)


def valid(j):
    return j.wire_profile(S.wire(S.rect(0, 0, 9, 7), -1, B.plane("XY"))).drill([cq.Vector(3, 1, 0)], depth=1)


def evaluate(case):
    r = Result()
    dia = case.get("dia", 2) if case["req"] == "diameter" else 2
    j = Job(B.plane(case.get("pl", "XY")), 100, speed=1000, tool_diameter=dia, tool_number=1)
    for k in case["h"]:
        if k == "d":
            j = j.drill([cq.Vector(1, 2, 0)], depth=2)
        elif k == "p":
            j = j.profile(S.face(S.rect(0, 0, 9, 7), (), -1))
        elif k == "t":
            j = j.drill([cq.Vector(4, 2, 0)], depth=2, tool=Tool(3, 7, 50, 700))
    before, ops, names = j.to_gcode(), list(j.operations), [o.name for o in j.operations]
    can = dia is not None and case.get("pl", "XY") == "XY"
    follow = valid(j).to_gcode() if can else None
    tool = {0: None, 1: Tool(2.5, 4, 33, 555), 2: Tool(None, 4, 33, 555)}[case["tool"]]
    refuse, call = request(case, j, tool)
    error, new = None, None
    try:
        new = call()
    except Exception as e:     # noqa: any refusal will do
        error = e
    if refuse and error is None:
        r.fail(f"impossible request accepted: {new.operations[-1].to_gcode()[:120]!r}")
    if not refuse and error is not None:
        r.fail(f"possible request refused: {type(error).__name__}: {error}")
    if j.to_gcode() != before or list(j.operations) != ops or [o.name for o in j.operations] != names:
        r.fail("the job the request was made on has changed")
    if can and valid(j).to_gcode() != follow:
        r.fail("operations after the request differ from those without it")
    if error is None and new is not None:
        if not new.to_gcode():
            r.fail("no program")
        r.trace(run(new.to_gcode()))
    r.trace(run(before))
    r.nontrivial = refuse
    r.outcome = hash((type(error).__name__, str(error)[:40]))
    r.notes = {"refused": int(error is not None), "accepted": int(error is None)}
    return r
