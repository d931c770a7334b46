"""C12 - a program depends only on the part relative to the job plane."""
import dataclasses
import functools
import itertools
import math

import cadquery as cq
import shapely

from cq_cam import Job
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from mc import build as B
from mc import ops as P
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C12"
RULE = ("every case is one operation in one placement: all 24 axis orientations and tilted ones x in-plane rotation x origin; the motions of "
        "the executed program are compared one by one with those of the same part on the XY plane at the origin; non-trivial when the "
        "placement is not the reference")
ASSUMPTIONS = ["pockets whose links differ are compared by the region cleared, the length cut, the plunges and the heights",
               "coordinates may round to the neighbouring thousandth"]
TOL = 1.6e-3

AXES = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def orientations():
    out = {}
    for n, x in itertools.product(AXES, repeat=2):
        if sum(a * b for a, b in zip(n, x)) == 0:
            out[f"{n}{x}".replace(" ", "")] = (x, n)
    s = math.sqrt(.5)
    out["tilt1"] = ((s, -s, 0), (1, 1, 2))
    out["tilt2"] = ((1, 0, 0), (0, math.sin(.3), math.cos(.3)))
    out["tilt3"] = ((0, 1, 0), (math.sin(-1.2), 0, math.cos(-1.2)))
    out["turn30"] = ((math.cos(math.pi / 6), .5, 0), (0, 0, 1))
    out["turn-100"] = ((math.cos(-1.745), math.sin(-1.745), 0), (0, 0, 1))
    out["under77"] = ((math.cos(1.344), math.sin(1.344), 0), (0, 0, -1))
    out["tiny"] = ((1, 0, 0), (0, 1e-4, 1))
    return out


ORI = orientations()
ORG = {"0": (0, 0, 0), "up": (0, 0, 13.7), "a": (11, -7.25, 3), "b": (-130.5, 2.125, -64), "far": (1234.5, -987.25, 555)}


@functools.lru_cache(maxsize=None)
def plane(ori, org):
    x, n = ORI[ori]
    return cq.Plane(ORG[org], x, n)


# more operations than the shared alphabet: outlines in every kind of body
EXTRA = {}
for _n in [*S.OUTLINES, *S.MORE]:
    EXTRA["o:" + _n] = (lambda pl, n=_n: S.solid_face(B.named(n), [], 2, "bottom", pl),
                        lambda j, o: j.profile(o))
    EXTRA["i:" + _n] = (lambda pl, n=_n: S.wire(B.named(n), -1.5, pl), lambda j, o: j.wire_profile(o, offset=-.4, stepdown=.6))
    EXTRA["t:" + _n] = (lambda pl, n=_n: S.wire(B.named(n), -3, pl),
                        lambda j, o: j.wire_profile(o, offset=0, tabs=WireTabs(count=3, width=1, height=1)))
for _n in ("ngon:90", "gear:270", "comb:120", "arcs:60"):
    EXTRA["n:" + _n] = (lambda pl, n=_n: S.wire(B.named(n), -1.5, pl), lambda j, o: j.wire_profile(o, offset=1, stepdown=.8))
for _n in ("rect", "slot", "circle", "D"):
    EXTRA["b:" + _n] = (lambda pl, n=_n: S.wire(B.outline([n, {"scale": 70, "dx": 300}]), -12, pl), lambda j, o: j.wire_profile(o, offset=1, stepdown=5))
EXTRA["dn"] = (lambda pl: [pl.toWorldCoords(cq.Vector(2.5 * (k % 9), 1.75 * (k // 9), 0)) for k in range(80)], lambda j, o: j.drill(o, depth=3))
EXTRA["et"] = (lambda pl: S.wire(S.OUTLINES["round"], -3, pl),
               lambda j, o: j.wire_profile(o, stepdown=1.1, tabs=EdgeTabs(spacing=2.3, width=1, height=1, only="LINE")))
for _n in ("bottom", "floor", "cut", "moved", "flip"):
    EXTRA["k:" + _n] = (lambda pl, n=_n: S.solid_face(S.rect(1, 0, 14, 10), [S.rect(-2, 1, 3, 2)], 2.2, n, pl),
                        lambda j, o: j.pocket(o, stepdown=.9, stepover=.9))
EXTRA["dh"] = (lambda pl: S.solid_face(S.rect(0, 0, 30, 30), [S.circle((3, 4), 1), S.circle((-5, 1), 1.5)], 4, "cut", pl),
               lambda j, o: j.drill(o, depth=3))
EXTRA["dw"] = (lambda pl: [S.wire(S.circle(p, 1), 0, pl) for p in ((3, 4), (-8, 2), (1, 1))], lambda j, o: j.drill(o, depth=3))


def cases(tier):
    deep = tier == "thorough"
    for o, (ori, org) in itertools.product(list(P.ALL) + list(EXTRA), itertools.product(ORI, ORG)):
        if not deep:
            if o == "sp" and ORI[ori][1] not in ((0, 0, 1), (0, 0, -1), (1, 0, 0)) and not ori.startswith("tilt"):
                continue
            if (o[2:] in S.MORE or o[:2] == "n:") and org not in ("a", "far"):
                continue
        yield {"op": o, "ori": ori, "org": org}


def motions(op, pl):
    prec = P.precision([op])
    j = Job(pl, 100, tool_diameter=2.4, precision=prec, plunge_feed=44)
    if op in P.CALLS:
        j = P.CALLS[op](j, P.SHAPES[op](pl), None)
    else:
        shape, call = EXTRA[op]
        j = call(j, shape(pl))
    return run(j.to_gcode())


def moving(tr):
    """The motions that go anywhere: whether a line to where the tool already is gets written and whether an arc of half
    a turn is written as one or as two depends on the last bit of a coordinate."""
    out = []
    for m in tr.motions:
        if m.kind in ("G0", "G1") and m.start is not None and all(
                p is not None and q is not None and abs(p - q) <= 1e-3 + 1e-9 for p, q in zip(m.start, m.end)):
            continue
        p = out[-1] if out else None
        if (p and m.kind in ("G2", "G3") and p.kind == m.kind and p.feed == m.feed and abs(p.end[2] - m.end[2]) < 1e-9
                and math.dist(p.centre[:2], m.centre[:2]) < 4e-3 and turn(p) + turn(m) < 2 * math.pi + .01):
            out[-1] = dataclasses.replace(m, start=p.start, text=p.text + " + " + m.text)
            continue
        out.append(m)
    return out


def turn(m):
    a, b = (math.atan2(q[1] - m.centre[1], q[0] - m.centre[0]) for q in (m.start, m.end))
    t = (b - a if m.kind == "G3" else a - b) % (2 * math.pi)
    return t if t > 1e-3 else 2 * math.pi


@functools.lru_cache(maxsize=None)
def reference(op):
    return motions(op, cq.Plane((0, 0, 0), (1, 0, 0), (0, 0, 1)))


def cleared(ms):
    """per depth: the region a tool of the job's diameter cleared and the length it was fed for"""
    out = {}
    for m in ms:
        if m.kind == "G0" or abs(m.start[2] - m.end[2]) > 1e-6:
            continue
        out.setdefault(round(m.end[2], 2), []).append((m.start[:2], m.end[:2]))
    return {z: (shapely.buffer(shapely.MultiLineString(ls), 1.2), sum(math.dist(*q) for q in ls)) for z, ls in out.items()}


@functools.lru_cache(maxsize=None)
def reference_cleared(op):
    return cleared(moving(reference(op)))


def compare_pocket(op, a, b):
    """Where two places are equally near the links between two rings of a pocket may go either way, which the last bit
    of a coordinate decides; so pockets are compared by what they clear, the way they take and how often they go down."""
    ca, cb = reference_cleared(op), cleared(b)
    if set(ca) != set(cb):
        return f"levels {sorted(cb)} instead of {sorted(ca)}"
    for z in ca:
        d = ca[z][0].symmetric_difference(cb[z][0]).area
        if d > .002 * ca[z][0].area:
            return f"{d:.3f} mm2 at Z{z} are cleared in only one of the two placements"
        if abs(ca[z][1] - cb[z][1]) > .04 * ca[z][1] + 1:
            return f"{cb[z][1]:.2f} mm are cut at Z{z} instead of {ca[z][1]:.2f}"
    pa, pb = ([(m.end[2], m.feed) for m in q if m.kind == "G1" and m.end[2] < m.start[2] - 1e-6] for q in (a, b))
    if sorted(pa) != sorted(pb):
        return f"plunges to {pb} instead of {pa}"
    ha, hb = (sorted({round(m.end[2], 2) for m in q if m.kind == "G0" and m.end[2] is not None}) for q in (a, b))
    if ha != hb:
        return f"rapids at the heights {hb} instead of {ha}"


def compare(a, b):
    """returns (message, largest difference)"""
    if [m.kind for m in a] != [m.kind for m in b]:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x.kind != y.kind), min(len(a), len(b)))
        return (f"{len(b)} motions instead of {len(a)}, the first that differs in kind is number {k}: "
                f"{b[k].text if k < len(b) else None} instead of {a[k].text if k < len(a) else None}", 0)
    worst = 0.0
    for k, (x, y) in enumerate(zip(a, b)):
        pairs = list(zip(x.end, y.end)) + (list(zip(x.centre, y.centre)) if x.centre and y.centre else [])
        e = max(0 if p == q else 9e9 if p is None or q is None else abs(p - q) for p, q in pairs)
        worst = max(worst, e)
        if e > TOL + (1.5e-3 if x.centre else 0):
            return f"motion {k} is {y.text} instead of {x.text}", worst
        if x.feed != y.feed:
            return f"motion {k}: feed {y.feed} instead of {x.feed}", worst
    return None, worst


def evaluate(case):
    r = Result()
    ref = reference(case["op"])
    tr = motions(case["op"], plane(case["ori"], case["org"]))
    r.trace(tr)
    a, b = moving(ref), moving(tr)
    msg, worst = compare(a, b)
    r.notes = {"max_difference": worst} if msg is None else {"pockets_linked_otherwise": 1}
    if msg and case["op"][0] == "k":
        msg = compare_pocket(case["op"], a, b)
    if msg:
        r.fail(msg)
    r.nontrivial = (case["ori"], case["org"]) != ("(0,0,1)(1,0,0)", "0")
    r.outcome = hash((case["op"], len(b)))
    return r
