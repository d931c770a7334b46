"""C04 - rapids never cut."""
import itertools

import cadquery as cq

from cq_cam import IMPERIAL, METRIC, Job
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool
from mc import build as B
from mc import ops as P
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C04"
RULE = ("every case is a history of operations x heights x unit x job plane (x tool change), or one operation with many separate "
        "cuts (wires, holes, stepdowns, tabs, islands, areas); every rapid of the executed program is checked from the position the "
        "machine is really in; non-trivial when there are rapids after a cut")
ASSUMPTIONS = ["rapid height at or above the safe height, both at or above the job plane"]
HEIGHTS = [(None, None), (10, 1), (5, 5), (1, .2), (2, 0), (40, 12), (0, 0), (.05, .01)]


def cases(tier):
    deep = tier == "thorough"
    for (rh, sh), u, pl, o in itertools.product(HEIGHTS, (0, 1), B.PLANES, P.ALL):
        yield {"h": [o], "rapid": rh, "safe": sh, "u": u, "pl": pl}
    for a, b in itertools.product(P.ALL, repeat=2):
        for (rh, sh), t in itertools.product(HEIGHTS if deep else HEIGHTS[::3], (0, 1) if deep else (0,)):
            yield {"h": [a, b], "rapid": rh, "safe": sh, "tool": t}
        yield {"h": [a, b], "rapid": 4, "safe": 2, "tool": 1, "u": 1}
    small = ("p", "ps", "pt", "w2", "k", "kk", "d", "df", "k2") if deep else ("ps", "pt", "kk", "d", "k2", "w0")
    for ops in itertools.product(small, repeat=3):
        for pl in ("XY", "+X") if deep else ("XY",):
            yield {"h": list(ops), "rapid": 6, "safe": 1.5, "pl": pl}
    # separate cuts
    for n, sd, tabs, d, (rh, sh) in itertools.product((1, 2, 3), (None, .5, 1.1), (None, "W", "E"), (.5, 2, 3),
                                                      HEIGHTS[:6] if deep else ((None, None), (4, 4), (2, 0))):
        for how in ("wires", "holes", "mixed"):
            yield {"sep": how, "n": n, "sd": sd, "tabs": tabs, "d": d, "rapid": rh, "safe": sh}
    for n, sd, so, d2, (rh, sh) in itertools.product((1, 2, 3), (None, .5, 1.1), (None, 1, 2), (1, 3),
                                                     HEIGHTS[:6] if deep else ((None, None), (4, 4), (2, 0))):
        for how in ("areas", "islands", "nested"):
            yield {"sep": how, "n": n, "sd": sd, "so": so, "d": d2, "rapid": rh, "safe": sh}
    # neighbouring holes and contours: closer than the tool, in line with an axis, at the same place
    for pitch, way, n, d, (rh, sh) in itertools.product((.3, 1.6, 2, 2.5, 9), ("x", "y", "xy", "same"), (2, 3), (.5, 4),
                                                        HEIGHTS if deep else HEIGHTS[::3]):
        for how in ("drill", "close"):
            yield {"sep": how, "n": n, "sd": None, "pitch": pitch, "way": way, "d": d, "rapid": rh, "safe": sh}
            if how == "close":
                yield {"sep": how, "n": n, "sd": .4, "pitch": pitch, "way": way, "d": d, "rapid": rh, "safe": sh}
    # many of everything
    for n, sd, (rh, sh) in itertools.product((5, 8, 13, 20), (None, .9), HEIGHTS if deep else HEIGHTS[::2]):
        for how, tabs in (("wires", None), ("wires", "W"), ("holes", None), ("mixed", "E"), ("areas", None), ("islands", None), ("drill", None)):
            c = {"sep": how, "n": n, "sd": sd, "tabs": tabs, "d": 2, "rapid": rh, "safe": sh, "so": None, "pitch": 3.1, "way": "xy"}
            if (how != "islands" or n < 9) and (how != "areas" or n < 14):
                yield c
    # deep cuts
    for n, d, sd, (rh, sh) in itertools.product((1, 2), (12, 30), (1.7, 5), HEIGHTS if deep else HEIGHTS[::2]):
        for how, tabs in (("wires", None), ("wires", "W"), ("holes", None), ("areas", None), ("islands", None), ("drill", None)):
            yield {"sep": how, "n": n, "sd": sd, "tabs": tabs, "d": d, "rapid": rh, "safe": sh, "so": None, "pitch": 3.1, "way": "xy"}
    # very many holes and contours
    for n, (rh, sh) in itertools.product((40, 90, 150) if not deep else (40, 90, 150, 400), HEIGHTS[:4]):
        for how in ("wires", "drill", "close"):
            yield {"sep": how, "n": n, "sd": None, "tabs": None, "d": .02 if how == "wires" else 2, "rapid": rh, "safe": sh, "so": None, "pitch": 3.1,
                   "way": "xy"}
    # far apart and far from the origin
    for k, n, d, (rh, sh) in itertools.product((400, 2000, 12000), (2, 4), (2, 30), HEIGHTS if deep else HEIGHTS[::3]):
        for how in ("drill", "close"):
            for w in ("x", "xy"):
                yield {"sep": how, "n": n, "sd": None, "pitch": k, "way": w, "d": d, "rapid": rh, "safe": sh}
    # long histories
    for k in range(0, len(P.ALL), 3):
        for n, t in itertools.product((25, 50), (0, 1)):
            yield {"h": [a for a in (P.ALL[(k + i * (3 + 2 * t)) % len(P.ALL)] for i in range(n)) if a != "sp"], "rapid": 7, "safe": 2, "tool": t}
    for k in range(len(P.ALL)):
        for n, t in itertools.product((6, 10), (0, 1)):
            yield {"h": [P.ALL[(k + i * (3 + 2 * t)) % len(P.ALL)] for i in range(n)], "rapid": 7, "safe": 2, "tool": t}


def make(case):
    kw = {}
    if case.get("rapid") is not None:
        kw = {"rapid_height": case["rapid"], "op_safe_height": case["safe"]}
    u = IMPERIAL if case.get("u") else METRIC
    pl = case.get("pl") or "XY"
    j = Job(B.plane(pl), 100, tool_diameter=2, unit=u, precision=P.precision(case.get("h", ())), tool_number=1, **kw)
    kinds = []
    if "h" in case:
        for k, o in enumerate(case["h"]):
            t = Tool(2.5, 10 + k) if case.get("tool") and k else None
            j = P.call(j, o, pl, t)
            kinds.append("drill" if o in P.DRILLS else "mill")
        return j, kinds
    n, sd, d = case["n"], case["sd"], case["d"]
    t = case.get("tabs")
    tabs = None if not t else WireTabs(count=2, width=1, height=.6) if t == "W" else EdgeTabs(spacing=3, width=1, height=.6)
    how = case["sep"]
    if how == "wires":
        W = [S.wire(S.shift(S.OUTLINES[("rect", "circle", "D", "L", "slot")[k % 5]], 30 * (k // 3), 0), -d * (1 + .2 * k)) for k in range(n)]
        j = j.wire_profile(W, stepdown=sd, tabs=tabs)
    elif how == "holes":
        j = j.profile(S.face(S.rect(0, 0, 30 if n < 4 else 20 * n, 20), [S.circle((-8 + 8 * k, 0), 2.5) for k in range(n)], -d), stepdown=sd,
                      tabs=tabs)
    elif how == "mixed":
        F = [S.face(S.rect(40 * k, 0, 14, 12), [S.rect(40 * k, 0, 6, 5)], -d) for k in range(n)]
        j = j.profile(cq.Workplane().newObject(F), stepdown=sd, tabs=tabs).profile(F, outer_offset=0, inner_offset=None)
        kinds.append("mill")
    elif how in ("drill", "close"):
        dx, dy = {"x": (1, 0), "y": (0, 1), "xy": (.7, -.7), "same": (0, 0)}[case["way"]]
        at = [(2 + k * case["pitch"] * dx, 1 + k * case["pitch"] * dy) for k in range(n)]
        if how == "drill":
            j = j.drill([cq.Vector(x, y, 0) for x, y in at], depth=d)
            kinds.append("drill")
            return j, kinds
        j = j.wire_profile([S.wire(S.rect(x, y, 1.2, 1), -d) for x, y in at], offset=1, stepdown=sd)
    elif how == "areas":
        j = j.pocket([S.face(S.rect(25 * k, 0, 12, 9), (), -d * (1 + k)) for k in range(n)], stepdown=sd, stepover=case["so"])
    elif how == "islands":
        j = j.pocket(S.face(S.rect(0, 0, 30 if n < 4 else 20 * n, 20), [S.rect(-8 + 8 * k, 0, 3, 4) for k in range(n)], -d), stepdown=sd,
                     stepover=case["so"])
    elif how == "nested":
        j = j.pocket([S.face(S.rect(0, 0, 24 - 5 * k, 18 - 4 * k), (), -d * (1 + k)) for k in range(n)], stepdown=sd,
                     stepover=case["so"])
    kinds.append("mill")
    return j, kinds


def evaluate(case):
    r = Result()
    j, kinds = make(case)
    imp = case.get("u")
    rapid = case.get("rapid") if case.get("rapid") is not None else (.4 if imp else 10)
    safe = case.get("safe") if case.get("safe") is not None else (.04 if imp else 1)
    tr = run(j.to_gcode())
    r.trace(tr)
    names = ("- Profile", "- Wire Profile", "- Pocket", "- Drill")
    secs = [k for k, s in enumerate(tr.sections) if s.endswith(names)]
    if len(secs) != len(kinds):
        r.fail(f"{len(secs)} operation sections instead of {len(kinds)}")
        return r
    after = False
    eps = 6e-4
    for sec, kind in zip(secs, kinds):
        ms = [m for m in tr.motions if m.section == sec]
        if not ms:
            continue
        if ms[0].kind != "G0" or ms[0].start[:2] != ms[0].end[:2] or ms[0].end[2] is None or ms[0].end[2] < safe - eps:
            r.fail(f"operation does not begin by going up to a safe height: {ms[0].text} (from {ms[0].start})")
        for m in ms:
            if m.kind != "G0":
                after = True
                continue
            if m.start[:2] != m.end[:2]:
                if m.end[2] is None or m.end[2] < safe - eps or m.start[2] is None or m.start[2] < safe - eps:
                    r.fail(f"rapid sideways at z {m.start[2]} -> {m.end[2]}, safe height {safe}: {m.text} from {m.start}")
            elif m.start[2] is None or m.end[2] < m.start[2] - 1e-9:
                low = 0 if kind == "drill" else safe
                if m.end[2] < low - eps:
                    r.fail(f"rapid down to z {m.end[2]}, limit {low}: {m.text}")
    other = [m for m in tr.motions if m.section not in secs]
    if other:
        r.fail(f"motion outside of the operations: {other[0].text}")
    r.nontrivial = after
    r.outcome = hash(tuple((m.start[2], m.end[2]) for m in tr.motions if m.kind == "G0"))
    return r
