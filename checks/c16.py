"""C16 - job settings are honoured in the program."""
import itertools
import re

import cadquery as cq

from cq_cam import IMPERIAL, METRIC, Job
from cq_cam.groups import CoolantState, PlannerControlMode, WorkOffset
from mc import build as B
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C16"
RULE = ("every case is one combination of job settings (unit, work offset, path mode, coolant, speed, heights, feeds, name, "
        "each possibly left out) with one operation; the program is executed and its modal state, heights, feeds and names "
        "are compared with the settings; non-trivial when a setting differs from its default")
ASSUMPTIONS = ["rapid height at or above the safe height, both at or above the job plane"]
UNITS = {None: None, "mm": METRIC, "in": IMPERIAL}
UCODE = {None: "G21", "mm": "G21", "in": "G20"}
WCS = [None] + [f"G{54 + k}" for k in range(6)]
PATH = [None, "G61", "G61.1", "G64"]
COOL = [None, "M7", "M8", "M9"]
# what the settings are called by the user -> the code the controller knows them by
MEMBER = {f"G{53 + k}": f"OFFSET_{k}" for k in range(1, 7)} | {
    "G61": "EXACT_PATH", "G61.1": "EXACT_STOP", "G64": "CONTINUOUS", "M7": "MIST", "M8": "FLOOD", "M9": "OFF"}
OPS = ("profile", "wire", "pocket", "drill")


def cases(tier):
    deep = tier == "thorough"
    base = {}
    yield base | {"op": "none"}
    for u, w, p, c, o in itertools.product(UNITS, WCS, PATH, COOL, OPS if deep else ("drill",)):
        yield {"unit": u, "wcs": w, "path": p, "cool": c, "op": o}
    for u, rh, sh, o in itertools.product(UNITS, (None, .4, 1, 5, 10, 12.5, 50), (None, 0, .04, .4, 1, 2.125, 5, 12.5), OPS):
        yield {"unit": u, "rapid": rh, "safe": sh, "op": o}
    for f, pf, s, o, u in itertools.product((1, 80, 250.5, 1200), (None, 1, 40, 250.5, 3000), (None, 0, 800, 24000), OPS,
                                            UNITS if deep else (None, "in")):
        yield {"feed": f, "plunge": pf, "speed": s, "op": o, "unit": u}
    # magnitudes, one value at a time
    for o, u, c in itertools.product(OPS, (None, "in"), (None, "M8")):
        for v in (.5, 9.5, 10, 60, 99.5, 100, 101, 254, 600, 999, 1000, 1500, 2540, 5000, 9999, 10000, 12000.5, 25400, 100000):
            yield {"feed": v, "op": o, "unit": u, "cool": c}
            yield {"plunge": v, "op": o, "unit": u, "cool": c}
            yield {"feed": v, "plunge": v, "op": o, "unit": u, "cool": c, "speed": v}
        for v in (1, 60, 99, 100, 500, 999, 1000, 1001, 1234.5, 5000, 9999, 10000, 10001, 12000, 18000, 30000, 59999, 60000, 100000):
            yield {"speed": v, "op": o, "unit": u, "cool": c}
        for v in (.001, .01, .1, .5, 2, 3.175, 9.999, 10, 20, 25.4, 99.9, 100, 100.5, 150, 250, 999, 1000):
            yield {"rapid": v, "safe": 0, "op": o, "unit": u, "cool": c}
            yield {"rapid": max(v, 12), "safe": v, "op": o, "unit": u, "cool": c}
            yield {"rapid": v, "safe": v, "op": o, "unit": u, "cool": c}
    for n, o, c in itertools.product((None, "Job", "Part 7", "plate", "a.b-c_d", "", "0"), OPS, COOL):
        yield {"name": n, "op": o, "cool": c}
    # everything set at once, and everything but one
    full = {"unit": "in", "wcs": "G57", "path": "G61", "cool": "M8", "rapid": 3, "safe": .5, "feed": 33, "plunge": 11,
            "speed": 5000, "name": "full"}
    for o in OPS:
        yield full | {"op": o}
        for k in full:
            if k != "feed":
                yield full | {k: None, "op": o}
            for k2 in full:
                if k2 != "feed" and k != "feed":
                    yield full | {k: None, k2: None, "op": o}
    if deep:
        for u, w, p, c, rh, pf, s, n, o in itertools.product((None, "in"), (None, "G55", "G59"), (None, "G61"), (None, "M8"),
                                                             (None, 20), (None, 10), (None, 900), (None, "x"), OPS):
            yield {"unit": u, "wcs": w, "path": p, "cool": c, "rapid": rh, "plunge": pf, "speed": s, "name": n, "op": o}


def make(case):
    kw = {}
    g = case.get
    if g("unit"):
        kw["unit"] = UNITS[case["unit"]]
    if g("wcs"):
        kw["coordinate"] = WorkOffset[MEMBER[case["wcs"]]]
    if g("path"):
        kw["controller_motion"] = PlannerControlMode[MEMBER[case["path"]]]
    if g("cool"):
        kw["coolant"] = CoolantState[MEMBER[case["cool"]]]
    for k, a in (("speed", "speed"), ("rapid", "rapid_height"), ("safe", "op_safe_height"), ("plunge", "plunge_feed"),
                 ("name", "name")):
        if g(k) is not None:
            kw[a] = case[k]
    j = Job(B.plane("XY+t"), g("feed") or 100, tool_diameter=2, **kw)
    pl = B.plane("XY+t")
    o = case["op"]
    if o == "profile":
        j = j.profile(S.face(S.rect(0, 0, 9, 7), [S.rect(0, 0, 4, 4)], -1, pl))
    elif o == "wire":
        j = j.wire_profile([S.wire(S.rect(0, 0, 9, 7), -1, pl), S.wire(S.rect(20, 0, 9, 7), -2, pl)], stepdown=.6)
    elif o == "pocket":
        j = j.pocket(S.face(S.rect(0, 0, 9, 7), [S.rect(0, 0, 1, 1)], -1, pl))
    elif o == "drill":
        j = j.drill([pl.toWorldCoords(cq.Vector(x, 0, 0)) for x in (0, 3)], depth=2)
    return j


def evaluate(case):
    r = Result()
    g = case.get
    metric = g("unit") != "in"
    rapid = g("rapid") if g("rapid") is not None else (10 if metric else .4)
    safe = g("safe") if g("safe") is not None else (1 if metric else .04)
    if safe > rapid and case["op"] != "drill":
        r.nontrivial = False
        r.outcome = "heights crossed"
        return r
    text = make(case).to_gcode()
    tr = run(text)
    r.trace(tr)
    lines = text.split("\n")
    first = next((k for k, l in enumerate(lines) if re.match(r"G0?[0-3] ", l)), len(lines))
    for what, pat, want in (("unit", r"\bG2[01]\b", UCODE[g("unit")]),
                            ("work offset", r"\bG5[4-9]\b", g("wcs") or "G54"),
                            ("path mode", r"\bG6(?:1\.1|1|4)(?=\s|$)", g("path") or "G64")):
        found = [(k, m) for k, l in enumerate(lines) if not l.startswith("(") for m in re.findall(pat, l)]
        if {m for _, m in found} != {want}:
            r.fail(f"{what}: program uses {sorted({m for _, m in found})} instead of {want}")
        elif found[0][0] > first:
            r.fail(f"{what} is set after the first motion")
    cut = [m for m in tr.motions if m.kind != "G0"]
    cool = g("cool")
    ev = [v for _, _, w, v in tr.events if w == "coolant"]
    if cool is None:
        if ev:
            r.fail(f"coolant commands {ev} without coolant")
    else:
        if any(m.coolant != cool for m in cut):
            r.fail(f"cuts with coolant {({m.coolant for m in cut})} instead of {cool}")
        if tr.final.coolant != "M9":
            r.fail("coolant is on at the end")
    if any(m.speed != g("speed") for m in cut) or (g("speed") is not None and tr.final.speed != g("speed")):
        r.fail(f"spindle speed {({m.speed for m in cut})} instead of {g('speed')}")
    if tr.final.spindle != "M5":
        r.fail("spindle is on at the end")
    feed = g("feed") or 100
    plunge = g("plunge") if g("plunge") is not None else feed
    near = lambda a, b: abs(a - b) < 6e-4
    if case["op"] != "none":
        if not cut:
            r.fail("nothing is cut")
        for m in cut:
            lateral = m.start[:2] != m.end[:2]
            want = feed if lateral else plunge
            if not near(m.feed, want):
                r.fail(f"feed {m.feed} instead of {want}: {m.text}")
                break
        rap = [m for m in tr.motions if m.kind == "G0"]
        if case["op"] == "drill":
            lat = [m for m in rap if m.start[:2] != m.end[:2] and m.end[0] is not None]
            if any(not near(m.end[2], safe) for m in lat):
                r.fail(f"moves between holes at {({m.end[2] for m in lat})} instead of {safe}")
        else:
            if not near(max(m.end[2] for m in rap), rapid) or not near(rap[0].end[2], rapid):
                r.fail(f"rapids at {max(m.end[2] for m in rap)} instead of {rapid}")
            low = [m.end[2] for m in rap if m.start[2] is not None and m.start[:2] == m.end[:2] and m.end[2] < m.start[2]]
            if safe < rapid and (not low or any(not near(z, safe) for z in low)):
                r.fail(f"rapids down to {sorted(set(low))} instead of {safe}")
            if any(m.start[2] is not None and m.start[:2] != m.end[:2] and not near(min(m.start[2], m.end[2]), rapid)
                   for m in rap):
                r.fail("moves between cuts below the rapid height")
        name = g("name") if g("name") is not None else "Job"
        heads = [s for s in tr.sections]
        if any(name not in s for s in heads) or len(heads) != 2:
            r.fail(f"comments {heads} do not name the job {name!r}")
    r.nontrivial = any(v is not None for k, v in case.items() if k != "op")
    r.outcome = hash(text)
    return r
