"""C02 - tool, speed, coolant and feed in force are the ones requested."""
import itertools

import cadquery as cq

from cq_cam import Job
from cq_cam.groups import CoolantState
from cq_cam.tool import Tool
from mc import build as B
from mc import oracle as O
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C02"
RULE = ("every case is one path of the operation tree: initial job x up to three (thorough: four) operations, each with one of the tool "
        "choices; a reference model of the tool state is stepped along with the implementation and compared with the state of the "
        "machine at every motion of the executed program and with the size of what is cut; non-trivial when a tool is given")
ASSUMPTIONS = ["the plunge feed is the one of the job (tools have none)", "the job's initial tool is in the spindle at the start"]
#            diameter, number, feed, speed
TOOLS = {"-": None, "e": (None,) * 4, "n2": (None, 2, None, None), "n1": (None, 1, None, None), "n0": (None, 0, None, None),
         "d": (4, None, None, None), "f": (None, None, 55, None), "s": (None, None, None, 2000), "s0": (None, None, None, 1000),
         "A": (4, 2, 50, 2000), "B": (5, 3, 70, None), "C": (2, 2, None, 3000), "df": (2.5, None, 80, None)}
JOBS = [(3, 1, 1000, None), (3, None, None, None), (3, 1, None, "M8"), (3, None, 1000, "M7"), (3, 0, 1000, "M9"), (None, None, None, None),
        (2, 2, 2000, "M8")]
R = (20, 16)
# magnitudes of each value
DIAS = (.1, .5, .8, 1, 1.5, 3, 3.175, 6, 6.35, 9.525, 10, 12, 12.7, 15.5)
NUMBERS = (0, 1, 2, 9, 10, 11, 16, 24, 25, 63, 64, 99, 100, 101, 127, 128, 255, 256, 300, 999, 1000, 9999, 12345)
FEEDS = (.5, 1, 9.5, 10, 60, 99.5, 100, 101, 254, 600, 999, 1000, 1500, 2540, 5000, 9999, 10000, 12000.5, 25400)
SPEEDS = (1, 60, 99, 100, 500, 999, 1000, 1001, 1234.5, 5000, 9999, 10000, 10001, 12000, 18000, 24000, 30000, 59999, 60000, 99999, 100000)


def cases(tier):
    deep = tier == "thorough"
    for job, ts in itertools.product(range(len(JOBS)), itertools.chain(*(itertools.product(TOOLS, repeat=n) for n in (1, 2)))):
        for ops in itertools.product("wdk", repeat=len(ts)) if deep or len(ts) == 1 else ("ww", "wd", "dw", "kp", "dd"):
            yield {"job": job, "t": ts, "ops": "".join(ops)}
    for job, ts in itertools.product(range(len(JOBS)) if deep else (0, 1, 3), itertools.product(TOOLS, repeat=3)):
        yield {"job": job, "t": ts, "ops": "wdw" if job else "www"}
        if deep:
            yield {"job": job, "t": ts, "ops": "kwp"}
    if deep:
        for ts in itertools.product(("-", "n2", "n0", "d", "s", "f", "A", "B"), repeat=4):
            yield {"job": 0, "t": ts, "ops": "dwdw"}
            yield {"job": 3, "t": ts, "ops": "wdww"}
    # longer chains through a small set of tools
    for ts in itertools.product(("-", "A", "C", "n1"), repeat=5):
        yield {"job": 0, "t": ts, "ops": "dwdww"}
    # long chains: every pattern of two and three tools over and over
    names = list(TOOLS)
    for n, (a, b), job in itertools.product((8, 13, 34), itertools.permutations(names, 2), (0, 3) if deep else (0,)):
        yield {"job": job, "t": [(a, b)[k % 2] for k in range(n)], "ops": "ddw"[:1 + n % 3] * n}
    for i in range(len(names)):
        for n in (21, 60, 110):
            yield {"job": 4, "t": [names[(i + k * (1 + i % 5)) % len(names)] for k in range(n)], "ops": "d" * n}
            yield {"job": 6, "t": [("A", "C", names[i])[k % 3] for k in range(n)], "ops": "d" * n}
    # the magnitude of every value: in the job, in the first tool, in a second one, and going from one to another
    axes = [DIAS, NUMBERS, FEEDS, SPEEDS]
    for k, axis in enumerate(axes):
        for v in axis:
            t = [None] * 4
            t[k] = v
            full = [4, 2, 50, 2000]
            full[k] = v
            for c in (None, "M8"):
                for o, ts in (("w", [t]), ("w", [full]), ("dw", ["A", t]), ("wd", [full, "-"]), ("dw", [t, "n2"]), ("k", [full])):
                    yield {"job": 1 if c is None else 2, "t": ts, "ops": o}
                job = [3, 1, 1000, c]
                if k != 2:
                    job[{0: 0, 1: 1, 3: 2}[k]] = v
                    for o, ts in (("w", ["-"]), ("dd", ["n2", "n1"]), ("wd", ["s", "d"]), ("k", ["e"])):
                        yield {"job": job, "t": ts, "ops": o}
        for v, w in itertools.product(axis, repeat=2):
            t, u = [None] * 4, [None] * 4
            t[k], u[k] = v, w
            yield {"job": 4, "t": [t, u], "ops": "dd" if k else "dw"}


def tool_of(t):
    return TOOLS[t] if isinstance(t, str) else t


class Model:
    """what should be in force; independent of the implementation"""

    def __init__(self, dia, number, speed, feed):
        self.dia, self.number, self.speed, self.feed = dia, number, speed, feed
        self.loaded = None          # tool put in by a change of this program
        self.s = speed              # last speed commanded
        self.changes = []

    def step(self, t):
        if t is None:
            return
        dia, number, feed, speed = t
        if number is not None and number != self.number:
            self.changes.append(number)
            self.loaded = number
            self.number = number
        self.dia = self.dia if dia is None else dia
        self.feed = self.feed if feed is None else feed
        self.speed = self.speed if speed is None else speed
        self.s = self.speed


def evaluate(case):
    r = Result()
    dia, number, speed, cool = (JOBS[case["job"]] if isinstance(case["job"], int) else case["job"])
    m = Model(dia, number, speed, 100)
    kw = {"coolant": CoolantState(cool)} if cool else {}
    j = Job(B.plane("XY"), 100, speed=speed, tool_diameter=dia, tool_number=number, plunge_feed=37, **kw)
    want = []
    for o, t in zip(case["ops"], case["t"]):
        if m.dia is None and o != "d" and (tool_of(t) is None or tool_of(t)[0] is None):
            o = "d"                # needs no diameter
        m.step(tool_of(t))
        tool = None if tool_of(t) is None else Tool(*tool_of(t))
        if o == "w":
            j = j.wire_profile(wire(), tool=tool)
        elif o == "p":
            j = j.profile(face(), inner_offset=None, tool=tool)
        elif o == "k":
            j = j.pocket(face(), tool=tool)
        else:
            j = j.drill([cq.Vector(1, 2, 0), cq.Vector(3, 4, 0)], depth=2, tool=tool)
        want.append((o, m.dia, m.loaded, m.s, m.feed))
    tr = run(j.to_gcode())
    r.trace(tr)
    names = {"w": "Wire Profile", "p": "Profile", "k": "Pocket", "d": "Drill"}
    secs = [k for k, s in enumerate(tr.sections) if any(s.endswith(f" - {n}") for n in names.values())]
    if len(secs) != len(want):
        r.fail(f"{len(secs)} operations in the program instead of {len(want)}")
        return r
    for k, (sec, (o, d, tool, s, f)) in enumerate(zip(secs, want)):
        ms = [x for x in tr.motions if x.section == sec]
        cut = [x for x in ms if x.kind != "G0"]
        what = f"operation {k} ({names[o]})"
        if not cut:
            r.fail(f"{what} cuts nothing")
            continue
        if any(x.tool != tool for x in ms):
            r.fail(f"{what} runs with tool {({x.tool for x in ms})} instead of {tool}")
        if any(x.speed != s for x in cut):
            r.fail(f"{what} runs with speed {({x.speed for x in cut})} instead of {s}")
        if any(x.coolant != cool for x in cut):
            r.fail(f"{what} runs with coolant {({x.coolant for x in cut})} instead of {cool}")
        lat = [x for x in cut if O.lateral(x)]
        if any(abs(x.feed - f) > 6e-4 for x in lat):
            r.fail(f"{what} cuts with feed {({x.feed for x in lat})} instead of {f}")
        if any(abs(x.feed - 37) > 6e-4 for x in cut if not O.lateral(x) and x.end[2] < x.start[2]):
            r.fail(f"{what} plunges with feed {({x.feed for x in cut if not O.lateral(x)})} instead of 37")
        if o != "d":
            xs = [c for x in cut for c in (x.start[0], x.end[0])]
            ys = [c for x in cut for c in (x.start[1], x.end[1])]
            e = d if o in "wp" else -d
            got = (max(xs) - min(xs), max(ys) - min(ys))
            if max(abs(a - b - e) for a, b in zip(got, R)) > 4e-3:
                r.fail(f"{what} is laid out {got} for {R}: not for a tool diameter of {d}")
    changes = [(sec, ln, v) for sec, ln, w, v in tr.events if w == "M6"]
    if [v for _, _, v in changes] != m.changes:
        r.fail(f"tool changes {[v for _, _, v in changes]} instead of {m.changes}")
    for sec, ln, v in changes:
        before = [(w, x) for _, l, w, x in tr.events if l < ln]
        if not before or before[-1] != ("home", "G30") and before[-1][0] != "home":
            r.fail("machine is not homed for the tool change")
    # tool length compensation belongs to the tool in the spindle
    h = None
    for raw in j.to_gcode().split("\n"):
        w = raw.split()
        if raw.startswith("("):
            continue
        if "M6" in w or "M06" in w:
            hs = [x[1:] for x in w if x[0] == "H"]
            ts = [x[1:] for x in w if x[0] == "T"]
            if "G43" not in w or not hs or float(hs[0]) != float((ts or hs)[0]):
                r.fail(f"tool change without its length compensation: {raw}")
    if not check_length(tr, j.to_gcode(), r):
        pass
    r.nontrivial = any(t != "-" for t in case["t"])
    r.outcome = hash((tuple(want), len(tr.motions)))
    return r


def check_length(tr, text, r):
    """length compensation in force at every cut belongs to the tool"""
    from mc.machine import State
    s = State()
    ok = True
    for raw in text.split("\n"):
        t = run(raw, s) if raw.strip() and not s.ended else None
        if t and any(m.kind != "G0" for m in t.motions) and s.tool is not None and s.h != s.tool:
            r.fail(f"cuts with length compensation {s.h} with tool {s.tool}")
            return False
    return ok


def wire():
    return S.wire(S.rect(0, 0, *R), -1)


def face():
    return S.face(S.rect(0, 0, *R), (), -1)
