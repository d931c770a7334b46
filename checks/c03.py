"""C03 - jobs are immutable, deterministic values; failed calls leave no trace."""
import functools
import hashlib
import itertools
import json
import os
import subprocess
import sys

import cadquery as cq

from cq_cam import Job
from cq_cam.groups import CoolantState
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool
from mc import build as B
from mc import ops as P
from mc import shapes as S
from mc.engine import VERIF, Result
from mc.machine import run

ID = "C03"
RULE = ("every case is an interleaving of calls: at each step any live job and any call of the alphabet (valid and failing, with tools, "
        "tabs, lists and shapes shared between the calls); after every step every live job is rendered again and compared with "
        "its own chain of calls replayed in isolation on fresh objects; fresh processes with other hash seeds repeat all "
        "chains of two; non-trivial when at least two jobs are live")
ASSUMPTIONS = ["the bookkeeping a tabs object keeps about the last contour is not part of its value"]

# the shared objects of a history -------------------------------------------------


class Shared:
    """arguments handed to the calls; one set for each history"""

    def __init__(self):
        self.tool = Tool(2, 5, 60, 900)
        self.speed = Tool(speed=1500)
        self.dia = Tool(2.5)
        self.wt = WireTabs(count=2, width=1.5, height=1)
        self.et = EdgeTabs(spacing=4, width=1.2, height=1)
        self.face = S.face(S.rect(0, 0, 14, 11), [S.rect(2, 1, 4, 3)], -2)
        self.face2 = S.face(S.rect(3, 1, 5, 4), (), -3)
        self.wires = [S.wire(S.rect(0, 0, 12, 9), -2), S.wire(S.circle((20, 0), 4), -1)]
        self.faces = [self.face, self.face2]
        self.avoid = [S.face(S.rect(6, 5, 4, 4), (), -2)]
        self.long = [S.wire(S.rect(0, 0, 30, 12), -3)]
        self.tall = [S.wire(S.rect(0, 0, 12, 30), -3)]
        loc = cq.Location(cq.Vector(40, -7, 0), cq.Vector(0, 0, 1), 30)
        self.moved = [w.moved(loc) for w in self.wires]
        self.turned = cq.Wire(self.wires[0].wrapped.Reversed())
        self.face_moved = self.face.moved(loc)
        self.points = [cq.Vector(x, y, 0) for x, y in ((5, 0), (0, 0), (6, 1))]
        self.wp = cq.Workplane().newObject([self.face])
        self.bad = [self.face, S.face(S.rect(0, 0, 9, 9), (), 2)]
        self.shapes = [self.face, self.face2, *self.wires, *self.avoid, *self.bad, *self.long, *self.tall,
                       *self.moved, self.turned, self.face_moved]
        self.lists = [self.wires, self.faces, self.avoid, self.points, self.bad, self.wp.objects, self.moved]

    def value(self):
        tools = [tuple(sorted((k, v) for k, v in vars(t).items())) for t in (self.tool, self.speed, self.dia)]
        tabs = [(t.width, t.height, getattr(t, "count", None), getattr(t, "spacing", None), getattr(t, "only", None))
                for t in (self.wt, self.et)]
        shapes = [tuple((round(v.X, 9), round(v.Y, 9), round(v.Z, 9)) for v in s.Vertices()) for s in self.shapes]
        return tools, tabs, shapes, [tuple(map(id, l)) for l in self.lists], [tuple(p.toTuple()) for p in self.points]


CALLS = {
    "p": lambda j, s: j.profile(s.face),
    "pt": lambda j, s: j.profile(s.faces, tabs=s.wt, stepdown=1, tool=s.tool),
    "pe": lambda j, s: j.profile(s.wp, tabs=s.et),
    "w": lambda j, s: j.wire_profile(s.wires, tool=s.speed),
    "wt": lambda j, s: j.wire_profile(s.wires, tabs=s.wt, stepdown=.9),
    "el": lambda j, s: j.wire_profile(s.long, tabs=s.et),
    "eh": lambda j, s: j.wire_profile(s.tall, tabs=s.et, offset=0),
    "k": lambda j, s: j.pocket(s.faces, stepdown=1, tool=s.dia),
    "ka": lambda j, s: j.pocket(s.wp, avoid_areas=s.avoid),
    "d": lambda j, s: j.drill(s.points, depth=2, tool=s.tool),
    "d2": lambda j, s: j.drill(s.points, depth=2),
    # the same geometry in another place, in the other direction, on the other
    # side, with another tool
    "wm": lambda j, s: j.wire_profile(s.moved, tool=s.speed),
    "wr": lambda j, s: j.wire_profile(s.turned),
    "wi": lambda j, s: j.wire_profile(s.wires, offset=-1),
    "wd": lambda j, s: j.wire_profile(s.wires, tool=s.dia, stepdown=.9),
    "pm": lambda j, s: j.profile(s.face_moved),
    "km": lambda j, s: j.pocket(s.face_moved, tool=s.dia),
    "dm": lambda j, s: j.drill(s.moved, depth=2),
    "dw": lambda j, s: j.drill(s.wires, depth=2),
    # failing calls
    "!p": lambda j, s: j.profile(s.face, outer_offset=None, inner_offset=None, tool=s.tool),
    "!s": lambda j, s: j.wire_profile(s.wires, stepdown=.001, tabs=s.et, tool=s.dia),
    "!k": lambda j, s: j.pocket(s.bad, stepdown=.5, tool=s.tool),
    "!d": lambda j, s: j.drill(s.points, tool=s.speed),
    # no operation at all
    "show": lambda j, s: (j.to_shapes(as_edges=True), None)[1],
    "save": lambda j, s: (j.save_gcode(os.devnull), None)[1],
}
VALID = [c for c in CALLS if not c.startswith("!") and c not in ("show", "save")]


def base():
    return Job(B.plane("XY"), 100, speed=800, tool_diameter=3, tool_number=1, plunge_feed=40, coolant=CoolantState.FLOOD)


@functools.lru_cache(maxsize=None)
def isolated(chain):
    """program of a chain of calls, each on objects of its own; (program, operation texts)"""
    j = base()
    for c in chain:
        j = CALLS[c](j, Shared())
    return j.to_gcode(), tuple(o.to_gcode() for o in j.operations)


def cases(tier):
    deep = tier == "thorough"
    # every interleaving of two calls, then of three
    A = list(CALLS)
    for a, b in itertools.product(A, repeat=2):
        for p in (0, 1):
            yield {"calls": [[0, a], [p, b]]}
    small = ["pt", "w", "k", "d", "!p", "!k"] if not deep else ["pt", "pe", "w", "wt", "k", "ka", "d", "!p", "!s", "!k", "!d", "show"]
    for a, b, c in itertools.product(small, repeat=3):
        for p, q in itertools.product((0, 1), (0, 1, 2)):
            yield {"calls": [[0, a], [p, b], [q, c]]}
    for a, b, c, d in itertools.product(["w", "d"] if not deep else ["pt", "w", "d", "!k"], repeat=4):
        for p, q, t in itertools.product((0, 1), (0, 1, 2), (0, 1, 2, 3)):
            yield {"calls": [[0, a], [p, b], [q, c], [t, d]]}
    # chains of the plain operation alphabet, the operation of a job does not
    # depend on those before it
    for a, b in itertools.product(P.ALL, repeat=2):
        yield {"ops": [a, b]}
    # fresh processes
    for seed, rev in ((1, 0), (2, 1), (12345, 0)):
        yield {"process": seed, "reverse": rev}
    # very many short-lived objects, so that places in memory are used again
    for kind in ("pocket", "profile", "tabs", "drill", "wp"):
        yield {"churn": kind, "n": 400 if not deep else 2000}


def evaluate(case):
    r = Result()
    if "process" in case:
        process(r, case)
    elif "churn" in case:
        churn(r, case)
    elif "ops" in case:
        independent(r, case)
    else:
        interleave(r, case)
    return r


def interleave(r, case):
    s = Shared()
    value = s.value()
    root = base()
    live = [(root, (), root.to_gcode())]
    for step, (k, c) in enumerate(case["calls"]):
        k = min(k, len(live) - 1)
        j, chain, _ = live[k]
        new, error = None, None
        try:
            new = CALLS[c](j, s)
        except Exception as e:  # noqa
            error = e
        if c.startswith("!"):
            if error is None:
                r.fail(f"call {c} did not fail")
        elif error is not None:
            r.fail(f"step {step}: {c} on {chain} fails after {case['calls'][:step]}: {type(error).__name__}: {error}")
        if new is not None:
            if any(new is x for x, _, _ in live):
                r.fail(f"step {step}: {c} returns a job that existed before")
            ch = chain + (c,)
            want, wops = isolated(ch)
            got = new.to_gcode()
            if got != want:
                r.fail(f"step {step}: program of {ch} differs from the same calls in isolation")
            pre = [o.to_gcode() for o in j.operations]
            if [o.to_gcode() for o in new.operations][:len(pre)] != pre:
                r.fail(f"step {step}: {c} changes the operations before it")
            live.append((new, ch, got))
        for x, ch, text in live:
            if x.to_gcode() != text:
                r.fail(f"step {step}: {c} on {chain} changes the program of {ch or 'the first job'}")
        if s.value() != value:
            r.fail(f"step {step}: {c} modifies an argument")
            value = s.value()
        r.transitions += len(live)
        r.states.add(hash(tuple(sorted(t for _, _, t in live))))
    for _, _, text in live[1:]:
        r.trace(run(text))
    r.nontrivial = len(live) > 1
    r.outcome = hash(tuple(t for _, _, t in live))


def independent(r, case):
    """the second operation is the same with and without the first"""
    a, b = case["ops"]
    prec = P.precision((a, b))
    j = B.job(dia=3, precision=prec)
    one = P.call(j, b).operations[-1].to_gcode()
    first = P.call(j, a)
    two = P.call(first, b)
    if two.operations[-1].to_gcode() != one:
        r.fail(f"operation {b} depends on {a} before it")
    if two.operations[0].to_gcode() != P.call(j, a).operations[0].to_gcode():
        r.fail(f"operation {a} depends on {b} after it")
    if P.call(B.job(dia=3, precision=prec), b).operations[-1].to_gcode() != one:
        r.fail(f"operation {b} is not the same the second time")
    r.trace(run(two.to_gcode()))
    r.outcome = hash((one, two.to_gcode()))


def digests(reverse):
    chains = [(a,) for a in VALID] + list(itertools.product(VALID, repeat=2))
    if reverse:
        chains.reverse()
    out = {}
    for c in chains:
        out[" ".join(c)] = hashlib.sha1(isolated(c)[0].encode()).hexdigest()
    for o in P.ALL:
        out["op " + o] = hashlib.sha1(P.call(B.job(dia=3, precision=P.precision([o])), o).to_gcode().encode()).hexdigest()
    return out


def short_lived(kind, i):
    """program of the i-th of many parts that differ in place (and, slowly, in shape) only"""
    x, y = i % 37, i // 37
    j = Job(B.plane("XY"), 100, speed=800, tool_diameter=2, tool_number=1)
    if kind == "pocket":
        return j.pocket([S.face(S.rect(x, y, 8, 6), [S.rect(x, y, 1, 1)], -2)], stepover=.9).to_gcode()
    if kind == "profile":
        return j.profile(S.face(S.rect(x, y, 8, 6), [S.circle((x, y), 2)], -2)).to_gcode()
    if kind == "tabs":
        # alternating positions of the tabs need the bookkeeping of this contour
        w, h = (20, 12) if i % 3 else (12, 20)
        return j.wire_profile([S.wire(S.rect(x, y, w, h), -2)], tabs=(WireTabs(count=2 + i % 2, width=1.5, height=1) if i % 2 else
                                                                    EdgeTabs(spacing=5, width=1.2, height=1))).to_gcode()
    if kind == "drill":
        return j.drill([S.wire(S.rect(x, y, 4, 3), 0), S.face(S.rect(y, x + 9, 4, 3), [S.circle((y, x + 9), 1)], 0)], depth=1).to_gcode()
    wp = cq.Workplane().newObject([S.face(S.rect(x, y, 8, 6), (), -2)])
    return j.profile(wp).pocket(wp, stepover=.9, tool=Tool(3, 2.5)).to_gcode()


def churned(kind, n, reverse):
    out = {}
    for i in (range(n - 1, -1, -1) if reverse else range(n)):
        out[i] = hashlib.sha1(short_lived(kind, i).encode()).hexdigest()
    return [out[i] for i in range(n)]


def churn(r, case):
    n = case["n"]
    got = []
    for rev in (0, 1):
        out = subprocess.run([sys.executable, "-c", "import logging; logging.disable(50)\n"
                              "import json, checks.c03 as c; print('RESULT' + json.dumps(c.churned(%r, %d, %d)))" % (case["churn"], n, rev)],
                             cwd=VERIF, capture_output=True, text=True, timeout=800)
        line = [l for l in out.stdout.split("\n") if l.startswith("RESULT")]
        if not line:
            if "/cq_cam/" in out.stderr:
                r.fail(f"operations fail in a fresh process: {out.stderr[-300:]}")
                return
            raise RuntimeError(out.stderr[-2000:])
        got.append(json.loads(line[0][6:]))
    for i, (a, b) in enumerate(zip(*got)):
        if a != b:
            r.fail(f"program of part {i} ({case['churn']}) depends on the parts before it")
            break
    r.notes = {"programs_compared_across_orders": n}
    r.transitions += n
    r.outcome = hash(tuple(got[0]))


def process(r, case):
    env = dict(os.environ, PYTHONHASHSEED=str(case["process"]))
    out = subprocess.run([sys.executable, "-c", "import logging; logging.disable(50)\n"
                          "import json, checks.c03 as c; print('RESULT' + json.dumps(c.digests(%d)))" % case["reverse"]],
                         cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
    line = [l for l in out.stdout.split("\n") if l.startswith("RESULT")]
    if not line:
        if "/cq_cam/" in out.stderr:
            r.fail(f"operations fail in a fresh process: {out.stderr[-300:]}")
            return
        raise RuntimeError(out.stderr[-2000:])
    other = json.loads(line[0][6:])
    mine = digests(1 - case["reverse"])
    for k in mine:
        if mine[k] != other.get(k):
            r.fail(f"program of {k!r} differs in a process with hash seed {case['process']}")
    r.notes = {"programs_compared_across_processes": len(mine)}
    r.transitions += len(mine)
    r.outcome = hash(tuple(sorted(mine.items())))


CASE_TIMEOUT = 300
