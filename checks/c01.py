"""C01 - every program is valid G-code inside a complete frame."""
import itertools

from cq_cam import IMPERIAL, METRIC, Job
from cq_cam.groups import CoolantState, PlannerControlMode, WorkOffset
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool
from mc import build as B
from mc import ops as P
from mc import shapes as S
from mc.engine import Result
from mc.machine import MachineError, run

ID = "C01"
RULE = ("every case is a history of operations (with or without tools) under a job configuration; the program is executed "
        "block by block on a strict RS-274 automaton that rejects what a controller would, and the frame (modal groups before the "
        "first motion, machine state after the last block) is checked; non-trivial when the program has motions")
ASSUMPTIONS = ["the spindle code without a speed is accepted (no speed given to the job)",
               "a tool is in the spindle when the program starts"]
TOOLS = {"": None, "n": (None, 5, None, None), "N": (2.2, 6, 60, 900), "s": (None, None, None, 777), "0": (1.5, 0, None, None),
         "d": (2.4, None, None, None), "f": (None, None, 33.5, None)}
NAMES = ("Job", "", "a (b) c", "x) G0 Z-5 (", "two\nlines", "cr\rlf\r\n", "%", "ünï", "(((", "tab\tbed", "; semi", "N10 G1")


def cases(tier):
    deep = tier == "thorough"
    # frame: every configuration around short histories
    for u, w, p, c in itertools.product((0, 1), range(6), range(3), (None, "M7", "M8", "M9")):
        for ops in ((), ("d",), ("p", "k")) if deep else ((), ("d",)):
            for sp in (None, 1200):
                yield {"u": u, "w": w, "p": p, "c": c, "s": sp, "h": [[o, ""] for o in ops], "name": "Job"}
    for n, (u, c) in itertools.product(NAMES, ((0, None), (1, "M8"))):
        for ops in ([["d", ""]], [["d", "N"]], [["p", "s"]], []):
            yield {"u": u, "c": c, "name": n, "h": ops}
    # every character a name may hold, alone and between others
    for ch in [chr(k) for k in [9, 10, 13, *range(32, 127), *range(160, 256)]] + ["\u20ac", "\U0001f527", "\ufeff"]:
        for n in (ch, f"a{ch}b"):
            yield {"name": n, "h": [["d", ""]]}
    # outlines of every form: arcs of any size at any place
    for o, off, sc, pl in itertools.product([*S.OUTLINES, *S.MORE], (0, 1, -1, .3), (.02, 1, 37.7) if deep else (1, 37.7), ("XY", "skew", "-Z")):
        for tab in (None, "W", "E"):
            if pl != "-Z" or tab is None or deep:
                yield {"o": o, "off": off, "sc": sc, "pl": pl, "tab": tab, "h": []}
    # every operation with every tool, every plane
    for o, t, pl in itertools.product(P.ALL, TOOLS, B.PLANES if deep else ("XY", "XY+t", "skew", "-Z")):
        yield {"h": [[o, t]], "pl": pl, "s": 500, "c": "M8"}
        if t == "":
            yield {"h": [[o, t]], "pl": pl, "u": 1, "rapid": .4, "safe": .04}
    # magnitudes of the values
    for n, s, f, c in itertools.product((None, 0, 1, 9, 10, 99, 100, 255, 999, 12345), (None, 1, 99.5, 999, 1000, 9999, 10000, 18000, 24000, 60000, 123456.5),
                                        (None, .5, 99, 1000, 12000, 100000), (None, "M7", "M8", "M9")):
        if sum(x is None for x in (n, s, f)) != 1 or n is None:
            yield {"h": [["d", [2, n, f, s]]], "c": c, **({"s": s} if s and n is None else {})}
            yield {"h": [["d", ""], ["w0" if f else "d", [2, n, f, s]], ["d", "s"]], "c": c}
    # pairs and triples
    T2 = tuple(TOOLS) if deep else ("", "N", "s")
    for (a, s), (b, t) in itertools.product(itertools.product(P.ALL, ("", "0")), itertools.product(P.ALL, T2)):
        yield {"h": [[a, s], [b, t]], "c": "M8" if s else None, "s": 500 if t else None}
    small = ("p", "ps", "pt", "w2", "w0", "k", "kk", "d", "k2")
    for ops in itertools.product(small, repeat=3):
        for ts in itertools.product(("", "N"), repeat=3) if deep else (("", "N", ""), ("0", "", "N")):
            yield {"h": [list(x) for x in zip(ops, ts)], "c": "M7", "s": 500}
    # long histories
    ALL = [o for o in P.ALL if o != "sp"]
    for n, a, b, c in itertools.product((7, 12, 25, 60), (0, 3), (1, 5), (None, "M8")):
        ts = list(TOOLS)
        yield {"h": [[ALL[(a + b * k) % len(ALL)], ts[(a + (b + 1) * k) % len(ts)]] for k in range(n)], "c": c, "s": 700}
    for n, t in itertools.product((99, 101, 130), ("", "N", "0")):
        yield {"h": [["d", t if k % 2 else "s"] for k in range(n)], "c": "M8", "s": 700}
    if deep:
        for ops in itertools.product(("p", "k", "d", "k2"), repeat=4):
            for ts in itertools.product(("", "N"), repeat=4):
                yield {"h": [list(x) for x in zip(ops, ts)]}


def tool_of(t):
    spec = TOOLS[t] if isinstance(t, str) else t
    return Tool(*spec) if spec else None


def evaluate(case):
    r = Result()
    kw = {}
    g = case.get
    if g("c"):
        kw["coolant"] = CoolantState(g("c"))
    if g("w") is not None:
        kw["coordinate"] = list(WorkOffset)[g("w")]
    if g("p") is not None:
        kw["controller_motion"] = list(PlannerControlMode)[g("p")]
    for k, a in (("rapid", "rapid_height"), ("safe", "op_safe_height"), ("s", "speed"), ("name", "name")):
        if g(k) is not None:
            kw[a] = g(k)
    pl = g("pl") or "XY"
    j = Job(B.plane(pl), 100, tool_diameter=3, unit=IMPERIAL if g("u") else METRIC,
            precision=P.precision([o for o, _ in case["h"]]), **kw)
    for o, t in case["h"]:
        j = P.call(j, o, pl, tool_of(t))
    if g("o"):
        sc = case["sc"]
        w = S.wire(B.outline([case["o"], {"scale": sc, "rot": 17, "dx": 3.3, "dy": -81.5}]), -2 * sc, B.plane(pl))
        tabs = {None: None, "W": WireTabs(count=3, width=.7 * sc, height=sc), "E": EdgeTabs(spacing=2.1 * sc, width=.7 * sc, height=sc)}[case["tab"]]
        j = j.wire_profile(w, offset=case["off"], stepdown=.9 * sc, tabs=tabs)
    text = j.to_gcode()
    try:
        tr = run(text)
    except MachineError as e:
        r.fail(f"the controller rejects the program: {e}")
        return r
    r.trace(tr)
    frame(r, text, tr, g("c"))
    r.nontrivial = bool(tr.motions)
    r.outcome = hash(text)
    return r


def frame(r, text, tr, coolant):
    # modal groups before the first motion
    lines = text.split("\n")
    first = tr.motions[0].line if tr.motions else len(lines)
    pre = run("\n".join(lines[:first]))
    for grp, want in (("units", None), ("wcs", None), ("path", None), ("plane", "G17"), ("dist", "G90"), ("feedmode", "G94"),
                      ("rcomp", "G40"), ("cycle", "G80")):
        v = pre.final.modal.get(grp)
        if v is None or (want and v != want):
            r.fail(f"{grp} is {v} when the first motion starts")
    if pre.final.modal.get("lcomp") != "G49" and pre.final.tool is None:
        r.fail("length compensation is not cancelled when the first motion starts")
    if pre.final.modal.get("arcdist") == "G90.1":
        r.fail("absolute arc centres")
    f = tr.final
    body = [l for l in lines if l.strip()]
    ends = [k for k, l in enumerate(body) if any(w in ("M2", "M02", "M30") for w in l.split()) and not l.startswith("(")]
    if not f.ended or ends != [len(body) - 1]:
        r.fail(f"program end at blocks {ends} of {len(body)}")
    if f.spindle != "M5":
        r.fail("spindle is not stopped at the end")
    if coolant and f.coolant != "M9":
        r.fail("coolant is not stopped at the end")
    if any(p is not None for p in f.pos):
        r.fail(f"machine is not homed at the end: {f.pos}")
    for grp, want in (("rcomp", "G40"), ("lcomp", "G49"), ("cycle", "G80"), ("dist", "G90")):
        if f.modal.get(grp) != want:
            r.fail(f"{grp} is {f.modal.get(grp)} at the end")
    # every comment stands on a line of its own (checked by the automaton); the
    # program is text only
    if any(ord(c) < 32 and c not in "\n\t" for c in text):
        r.fail("control characters in the program")
