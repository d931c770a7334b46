"""Strict RS-274 (3-axis) machine automaton.

The oracle side of every check: it reads program *text* only and knows nothing
about cq_cam.  ``run(program)`` executes the text block by block and yields a
:class:`Trace` holding every motion with the machine state it ran under, or
raises :class:`MachineError` at the first block a conforming controller would
reject.  Arc centres are incremental (G91.1, the controller default), the
active plane is XY.
"""
from __future__ import annotations

import math
import re
from dataclasses import dataclass, field


class MachineError(Exception):
    """The controller would refuse or misinterpret this block."""


WORD = re.compile(r"([A-Z])([+-]?(?:\d+\.?\d*|\.\d+))")

G_GROUP = {
    "G0": "motion", "G1": "motion", "G2": "motion", "G3": "motion", "G80": "cycle",
    "G4": "nonmodal", "G28": "nonmodal", "G30": "nonmodal", "G53": "nonmodal",
    "G17": "plane", "G18": "plane", "G19": "plane",
    "G20": "units", "G21": "units",
    "G40": "rcomp", "G41": "rcomp", "G42": "rcomp",
    "G43": "lcomp", "G49": "lcomp",
    "G50": "smax",
    "G54": "wcs", "G55": "wcs", "G56": "wcs", "G57": "wcs", "G58": "wcs", "G59": "wcs",
    "G61": "path", "G61.1": "path", "G64": "path",
    "G90": "dist", "G91": "dist", "G90.1": "arcdist", "G91.1": "arcdist",
    "G93": "feedmode", "G94": "feedmode", "G95": "feedmode",
    "G96": "smode", "G97": "smode", "G98": "ret", "G99": "ret",
}
M_GROUP = {
    "M0": "stop", "M1": "stop", "M2": "stop", "M30": "stop",
    "M3": "spindle", "M4": "spindle", "M5": "spindle",
    "M6": "change", "M7": "coolant", "M8": "coolant", "M9": "coolant",
}


@dataclass(frozen=True)
class Motion:
    kind: str            # G0 G1 G2 G3
    start: tuple         # (x, y, z), None where unknown
    end: tuple
    feed: float | None
    centre: tuple | None
    section: int         # index of the comment section it belongs to
    line: int
    text: str
    spindle: str | None = None
    speed: float | None = None
    tool: float | None = None
    coolant: str | None = None
    units: str | None = None

    # -- geometry -----------------------------------------------------------
    def sweep(self):
        """signed sweep angle of an arc (CCW positive)"""
        cx, cy = self.centre
        a0 = math.atan2(self.start[1] - cy, self.start[0] - cx)
        a1 = math.atan2(self.end[1] - cy, self.end[0] - cx)
        same = self.start[0] == self.end[0] and self.start[1] == self.end[1]
        if self.kind == "G3":
            d = a1 - a0
            while d <= 0:
                d += 2 * math.pi
            return 2 * math.pi if same else d
        d = a1 - a0
        while d >= 0:
            d -= 2 * math.pi
        return -2 * math.pi if same else d

    def points(self, step=0.1, tol=None):
        """sampled positions along the motion, both ends included"""
        if self.kind in ("G0", "G1"):
            l = math.dist(self.start, self.end)
            n = max(1, math.ceil(l / step))
            return [
                tuple(s + (e - s) * i / n for s, e in zip(self.start, self.end))
                for i in range(n + 1)
            ]
        cx, cy = self.centre
        r0 = math.hypot(self.start[0] - cx, self.start[1] - cy)
        r1 = math.hypot(self.end[0] - cx, self.end[1] - cy)
        sw = self.sweep()
        n = max(2, math.ceil(abs(sw) * max(r0, r1) / step), math.ceil(abs(sw) / 0.2))
        a0 = math.atan2(self.start[1] - cy, self.start[0] - cx)
        out = []
        for i in range(n + 1):
            t = i / n
            r = r0 + (r1 - r0) * t
            a = a0 + sw * t
            out.append((cx + r * math.cos(a), cy + r * math.sin(a),
                        self.start[2] + (self.end[2] - self.start[2]) * t))
        out[-1] = self.end
        return out

    def length(self):
        if self.kind in ("G0", "G1"):
            return math.dist(self.start, self.end)
        cx, cy = self.centre
        r = math.hypot(self.start[0] - cx, self.start[1] - cy)
        return math.hypot(abs(self.sweep()) * r, self.end[2] - self.start[2])


@dataclass
class State:
    modal: dict = field(default_factory=dict)
    pos: tuple = (None, None, None)
    feed: float | None = None
    speed: float | None = None
    spindle: str | None = None
    coolant: str | None = None
    selected: float | None = None
    tool: float | None = None
    h: float | None = None
    ended: bool = False
    homed: int = 0

    def key(self):
        return (tuple(sorted(self.modal.items())), self.feed, self.speed, self.spindle,
                self.coolant, self.selected, self.tool, self.h, self.ended)


@dataclass
class Trace:
    motions: list = field(default_factory=list)
    sections: list = field(default_factory=list)   # comment texts
    events: list = field(default_factory=list)     # (section, line, what, value)
    states: set = field(default_factory=set)
    blocks: int = 0
    final: State | None = None


ARC_TOL = 0.0025     # two coordinates and two offsets, each rounded to 1e-3


def parse_block(raw):
    """-> (comment or None, [(letter, text, value)])"""
    line = raw.strip()
    comment = None
    if "(" in line or ")" in line:
        m = re.fullmatch(r"\(([^()]*)\)", line)
        if not m:
            raise MachineError(f"malformed comment: {raw!r}")
        return m.group(1), []
    if any(ord(c) < 32 or ord(c) > 126 for c in line):
        raise MachineError(f"control or non-ASCII character: {raw!r}")
    words, at = [], 0
    for tok in line.split():
        m = WORD.fullmatch(tok)
        if not m:
            raise MachineError(f"unparsable word {tok!r} in {raw!r}")
        if re.fullmatch(r"[+-]0*\.?0*", m.group(2)) and m.group(2)[0] == "-":
            raise MachineError(f"negative zero {tok!r}")
        words.append((m.group(1), tok, float(m.group(2))))
    return comment, words


def run(program: str, state: State | None = None, strict=True) -> Trace:
    """Execute program text.  strict=False accepts a bare operation body
    (no spindle / unit preamble)."""
    s = state or State()
    tr = Trace()
    section = -1
    for ln, raw in enumerate(program.split("\n")):
        if not raw.strip():
            continue
        tr.blocks += 1
        if s.ended:
            raise MachineError(f"line {ln}: block after program end: {raw!r}")
        comment, words = parse_block(raw)
        if comment is not None:
            section += 1
            tr.sections.append(comment)
            continue
        seen, gs, ms, vals = {}, {}, {}, {}
        for letter, tok, v in words:
            if letter == "G":
                code = "G" + re.sub(r"^0+(?=\d)", "", tok[1:])
                grp = G_GROUP.get(code)
                if grp is None:
                    raise MachineError(f"line {ln}: unknown code {tok}")
                if grp in gs:
                    raise MachineError(f"line {ln}: two {grp} codes: {raw!r}")
                gs[grp] = code
            elif letter == "M":
                code = "M" + re.sub(r"^0+(?=\d)", "", tok[1:])
                grp = M_GROUP.get(code)
                if grp is None:
                    raise MachineError(f"line {ln}: unknown code {tok}")
                if grp in ms:
                    raise MachineError(f"line {ln}: two {grp} codes: {raw!r}")
                ms[grp] = code
            else:
                if letter not in "XYZIJKFSTHP":
                    raise MachineError(f"line {ln}: unknown letter {tok}")
                if letter in vals:
                    raise MachineError(f"line {ln}: duplicate {letter}: {raw!r}")
                vals[letter] = v
        if len(ms) > 4:
            raise MachineError(f"line {ln}: more than four M codes")

        # --- documented order of execution ---------------------------------
        if "feedmode" in gs:
            s.modal["feedmode"] = gs["feedmode"]
        if "F" in vals:
            if not vals["F"] > 0:
                raise MachineError(f"line {ln}: feed rate not positive: {raw!r}")
            s.feed = vals["F"]
        if "S" in vals:
            if vals["S"] < 0:
                raise MachineError(f"line {ln}: negative spindle speed")
            s.speed = vals["S"]
            tr.events.append((section, ln, "S", vals["S"]))
        if "T" in vals:
            if vals["T"] < 0 or vals["T"] != int(vals["T"]):
                raise MachineError(f"line {ln}: bad tool number: {raw!r}")
            s.selected = vals["T"]
        if "change" in ms:
            if s.selected is None:
                raise MachineError(f"line {ln}: M6 without a selected tool")
            if s.spindle in ("M3", "M4"):
                raise MachineError(f"line {ln}: tool change with the spindle running")
            s.tool = s.selected
            s.pos = (None, None, None)
            tr.events.append((section, ln, "M6", s.tool))
        if "spindle" in ms:
            s.spindle = ms["spindle"]
            tr.events.append((section, ln, "spindle", s.spindle))
        if "coolant" in ms:
            s.coolant = ms["coolant"]
            tr.events.append((section, ln, "coolant", s.coolant))
        for grp in ("plane", "units", "rcomp", "lcomp", "wcs", "path", "dist", "arcdist",
                    "smax", "smode", "ret", "cycle"):
            if grp in gs:
                s.modal[grp] = gs[grp]
        if "H" in vals:
            if gs.get("lcomp") != "G43":
                raise MachineError(f"line {ln}: H without G43")
            s.h = vals["H"]
        elif gs.get("lcomp") == "G43":
            raise MachineError(f"line {ln}: G43 without H")
        if gs.get("lcomp") == "G49":
            s.h = None
        axis = [a for a in "XYZ" if a in vals]
        ijk = [a for a in "IJK" if a in vals]
        if "nonmodal" in gs:
            if gs["nonmodal"] in ("G28", "G30"):
                if axis or "motion" in gs:
                    raise MachineError(f"line {ln}: homing with axis words: {raw!r}")
                s.pos = (None, None, None)
                s.homed += 1
                tr.events.append((section, ln, "home", gs["nonmodal"]))
            else:
                raise MachineError(f"line {ln}: unsupported {gs['nonmodal']}")
        if "motion" in gs and not axis:
            raise MachineError(f"line {ln}: motion without axis words: {raw!r}")
        if axis:
            if "motion" not in gs:
                raise MachineError(f"line {ln}: axis words without a motion code: {raw!r}")
            kind = gs["motion"]
            s.modal["motion"] = kind
            if strict and s.modal.get("dist") != "G90":
                raise MachineError(f"line {ln}: motion outside absolute mode")
            if strict and s.modal.get("plane") != "G17":
                raise MachineError(f"line {ln}: motion outside the XY plane")
            if strict and "units" not in s.modal:
                raise MachineError(f"line {ln}: motion before units were chosen")
            end = tuple(vals.get(a, p) for a, p in zip("XYZ", s.pos))
            centre = None
            if kind in ("G0", "G1") and ijk:
                raise MachineError(f"line {ln}: arc words on a linear move: {raw!r}")
            if kind != "G0":
                if any(p is None for p in s.pos):
                    raise MachineError(f"line {ln}: feed move from an unknown position: {raw!r}")
                if s.feed is None:
                    raise MachineError(f"line {ln}: feed move without a feed rate: {raw!r}")
                if strict and s.spindle not in ("M3", "M4"):
                    raise MachineError(f"line {ln}: feed move with the spindle stopped: {raw!r}")
            if kind in ("G2", "G3"):
                if "I" not in vals and "J" not in vals:
                    raise MachineError(f"line {ln}: arc without a centre: {raw!r}")
                if vals.get("K", 0) != 0:
                    raise MachineError(f"line {ln}: K word on an XY arc: {raw!r}")
                centre = (s.pos[0] + vals.get("I", 0), s.pos[1] + vals.get("J", 0))
                r0 = math.hypot(s.pos[0] - centre[0], s.pos[1] - centre[1])
                r1 = math.hypot(end[0] - centre[0], end[1] - centre[1])
                if r0 == 0:
                    raise MachineError(f"line {ln}: zero radius arc: {raw!r}")
                if abs(r0 - r1) > ARC_TOL:
                    raise MachineError(
                        f"line {ln}: arc radius differs from start to end by {abs(r0-r1):.5f}: {raw!r}")
            tr.motions.append(Motion(kind, s.pos, end, s.feed if kind != "G0" else None, centre,
                                     section, ln, raw, s.spindle, s.speed, s.tool, s.coolant,
                                     s.modal.get("units")))
            s.pos = end
        elif ijk:
            raise MachineError(f"line {ln}: arc words without motion: {raw!r}")
        if ms.get("stop") in ("M2", "M30"):
            s.ended = True
        tr.states.add(s.key())
    tr.final = s
    return tr
