"""C13 - numbers in programs are exact to the output resolution."""
import itertools
import re

import cadquery as cq

from cq_cam.tool import Tool
from mc import build as B
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C13"
RULE = ("every case is one value (or pair of values) of a grid around every rounding boundary and magnitude, in one role: "
        "hole coordinate, depth, height, contour corner, arc centre, feed, plunge feed, speed, tool number; the words of the "
        "program are read back character by character; non-trivial always")
ASSUMPTIONS = ["half units themselves may be rounded either way", "feeds and speeds of at least 1e-3"]
WORD = re.compile(r"([A-Z])(-?(?:0|[1-9]\d*)(?:\.\d+)?)")
HALF = 5e-4 + 1e-9


def values(deep):
    base = [0, 1e-12, 1e-7, .0001, .0004, .00049, .0005, .00051, .0006, .001, .0014, .0015, .0016, .01, .0999, .0996,
            .1, .5, .9994, .9995, .9996, .9999, 1, 1.0001, 1.5, 2.675, 9.9994, 9.9996, 10, 12.345, 12.3456, 33.3333333,
            99.9996, 100, 123.4565, 255.5, 999.9994, 999.9996, 1000, 1234.5678, 9999.9995, 12345.6789]
    if deep:
        base += [k * .0001 for k in range(0, 120)] + [1 + k * .00025 for k in range(80)] + [
            10 ** k + e for k in range(0, 6) for e in (-.0006, -.0004, .0004, .0006)] + [10 ** -k for k in range(1, 16)]
    for v in sorted(set(base)):
        yield v
        if v:
            yield -v


def cases(tier):
    deep = tier == "thorough"
    V = list(values(deep))
    for v in V:
        for role in ("x", "y", "rx", "corner", "arc"):
            yield {"role": role, "v": v}
        if v >= 0:
            yield {"role": "depth", "v": v}
            for role in ("feed", "plunge", "speed", "toolspeed", "toolfeed", "rapid", "safe"):
                if v >= 1e-3:
                    yield {"role": role, "v": v}
            if v >= .01:
                yield {"role": "radius", "v": v}
    for v, w in itertools.product(V[::3] if not deep else V[::2], V[1::7]):
        yield {"role": "xy", "v": v, "w": w}
    for t in (0, 1, 2, 9, 10, 99, 100, 255, 1000):
        yield {"role": "toolnumber", "v": t}


def words(r, text):
    """all words, checked for form"""
    out = []
    for line in text.split("\n"):
        if line.startswith("("):
            continue
        for tok in line.split(" "):
            if not tok:
                continue
            m = WORD.fullmatch(tok)
            if not m:
                r.fail(f"malformed word {tok!r} in {line!r}")
                continue
            l, n = m.groups()
            if n.startswith("-") and float(n) == 0:
                r.fail(f"negative zero {tok!r}")
            if l in "XYZIJK" and "." in n and (len(n.split(".")[1]) > 3):
                r.fail(f"more than three decimals: {tok!r}")
            out.append((l, float(n), line))
    return out


def expect(r, got, want, what):
    if not got:
        r.fail(f"no {what} word")
    for g in got:
        if abs(g - want) > HALF + 1e-12 * abs(want):
            r.fail(f"{what} is {g} instead of {want}")


def evaluate(case):
    r = Result()
    v, role = case["v"], case["role"]
    if role in ("x", "y", "xy", "rx"):
        x, y = {"x": (v, 1.5), "y": (-2.25, v), "xy": (v, case.get("w")), "rx": (v, v)}[role]
        pl = B.plane("+X" if role == "rx" else "XY")
        j = B.job(pl).drill([pl.toWorldCoords(cq.Vector(x, y, 0))], depth=1)
        t = j.to_gcode()
        W = words(r, t)
        expect(r, [n for l, n, s in W if l == "X"], x, "X")
        expect(r, [n for l, n, s in W if l == "Y"], y, "Y")
    elif role == "depth":
        j = B.job().drill([cq.Vector(1, 1, 0)], depth=v)
        t = j.to_gcode()
        W = words(r, t)
        zs = [n for l, n, s in W if l == "Z" and s.startswith("G1")]
        if zs or v > 1e-3:
            expect(r, zs, -v, "depth")
    elif role in ("corner", "radius", "arc"):
        if role == "corner":
            w = S.wire(S.poly((v, 0), (v + 10, .3), (v + 2, v + 7), (v - 1, v + 3)), -1)
            pts = [(v, 0), (v + 10, .3), (v + 2, v + 7), (v - 1, v + 3)]
        elif role == "radius":
            w = S.wire(S.circle((1, 2), v), -1)
        else:
            w = S.wire([("L", (v + 3, 1 - v), (v + 3, 7 - v)), ("A", (v + 3, 7 - v), (v, 4 - v), (v + 3, 1 - v))], -1)
        j = B.job().wire_profile(w, offset=0)
        t = j.to_gcode()
        words(r, t)
        tr = run(j.operations[-1].to_gcode(), strict=False)
        ms = [m for m in tr.motions if m.kind != "G0" and m.start[:2] != m.end[:2]]
        if not ms:
            r.fail("nothing cut")
        if role == "corner":
            for p in pts:
                if not any(abs(m.end[0] - p[0]) <= HALF and abs(m.end[1] - p[1]) <= HALF for m in ms):
                    r.fail(f"no move ends at {p}")
            for m in ms:
                if not any(abs(m.end[0] - p[0]) <= HALF and abs(m.end[1] - p[1]) <= HALF for p in pts):
                    r.fail(f"move ends at {m.end}")
        elif role == "arc":
            arcs = [m for m in ms if m.centre]
            if len(arcs) != 1:
                r.fail(f"{len(arcs)} arcs")
            for m in arcs:
                if abs(m.centre[0] - v - 3) > 2 * HALF or abs(m.centre[1] - 4 + v) > 2 * HALF:
                    r.fail(f"arc centre {m.centre} instead of {(v + 3, 4 - v)}")
        else:
            for m in ms:
                if m.centre is None:
                    r.fail(f"circle is not cut with arcs: {m.text}")
                elif max(abs(m.centre[0] - 1), abs(m.centre[1] - 2)) > 2 * HALF or \
                        max(abs((p[0] - 1) ** 2 + (p[1] - 2) ** 2 - v * v) / (2 * v) for p in (m.start, m.end)) > 2 * HALF:
                    r.fail(f"circle of radius {v}: {m.text}")
    elif role == "feed":
        j = B.job(feed=v).wire_profile(S.wire(S.rect(0, 0, 5, 5), -1)).drill([cq.Vector(1, 1, 0)], depth=1)
        t = j.to_gcode()
        expect(r, [n for l, n, s in words(r, t) if l == "F"], v, "F")
    elif role == "plunge":
        j = B.job(plunge_feed=v).drill([cq.Vector(1, 1, 0)], depth=1)
        t = j.to_gcode()
        expect(r, [n for l, n, s in words(r, t) if l == "F"], v, "F")
    elif role in ("rapid", "safe"):
        h = {"rapid_height": v + 5, "op_safe_height": v} if role == "safe" else {"rapid_height": v, "op_safe_height": min(v, 1)}
        j = B.job(**h).wire_profile(S.wire(S.rect(0, 0, 5, 5), -1))
        t = j.to_gcode()
        zs = sorted({n for l, n, s in words(r, t) if l == "Z" and s.startswith("G0")})
        want = sorted({h["rapid_height"], h["op_safe_height"]})
        if max(abs(a - b) for a, b in zip((zs[0], zs[-1]), (want[0], want[-1]))) > HALF:
            r.fail(f"heights {zs} instead of {want}")
    elif role == "speed":
        j = B.job(speed=v).drill([cq.Vector(1, 1, 0)], depth=1)
        t = j.to_gcode()
        expect(r, [n for l, n, s in words(r, t) if l == "S"], v, "S")
    elif role == "toolspeed":
        j = B.job().drill([cq.Vector(1, 1, 0)], depth=1, tool=Tool(3, 4, 50, v))
        t = j.to_gcode()
        expect(r, [n for l, n, s in words(r, t) if l == "S"], v, "S")
    elif role == "toolfeed":
        j = B.job().wire_profile(S.wire(S.rect(0, 0, 5, 5), -1), tool=Tool(3, 4, v))
        t = j.to_gcode()
        expect(r, [n for l, n, s in words(r, t) if l == "F" and "X-" in s and s.split()[0] in ("G2", "G3")], v, "F")
    elif role == "toolnumber":
        j = B.job().drill([cq.Vector(1, 1, 0)], depth=1, tool=Tool(3, v))
        t = j.to_gcode()
        W = words(r, t)
        for l in "TH":
            expect(r, [n for k, n, s in W if k == l], v, l)
    else:
        raise KeyError(role)
    # and the whole program is readable
    r.trace(run(t))
    r.outcome = hash(t)
    return r
