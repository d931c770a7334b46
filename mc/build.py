"""Turns JSON-able cases into calls of the public API."""
from __future__ import annotations

import functools
import math

import cadquery as cq
from cq_cam import IMPERIAL, METRIC, Job

from mc import shapes as S
from mc.machine import run as run_machine

PLANES = S.planes()


@functools.lru_cache(maxsize=None)
def plane(name):
    return PLANES[name]


def fresh_plane(name):
    return S.planes()[name]


# outlines of the alphabet, plus derived ones -----------------------------
def named(name):
    if ":" in name:
        return S.numbered(name)
    return S.OUTLINES[name] if name in S.OUTLINES else S.MORE[name]


def outline(spec):
    """name | [name, {rev, start, rot, scale, dx, dy, noise}] | raw loop"""
    if isinstance(spec, str):
        return named(spec)
    name, mod = spec
    lp = named(name) if isinstance(name, str) else [
        tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in s) for s in name]
    if mod.get("scale"):
        k = mod["scale"]
        lp = [(s[0], (s[1][0] * k, s[1][1] * k), s[2] * k) if s[0] == "C" else
              (s[0],) + tuple((p[0] * k, p[1] * k) for p in s[1:]) for s in lp]
    if mod.get("rot"):
        lp = S.rot(lp, mod["rot"])
    if mod.get("dx") or mod.get("dy"):
        lp = S.shift(lp, mod.get("dx", 0), mod.get("dy", 0))
    if mod.get("rev"):
        lp = S.reverse(lp)
    if mod.get("start"):
        lp = S.startat(lp, mod["start"])
    if mod.get("noise"):
        lp = noisy(lp, *mod["noise"])
    return lp


def noisy(lp, gap, p):
    """float noise on the corners. p < 1000: only corner p // 4, towards side p % 4; else pattern p - 1000 on all corners"""
    at = {}

    def moved(q):
        if not isinstance(q, tuple):
            return q
        i = at.setdefault((round(q[0], 6), round(q[1], 6)), len(at))
        if p >= 1000:
            a, k = 2.399963 * (i + 1) * (p - 999) + p, gap * (1 + (i * 7 + p) % 5) / 5
        else:
            a, k = math.pi / 2 * (p % 4), gap if i == p // 4 else 0
        return q[0] + k * math.cos(a), q[1] + k * math.sin(a)
    return [s if s[0] == "C" else (s[0],) + tuple(moved(q) for q in s[1:]) for s in lp]


def job(pl="XY", feed=100, dia=3, **kw):
    if kw.get("unit") == "in":
        kw["unit"] = IMPERIAL
    elif kw.get("unit") == "mm":
        kw["unit"] = METRIC
    return Job(plane(pl) if isinstance(pl, str) else pl, feed, tool_diameter=dia, **kw)


def body(job_, k=-1):
    """machine trace of one operation's text"""
    return run_machine(job_.operations[k].to_gcode(), strict=False)


def program(job_):
    return run_machine(job_.to_gcode())
