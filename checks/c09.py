"""C09 - pockets clear everything the tool can reach."""
import itertools

import numpy as np

from checks import c08
from mc import build as B
from mc import oracle as O
from mc import pockets as K
from mc.engine import Result

ID = "C09"
RULE = ("the pocket space of C08 restricted to stepovers up to the tool radius, plus narrow channels and small "
        "stepovers; the program is executed and (1) every wall point of the region the tool centre can be in has to lie "
        "on the path, (2) every grid point of that region has to be within a tool radius of the path; "
        "non-trivial when something is cut")
ASSUMPTIONS = c08.ASSUMPTIONS + [
    "stepover of at most the tool radius: wider ones leave ridges between the rings by construction",
    "channels exactly as wide as the tool are excluded (region of zero width)",
]


def cases(tier):
    deep = tier == "thorough"
    for c in itertools.chain(c08.base(deep), c08.offsets(deep), c08.avoid(deep), c08.several(deep), c08.planes(deep),
                             c08.sizes(deep), c08.many(deep), c08.counts(deep), c08.noise(deep), c08.thin(deep)):
        s = c.get("so")
        if s is None or (isinstance(s, list) and s[0] * c["dia"] / 2 + s[1] <= c["dia"] / 2) or \
                (not isinstance(s, list) and s <= 1):
            yield c
    # channels just wider than the tool, every stepover fraction
    for dia, so in itertools.product((3.7, 3.75, 3.79, 3.9, 4.4, 4.5, 4.55, 4.7, 5.2), (.1, .25, .5, .75, 1)):
        for o in ("neck", "comb", "U"):
            yield {"areas": [[o, [], 2]], "dia": dia, "so": so}
    for dia, so in itertools.product((1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 6, 7, 7.9), (.05, .1, .2, .35, .6, .85, 1)):
        if so * dia >= .1:
            yield {"areas": [["rect", [], 1]], "dia": dia, "so": so}
            yield {"areas": [["hex", [], 1]], "dia": dia, "so": so}


def evaluate(case):
    r = Result()
    s = K.Scenario(case)
    if not s.valid():
        r.nontrivial = False
        r.outcome = "invalid"
        return r
    tr = B.body(s.run())
    r.trace(tr)
    ms = K.cutting(tr.motions)
    r.nontrivial = bool(ms)
    k = case["areas"][0][0][4] if isinstance(case["areas"][0][0], list) and len(case["areas"][0][0]) > 4 else 1
    checked = 0
    for z in sorted({-d for _, _, d in s.areas}, reverse=True):
        at = [m for m in ms if max(m.start[2], m.end[2]) <= z + 6e-4]
        E = s.edge(z, .35 * k)
        if len(E):
            # skip slivers thinner than the tolerance
            fat = np.zeros(len(E), bool)
            for i in range(8):
                a = np.pi * i / 4
                fat |= s.excess(E + (.05 * k + 3 * s.tol) * np.array([np.cos(a), np.sin(a)]), z) < -(.01 * k + 2 * s.tol)
            E = E[fat]
        if len(E):
            checked += len(E)
            d = O.path_distance(at, E)
            j = d.argmax()
            if d[j] > s.tol + 1e-3:
                r.fail(f"wall at ({E[j][0]:.3f}, {E[j][1]:.3f}, {z}) is not finished: path is {d[j]:.4f} away")
        G = s.grid(max(.12 * s.dia, .2 * k))
        if len(G):
            G = G[s.excess(G, z) < -(.01 * k + 2 * s.tol)]
        if len(G):
            checked += len(G)
            d = O.path_distance(at, G)
            j = d.argmax()
            if d[j] > s.r + s.tol + 1e-3:
                r.fail(f"material left at ({G[j][0]:.3f}, {G[j][1]:.3f}, {z}): path is {d[j]:.4f} away, radius {s.r}")
    r.notes = {"points": checked}
    r.outcome = hash((len(ms), checked))
    return r
