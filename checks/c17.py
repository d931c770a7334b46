"""C17 - saving writes the complete program or reports the failure."""
import builtins
import functools
import io
import itertools
import os
import pathlib
import resource
import shutil
import signal
import tempfile

import cadquery as cq

from mc import build as B
from mc import shapes as S
from mc.engine import Result
from mc.machine import run

ID = "C17"
RULE = ("every case is one save: job (small / several buffers long) x prior content of the file x kind of path x fault; the faults "
        "are a real storage limit at every byte position of the file (torn write), a full device, unusable paths, and "
        "an injected error at every call the save makes on the file (open, each write, flush, close); non-trivial when the "
        "file had content or a fault was injected")
ASSUMPTIONS = ["the file may be left incomplete when the failure is reported"]


@functools.lru_cache(maxsize=None)
def job(kind):
    j = B.job(name="saved", coolant=None)
    if kind == "empty":
        return j
    if kind == "small":
        return j.drill([cq.Vector(1, 2, 0)], depth=1)
    if kind == "unicode":
        return B.job(name="plättchen µ").drill([cq.Vector(1, 2, 0)], depth=1)
    if kind == "lines":
        return B.job(name="two\nlines (and) more").drill([cq.Vector(1, 2, 0)], depth=1)
    if kind == "mid":
        return j.wire_profile(S.wire(S.rect(0, 0, 10, 10), -5), stepdown=.5)
    if kind.startswith("pad:"):      # a program of this many bytes
        # the name is as long as it takes, another digit where the name counts twice
        for x in (1, 11, 1.1):
            one, two = (len(B.job(name=m, coolant=None).drill([cq.Vector(x, 2, 0)], depth=1).to_gcode()) for m in ("n", "nn"))
            k, rest = divmod(int(kind[4:]) - one, max(1, two - one))
            if not rest and k >= 0:
                return B.job(name="n" * (k + 1), coolant=None).drill([cq.Vector(x, 2, 0)], depth=1)
        return B.job(name="n" * max(1, k + 1), coolant=None).drill([cq.Vector(1, 2, 0)], depth=1)
    return j.drill([cq.Vector(x, y, 0) for x in range(20) for y in range(25)], depth=3)   # 30 kB


PRIOR = ("absent", "empty", "shorter", "longer", "much longer", "same", "last byte differs", "crlf")
PATHS = ("str", "path", "relative", "spaces", "bytes")
MODES = ("OSError", "ENOSPC", "MemoryError")


def cases(tier):
    deep = tier == "thorough"
    for k, p, how in itertools.product(("empty", "small", "unicode", "lines", "mid", "large"), PRIOR, PATHS):
        yield {"job": k, "prior": p, "path": how}
    for k, p in itertools.product(("small", "large"), ("dir", "missing dir", "full", "loop", "empty name", "nul")):
        yield {"job": k, "prior": "absent", "path": "str", "bad": p}
    # storage ends after every byte
    for k in ("small", "unicode", "empty", "lines"):
        n = len(job(k).to_gcode().encode())
        for limit, prior in itertools.product(range(0, n + 1), ("absent", "shorter", "longer", "same") if k == "small" or deep else ("absent", "longer")):
            yield {"job": k, "prior": prior, "path": "str", "limit": limit}
    n = len(job("large").to_gcode())
    step = 257 if not deep else 31
    pts = set(range(0, n, step)) | {b + e for b in range(4096, n, 4096) for e in (-1, 0, 1)} | {n - 1, n, 1}
    for limit, prior in itertools.product(sorted(pts), ("absent", "longer")):
        yield {"job": "large", "prior": prior, "path": "str", "limit": limit}
    # every call on the file fails in turn
    for k, step, mode, prior in itertools.product(("small", "mid", "large", "unicode", "empty"), range(0, 16), MODES, ("absent", "longer", "same")):
        yield {"job": k, "prior": prior, "path": "str", "call": step, "mode": mode}
    # lengths around the sizes of buffers
    for b, e in itertools.product((512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20),
                                  range(-20, 21) if not deep else range(-150, 151)):
        yield {"job": f"pad:{b + e}", "prior": "absent", "path": "str"}
    for n in (2_500_000, 9_000_000):
        yield {"job": f"pad:{n}", "prior": "longer", "path": "str"}
    # saved one after the other in the same file
    for a, b in itertools.permutations(("empty", "small", "mid", "large"), 2):
        yield {"job": b, "prior": "absent", "path": "str", "before": a}


class Faulty:
    """a file that fails at the n-th call"""

    def __init__(self, f, counter):
        self.__dict__.update(f=f, c=counter)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        try:
            self.c.hit("close")
        except BaseException:
            self.f.close()
            raise
        return self.f.__exit__(*a)

    def write(self, s):
        self.c.hit("write")
        return self.f.write(s)

    def writelines(self, s):
        for x in s:
            self.write(x)

    def flush(self):
        self.c.hit("flush")
        return self.f.flush()

    def close(self):
        try:
            self.c.hit("close")
        except BaseException:
            self.f.close()
            raise
        return self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __setattr__(self, n, v):
        setattr(self.f, n, v)

    def __iter__(self):
        return iter(self.f)


class Counter:
    def __init__(self, at, mode):
        self.at, self.mode, self.n, self.fired = at, mode, 0, None

    def hit(self, what):
        k, self.n = self.n, self.n + 1
        if k == self.at:
            self.fired = what
            if self.mode == "MemoryError":
                raise MemoryError("injected")
            raise OSError(28 if self.mode == "ENOSPC" else 5, "injected")


def evaluate(case):
    r = Result()
    d = tempfile.mkdtemp(prefix="c17-")
    cwd = os.getcwd()
    try:
        _evaluate(r, case, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return r


def prior_content(kind, want):
    return {"empty": b"", "shorter": b"G0 X1\n", "longer": want + b"\nG1 Z-50 F9999\n", "much longer": b"G1 Z-9 F1\n" * 20000,
            "same": want, "last byte differs": want[:-1] + b"#", "crlf": b"\r\n\r\n" + want}[kind]


def _evaluate(r, case, d):
    j = job(case["job"])
    text = j.to_gcode()
    want = text.encode()
    r.trace(run(text))
    name = os.path.join(d, "sub dir ü (1).nc" if case["path"] == "spaces" else "out.nc")
    if case["prior"] != "absent":
        with open(name, "wb") as f:
            f.write(prior_content(case["prior"], want))
    if case.get("before"):
        job(case["before"]).save_gcode(name)
    arg = name
    how = case["path"]
    if how == "path":
        arg = pathlib.Path(name)
    elif how == "relative":
        os.chdir(d)
        arg = "out.nc"
    elif how == "bytes":
        arg = os.fsencode(name)
    bad = case.get("bad")
    if bad == "dir":
        arg = d
    elif bad == "missing dir":
        arg = os.path.join(d, "nowhere", "out.nc")
    elif bad == "full":
        arg = os.path.join(d, "full")
        os.symlink("/dev/full", arg)
    elif bad == "loop":
        arg = os.path.join(d, "loop")
        os.symlink(arg, arg)
    elif bad == "empty name":
        arg = ""
    elif bad == "nul":
        arg = name + "\0x"
    error = None
    counter = None
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    real_open, real_ioopen = builtins.open, io.open
    try:
        if "limit" in case:
            resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], old[1]))
        if "call" in case:
            counter = Counter(case["call"], case["mode"])

            def opener(file, *a, **k):
                counter.hit("open")
                return Faulty(real_open(file, *a, **k), counter)
            builtins.open = io.open = opener
        try:
            j.save_gcode(arg)
        except Exception as e:     # noqa
            error = e
    finally:
        builtins.open, io.open = real_open, real_ioopen
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, handler)
    got = None
    if os.path.isfile(name):
        with open(name, "rb") as f:
            got = f.read()
    if bad:
        if bad == "full" and error is None and os.path.isfile(arg):
            with open(arg, "rb") as f:
                if f.read() == want:      # the link was replaced by a complete file
                    return
        if error is None:
            r.fail(f"save to a bad path ({bad}) returns normally")
    elif counter is not None and counter.fired:
        if error is None:
            r.fail(f"failure of {counter.fired} (call {case['call']}) is not reported")
    elif "limit" in case and case["limit"] < len(want):
        if error is None:
            r.fail(f"storage ended after {case['limit']} of {len(want)} bytes, save returned normally "
                   f"({len(got or b'')} bytes in the file)")
    elif error is not None:
        r.fail(f"save fails without a fault: {type(error).__name__}: {error}")
    if error is None and not bad and got != want:
        at = next((k for k, (a, b) in enumerate(zip(got or b"", want)) if a != b), min(len(got or b""), len(want)))
        r.fail(f"file differs from the program at byte {at}: {len(got or b'')} bytes instead of {len(want)}")
    r.nontrivial = case["prior"] != "absent" or any(k in case for k in ("bad", "limit", "call", "before"))
    r.outcome = hash((type(error).__name__, counter.fired if counter else None, case.get("limit", -1) < len(want), got == want))
    r.notes = {"failures_reported": int(error is not None), "max_bytes": len(want)}
