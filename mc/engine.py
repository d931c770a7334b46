"""Bounded exhaustive explorer.

A check module declares

    ID, RULE, ASSUMPTIONS
    cases(tier)      -> iterable of JSON-able cases: the whole bounded space
    evaluate(case)   -> Result: executes the real code on the case, runs the
                        program it produced on the machine automaton and
                        compares with the oracle

The engine evaluates *every* case (no sampling, no time cap below the
watchdog), over all cores, and writes the evidence.  A case that never returns,
exhausts its memory or kills the interpreter is a violation as well: no program
was produced for an input of the domain.
"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait

from mc.machine import MachineError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM = 3 << 30
CASE_TIMEOUT = 90
MAX_REPORT = 10
STOP_AFTER = 40          # violations after which the rest is not explored any more


class Result:
    """What one explored case showed."""

    def __init__(self):
        self.violations = []     # texts
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcome = None      # digest of what was observed
        self.nontrivial = True
        self.notes = None

    def fail(self, text):
        if len(self.violations) < 5:
            self.violations.append(text)

    def trace(self, tr):
        """account one program executed on the machine automaton"""
        self.traces += 1
        self.transitions += tr.blocks
        for m in tr.motions:
            self.states.add(hash((m.end, m.kind, m.feed, m.tool, m.speed, m.coolant, m.units)))
        for s in tr.states:
            self.states.add(hash(s))


class Refused(Exception):
    pass


class _Timeout(BaseException):
    pass


def _from_repo(tb):
    return any("/cq_cam/" in f.filename for f in traceback.extract_tb(tb))


def _evaluate(mod, case):
    """-> (kind, payload); kind in ok / broken"""
    # processor time, so that the load of the machine doesn't count, and only
    # while the code under test runs; the rest of a case may take three times longer
    limit = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)

    def onalarm(_, frame):
        while frame is not None:
            if "/cq_cam/" in frame.f_code.co_filename:
                raise _Timeout()
            frame = frame.f_back
        if time.process_time() - began > 3 * limit:
            raise _Timeout()
    began = time.process_time()
    signal.signal(signal.SIGPROF, onalarm)
    # repeated: the code under test has bare except clauses
    signal.setitimer(signal.ITIMER_PROF, limit, 3)
    try:
        r = mod.evaluate(case)
        return "ok", r
    except _Timeout:
        r = Result()
        r.fail("no program within the time limit (does not terminate?)")
        return "ok", r
    except MemoryError:
        r = Result()
        r.fail("no program: memory exhausted")
        return "ok", r
    except MachineError as e:
        r = Result()
        r.fail(f"the controller does not accept the program: {e}")
        return "ok", r
    except Exception as e:
        if _from_repo(e.__traceback__):
            r = Result()
            last = [f for f in traceback.extract_tb(e.__traceback__) if "/cq_cam/" in f.filename][-1]
            r.fail(f"operation failed on a valid input: {type(e).__name__}: {str(e)[:200]} "
                   f"({os.path.basename(last.filename)})")
            return "ok", r
        return "broken", traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(modname, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(modname)
    states = set()
    while True:
        msg = conn.recv()
        if msg is None:
            break
        for i, case in msg:
            conn.send(("start", i))
            kind, r = _evaluate(mod, case)
            if kind == "broken":
                conn.send(("broken", i, r))
                continue
            new = r.states - states
            states |= new
            conn.send(("done", i, r.violations, r.transitions, r.traces, r.outcome,
                       r.nontrivial, r.notes))
        conn.send(("idle",))
    conn.send(("states", states))
    conn.close()


class _W:
    def __init__(self, ctx, modname):
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(modname, child), daemon=True)
        self.p.start()
        child.close()
        self.todo = []
        self.current = None
        self.since = time.time()

    def give(self, batch):
        self.todo = [i for i, _ in batch]
        self.current = None
        self.since = time.time()
        self.conn.send(batch)


def explore(modname, mod, tier, progress=False):
    t0 = time.time()
    setup = getattr(mod, "setup", None)
    if setup:
        setup(tier)
    cases = list(mod.cases(tier))
    cases = list({json.dumps(c, sort_keys=True): c for c in cases}.values())   # distinct cases only
    n = len(cases)
    # interleave: the expensive cases are usually neighbours
    order = list(range(n))
    nproc = int(os.environ.get("MC_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    batch_size = max(1, min(64, n // (nproc * 12) or 1))
    pending = [[(i, cases[i]) for i in order[k::max(1, -(-n // batch_size))]]
               for k in range(max(1, -(-n // batch_size)))] if n else []
    pending.reverse()
    out = {"transitions": 0, "traces": 0, "states": set(), "outcomes": set(), "nontrivial": 0,
           "done": 0, "violations": [], "notes": {}}
    # code under test that hangs without using the processor, or in native code
    limit = 3 * getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT) + 20
    workers = [_W(ctx, modname) for _ in range(min(nproc, max(1, len(pending))))]
    live = list(workers)
    for w in live:
        if pending:
            w.give(pending.pop())
        else:
            w.conn.send(None)
    broken = None
    stop = False

    def lost(w, why):
        """the worker died or hung in native code while running a case"""
        nonlocal stop
        w.p.kill()
        w.p.join()
        live.remove(w)
        if w.current is not None:
            out["violations"].append((w.current, why))
            out["done"] += 1
            if w.current in w.todo:
                w.todo.remove(w.current)
        if w.todo:
            pending.append([(i, cases[i]) for i in w.todo])
        if pending and not stop:
            nw = _W(ctx, modname)
            live.append(nw)
            nw.give(pending.pop())

    while live:
        ready = wait([w.conn for w in live], timeout=5)
        now = time.time()
        for w in list(live):
            if w.conn in ready:
                try:
                    while w.conn.poll():
                        msg = w.conn.recv()
                        if msg[0] == "start":
                            w.current, w.since = msg[1], time.time()
                        elif msg[0] == "done":
                            _, i, viol, tn, tc, oc, nt, notes = msg
                            w.todo.remove(i)
                            w.current = None
                            out["done"] += 1
                            out["transitions"] += tn
                            out["traces"] += tc
                            out["nontrivial"] += bool(nt)
                            if oc is not None:
                                out["outcomes"].add(oc)
                            for k, v in (notes or {}).items():
                                if isinstance(v, (int, float)) and not k.startswith("max"):
                                    out["notes"][k] = out["notes"].get(k, 0) + v
                                else:
                                    out["notes"][k] = max(out["notes"].get(k, v), v)
                            for v in viol:
                                out["violations"].append((i, v))
                            if len({i for i, _ in out["violations"]}) >= STOP_AFTER:
                                stop = True
                        elif msg[0] == "broken":
                            w.todo.remove(msg[1])
                            w.current = None
                            broken = broken or (msg[1], msg[2])
                        elif msg[0] == "idle":
                            if pending and not stop and broken is None:
                                w.give(pending.pop())
                            else:
                                w.conn.send(None)
                        elif msg[0] == "states":
                            out["states"] |= msg[1]
                            w.p.join()
                            live.remove(w)
                            break
                except (EOFError, OSError):
                    if w in live:
                        lost(w, "the interpreter died (crash or out of memory) on this input")
            elif w.current is not None and now - w.since > limit:
                lost(w, "no program within the time limit (hangs in native code)")
                if len(out["violations"]) >= 8:
                    stop = True
    if broken is not None and not out["violations"]:
        print(f"HARNESS-ERROR case {json.dumps(cases[broken[0]])}\n{broken[1]}", file=sys.stderr)
        raise SystemExit(2)
    extra = getattr(mod, "finish", None)
    if extra:
        for case, text in extra(tier, out) or []:
            out["violations"].append((case, text))
    return cases, out, time.time() - t0


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """listed genuine defects: `finding: property=<id> case=<json> <text>`"""
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: ") and f"property={prop} " in line:
                rest = line.split("case=", 1)[1]
                case, at = json.JSONDecoder().raw_decode(rest)
                found.append((case, rest[at:].strip()))
    return found


def main(prop, argv):
    modname = f"checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv[:1] == ["--replay"]:
        case = json.load(open(argv[1]))["case"]
        kind, r = _evaluate(mod, case)
        if kind == "broken":
            print(r)
            return 2
        for v in r.violations:
            print(v)
        return 1 if r.violations else 0
    cases, out, wall = explore(modname, mod, tier)
    known = known_findings(prop)
    seen_known, new = [], []
    for i, text in out["violations"]:
        case = cases[i] if isinstance(i, int) else i
        hit = next((t for c, t in known if c == json.loads(json.dumps(case))), None)
        if hit is not None:
            if hit not in seen_known:
                seen_known.append(hit)
        else:
            new.append((i, case, text))
    for t in seen_known:
        print(f"KNOWN-FINDING: property={prop} {t}")
    # simplest first: the space is enumerated simplest first
    new.sort(key=lambda v: v[0] if isinstance(v[0], int) else 1 << 60)
    rdir = os.path.join(VERIF, "replays")
    shown, lines = set(), []
    for i, case, text in new:
        key = json.dumps(case, sort_keys=True)
        if key in shown or len(shown) >= MAX_REPORT:
            continue
        shown.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{len(shown)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "observed": text,
                       "replay": f"bash {VERIF}/run.sh {prop} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {text}")
        print(f"  case: {json.dumps(case)[:600]}")
    step = max(1, len(cases) // 4)
    samples = [cases[i] for i in range(0, len(cases), step)][:4]
    complete = out["done"] == len(cases)
    cov = {
        "states": len(out["states"]),
        "transitions": out["transitions"],
        "traces_validated_against_impl": out["traces"],
        "samples": samples,
        "evaluations": out["done"],
        "distinct_nontrivial": out["nontrivial"],
        "distinct_outcomes": len(out["outcomes"]),
        "rule": mod.RULE,
        "exhaustive": complete,
    }
    cov.update({k: (round(v, 6) if isinstance(v, float) else v) for k, v in out["notes"].items()})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {out['done']}/{len(cases)} cases, {len(out['states'])} states, "
          f"{out['transitions']} transitions, {out['traces']} programs, "
          f"{len(out['outcomes'])} outcomes, {wall:.1f} s, violations {len(new)}")
    if not new and not complete:
        print("HARNESS-ERROR: space not completed", file=sys.stderr)
        return 2
    if not new and out["nontrivial"] < min(2, len(cases)):
        print("HARNESS-ERROR: vacuous exploration", file=sys.stderr)
        return 2
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2:]))
