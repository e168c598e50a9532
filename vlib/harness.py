"""Exhaustive exploration harness: shards enumerated cases over processes,
collects measured coverage, writes evidence and replay files."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

from .ast import Acc, Asg, Lit, Seq, Var, Wc, Wrap, render
from .env import SRC, Hang, cpu_budget
from .rng import TooManyRuns

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """Raised by a case function: the property does not hold on this case.
    `key` identifies the failing input/history for the known-findings list."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Stats:
    __slots__ = ("cases", "states", "transitions", "traces", "skipped", "extra", "samples")

    def __init__(self):
        self.cases = self.states = self.transitions = self.traces = self.skipped = 0
        self.extra = {}
        self.samples = []

    def add(self, states=1, transitions=0, traces=1):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


class Space:
    """A finite, completely enumerated space of cases.

    cases(): deterministic iterable; run(case, stats): raises Violation.
    `describe` states alphabet and bound; `cpu` is the budget of one case."""

    def __init__(self, name, describe, cases, run, cpu=90.0, show=None, min_cases=1):
        self.name, self.describe, self.cases, self.run = name, describe, cases, run
        self.cpu = cpu
        self.show = show or show_case
        self.min_cases = min_cases


def show_case(c):
    """Readable text of a case: trees are shown as templates."""
    if isinstance(c, (Lit, Seq, Var, Wc, Acc, Asg, Wrap)):
        return repr(render(c))[:600]
    if isinstance(c, (tuple, list)):
        return "(" + ", ".join(str(show_case(x)) for x in c) + ")"
    return repr(c)[:600]


def run_one(space, case, st):
    try:
        with cpu_budget(space.cpu):
            space.run(case, st)
    except Hang:
        raise Violation(f"no answer within {space.cpu:.0f} s of CPU time (hang)") from None
    except TooManyRuns:
        st.skipped += 1
    except MemoryError:
        raise Violation("memory exhausted") from None
    except Violation:
        raise
    except Exception as e:
        # an error the case did not expect: the code under test raised it, or
        # (no frame of it on the traceback) the harness itself is at fault
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or tb.tb_frame.f_code.co_filename.startswith(SRC)
            tb = tb.tb_next
        if not inside:
            raise
        raise Violation(f"the code under test raised {type(e).__name__}: {e}"[:800]) from None


def _worker(w, n, spaces, q, stop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    try:
        for si, sp in enumerate(spaces):
            st = Stats()
            t0 = time.process_time()
            slow = 0.0
            for i, case in enumerate(sp.cases()):
                if i % n != w:
                    continue
                if stop.is_set():
                    break
                st.cases += 1
                tc = time.process_time()
                try:
                    run_one(sp, case, st)
                except Violation as v:
                    q.put(("viol", si, i, sp.show(case), str(v), v.key))
                    if v.key is None:
                        stop.set()
                        break
                slow = max(slow, time.process_time() - tc)
                if w == 0 and (i == 0 or i == n * 37):
                    st.samples.append(str(sp.show(case))[:300])
            q.put(
                (
                    "stat", si, st.cases, st.states, st.transitions, st.traces,
                    st.skipped, st.extra, st.samples, time.process_time() - t0, slow,
                )
            )
        q.put(("done", w))
    except BaseException:
        q.put(("crash", w, traceback.format_exc()))


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def main(prop, mod, tier, seed, only=None, workers=None):
    t0 = time.time()
    spaces = mod.spaces(tier)
    if only:
        spaces = [s for s in spaces if s.name == only]
    n = workers or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    procs = [
        ctx.Process(target=_worker, args=(w, n, spaces, q, stop), daemon=True)
        for w in range(n)
    ]
    for p in procs:
        p.start()
    tot = {i: [0, 0, 0, 0, 0, {}, [], 0.0, 0.0] for i in range(len(spaces))}
    viols, crash, done = [], None, 0
    dead_since = None
    while done < n and crash is None:
        try:
            m = q.get(timeout=2)
        except Exception:
            alive = [p for p in procs if p.is_alive()]
            if len(alive) + done < n:
                dead_since = dead_since or time.time()
                if time.time() - dead_since > 20:
                    crash = "a worker process died: exit codes %s" % [
                        p.exitcode for p in procs
                    ]
            continue
        dead_since = None
        if m[0] == "viol":
            viols.append(m[1:])
        elif m[0] == "stat":
            t = tot[m[1]]
            for k in range(5):
                t[k] += m[2 + k]
            for k, v in m[7].items():
                t[5][k] = t[5].get(k, 0) + v
            t[6].extend(m[8])
            t[7] += m[9]
            t[8] = max(t[8], m[10])
        elif m[0] == "done":
            done += 1
        else:
            crash = m[2]
    for p in procs:
        if crash:
            p.terminate()
        p.join(timeout=30)
    if crash:
        print("check error:", crash, file=sys.stderr)
        return 2
    known = {e["key"]: e for e in known_findings(prop)}
    fresh = [v for v in viols if v[4] is None or v[4] not in known]
    seen_known = sorted({v[4] for v in viols if v[4] in known})
    if not fresh:
        for i, sp in enumerate(spaces):
            if tot[i][0] < sp.min_cases:
                print(
                    f"check error: space {sp.name} enumerated {tot[i][0]} cases, "
                    f"expected at least {sp.min_cases}",
                    file=sys.stderr,
                )
                return 2
    samples = []
    for i, sp in enumerate(spaces):
        for s in tot[i][6][:2]:
            samples.append(f"{sp.name}: {s}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(t[1] for t in tot.values()),
            "transitions": sum(t[2] for t in tot.values()),
            "traces_validated_against_impl": sum(t[3] for t in tot.values()),
            "cases": sum(t[0] for t in tot.values()),
            "exhaustive": not fresh and all(t[4] == 0 for t in tot.values()),
            "skipped_over_budget": sum(t[4] for t in tot.values()),
            "samples": samples,
            "spaces": [
                {
                    "name": sp.name,
                    "bounds": sp.describe,
                    "cases": tot[i][0],
                    "states": tot[i][1],
                    "transitions": tot[i][2],
                    "traces": tot[i][3],
                    "cpu_s": round(tot[i][7], 1),
                    "slowest_case_cpu_s": round(tot[i][8], 2),
                    **({"counts": tot[i][5]} if tot[i][5] else {}),
                }
                for i, sp in enumerate(spaces)
            ],
            "rule": getattr(mod, "RULE", ""),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if fresh:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        fresh.sort(key=lambda v: (v[0], v[1]))
        for k, (si, idx, case, msg, key) in enumerate(fresh[:5]):
            path = os.path.join(rdir, f"{prop}-{k}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop, "tier": tier, "seed": seed,
                        "space": spaces[si].name, "index": idx, "key": key,
                        "case": str(case), "message": msg,
                        "how": f"bash /verif/check.sh {prop} --replay {path}",
                    },
                    f, indent=1, ensure_ascii=False,
                )
            print(f"  {spaces[si].name}[{idx}] {case}\n    {msg}"[:3000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(
        f"{prop} held: {ev['coverage']['cases']} cases, {ev['coverage']['states']} states, "
        f"{ev['coverage']['transitions']} transitions, "
        f"{ev['coverage']['traces_validated_against_impl']} executions compared, "
        f"{ev['wall_s']} s ({tier})"
    )
    return 0


def replay(prop, mod, path):
    with open(path) as f:
        r = json.load(f)
    for sp in mod.spaces(r["tier"]):
        if sp.name != r["space"]:
            continue
        for i, case in enumerate(sp.cases()):
            if i == r["index"]:
                print("case:", sp.show(case))
                try:
                    run_one(sp, case, Stats())
                except Violation as v:
                    print(v)
                    print(f"VIOLATION property={prop} replay={path}")
                    return 1
                print("the case passes now")
                return 0
    print("case not found", file=sys.stderr)
    return 2
