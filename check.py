#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

    check.py C01                 run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
    check.py replay FILE         run a recorded violation again
    check.py hashes C01 N [W]    print the event-log hash of N blocks (determinism proof)
"""
import collections
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("SIMEIN_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
REPLAYS = os.environ.get("SIMEIN_REPLAYS", os.path.join(HERE, "replays"))
EVIDENCE = os.environ.get("SIMEIN_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

sys.path.insert(0, HERE)
from simein.pool import environment  # noqa: E402

REAL = ["ein (all of /repo/ein, loaded from its source files)", "numpy", "torch (CPU)", "jax and XLA (CPU)",
        "networkx", "pydot", "CPython threads, garbage collector and file objects"]
STUB = ["thread scheduler (token passing decided by the scenario)", "clocks and sleep (simulated time)",
        "locks created by ein (simulated)", "builtin id() and hash order as seen by ein",
        "allocation failure, interrupt and stack exhaustion (raised at chosen events)",
        "disk faults (injected around real files in a scratch directory)", "graphviz (external program, stubbed)",
        "stdin, stdout and stderr (recording, failing on demand)"]


class Worker:
    def __init__(self, hashseed, inbox, n):
        self.n, self.hashseed, self.inbox = n, hashseed, inbox
        self.p = subprocess.Popen(
            [PYTHON, "-m", "simein.worker"], cwd=HERE, env=environment(hashseed), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, text=True)
        self.t = threading.Thread(target=self.read, daemon=True)
        self.t.start()

    def read(self):
        for line in self.p.stdout:
            try:
                self.inbox.put((self, json.loads(line)))
            except ValueError:
                self.inbox.put((self, {"error": "unreadable answer: " + line[:200]}))
        self.inbox.put((self, None))

    def send(self, **cmd):
        try:
            self.p.stdin.write(json.dumps(cmd) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def ask(hashseed, timeout, **cmd):
    """One question to a fresh worker process."""
    inbox: queue.Queue = queue.Queue()
    w = Worker(hashseed, inbox, 0)
    try:
        end = time.time() + timeout
        sent = False
        while True:
            _, a = inbox.get(timeout=max(0.1, end - time.time()))
            if a is None:
                return {"error": "worker died"}
            if a.get("ready") and not sent:
                sent = True
                w.send(**cmd)
                continue
            return a
    except queue.Empty:
        return {"error": "no answer in time"}
    finally:
        w.stop()


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def run(prop):
    from simein.checks import BLOCK, FAMILIES

    family = FAMILIES[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = int(os.environ.get("SIMEIN_RUNS", family.quick if tier == "quick" else family.thorough))
    cap = float(os.environ.get("SIMEIN_CAP", 180 if tier == "quick" else 840))
    nw = int(os.environ.get("SIMEIN_WORKERS", min(8, os.cpu_count() or 1)))
    t0 = time.time()
    print(f"{prop}: seed {seed}, tier {tier}, {runs} runs, {nw} workers", flush=True)
    blocks = collections.deque(range((runs + BLOCK - 1) // BLOCK))
    inbox: queue.Queue = queue.Queue()
    ws = [Worker(family.hashseeds[i % len(family.hashseeds)], inbox, i) for i in range(nw)]
    busy: dict = {}
    total = collections.Counter()
    faults, probes = collections.Counter(), collections.Counter()
    hist, sched, samples, errors = set(), set(), [], []
    bad = None
    loaded = None
    unreproduced = 0
    dead = 0
    children = collections.defaultdict(dict)
    stop = t0 + cap

    def give(w):
        if blocks and time.time() < stop:
            n = blocks.popleft()
            busy[w] = n
            w.send(do="block", property=prop, seed=seed, block=n, size=BLOCK, stop=stop)
        else:
            busy.pop(w, None)

    known = known_findings(prop)
    reported = set()
    try:
        pending = nw
        while pending or busy:
            try:
                w, a = inbox.get(timeout=max(1.0, stop + 240 - time.time()))
            except queue.Empty:
                errors.append("workers stopped answering")
                break
            if a is None:
                dead += 1
                errors.append("a worker died")
                break
            if a.get("ready"):
                pending -= 1
                loaded = loaded or time.time()
                give(w)
                continue
            if a.get("error"):
                errors.append(a["error"])
                break
            st = a["stats"]
            for k in ("runs", "nontrivial", "events", "sim_ns", "switches"):
                total[k] += st[k]
            faults.update(st["faults"])
            probes.update(st["probes"])
            hist.update(st["hist"])
            sched.update(st["sched"])
            if len(samples) < 3:
                samples += st["samples"]
            children[w.n] = a["children"]
            v = a["violation"]
            if v:
                hit = [i for i, (rx, _) in enumerate(known)
                       if all(rx.search(m) for m in v["messages"])]
                if hit:
                    reported.update(hit)
                else:
                    v["worker"] = w.hashseed
                    r = confirm(prop, family, seed, v)
                    if r is not None:
                        bad = r
                        break
                    unreproduced += 1
            give(w)
    finally:
        for w in ws:
            w.stop()
    wall = time.time() - t0
    sim_wall = max(0.001, time.time() - (loaded or t0))
    for i, (_, what) in enumerate(known):
        print(f"KNOWN-FINDING: property={prop} {what}")
    distinct = len(hist)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
        "violations": 1 if bad else 0,
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": distinct,
            "rule": family.rule,
            "samples": [json.loads(json.dumps(s, default=str)) for s in samples[:3]],
            "runs_per_hour": int(total["runs"] / sim_wall * 3600),
            "seeds_per_hour": int(total["runs"] / sim_wall * 3600),
            "seed_meaning": f"run r of VERIF_SEED s is generated from the integer seed of Random('{prop}:s:run:r'); "
                            f"its programs and data come from the pool of its block of {BLOCK} runs",
            "oracle_runs": sum(c.get("solo_runs", 0) for c in children.values()),
            "simulated_time_s": round(total["sim_ns"] / 1e9, 3),
            "simulated_events": total["events"],
            "faults_fired": dict(sorted(faults.items())),
            "thread_switches": total["switches"],
            "distinct_interleavings": len(sched),
            "interleaving_measure": "distinct sequences of (from thread, operation, code location, to thread) switches",
            "probes": dict(sorted(probes.items())),
            "hash_seeds": list(family.hashseeds),
            "truncated_by_time": bool(blocks) and not bad,
            "alarms_not_reproduced": unreproduced,
            "components_real": REAL, "components_stubbed": STUB,
        },
        "assumptions": [
            "thread switches happen only at line, bytecode or call boundaries of ein's own code; numpy, torch and XLA calls are atomic",
            "the oracle for an operation is the same operation run alone on the same code in a fresh process",
            "a clean batch is evidence over the sampled runs, not a proof",
        ],
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    print(f"{prop}: {total['runs']} runs in {wall:.0f} s, {distinct} distinct non-trivial, {len(sched)} interleavings, "
          f"faults {dict(sorted(faults.items()))}, switches {total['switches']}, not reproduced {unreproduced}", flush=True)
    if bad:
        print("\n".join("  " + m for m in bad["messages"][:6]))
        print(f"VIOLATION property={prop} replay={bad['path']}", flush=True)
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors), file=sys.stderr)
        return 2
    if not total["runs"]:
        print("ERROR: nothing was run", file=sys.stderr)
        return 2
    return 0


def confirm(prop, family, seed, v):
    """Reproduce in a fresh process, minimise, write the replay file, replay that; None if not reproducible."""
    hs = v["worker"]
    original = v["scenario"]
    for _ in range(3):
        a = ask(hs, 400, do="judge", property=prop, scenario=original)
        if any(k == v["class"] for k, _ in a.get("violations") or ()):
            break
    else:
        print(f"{prop}: run {v['run']} looked like a violation but did not reproduce: {v['messages'][:1]}", flush=True)
        return None
    best = {"scenario": original, "h": a["h"], "violations": a["violations"], "detail": a}
    if v["class"] != "progress" or a.get("h") is not None:
        s = ask(hs, 300, do="shrink", property=prop, scenario=original, seconds=40, **{"class": v["class"]})
        if any(k == v["class"] for k, _ in s.get("violations") or ()):
            b = ask(hs, 400, do="judge", property=prop, scenario=s["scenario"])
            if any(k == v["class"] for k, _ in b.get("violations") or ()) and b["h"] == s["h"]:
                best = {"scenario": s["scenario"], "h": b["h"], "violations": b["violations"], "detail": b}
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{seed}-{v['run']}.json")
    with open(path, "w") as f:
        json.dump({
            "property": prop, "seed": seed, "run": v["run"], "hashseed": hs, "class": v["class"],
            "messages": [m for _, m in best["violations"]], "h": best["h"],
            "trace": {k: best["detail"].get(k) for k in ("switches", "faults", "acted", "fs")},
            "scenario": best["scenario"], "unminimised": original,
        }, f, indent=1)
    return {"path": path, "messages": [m for _, m in best["violations"]]}


def replay(path):
    with open(path) as f:
        r = json.load(f)
    a = ask(r["hashseed"], 600, do="judge", property=r["property"], scenario=r["scenario"])
    if a.get("error"):
        print(a["error"], file=sys.stderr)
        return 2
    same = a["h"] == r["h"]
    print(f"event log {'identical' if same else 'differs'} ({a['h']}); switches {a['switches']}; "
          f"faults {a['faults']}; callbacks {a['acted']}; disk {a['fs']}")
    vs = a["violations"]
    for _, m in vs:
        print("  " + m)
    if any(k == r["class"] for k, _ in vs):
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0


def hashes(prop, n, nw):
    """Event-log hashes of the first n blocks, for comparing executions."""
    from simein.checks import BLOCK

    inbox: queue.Queue = queue.Queue()
    hs = int(os.environ.get("SIMEIN_HASHSEED", "0"))
    ws = [Worker(hs, inbox, i) for i in range(nw)]
    todo = list(range(n))
    out = {}
    left = n
    try:
        while left:
            w, a = inbox.get(timeout=900)
            if a is None or a.get("error"):
                print(a, file=sys.stderr)
                return 2
            if a.get("hashes") is not None:
                out.update({r: h for r, h in a["hashes"]})
                left -= 1
            if todo:
                w.send(do="block", property=prop, seed=int(os.environ.get("VERIF_SEED", "1")), block=todo.pop(0),
                       size=BLOCK, stop=time.time() + 9999, hashes=True)
    finally:
        for w in ws:
            w.stop()
    for r in sorted(out):
        print(r, out[r])
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "hashes":
        sys.exit(hashes(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 4))
    sys.exit(run(a[0]))
