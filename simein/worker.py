"""A worker process: loads the code under test once, then runs blocks of simulated runs.

Commands arrive as JSON lines on stdin, answers leave as JSON lines on a duplicate of stdout.
"""
import gc
import hashlib
import json
import os
import random
import sys
import time
import traceback


def start():
    from . import boot, corpus

    boot.load()
    corpus.install()
    gc.collect()
    gc.freeze()
    gc.disable()


def rng(*parts):
    return random.Random(":".join(map(str, parts)))


class Stats:
    def __init__(self):
        self.runs = self.nontrivial = self.events = self.sim_ns = 0
        self.switches = 0
        self.faults: dict = {}
        self.hist: set = set()
        self.sched: set = set()
        self.probes: dict = {}
        self.samples: list = []

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def take(self, family, run, scn, rec):
        self.runs += 1
        if rec.get("failed"):
            return
        self.events += rec["events"]
        self.sim_ns += rec["sim_ns"]
        self.switches += len(rec["switches"])
        for f in rec["faults"]:
            self.faults[f[0]] = self.faults.get(f[0], 0) + 1
        for k, n in rec["fired"].items():
            k = {"raise": "callback_raises", "interrupt": "callback_interrupted", "reenter": "callback_reenters",
                 "stall": "thread_stalls", "yield": "yield_in_callback", "gc": "gc_in_callback",
                 "scribble": "caller_overwrites_result"}.get(k, k)
            self.faults[k] = self.faults.get(k, 0) + n
        for what, how, _ in rec["fs"]:
            k = f"disk_{what}_{how}"
            self.faults[k] = self.faults.get(k, 0) + 1
        for k, m in (scn.get("stdio") or {}).items():
            if m != "ok":
                kk = f"std{k}_{m}"
                self.faults[kk] = self.faults.get(kk, 0) + 1
        if scn.get("salt"):
            self.faults["hash_order_changed"] = self.faults.get("hash_order_changed", 0) + 1
        if scn.get("collide"):
            self.faults["hash_collisions_forced"] = self.faults.get("hash_collisions_forced", 0) + 1
        if rec["id_reused"]:
            self.faults["object_id_reused"] = self.faults.get("object_id_reused", 0) + rec["id_reused"]
        if scn.get("clock"):
            self.faults["clock_jump"] = self.faults.get("clock_jump", 0) + 1
        if family.nontrivial(scn, rec):
            self.nontrivial += 1
            key = hashlib.md5(json.dumps([{k: v for k, v in scn.items() if k != "sched"}, rec["h"]],
                                         sort_keys=True).encode()).digest()[:8]
            self.hist.add(key.hex())
        if rec["switches"]:
            self.sched.add(hashlib.md5(repr(rec["switches"]).encode()).hexdigest()[:16])
            self.probe("runs with a thread switch inside an operation")
        outs = [o for o in rec["outcomes"].values() if isinstance(o, tuple) and o]
        self.probe("operations that returned", sum(o[0] != "exc" for o in outs))
        self.probe("operations that raised", sum(o[0] == "exc" for o in outs))
        self.probe("callback calls", sum(rec["ext_n"].values()))
        self.probe("mid-run data checks", rec["mid_checks"])
        self.probe("clock reads by the code under test", rec["clock_reads"])
        hit = family.faulted(rec)
        if hit:
            self.probe("runs in which a failing fault fired")
            later = [k for k in rec["outcomes"] if isinstance(k, tuple) and len(k) == 2
                     and any(k[0] == h[0] and k[1] > h[1] for h in hit)]
            self.probe("operations checked after a fault on the same thread", len(later))
        if len(self.samples) < 1 and self.runs % 7 == 3:
            self.samples.append({"run": run, "scenario": scn, "h": rec["h"], "switches": rec["switches"][:6],
                                 "faults": rec["faults"][:6], "acted": rec["acted"][:6]})

    def dump(self):
        return {"runs": self.runs, "nontrivial": self.nontrivial, "events": self.events, "sim_ns": self.sim_ns,
                "switches": self.switches, "faults": self.faults, "hist": sorted(self.hist),
                "sched": sorted(self.sched), "probes": self.probes, "samples": self.samples}


def run_block(family, seed, block, size, stop):
    """Yields nothing; returns (stats, violation or None)."""
    from . import harness, workload

    stats = Stats()
    hashes = []
    try:
        workload.DECK = (f"{family.id}:{seed}", block, {})
        pool = family.new_pool(rng(family.id, seed, "block", block))
        workload.DECK = None
    except harness.Hangs as e:
        return stats, hang(e), hashes
    for run in range(block * size, block * size + size):
        if time.time() > stop:
            break
        scn = None
        try:
            scn = family.build(rng(family.id, seed, "run", run), pool)
            rec, vs = harness.judge(family, scn)
        except harness.Hangs as e:
            return stats, hang(e), hashes
        stats.take(family, run, scn, rec)
        hashes.append((run, rec.get("h")))
        if vs:
            return stats, {"run": run, "scenario": scn, "class": vs[0][0],
                           "messages": [m for _, m in vs], "h": rec.get("h")}, hashes
    return stats, None, hashes


def hang(e):
    op, scn, why = e.args
    return {"run": -1, "scenario": scn, "class": "progress", "h": None,
            "messages": [f"an operation never completes even alone ({why}): {op}"]}


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # whatever else prints goes to stderr
    from . import checks, harness

    def answer(x):
        out.write(json.dumps(x, default=str) + "\n")
        out.flush()

    try:
        start()
    except BaseException:
        answer({"error": "loading failed:\n" + traceback.format_exc()})
        return 2
    answer({"ready": True})
    for line in sys.stdin:
        cmd = json.loads(line)
        try:
            if cmd["do"] == "block":
                family = checks.FAMILIES[cmd["property"]]
                t0 = time.time()
                stats, bad, hashes = run_block(family, cmd["seed"], cmd["block"], cmd["size"], cmd["stop"])
                answer({"block": cmd["block"], "stats": stats.dump(), "violation": bad, "s": time.time() - t0,
                        "hashes": hashes if cmd.get("hashes") else None,
                        "children": dict(harness.STATS)})
            elif cmd["do"] == "judge":
                family = checks.FAMILIES[cmd["property"]]
                rec, vs = harness.judge(family, cmd["scenario"])
                answer({"h": rec.get("h"), "violations": vs, "switches": rec.get("switches"),
                        "faults": rec.get("faults"), "acted": rec.get("acted"), "fs": rec.get("fs"),
                        "events": rec.get("events")})
            elif cmd["do"] == "shrink":
                family = checks.FAMILIES[cmd["property"]]
                scn, tries = harness.shrink(family, cmd["scenario"], cmd["class"], cmd["seconds"])
                rec, vs = harness.judge(family, scn)
                answer({"scenario": scn, "tries": tries, "h": rec.get("h"), "violations": vs,
                        "switches": rec.get("switches"), "faults": rec.get("faults"),
                        "acted": rec.get("acted"), "fs": rec.get("fs")})
            else:
                break
        except BaseException:
            answer({"error": traceback.format_exc(), "cmd": {k: v for k, v in cmd.items() if k != "scenario"}})
    return 0


if __name__ == "__main__":
    sys.exit(main())
