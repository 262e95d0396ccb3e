"""Solo oracles, running scenarios, verdict plumbing, shrinking - everything that happens in a worker."""
import copy
import json
import random

from . import gen, pool, world

SOLO_CACHE: dict = {}
STATS = {"solo_runs": 0, "children": 0}


def _strip(op):
    return {k: v for k, v in op.items() if k not in ("drop", "expect")}


def solo_scenario(scn, op):
    """The same operation, alone, on objects of its own."""
    used_arrays, used_programs, slots = {}, {}, {}
    names: dict = {}

    def arr(a):
        k = names.setdefault(("a", a), f"a{len(names)}")
        used_arrays[k] = {f: v for f, v in scn["arrays"][a].items() if f != "of"}
        return k

    def slotspec(s):
        s = dict(s)
        k = names.setdefault(("p", s["p"]), f"p{len(names)}")
        used_programs[k] = scn["programs"][s["p"]]
        s["p"] = k
        for f in ("args", "typed"):
            if f in s:
                s[f] = [arr(a) for a in s[f]]
        return s

    def ref(x):
        if isinstance(x, str):
            k = names.setdefault(("s", x), f"s{len(names)}")
            slots[k] = slotspec(scn["slots"][x])
            return k
        return slotspec(x)

    new = _strip(op)
    for f in ("f", "e", "e2"):
        if f in new:
            new[f] = ref(new[f])
    if "args" in new:
        new["args"] = [arr(a) for a in new["args"]]
    out = {"arrays": used_arrays, "programs": used_programs, "slots": slots, "threads": [[new, new]],
           "poison": -100}
    if new["k"] == "save":
        out["fs"] = []
    return out


class Hangs(Exception):
    """An operation does not complete even alone and undisturbed."""


def solo(scn, op, flavour=None):
    """What the operation does alone; with a flavour, also at which events of which code."""
    s = solo_scenario(scn, op)
    key = json.dumps(s, sort_keys=True)
    hits = SOLO_CACHE.get(key)
    if hits is not None:
        if flavour is None:
            return next(iter(hits.values()))
        if flavour in hits:
            return hits[flavour]
    if flavour is None:
        s["threads"] = [s["threads"][0][:1]]
    s["sched"] = {"flavour": flavour or "N"}
    s["watch"] = ["effects"]
    STATS["solo_runs"] += 1
    r = child(s, profile=flavour is not None)
    if r.get("failed"):
        raise Hangs(op, s, r["failed"])
    prof = r["profile"] or {}
    hit = {
        "out": r["outcomes"].get((0, 0)),
        "cold": prof.get((0, 0)),
        "warm": prof.get((0, 1)) or prof.get((0, 0)),
        "locs": r["locs"],
        "ext": r["ext"].get((0, 0), []),
        "ext_n": r["ext_n"].get((0, 0), 0),
        "trace_n": r["trace_n"].get((0, 0), 0),
    }
    if len(SOLO_CACHE) > 3000:
        SOLO_CACHE.clear()
    SOLO_CACHE.setdefault(key, {})[flavour or "N"] = hit
    return hit


def child(scn, profile=False, wall=None):
    STATS["children"] += 1
    try:
        r = pool.in_child(world.execute, scn, profile, wall=wall or pool.WALL)
    except pool.ChildTimeout:
        return {"failed": "timeout"}
    except pool.ChildCrash as e:
        return {"failed": f"crash: {e}"}
    if r["harness"]:
        raise RuntimeError("harness failure inside a simulated thread:\n" + r["harness"])
    return r


def quiet(scn):
    """The scenario without preemptions and faults (to tell a hang apart from a slow workload)."""
    s = copy.deepcopy(scn)
    s["sched"]["points"] = []
    s["faults"] = []
    s["acts"] = []
    return s


def ops_of(scn):
    for tid, ops in enumerate(scn["threads"]):
        for i, op in enumerate(ops):
            yield tid, i, op


def compare(solo_out, out, exact_exc=False):
    """None if the outcome is what the operation yields alone, otherwise a description."""
    a, b = solo_out, out
    if b is None:
        return "operation never completed"
    if a[0] == "stuck":  # too long to judge even alone
        return None
    if b[0] == "stuck":
        return f"operation did not finish: {b[2]}"
    if a[0] == "exc" and b[0] == "exc":
        if exact_exc and a[1] != b[1]:
            return f"raised {b[1]} ({b[2][:100]}), alone it raises {a[1]} ({a[2][:100]})"
        return None
    if a[0] == "exc" or b[0] == "exc" or not world.same(a, b):
        return f"got {world.brief(b)}; alone it yields {world.brief(a)}"
    return None


class Verdict:
    def __init__(self):
        self.items: list = []  # (class, message)

    def add(self, cls, msg):
        self.items.append((cls, msg))


def judge(family, scn):
    """Run one scenario and decide. Returns (record, violations)."""
    rec = child(scn, wall=family.wall)
    if rec.get("failed"):
        import sys

        print("retrying a run that ended with", rec["failed"], json.dumps(scn)[:3000], file=sys.stderr, flush=True)
        STATS["retried"] = STATS.get("retried", 0) + 1
        again = child(scn, wall=family.wall)
        if again.get("failed"):
            base = child(quiet(scn), wall=family.wall)
            note = "neither does it undisturbed" if base.get("failed") else "undisturbed it does"
            return again, [("progress", f"the run never completed ({again['failed']}), {note}")]
        rec = again
    if any(isinstance(o, tuple) and o and o[0] == "stuck" for o in rec["outcomes"].values()):
        # Over the step budget: a violation only if the workload is far below it when undisturbed.
        flavour = scn["sched"].get("flavour", "L")
        for tid, i, op in ops_of(scn):
            try:
                prof = solo(scn, op, flavour)["cold"]
            except Hangs:
                try:
                    solo(scn, op)
                except Hangs:
                    continue
                prof = {"n": 1 << 40}  # it does complete, but not under observation
            if prof and prof["n"] * 8 > scn.get("budget", 3_000_000) or scn.get("collide"):
                STATS["too_long"] = STATS.get("too_long", 0) + 1
                return rec, []
    v = Verdict()
    if rec["deadlock"] and family.progress:
        v.add("progress", "deadlock: " + rec["deadlock"])
    try:
        family.verdict(scn, rec, v)
    except Hangs as e:
        v.add("progress", f"an operation never completes even alone ({e.args[2]}): {e.args[0]}")
    return rec, v.items


# -- shrinking --------------------------------------------------------------------------------------------
def _drop_op(scn, tid, i):
    s = copy.deepcopy(scn)
    del s["threads"][tid][i]

    def fix(o):
        return None if o == i else o - 1 if o > i else o

    pts = []
    for t, o, n in s["sched"].get("points", []):
        if t == tid:
            o = fix(o)
        if o is not None:
            pts.append([t, o, n])
    s["sched"]["points"] = pts
    for key in ("faults", "acts"):
        out = []
        for f in s.get(key, []):
            if f["tid"] == tid:
                o = fix(f["op"])
                if o is None:
                    continue
                f["op"] = o
            out.append(f)
        s[key] = out
    if "peeks" in s:
        out = {}
        for key, ns in s["peeks"].items():
            t, o = map(int, key.split("/"))
            if t == tid:
                o = fix(o)
            if o is not None:
                out[f"{t}/{o}"] = ns
        s["peeks"] = out
    if not s["threads"][tid]:
        return _drop_thread(s, tid)
    return s


def _drop_thread(scn, tid):
    s = copy.deepcopy(scn)
    if len(s["threads"]) == 1:
        return None
    del s["threads"][tid]
    if s["sched"].get("prio"):
        del s["sched"]["prio"][tid]
    s["sched"]["points"] = [[t - (t > tid), o, n] for t, o, n in s["sched"].get("points", []) if t != tid]
    for key in ("faults", "acts"):
        s[key] = [dict(f, tid=f["tid"] - (f["tid"] > tid)) for f in s.get(key, []) if f["tid"] != tid]
    if "peeks" in s:
        out = {}
        for key, ns in s["peeks"].items():
            t, o = map(int, key.split("/"))
            if t != tid:
                out[f"{t - (t > tid)}/{o}"] = ns
        s["peeks"] = out
    return s


def candidates(scn):
    for t in range(len(scn["threads"])):
        c = _drop_thread(scn, t)
        if c is not None:
            yield c
    for t, ops in enumerate(scn["threads"]):
        for i in reversed(range(len(ops))):
            if sum(map(len, scn["threads"])) > 1:
                yield _drop_op(scn, t, i)
    for key in ("points",):
        for i in range(len(scn["sched"].get(key, []))):
            s = copy.deepcopy(scn)
            del s["sched"][key][i]
            yield s
    for key in ("faults", "acts"):
        for i in range(len(scn.get(key, []))):
            s = copy.deepcopy(scn)
            del s[key][i]
            yield s
    if scn.get("peeks"):
        yield dict(copy.deepcopy(scn), peeks={})
        for key, ns in scn["peeks"].items():
            halves = [[], ns[: len(ns) // 2], ns[len(ns) // 2 :]] if len(ns) > 1 else [[]] if ns else []
            for part in halves:
                s = copy.deepcopy(scn)
                s["peeks"][key] = part
                yield s
    if scn.get("collide"):
        yield dict(copy.deepcopy(scn), collide=0)
    for k, p in scn["programs"].items():
        if "ast" in p:
            for ast in gen.shrinks(p["ast"]):
                s = copy.deepcopy(scn)
                s["programs"][k]["ast"] = ast
                yield s
    for k, a in scn["arrays"].items():
        if a.get("lay", "C") != "C" or a.get("sp"):
            s = copy.deepcopy(scn)
            s["arrays"][k] = dict(a, lay="C")
            s["arrays"][k].pop("sp", None)
            yield s


def shrink(family, scn, cls, seconds=45):
    import time

    end = time.monotonic() + seconds
    tries = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for c in candidates(scn):
            if c is None:
                continue
            if time.monotonic() > end:
                break
            tries += 1
            try:
                if not any(True for _ in ops_of(c)):
                    continue
                _, vs = judge(family, c)
            except Exception:
                continue
            if any(k == cls for k, _ in vs):
                scn = c
                improved = True
                break
    # drop what is no longer referenced
    text = json.dumps([scn["threads"], scn.get("acts", [])])
    for k in list(scn["slots"]):
        if f'"{k}"' not in text:
            del scn["slots"][k]
    text += json.dumps(scn["slots"]) + json.dumps([a.get("of") for a in scn["arrays"].values()])
    for key in ("arrays", "programs"):
        for k in list(scn[key]):
            if f'"{k}"' not in text:
                del scn[key][k]
    return scn, tries
