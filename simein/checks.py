"""One family of scenarios and one oracle per property."""
import json
import random
from collections import Counter

from . import corpus, gen, harness, workload
from .harness import compare, ops_of, solo
from .workload import Builder, call_op, failing, pick_args, pick_backend, pick_program, place, tags_of

BLOCK = 48  # consecutive runs that share a pool of programs and data

EVALUATING = ("call", "eval", "interp", "derive")


class Family:
    id = "?"
    quick = 3000
    thorough = 40000
    wall = 40.0
    rule = "?"
    progress = True
    watch: tuple = ()
    want: tuple = ()
    avoid: tuple = ()
    jax = 0.02
    p_gen = 0.35
    p_naive = 0.05
    zero = 0.05
    misfit = 0.06
    peeks = 12
    programs = 7
    flavours = ("L", "L", "L", "L", "L", "L", "I", "F")
    hashseeds = (0,)

    token = 0
    lean = None

    def new_pool(self, r):
        self.token = r.randint(0, 1 << 40)
        self.lean = {0: "naive", 1: "naive", 2: "torch"}.get(self.token % 16)  # some blocks favour one backend
        out = []
        for p, variants in self.pool(r):
            if not self.light(p, variants):
                variants = [pick_args(r, p, small=True, zero=self.zero) for _ in variants]
                if not self.light(p, variants):
                    p = {"name": r.choice(workload.corpus_names(self.want, self.avoid))}
                    variants = [pick_args(r, p, small=True, zero=self.zero) for _ in variants]
            out.append((p, variants))
        return out

    @staticmethod
    def light(p, variants):
        """Leaves out the few programs and data whose printing or evaluation takes very many steps."""
        if "ast" not in p and not any(d > 9 for v in variants for a in v for d in a["sh"]):
            return True
        b = Builder(None)
        pk = b.add_program(p)
        ops = [{"k": "pp", "e": {"kind": "open", "p": pk, "args": b.add_args(variants[0])}, "which": "phi"}]
        ops += [{"k": "call", "f": {"kind": "fn", "p": pk}, "args": b.add_args(v), "be": "numpy"} for v in variants]
        b.scn["threads"] = [ops]
        b.scn["sched"] = {"flavour": "L"}
        rec = harness.child(b.scn)
        return not rec.get("failed") and rec["events"] < 60_000 * (1 + len(variants))

    # -- pools --------------------------------------------------------------------------------------
    def pool(self, r):
        out = []
        known = round(self.programs * (1 - self.p_gen))
        for k in range(self.programs):
            if k < known:
                p = {"name": workload.draw(r, workload.corpus_names(self.want, self.avoid), known)}
            else:
                p = pick_program(r, self.want, self.avoid, 1.0)
            out.append((p, [pick_args(r, p, zero=self.zero, misfit=self.misfit) for _ in range(3)]))
        return out

    # -- helpers ------------------------------------------------------------------------------------
    def combos(self, p, args):
        """The two ways (style, backend) in which this block evaluates this program on these arguments:
        few, so that reference executions and profiles can be reused between runs."""
        q = random.Random(json.dumps([self.token, p, args]))
        out = []
        for _ in range(2):
            be = self.backend(q, p, args)
            style = q.choice(("call", "call", "call", "closed", "open"))
            if be == "naive" and style == "call":
                style = q.choice(("closed", "open"))
            if style == "call":
                if be == "numpy" and q.random() < 0.15:
                    be = "auto"
                elif be == "torch" and q.random() < 0.3:
                    be = "tensor"
            out.append((style, be))
        return out

    def backend(self, r, p, args):
        be = pick_backend(r, p, jax=self.jax, naive=not large(args), p_naive=self.p_naive)
        if self.lean and be in ("numpy", "torch") and not (self.lean == "naive" and large(args)) and r.random() < 0.8:
            be = self.lean
        return be

    def eval_op(self, b, p, args, shared=None):
        """An evaluation of program p; shared: slots to reuse between threads."""
        r = b.r
        pk = b.add_program(p)
        style, be = r.choice(self.combos(p, args))
        names = b.add_args(args)
        if style == "call":
            spec = {"kind": "fn", "p": pk}
            if r.random() < 0.06:
                spec["typed"] = names
            f = spec if shared is None else self.share(b, shared, ("fn", pk), spec)
            return {"k": "call", "f": f, "args": names, "be": be}
        spec = {"kind": style, "p": pk, "args": names}
        e = spec if shared is None else self.share(b, shared, (style, pk, tuple(names)), spec)
        if style == "closed":
            return {"k": "eval", "e": e, "be": be}
        op = {"k": "interp", "e": e, "be": be}
        if json.dumps(args)[-5] in "02468":
            op["via"] = "eval"
        if r.random() < 0.03:
            op["missing"] = True
        return op

    def share(self, b, shared, key, spec):
        if key not in shared:
            shared[key] = b.add_slot(spec)
        return shared[key]

    def print_op(self, b, p, args, shared):
        pk = b.add_program(p)
        names = b.add_args(args)
        style = b.r.choice(("closed", "open"))
        spec = {"kind": style, "p": pk, "args": names}
        e = self.share(b, shared, (style, pk, tuple(names)), spec)
        return {"k": "pp", "e": e, "which": b.r.choice(("phi", "phi", "yarr", "graph", "str", "type"))}

    def schedule(self, b, flavour=None, npoints=None):
        """Random priorities and preemption points inside operations."""
        r, scn = b.r, b.scn
        flavour = flavour or r.choice(self.flavours)
        n = len(scn["threads"])
        prio = list(range(1, n + 1))
        r.shuffle(prio)
        scn["sched"] = {"flavour": flavour, "prio": prio, "points": []}
        if {"data", "settings"} & set(scn.get("watch", ())):
            self.observe(b, flavour)
        if n == 1:
            return
        k = npoints if npoints is not None else r.choice((1, 1, 2, 2, 3, 4, 6))
        pts = set()
        for _ in range(k):
            tid = r.randrange(n)
            i = r.randrange(len(scn["threads"][tid]))
            if r.random() < 0.06:
                pts.add((tid, i, 0))
                continue
            s = solo(scn, scn["threads"][tid][i], flavour)
            prof = s["cold"] if i == 0 or r.random() < 0.5 else s["warm"]
            at = place(r, prof, s["locs"])
            if at is not None:
                pts.add((tid, i, at))
        scn["sched"]["points"] = [list(p) for p in sorted(pts)]

    def observe(self, b, flavour):
        """Instants inside operations at which an observer (another thread) looks at the caller's data
        or the process-wide settings."""
        r, scn = b.r, b.scn
        scn["peeks"] = {}
        for tid, i, op in ops_of(scn):
            if op["k"] in EVALUATING + ("pp", "save"):
                s = solo(scn, op, flavour)
                at = {place(r, s["cold" if i == 0 or r.random() < 0.7 else "warm"], s["locs"])
                      for _ in range(self.peeks)}
                scn["peeks"][f"{tid}/{i}"] = sorted(n for n in at if n)

    def add_fault(self, b, tid, i, kinds=("interrupt", "interrupt", "recursion", "alloc"), warm=False):
        r, scn = b.r, b.scn
        kind = r.choice(kinds)
        s = solo(scn, scn["threads"][tid][i], "F")
        prof = s["warm"] if warm and r.random() < 0.7 else s["cold"]
        held = sorted({k for k in kinds if (prof or {"guard": {}})["guard"].get(k)})
        if held and r.random() < 0.4:  # where an error may be held up
            kind = r.choice(held)
            d = prof["guard"][kind]
            d = d[r.choice(sorted(d))]
            at = r.choice(d[r.choice(sorted(d))])
        else:
            at = place(r, prof, s["locs"], kind if kind != "gc" else "all")
        if at is not None:
            scn["faults"].append({"kind": kind, "tid": tid, "op": i, "n": at})

    def faulted(self, rec):
        """(tid, op) -> kinds of disturbing faults that actually fired."""
        out: dict = {}
        for f in rec["faults"]:
            if f[0] in ("interrupt", "recursion", "alloc"):
                out.setdefault((f[1], f[2]), []).append(f[0])
        for do, tid, op, _at in rec["acted"]:
            if do in ("raise", "interrupt"):
                out.setdefault((tid, op), []).append("callback")
        return out

    def compare_all(self, scn, rec, v, cls="outcome", skip=()):
        hit = self.faulted(rec)
        for tid, i, op in ops_of(scn):
            if op["k"] in skip:
                continue
            out = rec["outcomes"].get((tid, i))
            s = solo(scn, op)
            if (tid, i) in hit:
                if out is None or out[0] == "stuck":
                    v.add("progress", f"thread {tid} operation {i} did not finish after a fault")
                elif out[0] != "exc" and compare(s["out"], out) is not None:
                    v.add(cls, f"thread {tid} operation {i} ({describe(scn, op)}) returned wrong data "
                               f"after {hit[(tid, i)]}: {compare(s['out'], out)}")
                continue
            d = compare(s["out"], out)
            if d is not None:
                v.add(cls, f"thread {tid} operation {i} ({describe(scn, op)}): {d}")

    def problems(self, rec, v, kind):
        for k, m in rec["problems"]:
            if k == kind:
                v.add(kind, m)

    def nontrivial(self, scn, rec):
        return bool(rec["switches"] or rec["faults"] or rec["acted"])

    def make(self, b, pool):
        raise NotImplementedError

    def build(self, r, pool):
        b = Builder(r)
        b.scn["watch"] = list(self.watch)
        self.make(b, pool)
        return b.scn


def large(args):
    """Too much for the reference backend, which works element by element."""
    return any(d > 9 for a in args for d in a["sh"])


def describe(scn, op):
    def prog(ref):
        s = scn["slots"][ref] if isinstance(ref, str) else ref
        p = scn["programs"][s["p"]]
        return p.get("name", "generated program")

    k = op["k"]
    if k == "call":
        return f"call {prog(op['f'])} on {op['be']}"
    if "e" in op:
        return f"{k} {prog(op['e'])} {op.get('be', op.get('which', ''))}"
    return k


def twin(r, pool):
    """Adds to a pool two programs that differ in a single detail."""
    for _ in range(6):
        p = pick_program(r, (), (), 1.0)
        q = gen.sibling(p["ast"], r)
        if q is not None:
            variants = [pick_args(r, p) for _ in range(3)]
            pool += [(p, variants), (dict(p, ast=q, twin=True), variants)]
            return


class Isolation(Family):
    id = "C01"
    quick, thorough = 960, 60000
    rule = '2-3 simulated threads each run 1-3 operations (calls of shared decorated functions, evaluations of shared or private programs, interpretation in a shared environment, printing); priorities and 1-6 preemption points inside operations are sampled over code locations. Non-trivial: a thread switch inside an operation, or a yield in a callback, took place.'

    def make(self, b, pool):
        r, scn = b.r, b.scn
        nt = r.choice((2, 2, 2, 3))
        arch = r.choice(("function", "function", "program", "env", "mixed", "mixed", "private"))
        shared: dict = {}
        if arch in ("function", "program", "env"):
            p, variants = r.choice(pool)
            for _ in range(nt):
                ops = []
                for _ in range(r.choice((1, 1, 2, 3))):
                    args = variants[0] if arch != "function" or r.random() < 0.5 else r.choice(variants)
                    pk = b.add_program(p)
                    be = self.backend(r, p, args)
                    if arch == "function":
                        f = self.share(b, shared, pk, {"kind": "fn", "p": pk})
                        ops.append(call_op(b, f, b.add_args(args), be))
                    else:
                        names = b.add_args(args)
                        kind = "closed" if arch == "program" else "open"
                        e = self.share(b, shared, (kind, pk), {"kind": kind, "p": pk, "args": names})
                        if arch == "program":
                            ops.append({"k": "eval", "e": e, "be": be} if r.random() < 0.8 else
                                       {"k": "pp", "e": e, "which": r.choice(("phi", "yarr", "graph"))})
                        else:
                            ops.append({"k": "interp", "e": e, "be": be})
                scn["threads"].append(ops)
        else:
            sh = shared if arch == "mixed" else None
            two = r.sample(pool, 2)
            for _ in range(nt):
                ops = []
                for _ in range(r.choice((1, 1, 2))):
                    p, variants = r.choice(two)
                    if r.random() < 0.1:
                        ops.append(self.print_op(b, p, r.choice(variants), shared))
                    else:
                        ops.append(self.eval_op(b, p, r.choice(variants), sh))
                scn["threads"].append(ops)
        if r.random() < 0.2:
            scn["salt"] = r.randint(1, 1 << 30)
        for tid, i, op in ops_of(scn):  # callbacks are where real threads change hands most often
            s = solo(scn, op)
            if s.get("ext_n") and r.random() < 0.5:
                scn["acts"].append({"tid": tid, "op": i, "at": f"ext{r.randrange(s['ext_n'])}", "do": "yield"})
            if s.get("trace_n") and r.random() < 0.3:
                scn["acts"].append({"tid": tid, "op": i, "at": f"trace{r.randrange(s['trace_n'])}", "do": "yield"})
        self.schedule(b)

    def verdict(self, scn, rec, v):
        self.compare_all(scn, rec, v)


class FailureAtomicity(Family):
    id = "C02"
    quick, thorough = 1152, 60000
    rule = '1-2 threads; in each, one operation is hit by an interrupt, stack exhaustion, allocation failure, failing callback or numpy floating-point trap at a sampled event, then the same object and others are used again and compared with fresh executions. Non-trivial: a fault fired or an operation raised.'
    jax = 0.02

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = 1 if r.random() < 0.75 else 2
        p, variants = r.choice(pool)
        q, qvariants = r.choice(pool)
        for t in range(nt):
            ops = []
            if r.random() < 0.35:
                ops.append(self.eval_op(b, p, r.choice(variants), shared))
            mode = r.random()
            victim = self.eval_op(b, p, r.choice(variants), shared)
            at = len(ops)
            ops.append(victim)
            if r.random() < 0.15:
                ops.append(dict(victim))
            # afterwards: the same object again, and unrelated work
            again = dict(victim)
            ops.append(again)
            if r.random() < 0.6:
                ops.append(self.eval_op(b, q, r.choice(qvariants), shared))
            if r.random() < 0.4:
                ops.append(self.eval_op(b, p, r.choice(variants), shared))
            if r.random() < 0.15:
                ops.append(self.print_op(b, p, variants[0], shared))
            scn["threads"].append(ops)
            s = solo(scn, victim)
            hook = []
            if s.get("ext_n"):
                hook.append(f"ext{r.randrange(s['ext_n'])}")
            if s.get("trace_n"):
                hook.append(f"trace{r.randrange(s['trace_n'])}")
            if hook and mode < 0.45:
                scn["acts"].append(failing(r, t, at, r.choice(hook), True))
            elif mode < 0.9:
                self.add_fault(b, t, at, warm=at > 0)
                if r.random() < 0.15:
                    self.add_fault(b, t, min(at + 1, len(ops) - 1), warm=True)
            else:
                victim["err"] = True  # the caller asked numpy to raise on floating point errors
        if nt == 2:
            self.schedule(b, "F")
        else:
            scn["sched"] = {"flavour": "F"}

    def verdict(self, scn, rec, v):
        self.compare_all(scn, rec, v)

    def nontrivial(self, scn, rec):
        return bool(self.faulted(rec)) or any(o[0] == "exc" for o in rec["outcomes"].values()
                                              if isinstance(o, tuple) and o)


class CallerData(Family):
    id = "C03"
    quick, thorough = 912, 60000
    rule = '1-2 threads evaluate programs on arrays of many layouts, some read-only, broadcast or strided, with faults; every array, its base, every environment mapping and every earlier result is compared byte for byte inside callbacks, at thread switches and after each operation; the caller also overwrites results and re-evaluates. Non-trivial: at least two such comparisons.'
    watch = ("data",)
    p_gen = 0.4
    programs = 8
    jax = 0.0

    def sweep(self, b):
        """Many evaluations of many programs, one after the other: wide instead of deep."""
        r, scn = b.r, b.scn
        ops = []
        for name in r.sample(workload.corpus_names(self.want, self.avoid + ("slow",)), 14):
            p = {"name": name}
            for _ in range(r.choice((1, 2))):
                args = pick_args(r, p, big=0, zero=0.03, misfit=0.02, small=True)
                pk, names = b.add_program(p), b.add_args(args)
                be = r.choice(("numpy", "numpy", "numpy", "torch"))
                ops.append({"k": "call", "f": {"kind": "fn", "p": pk}, "args": names, "be": be}
                           if r.random() < 0.7 else
                           {"k": "interp", "e": {"kind": "open", "p": pk, "args": names}, "be": be})
        scn["threads"].append(ops)
        scn["sched"] = {"flavour": "N", "prio": [1], "points": []}

    def make(self, b, pool):
        r, scn = b.r, b.scn
        if r.random() < 0.2:
            return self.sweep(b)
        shared: dict = {}
        nt = r.choice((1, 1, 1, 2))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3, 4))):
                p, variants = r.choice(pool)
                ops.append(self.eval_op(b, p, r.choice(variants), shared))
                if r.random() < 0.25:
                    ops.append(dict(ops[-1]))
            if nt == 1 and r.random() < 0.4:
                j = r.randrange(1, len(ops) + 1)
                again = [dict(o) for o in ops[:j]]
                ops[j:j] = [{"k": "scribble"}] + again
            scn["threads"].append(ops)
        if r.random() < 0.45:
            for t in range(nt):
                i = r.randrange(len(scn["threads"][t]))
                if scn["threads"][t][i]["k"] in EVALUATING:
                    self.add_fault(b, t, i, kinds=("interrupt", "alloc", "recursion"))
            self.schedule(b, "F")
        else:
            self.schedule(b)

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "data")
        for tid, i, op in ops_of(scn):  # an argument that may not be written to is as good as any other
            out = rec["outcomes"].get((tid, i))
            if op["k"] in EVALUATING and out and out[0] == "exc" and solo(scn, op)["out"][0] == "exc":
                free = {k: {f: x for f, x in a.items() if (f, x) != ("lay", "R")} for k, a in scn["arrays"].items()}
                if free != scn["arrays"] and solo(dict(scn, arrays=free), op)["out"][0] != "exc":
                    v.add("data", f"thread {tid} operation {i} ({describe(scn, op)}) fails because an argument "
                                  f"is read-only: {harness.world.brief(out)}")
        if rec["fired"].get("scribble") and len(scn["threads"]) == 1:
            hit = self.faulted(rec)
            seen = False
            for tid, i, op in ops_of(scn):
                if op["k"] == "scribble":
                    seen = True
                elif seen and (tid, i) not in hit:
                    d = compare(solo(scn, op)["out"], rec["outcomes"].get((tid, i)))
                    if d is not None:
                        v.add("data", f"after the caller wrote into an earlier result, operation {i} "
                                      f"({describe(scn, op)}): {d}")

    def nontrivial(self, scn, rec):
        return rec["mid_checks"] > 1


class History(Family):
    id = "C04"
    quick, thorough = 912, 50000
    rule = 'one caller, 3-8 operations on shared decorated functions and programs with varying shapes, kinds, backends; dropped arrays, collections at sampled events, reused object identities, clock jumps; each result compared with the operation run alone in a fresh process. Non-trivial: two or more evaluations.'
    programs = 5
    jax = 0.03

    def pool(self, r):
        out = []
        for _ in range(self.programs):
            if not out:  # with large data, which is told apart by identity
                p = {"name": workload.draw(r, workload.corpus_names((), ("nobig",)))}
            elif r.random() < 0.25:
                p = {"name": r.choice(workload.corpus_names(("poly",)))}
            else:
                p = {"name": workload.draw(r, workload.corpus_names(), 3)}
            big = 1.0 if not out else 0.05
            out.append((p, [pick_args(r, p, big=big) for _ in range(5)]))
        twin(r, out)
        return out

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        mine = r.sample(pool, r.choice((1, 1, 2)))
        if "twin" in pool[-1][0] and r.random() < 0.5:
            mine = pool[-2:]
        identity = r.random() < 0.2  # many short-lived programs, whose identities get reused
        if identity and r.random() < 0.6:
            mine = pool[:1]
        ops = []
        changing = not identity and r.random() < 0.3  # the caller reuses its argument arrays
        for _ in range(r.choice((3, 4, 5, 6, 8)) if r.random() < 0.93 else r.choice((14, 20, 30))):
            p, variants = r.choice(mine)
            args = r.choice(variants)
            x = r.random()
            pk = b.add_program(p)
            drop = identity or r.random() < (0.1 if changing else 0.6)
            if identity:
                x = 0.7 + x * 0.3
            names = b.add_args(args, fresh=drop)
            if changing and not drop and len(set(names)) == len(names) and r.random() < 0.5:
                names = [b.add_array(dict(scn["arrays"][n], s=r.randint(0, 3), of=n))
                         if scn["arrays"][n].get("lay", "C") in "CFSTN" and r.random() < 0.7 else n
                         for n in names]
            be = self.backend(r, p, args)
            if x < 0.72:
                spec = {"kind": "fn", "p": pk}
                if r.random() < 0.1:
                    spec["typed"] = names
                f = self.share(b, shared, pk, spec)
                op = call_op(b, f, names, be)
                if op["be"] == "numpy" and r.random() < 0.2:
                    op["be"] = "auto"
                elif op["be"] == "torch" and r.random() < 0.3:
                    op["be"] = "tensor"
            elif x < 0.84:
                op = {"k": "eval", "e": {"kind": "closed", "p": pk, "args": names}, "be": be}
            elif x < 0.94:
                op = {"k": "interp", "e": {"kind": "open", "p": pk, "args": names}, "be": be}
            else:
                op = {"k": "pp", "e": {"kind": "closed", "p": pk, "args": names},
                      "which": r.choice(("phi", "yarr", "graph"))}
            if drop and be != "jax":
                op["drop"] = sorted(set(names))
            ops.append(op)
            if r.random() < 0.15:
                ops.append({"k": "gc"})
        scn["threads"] = [ops]
        scn["sched"] = {"flavour": "F"}
        scn["watch"] = ["retain"]
        if r.random() < 0.3:
            i = r.randrange(len(ops))
            if ops[i]["k"] != "gc":
                self.add_fault(b, 0, i, kinds=("gc",))
        if r.random() < 0.25:
            i = r.randrange(len(ops))
            scn["clock"] = {"jumps": [[0, i, r.randint(1, 4000), r.choice((-1, 1)) * r.choice((10**9, 3600 * 10**9, 10**15))]]}

    def verdict(self, scn, rec, v):
        self.compare_all(scn, rec, v)

    def nontrivial(self, scn, rec):
        return sum(op["k"] in EVALUATING for op in scn["threads"][0]) >= 2


class HashOrder(Family):
    id = "C05"
    quick, thorough = 2400, 50000
    rule = '1-3 evaluations with the enumeration order of sets of symbols and terms permuted by a salt, forced hash collisions and 8 interpreter hash seeds, compared with the unpermuted execution. Non-trivial: some evaluation returned.'
    p_gen = 0.5
    p_naive = 0.15
    zero = 0.1
    misfit = 0.2
    programs = 9
    jax = 0.02
    hashseeds = (0, 1, 2, 3, 17, 101, 4242, 99991)

    def make(self, b, pool):
        r, scn = b.r, b.scn
        ops = []
        for _ in range(r.choice((1, 1, 2, 3))):
            p, variants = r.choice(pool)
            ops.append(self.eval_op(b, p, r.choice(variants), None))
        scn["threads"] = [ops]
        scn["sched"] = {"flavour": "F"}
        scn["salt"] = r.randint(1, 1 << 40)
        scn["collide"] = r.choice((0, 0, 0, 0, 3, 5, 9))

    def verdict(self, scn, rec, v):
        self.compare_all(scn, rec, v)

    def nontrivial(self, scn, rec):
        return any(o and o[0] != "exc" for o in rec["outcomes"].values())


class SymbolNames(Family):
    id = "C06"
    quick, thorough = 1248, 60000
    rule = '2-3 threads create and print symbols and programs concurrently, with preemption between bytecodes and faults while naming. Non-trivial: a switch or a fault took place.'
    flavours = ("I", "I", "L", "F")
    avoid = ("fails",)
    watch = ("names",)

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((2, 2, 3))
        for _ in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3))):
                x = r.random()
                if x < 0.75:
                    ops.append({"k": "sym", "names": "".join(r.choice("VVVIII0123vi") for _ in range(r.randint(1, 6)))
                                + ("x" * r.choice((1, 1, 4)) if r.random() < 0.05 else "")
                                + (r.choice("XY") if r.random() < 0.002 else "")})
                else:
                    p, variants = r.choice(pool)
                    ops.append(self.print_op(b, p, variants[0], shared))
            scn["threads"].append(ops)
        self.schedule(b, npoints=r.choice((1, 2, 3, 4, 6, 8)))
        if scn["sched"]["flavour"] == "F" and r.random() < 0.6:
            t = r.randrange(nt)
            self.add_fault(b, t, r.randrange(len(scn["threads"][t])), kinds=("interrupt", "recursion"))

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "names")
        hit = self.faulted(rec)
        for tid, i, op in ops_of(scn):
            if op["k"] == "sym" and (tid, i) not in hit and (rec["outcomes"].get((tid, i)) or "exc")[0] == "exc":
                v.add("names", f"printing symbols failed (thread {tid} operation {i}): "
                               f"{harness.world.brief(rec['outcomes'].get((tid, i)))}")
            if op["k"] == "pp" and (tid, i) not in hit:
                d = compare(solo(scn, op)["out"], rec["outcomes"].get((tid, i)))
                if d is not None and op["which"] == "phi":
                    v.add("names", f"printing program (thread {tid} operation {i}): {d}")


class Reentrancy(Family):
    id = "C07"
    quick, thorough = 1920, 50000
    rule = '1-2 threads evaluate programs whose callbacks or traced bodies start nested evaluations of the same or other objects. Non-trivial: a nested evaluation ran.'
    jax = 0.0
    programs = 6

    def pool(self, r):
        out = []
        for k in range(self.programs):
            if k < 4:
                x = r.random()
                p = ({"name": workload.draw(r, workload.corpus_names(("ext",)), 2)} if k < 2 else
                     pick_program(r, ("ext",), (), 0.5) if x < 0.6 else
                     pick_program(r, (), ("fails",), 1.0) if x < 0.8 else {"name": "traced"})
            else:
                p = pick_program(r, (), (), 0.3)
            out.append((p, [pick_args(r, p) for _ in range(3)]))
        return out

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        p, variants = r.choice(pool[:4])
        nt = 1 if r.random() < 0.7 else 2
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3))):
                ops.append(self.eval_op(b, p, r.choice(variants), shared))
            scn["threads"].append(ops)
        for tid, i, op in list(ops_of(scn)):
            s = solo(scn, op)
            spots = [f"ext{k}" for k in range(min(s.get("ext_n", 0), 6))]
            spots += [f"trace{k}" for k in range(min(s.get("trace_n", 0), 3))] * 2
            if not spots:
                continue
            for _ in range(r.choice((1, 1, 2))):
                x = r.random()
                if x < 0.45:
                    sub = dict(r.choice(scn["threads"][tid]))
                elif x < 0.65:
                    sub = self.eval_op(b, p, r.choice(variants), shared)
                else:
                    q, qv = r.choice(pool)
                    sub = self.eval_op(b, q, r.choice(qv), shared)
                scn["acts"].append({"tid": tid, "op": i, "at": r.choice(spots), "do": "reenter", "sub": sub})
        if nt == 2:
            self.schedule(b)
        else:
            scn["sched"] = {"flavour": "L"}

    def verdict(self, scn, rec, v):
        self.compare_all(scn, rec, v)
        for key, subs in rec["outcomes"].items():
            if key[0] != "sub":
                continue
            for op, out in subs:
                d = compare(solo(scn, op)["out"], out)
                if d is not None:
                    v.add("outcome", f"evaluation nested in a callback of thread {key[1]} operation {key[2]} "
                                     f"({describe(scn, op)}): {d}")

    def nontrivial(self, scn, rec):
        return rec["reentered"] > 0


class Effects(Family):
    id = "C08"
    quick, thorough = 1536, 50000
    rule = '1-2 threads evaluate, print and trace programs with extrinsic callbacks; calls are logged with digests of their arguments; callbacks fail, evaluations are interrupted. Non-trivial: a callback was called.'
    watch = ("effects",)
    want = ("ext",)
    jax = 0.0
    p_gen = 0.5

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((1, 1, 2))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3, 4))):
                p, variants = r.choice(pool)
                args = r.choice(variants)
                x = r.random()
                if x < 0.15:
                    ops.append(self.print_op(b, p, args, shared))
                elif x < 0.25:
                    pk = b.add_program(p)
                    f = self.share(b, shared, ("fn", pk), {"kind": "fn", "p": pk})
                    ops.append({"k": "phi", "f": f, "args": b.add_args(args)})
                else:
                    ops.append(self.eval_op(b, p, args, shared))
            scn["threads"].append(ops)
        x = r.random()
        if x < 0.6:
            cands = [(t, i, op) for t, i, op in ops_of(scn) if op["k"] in EVALUATING]
            if cands:
                t, i, op = r.choice(cands)
                s = solo(scn, op)
                if x < 0.35 and s.get("ext_n"):
                    scn["acts"].append(failing(r, t, i, f"ext{r.randrange(s['ext_n'])}"))
                else:
                    self.add_fault(b, t, i, kinds=("interrupt", "alloc", "gc"))
        self.schedule(b, "F")

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "effects")
        hit = self.faulted(rec)
        for tid, i, op in ops_of(scn):
            log = rec["ext"].get((tid, i), [])
            out = rec["outcomes"].get((tid, i))
            s = solo(scn, op)
            if op["k"] not in EVALUATING:
                if log:
                    v.add("effects", f"{len(log)} callback calls during {describe(scn, op)}, "
                                     f"which evaluates nothing")
                continue
            have, want = Counter(map(repr, log)), Counter(map(repr, s["ext"]))
            where = f"thread {tid} operation {i} ({describe(scn, op)})"
            bounds = self.bounds(scn, op)
            if bounds and len(log) > bounds[1]:
                v.add("effects", f"{where}: {len(log)} callback calls, but the program makes at most {bounds[1]}")
            if (tid, i) in hit:
                if have - want:
                    v.add("effects", f"{where}: callbacks called more often than alone, after a fault")
                if "callback" in hit[(tid, i)]:
                    at = [a for a in rec["acted"] if a[1:3] == (tid, i) and a[0] == "raise"][0][3]
                    n = rec["ext_n"].get((tid, i), 0)
                    if out is None or out[0] != "exc" or out[3] != "same object":
                        v.add("effects", f"{where}: the exception of a failing callback did not reach the "
                                         f"caller unchanged ({harness.world.brief(out)})")
                    elif n != int(at[3:]) + 1:
                        v.add("effects", f"{where}: {n} callback calls although call number {at[3:]} failed")
                continue
            if have != want:
                v.add("effects", f"{where}: {len(log)} callback calls, alone {len(s['ext'])} "
                                 f"(or with other arguments)")
            if bounds and len(log) < bounds[0] and out is not None and out[0] not in ("exc", "stuck"):
                v.add("effects", f"{where}: {len(log)} callback calls, but the program makes {bounds[0]}")

    def bounds(self, scn, op):
        """How many calls the program makes, whatever the code did in the run alone."""
        ref = op.get("f", op.get("e"))
        if op["k"] == "derive" or op.get("missing") or op["be"] == "jax":
            return None
        slot = scn["slots"][ref] if isinstance(ref, str) else ref
        p = scn["programs"][slot["p"]]
        args = op["args"] if op["k"] == "call" else slot["args"]
        return corpus.expected_calls(p.get("name"), [scn["arrays"][a] for a in args], op["be"])

    def nontrivial(self, scn, rec):
        return any(rec["ext"].values())


class Stdio(Family):
    id = "C09"
    quick, thorough = 1248, 30000
    rule = '1-2 threads evaluate and print with standard streams that record, fail, are closed, full or absent; file descriptors 0 and 1 are captured too; some faults. Every run is non-trivial.'
    jax = 0.12

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        scn["stdio"] = {
            "out": r.choice(("ok", "broken", "closed", "full", "none")),
            "err": r.choice(("ok", "ok", "broken", "full", "none")),
            "in": r.choice(("ok", "broken", "none")),
        }
        if r.random() < 0.3:
            scn["warn"] = r.choice(("default", "always"))
        nt = r.choice((1, 1, 1, 2))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2, 3))):
                p, variants = r.choice(pool)
                if r.random() < 0.15:
                    ops.append(self.print_op(b, p, r.choice(variants), shared))
                else:
                    ops.append(self.eval_op(b, p, r.choice(variants), shared))
            scn["threads"].append(ops)
        if r.random() < 0.35:
            t = r.randrange(nt)
            i = r.randrange(len(scn["threads"][t]))
            if scn["threads"][t][i]["k"] in EVALUATING:
                self.add_fault(b, t, i)
            self.schedule(b, "F")
        else:
            self.schedule(b)

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "stdio")
        bad = any(m in ("broken", "closed", "full", "none") for m in scn["stdio"].values())
        if bad:
            self.compare_all(scn, rec, v, cls="stdio")

    def nontrivial(self, scn, rec):
        return True


class Retention(Family):
    id = "C10"
    quick, thorough = 1248, 50000
    rule = '1-2 threads evaluate on arrays, programs and functions that their owners then drop, with faults at sampled events; weak references must die. Every run is non-trivial.'
    watch = ("retain",)
    jax = 0.0

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((1, 1, 1, 2))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3))):
                p, variants = r.choice(pool)
                args = r.choice(variants)
                pk = b.add_program(p)
                x = r.random()
                if x < 0.5:
                    names = b.add_args(args, fresh=True)
                    f = self.share(b, shared, pk, {"kind": "fn", "p": pk})
                    op = call_op(b, f, names, r.choice(("numpy", "numpy", "torch", "auto")))
                    op["drop"] = sorted(set(names))
                elif x < 0.65:
                    names = b.add_args(args, fresh=True)
                    op = {"k": "eval", "e": {"kind": "closed", "p": pk, "args": names},
                          "be": r.choice(("numpy", "torch", "numpy" if large(args) else "naive"))}
                    op["drop"] = sorted(set(names))
                elif x < 0.75:
                    names = b.add_args(args, fresh=True)
                    op = {"k": "interp", "e": {"kind": "open", "p": pk, "args": names},
                          "be": r.choice(("numpy", "torch", "numpy" if large(args) else "naive"))}
                    op["drop"] = sorted(set(names))
                elif x < 0.85:
                    op = self.print_op(b, p, args, shared)
                else:
                    op = self.eval_op(b, p, args, shared)
                    if op.get("be") == "jax":
                        op["be"] = "numpy"
                ops.append(op)
            scn["threads"].append(ops)
        if r.random() < 0.5:
            t = r.randrange(nt)
            i = r.randrange(len(scn["threads"][t]))
            op = scn["threads"][t][i]
            s = solo(scn, op)
            if s.get("ext_n") and r.random() < 0.5:
                scn["acts"].append(failing(r, t, i, f"ext{r.randrange(s['ext_n'])}"))
            elif s.get("trace_n") and r.random() < 0.2:
                scn["acts"].append(failing(r, t, i, f"trace{r.randrange(s['trace_n'])}"))
            else:
                self.add_fault(b, t, i)
        self.schedule(b, "F")

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "retain")

    def nontrivial(self, scn, rec):
        return True


class Settings(Family):
    id = "C11"
    quick, thorough = 768, 40000
    rule = '1-2 threads evaluate and print with faults; about thirty process-wide and thread-local settings are compared after every operation and at every thread switch. Every run is non-trivial.'
    watch = ("settings",)
    peeks = 40
    jax = 0.03

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((1, 2, 2))
        saving = r.random() < 0.12
        n = 0
        if saving:
            scn["fs"] = []
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3))):
                p, variants = r.choice(pool)
                if r.random() < 0.15:
                    ops.append(self.print_op(b, p, r.choice(variants), shared))
                elif saving and r.random() < 0.6:
                    op = self.print_op(b, p, r.choice(variants), shared)
                    n += 1
                    ops.append({"k": "save", "e": op["e"], "path": f"g{n}." + r.choice(("raw", "svg", "png", "pdf"))})
                else:
                    op = self.eval_op(b, p, r.choice(variants), shared)
                    if r.random() < 0.1:
                        op["err"] = True
                    ops.append(op)
            scn["threads"].append(ops)
        if saving and r.random() < 0.5:
            scn["fs"] = [fs_fault(r)]
        if r.random() < 0.5:
            t = r.randrange(nt)
            i = r.randrange(len(scn["threads"][t]))
            s = solo(scn, scn["threads"][t][i])
            if s.get("ext_n") and r.random() < 0.5:
                scn["acts"].append(failing(r, t, i, f"ext{r.randrange(s['ext_n'])}"))
            else:
                self.add_fault(b, t, i)
            self.schedule(b, "F")
        else:
            self.schedule(b)

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "settings")

    def nontrivial(self, scn, rec):
        return True


def fs_fault(r):
    """A disk or process failure for a run that saves drawings."""
    what = r.choice(("open", "write", "write", "close", "graphviz"))
    how = {
        "open": ("EACCES", "ENOSPC", "EMFILE", "EROFS"),
        "write": ("ENOSPC", "EIO", "torn", "EDQUOT"),
        "close": ("EIO", "ENOSPC"),
        "graphviz": ("missing", "fails"),
    }[what]
    return {"what": what, "n": r.randrange(4), "how": r.choice(how)}


class SavedGraphs(Family):
    id = "C12"
    quick, thorough = 2880, 30000
    rule = '1-2 threads save drawings of programs on a simulated disk with failing opens, writes (also torn), closes and a missing or failing graphviz. Non-trivial: a save was attempted.'
    avoid = ("fails",)

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((1, 1, 2))
        n = 0
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3))):
                p, variants = r.choice(pool)
                op = self.print_op(b, p, variants[0], shared)
                n += 1
                stem = r.choice((f"g{n}", f"g{n}.v2", f"graph {n}"))
                style = r.choice(("ext", "fmt", "none"))
                new = {"k": "save", "e": op["e"]}
                if style == "ext":
                    new["path"] = stem + "." + r.choice(("raw", "svg", "png", "pdf", "SVG", "Png"))
                elif style == "fmt":
                    new["path"], new["fmt"] = stem, r.choice(("raw", "svg", "png", "dot"))
                else:
                    new["path"] = f"g{n}"
                if r.random() < 0.3:
                    new["old"] = r.choice((0, 1, 4000))
                if r.random() < 0.2:
                    new["home"] = True
                ops.append(new)
            scn["threads"].append(ops)
        scn["fs"] = []
        if r.random() < 0.7:
            for _ in range(r.choice((1, 1, 2))):
                scn["fs"].append(fs_fault(r))
        self.schedule(b, npoints=r.choice((1, 2, 3)))

    def verdict(self, scn, rec, v):
        from . import disk

        faults = len(rec["fs"])
        failed = 0
        got = {k[4:]: d for k, d in rec["files"].items() if k.startswith("out/")}
        for tid, i, op in ops_of(scn):
            out = rec["outcomes"].get((tid, i))
            key = op["path"] + ("." + op["fmt"] if op.get("fmt") else "" if "." in op["path"] else ".png")
            want = rec["saved"].get(key)
            if out is None or out[0] == "stuck":
                v.add("saved", f"saving {key} never finished")
            elif out[0] == "exc":
                failed += 1
                if want is None:
                    failed -= 1  # the program itself cannot be drawn
            elif want is not None:
                fmt, text = want
                data = text.encode() if fmt == "raw" else disk.rendering(fmt, text.encode())
                if key not in got:
                    v.add("saved", f"saving {key} reported success, but there is no such file "
                                   f"(found {sorted(got)})")
                elif got[key] != data:
                    v.add("saved", f"saving {key} reported success, but the file is incomplete or wrong "
                                   f"({len(got[key])} bytes of {len(data)})")
        if failed > faults:
            v.add("saved", f"{failed} saves failed with only {faults} disk faults")
        known = set(rec["saved"])
        for f in got:
            if f not in known:
                v.add("saved", f"wrote to a path nobody asked for: {f}")

    def nontrivial(self, scn, rec):
        return bool(rec["saved"])


class Programs(Family):
    id = "C13"
    quick, thorough = 720, 50000
    rule = '1-2 threads evaluate, print and build upon the same program objects repeatedly with faults; structural fingerprints before and after, every outcome compared with a fresh execution. Every run is non-trivial.'
    watch = ("print",)
    jax = 0.03
    p_naive = 0.12

    def make(self, b, pool):
        r, scn = b.r, b.scn
        two = r.sample(pool, 2)
        slots = []
        for p, variants in two:
            pk = b.add_program(p)
            names = b.add_args(variants[0])
            slots.append((p, b.add_slot({"kind": "closed", "p": pk, "args": names}), "closed", variants[0]))
            if r.random() < 0.4:
                slots.append((p, b.add_slot({"kind": "open", "p": pk, "args": names}), "open", variants[0]))
        if r.random() < 0.5:
            scn["watch"] = []
        nt = r.choice((1, 1, 2))
        for _ in range(nt):
            ops = []
            for _ in range(r.choice((2, 3, 4, 5))):
                p, e, kind, args = r.choice(slots)
                be = self.backend(r, p, args)
                x = r.random()
                if x < 0.4:
                    ops.append({"k": "eval" if kind == "closed" else "interp", "e": e, "be": be})
                elif x < 0.65:
                    ops.append({"k": "pp", "e": e, "which": r.choice(("phi", "yarr", "graph", "str", "type"))})
                else:
                    closed = [s for s in slots if s[2] == "closed"]
                    ops.append({"k": "derive", "e": r.choice(closed)[1], "e2": r.choice(closed)[1],
                                "how": r.choice(("concat", "self", "outer")),
                                "be": be if be in ("numpy", "torch") else "numpy"})
            scn["threads"].append(ops)
        if r.random() < 0.3:
            t = r.randrange(nt)
            self.add_fault(b, t, r.randrange(len(scn["threads"][t])))
            self.schedule(b, "F")
        else:
            self.schedule(b)

    def verdict(self, scn, rec, v):
        self.problems(rec, v, "program")
        hit = self.faulted(rec)
        for tid, i, op in ops_of(scn):
            if (tid, i) in hit:
                continue
            if op["k"] == "pp" and op["which"] in ("yarr", "graph"):
                out = rec["outcomes"].get((tid, i))
                s = solo(scn, op)["out"]
                if out is None or (out[0] == "exc") != (s[0] == "exc"):
                    v.add("program", f"thread {tid} operation {i} ({describe(scn, op)}): {compare(s, out)}")
                continue
            d = compare(solo(scn, op)["out"], rec["outcomes"].get((tid, i)))
            if d is not None:
                v.add("program", f"thread {tid} operation {i} ({describe(scn, op)}): {d}")

    def nontrivial(self, scn, rec):
        return True


class Stalls(Family):
    id = "C14"
    quick, thorough = 1152, 45000
    rule = '2-3 threads; some stall inside a callback or while being traced until all others have finished; the others must finish with the right results. Non-trivial: a stall took place.'
    jax = 0.0
    programs = 6

    pool = Reentrancy.pool

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        p, variants = r.choice(pool[:4])
        nt = r.choice((2, 2, 3))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 1, 2))):
                q, qv = (p, variants) if t == 0 or r.random() < 0.6 else r.choice(pool)
                ops.append(self.eval_op(b, q, r.choice(qv), shared))
            scn["threads"].append(ops)
        for t in range(nt):
            if t and r.random() < 0.6:
                continue
            i = r.randrange(len(scn["threads"][t]))
            s = solo(scn, scn["threads"][t][i])
            spots = [f"ext{k}" for k in range(min(s.get("ext_n", 0), 6))]
            spots += [f"trace{k}" for k in range(min(s.get("trace_n", 0), 3))] * 2
            if spots:
                scn["acts"].append({"tid": t, "op": i, "at": r.choice(spots), "do": "stall"})
        self.schedule(b)

    def verdict(self, scn, rec, v):
        if rec["deadlock"]:
            return
        self.compare_all(scn, rec, v)

    def nontrivial(self, scn, rec):
        return any(a[0] == "stall" for a in rec["acted"])


class FaultsSurface(Family):
    id = "C15"
    quick, thorough = 1344, 50000
    jax = 0.05
    rule = ("1-2 threads evaluate, print or trace programs; an interrupt, stack exhaustion, allocation failure or "
            "failing user code is injected at a sampled event of some operations. Non-trivial: a fault fired.")

    def pool(self, r):
        out = []
        for want in ((), (), (), "gen", ("ext",), ("ext",)):
            if want == "gen" or r.random() < 0.15:
                p = pick_program(r, ("ext",) if "ext" in want else (), self.avoid, 1.0)
            else:
                p = {"name": workload.draw(r, workload.corpus_names(want, self.avoid), 2 if want else 3)}
            out.append((p, [pick_args(r, p, zero=self.zero, misfit=self.misfit) for _ in range(3)]))
        return out

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        nt = r.choice((1, 1, 1, 2))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 2, 3))):
                p, variants = r.choice(pool)
                x = r.random()
                if x < 0.12:
                    ops.append(self.print_op(b, p, r.choice(variants), shared))
                elif x < 0.2:
                    pk = b.add_program(p)
                    f = self.share(b, shared, ("fn", pk), {"kind": "fn", "p": pk})
                    ops.append({"k": "phi", "f": f, "args": b.add_args(r.choice(variants))})
                else:
                    ops.append(self.eval_op(b, p, r.choice(variants), shared))
            scn["threads"].append(ops)
        for t, i, op in list(ops_of(scn)):
            if r.random() < 0.75:
                s = solo(scn, op)
                hook = [f"ext{r.randrange(s['ext_n'])}"] if s["ext_n"] else []
                hook += [f"trace{r.randrange(s['trace_n'])}"] if s["trace_n"] else []
                if hook and r.random() < 0.4:
                    scn["acts"].append(failing(r, t, i, r.choice(hook), True))
                else:
                    self.add_fault(b, t, i, warm=i > 0)
        self.schedule(b, "F")

    def verdict(self, scn, rec, v):
        kinds = {"interrupt": ("KeyboardInterrupt", "simulated interrupt"),
                 "recursion": ("RecursionError", "simulated stack exhaustion"),
                 "alloc": ("MemoryError", "simulated allocation failure")}
        for (tid, i), ks in self.faulted(rec).items():
            op = scn["threads"][tid][i]
            out = rec["outcomes"].get((tid, i))
            good = False
            if out and out[0] == "exc":
                good = any(out[3] == "same object" if k == "callback" else tuple(out[1:3]) == kinds[k] for k in ks)
            if not good:
                v.add("surface", f"thread {tid} operation {i} ({describe(scn, op)}): {'/'.join(ks)} was injected, "
                                 f"but the caller got: {harness.world.brief(out)}")

    def nontrivial(self, scn, rec):
        return bool(self.faulted(rec))


class TraceOnce(Family):
    id = "C16"
    quick, thorough = 960, 40000
    watch = ("traces",)
    programs = 3
    jax = 0.06
    rule = ("one caller makes 4-10 calls of 1-2 decorated functions with varying data, shapes, element kinds and "
            "backends, some disturbed by faults, collections, other evaluations. Non-trivial: some combination of types repeated.")

    pool = History.pool

    def make(self, b, pool):
        r, scn = b.r, b.scn
        shared: dict = {}
        mine = r.sample(pool, r.choice((1, 1, 2)))
        ops = []
        for _ in range(r.choice((4, 6, 8, 10))):
            p, variants = r.choice(mine)
            args = r.choice(variants)
            pk = b.add_program(p)
            if r.random() < 0.12:
                ops.append(self.eval_op(b, p, args, shared))
                continue
            spec = {"kind": "fn", "p": pk}
            if r.random() < 0.25:
                spec["typed"] = b.add_args(args)
            f = self.share(b, shared, ("fn", pk), spec)
            if r.random() < 0.06:
                ops.append({"k": "phi", "f": f, "args": b.add_args(args)})
            be = pick_backend(r, p, naive=False, jax=self.jax)
            if be == "numpy" and r.random() < 0.3:
                be = "auto"
            elif be == "torch" and r.random() < 0.3:
                be = "tensor"
            ops.append({"k": "call", "f": f, "args": b.add_args(args), "be": be})
        scn["threads"] = [ops]
        scn["sched"] = {"flavour": "F"}
        if r.random() < 0.5:
            for _ in range(r.choice((1, 1, 2))):
                self.add_fault(b, 0, r.randrange(len(ops)), kinds=("interrupt", "recursion", "alloc", "gc"), warm=True)

    def verdict(self, scn, rec, v):
        seen = set()
        for tid, i, op in ops_of(scn):
            if op["k"] != "call" or not isinstance(op["f"], str):
                continue
            types = tuple((len(scn["arrays"][a]["sh"]), scn["arrays"][a]["dt"][0]) for a in op["args"])
            be = {"auto": "numpy", "tensor": "torch"}.get(op["be"], op["be"])
            key = (op["f"], types, be)
            n = rec["entered"].get((tid, i), 0)
            out = rec["outcomes"].get((tid, i))
            if n > (0 if key in seen else 1):
                v.add("traces", f"operation {i} ({describe(scn, op)}): the function body ran {n} times, although "
                                + ("an earlier call with the same types and backend succeeded" if key in seen
                                   else "one trace is enough"))
            if out and out[0] not in ("exc", "stuck"):
                seen.add(key)

    def nontrivial(self, scn, rec):
        keys = [(op["f"], op["be"]) for op in scn["threads"][0] if op["k"] == "call"]
        return len(keys) > len(set(map(str, keys)))


FAMILIES = {f.id: f() for f in (
    Isolation, FailureAtomicity, CallerData, History, HashOrder, SymbolNames, Reentrancy, Effects,
    Stdio, Retention, Settings, SavedGraphs, Programs, Stalls, FaultsSurface, TraceOnce,
)}
