"""The deterministic scheduler.

Simulated threads are real Python threads, but exactly one holds the token at any time and the token
only changes hands inside an instrumentation callback (``sys.monitoring``) of the code under test, at
an operation boundary, in a simulated lock, or where the workload blocks on purpose.  Which thread
gets the token is decided by priorities and an explicit list of preemption points
``(thread, operation, n-th event of that operation)``; faults are addressed the same way.  A run is
therefore a pure function of the scenario and the code.

Event flavours (what counts as an event of the code under test):
  "L"  every source line;   "I"  every bytecode instruction;
  "F"  function entries, calls made, and returns from C calls - the points at which CPython itself
       can deliver an interrupt, exhaust the stack, or fail an allocation.
"""
import sys
import threading
import zlib
from _thread import allocate_lock, get_ident

from . import boot
from .boot import CLOCK

MON = sys.monitoring
EV = MON.events
TOOL = 3

K_LINE, K_INSTR, K_START, K_CALL, K_CRET = 1, 2, 3, 4, 5

ARRAY_MODULES = ("numpy", "torch", "jax", "jaxlib", "networkx", "builtins_array")


class SimAbort(BaseException):
    """Raised inside simulated threads to unwind them when the run is over."""


class NoProgress(BaseException):
    """An operation exceeded its step budget."""


_TORCH_OWN = None


def is_array_call(fn) -> bool:
    mod = getattr(fn, "__module__", None)
    if mod is None:
        owner = getattr(fn, "__objclass__", None) or type(getattr(fn, "__self__", None))
        if getattr(fn, "__self__", None) is None and owner is type(None):
            owner = type(fn)
        mod = getattr(owner, "__module__", "") or ""
    if not isinstance(mod, str):
        return False
    return mod.split(".")[0] in ARRAY_MODULES


def inside_jax() -> bool:
    if "jax" not in sys.modules:
        return False
    f = sys._getframe(1)
    while f is not None:
        name = f.f_globals.get("__name__") or ""
        if name.startswith("jax.") or name == "jax":
            return True
        f = f.f_back
    return False


class SimThread:
    __slots__ = (
        "tid", "ident", "gate", "state", "prio", "op", "n", "points", "pi", "faults",
        "fi", "body", "waiting", "budget", "quiet", "stalled",
        "trigger", "total", "jumps", "ji", "peeks", "ki",
    )

    def __init__(self, tid, body, prio):
        self.tid, self.body, self.prio = tid, body, prio
        self.ident = None
        self.gate = allocate_lock()
        self.gate.acquire()
        self.state = "ready"  # ready | blocked | done
        self.op = -1
        self.n = 0
        self.points: list[int] = []
        self.pi = 0
        self.faults: list = []
        self.fi = 0
        self.stalled = False
        self.trigger = 1 << 60
        self.total = 0
        self.jumps: list = []
        self.ji = 0
        self.peeks: list = []
        self.ki = 0
        self.waiting = None
        self.budget = 1 << 60
        self.quiet = 0


class Sim:
    def __init__(self, flavour="L", points=None, faults=None, budget=20_000_000, profile=False):
        self.flavour = flavour
        self.points = {}  # (tid, op) -> sorted list of n
        for tid, op, n in points or ():
            self.points.setdefault((tid, op), []).append(n)
        for v in self.points.values():
            v.sort()
        self.faults = {}  # (tid, op) -> sorted list of (n, kind)
        for f in faults or ():
            if f["kind"] in ("interrupt", "recursion", "alloc", "gc"):
                self.faults.setdefault((f["tid"], f["op"]), []).append((f["n"], f["kind"]))
        for v in self.faults.values():
            v.sort()
        self.threads: list[SimThread] = []
        self.by_ident: dict[int, SimThread] = {}
        self.current: SimThread | None = None
        self.main_gate = allocate_lock()
        self.main_gate.acquire()
        self.deadlock = None
        self.aborted = False
        self.low = 0
        self.h = 0
        self.switches: list = []  # (from, op, loc, to)
        self.budget = budget
        self.locid: dict = {}
        self.locname: dict[int, str] = {}
        self.hot: set[int] = set()
        self.fault_log: list = []
        self.profile = {} if profile else None  # (tid, op) -> {loc: [n, ...]} and per kind
        self.on_switch = None  # invariant callback
        self.looked: dict[int, int] = {}
        self.clock_jumps = {}
        self.peeks = {}  # (tid, op) -> sorted event numbers at which an observer looks
        self.peeked = 0

    # -- locations ---------------------------------------------------------------------------
    def loc(self, code, pos) -> int:
        key = (id(code), pos)
        v = self.locid.get(key)
        if v is None:
            name = f"{boot.CODE_KEY.get(code, code.co_qualname)}@{pos}"
            v = zlib.crc32(name.encode())
            self.locid[key] = v
            if self.profile is not None:
                from . import hot

                h = hot.heat(code, pos, self.flavour)
                if h:
                    name += "!" * h
                    self.hot.add(v)
            self.locname[v] = name
        return v

    # -- instrumentation -----------------------------------------------------------------------
    def install(self):
        try:
            MON.use_tool_id(TOOL, "simein")
        except ValueError:
            pass
        sim, slow, ords = self, self.slow, boot.CODE_ORD
        ident = get_ident
        profiling = self.profile is not None

        def on_pos(code, pos):
            t = sim.current
            if t is None or t.quiet or t.ident != ident():
                return
            n = t.n = t.n + 1
            sim.h = (sim.h * 0x5851F42D + ords[id(code)] + pos) & 0xFFFFFFFFFFFFF
            if n >= t.trigger or profiling:
                slow(t, sim_kind, code, pos, None)

        def on_start(code, pos):
            t = sim.current
            if t is None or t.quiet or t.ident != ident():
                return
            n = t.n = t.n + 1
            sim.h = (sim.h * 0x5851F42D + ords[id(code)] + pos) & 0xFFFFFFFFFFFFF
            if n >= t.trigger or profiling:
                slow(t, K_START, code, pos, None)

        def on_call(code, pos, fn, arg0):
            t = sim.current
            if t is None or t.quiet or t.ident != ident():
                return
            n = t.n = t.n + 1
            sim.h = (sim.h * 0x5851F42D + ords[id(code)] + pos) & 0xFFFFFFFFFFFFF
            if n >= t.trigger or profiling:
                slow(t, K_CALL, code, pos, fn)

        def on_cret(code, pos, fn, arg0):
            t = sim.current
            if t is None or t.quiet or t.ident != ident():
                return
            n = t.n = t.n + 1
            sim.h = (sim.h * 0x5851F42D + ords[id(code)] + pos) & 0xFFFFFFFFFFFFF
            if n >= t.trigger or profiling:
                slow(t, K_CRET, code, pos, fn)

        if self.flavour == "N":  # no events at all: undisturbed reference executions
            return
        if self.flavour == "L":
            ev, sim_kind = EV.LINE, K_LINE
            MON.register_callback(TOOL, EV.LINE, on_pos)
        elif self.flavour == "I":
            ev, sim_kind = EV.INSTRUCTION, K_INSTR
            MON.register_callback(TOOL, EV.INSTRUCTION, on_pos)
        else:
            ev = EV.PY_START | EV.CALL
            MON.register_callback(TOOL, EV.PY_START, on_start)
            MON.register_callback(TOOL, EV.CALL, on_call)
            MON.register_callback(TOOL, EV.C_RETURN, on_cret)
        for code in boot.CODES:
            MON.set_local_events(TOOL, code, ev)

    def uninstall(self):
        for code in boot.CODES:
            MON.set_local_events(TOOL, code, 0)

    # -- the step: every event of interest of the code under test goes through here ---------------
    def slow(self, t: SimThread, kind, code, pos, fn):
        n = t.n
        loc = self.loc(code, pos)
        if self.profile is not None:
            self._profile(t, kind, loc, fn)
        if n > t.budget:
            raise NoProgress(f"thread {t.tid} operation {t.op}: more than {t.budget} steps")
        while t.ji < len(t.jumps) and n >= t.jumps[t.ji][0]:
            j = t.jumps[t.ji][1]
            t.ji += 1
            CLOCK.skew += j
            if j > 0:
                CLOCK.base += j
            self.fault_log.append(("clock", t.tid, t.op, n, str(j)))
        if t.ki < len(t.peeks) and n >= t.peeks[t.ki]:
            while t.ki < len(t.peeks) and n >= t.peeks[t.ki]:
                t.ki += 1
            self.retrigger(t)
            self.peeked += 1
            t.quiet += 1
            try:
                self.on_switch()
            finally:
                t.quiet -= 1
        if t.fi < len(t.faults):
            fn_, fkind = t.faults[t.fi]
            if n >= fn_ and self._eligible(fkind, kind, fn):
                t.fi += 1
                self.retrigger(t)
                name = self.locname[loc]
                self.fault_log.append((fkind, t.tid, t.op, n, name))
                self.h = (self.h * 0x5851F42D + n + 7) & 0xFFFFFFFFFFFFF
                if fkind == "gc":
                    import gc

                    t.quiet += 1
                    try:
                        gc.collect()
                    finally:
                        t.quiet -= 1
                elif fkind == "interrupt":
                    raise KeyboardInterrupt("simulated interrupt")
                elif fkind == "recursion":
                    raise RecursionError("simulated stack exhaustion")
                else:
                    raise MemoryError("simulated allocation failure")
        pts = t.points
        if t.pi < len(pts) and n >= pts[t.pi]:
            if inside_jax():
                return  # JAX holds locks of its own while it traces: postpone
            t.pi += 1
            while t.pi < len(pts) and pts[t.pi] <= n:
                t.pi += 1
            self.retrigger(t)
            self.preempt(t, loc)

    def retrigger(self, t: SimThread):
        """The next event of this operation at which anything happens."""
        trig = t.budget
        if t.fi < len(t.faults):
            trig = min(trig, t.faults[t.fi][0])
        if t.pi < len(t.points):
            trig = min(trig, t.points[t.pi])
        if t.ji < len(t.jumps):
            trig = min(trig, t.jumps[t.ji][0])
        if t.ki < len(t.peeks):
            trig = min(trig, t.peeks[t.ki])
        t.trigger = trig

    @staticmethod
    def _eligible(fkind, kind, fn):
        if fkind == "interrupt":
            return kind in (K_START, K_CRET)
        if fkind == "recursion":
            return kind == K_START
        if fkind == "alloc":
            return kind == K_CALL and is_array_call(fn)
        return True

    def guarded(self, loc):
        """Whether to find out what encloses this event: for the first few at a place, and seldom afterwards."""
        n = self.looked[loc] = self.looked.get(loc, 0) + 1
        return n <= 4 or n & (n - 1) == 0

    def _profile(self, t, kind, loc, fn):
        p = self.profile.setdefault(
            (t.tid, t.op), {"n": 0, "all": {}, "interrupt": {}, "recursion": {}, "alloc": {}, "guard": {}}
        )
        p["n"] = t.n

        def note(d):
            v = d.get(loc)
            if v is None:
                d[loc] = [t.n]
            elif len(v) < (40 if loc in self.hot else 6):
                v.append(t.n)
            else:
                v[-1] = t.n

        note(p["all"])
        for k in ("interrupt", "recursion", "alloc"):
            if kind >= K_START and self._eligible(k, kind, fn):
                note(p[k])
                if self.guarded(loc):
                    from . import hot

                    region = hot.guard(sys._getframe(3))
                    if region is not None:
                        note(p["guard"].setdefault(k, {}).setdefault(region, {}))

    # -- token passing ---------------------------------------------------------------------------
    def _pick(self):
        best = None
        for u in self.threads:
            if u.state == "blocked" and u.waiting is not None and u.waiting():
                u.state, u.waiting = "ready", None
            if u.state == "ready" and (best is None or u.prio > best.prio):
                best = u
        return best

    def preempt(self, t: SimThread, loc=0):
        """Demote t below everyone else and hand the token to the best runnable thread."""
        self.low -= 1
        t.prio = self.low
        self.reschedule(t, loc)

    def reschedule(self, t: SimThread, loc=0):
        nxt = self._pick()
        if nxt is t:
            return
        if nxt is None:
            if all(u.state == "done" for u in self.threads):
                self.current = None
                self.main_gate.release()
                return
            self.deadlock = "no runnable thread: " + ", ".join(
                f"thread {u.tid} op {u.op} {u.state}" for u in self.threads
            )
            self.abort()
            if t.state != "done":
                self._park(t)
            return
        self.switches.append((t.tid, t.op, loc, nxt.tid, nxt.op))
        self.h = (self.h * 0x5851F42D + loc + t.tid * 64 + nxt.tid + 11) & 0xFFFFFFFFFFFFF
        if self.on_switch is not None:
            self.on_switch()
        self.current = nxt
        nxt.gate.release()
        if t.state != "done":
            self._park(t)

    def _park(self, t: SimThread):
        t.gate.acquire()
        if self.aborted:
            raise SimAbort()

    def abort(self):
        self.aborted = True
        self.current = None
        self.main_gate.release()

    def block(self, t: SimThread, ready):
        """Block t until ready() holds (checked whenever the token changes hands)."""
        if ready():
            return
        t.state, t.waiting = "blocked", ready
        self.reschedule(t)

    @property
    def events(self) -> int:
        return sum(t.total + t.n for t in self.threads)

    def me(self) -> SimThread | None:
        t = self.by_ident.get(get_ident())
        return t if t is not None and t is self.current else None

    # -- running -----------------------------------------------------------------------------------
    def begin_op(self, t: SimThread, op: int):
        t.total += t.n
        t.op, t.n, t.pi, t.fi, t.ji, t.ki = op, 0, 0, 0, 0, 0
        t.peeks = self.peeks.get((t.tid, op), [])
        t.jumps = sorted((n, d) for (ti, o, n), d in self.clock_jumps.items() if (ti, o) == (t.tid, op))
        t.points = self.points.get((t.tid, op), [])
        t.faults = self.faults.get((t.tid, op), [])
        t.budget = self.budget
        self.retrigger(t)
        if t.points and t.points[0] == 0:  # preempted right at the start of the operation
            t.pi = 1
            self.retrigger(t)
            self.preempt(t)

    def end_op(self, t: SimThread):
        t.faults, t.points, t.jumps, t.peeks = [], [], [], []
        t.trigger = 1 << 60

    def run(self, bodies, prios):
        """bodies[i](sim, thread) runs as simulated thread i."""
        global CURRENT
        CURRENT = self
        self.threads = [SimThread(i, b, p) for i, (b, p) in enumerate(zip(bodies, prios))]

        def main(t: SimThread):
            t.ident = get_ident()
            self.by_ident[t.ident] = t
            started.release()
            t.gate.acquire()
            try:
                if not self.aborted:
                    t.body(self, t)
            except SimAbort:
                return
            except BaseException as e:  # harness failure, never a verdict
                self.harness_error = repr(e)
                import traceback

                self.harness_tb = traceback.format_exc()
                self.abort()
                return
            t.state = "done"
            if not self.aborted:
                self.reschedule(t)

        self.harness_error = None
        self.harness_tb = None
        started = allocate_lock()
        started.acquire()
        for t in self.threads:
            threading.Thread(target=main, args=(t,), daemon=True).start()
            started.acquire()
        self.install()
        first = self._pick()
        self.current = first
        first.gate.release()
        self.main_gate.acquire()
        self.uninstall()
        CURRENT = None


CURRENT: Sim | None = None


class SimLock:
    """Stand-in for a threading.Lock/RLock created by the code under test."""

    def __init__(self, reentrant: bool):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        t = sim.me() if sim is not None else None
        who = get_ident()
        if self._re and self._owner == who and self._count:
            self._count += 1
            return True
        if self._count:
            if not blocking or timeout == 0:
                return False
            if t is None:
                raise RuntimeError("simulated deadlock: lock is held and nobody can release it")
            if timeout is not None and timeout > 0:
                # simulated time: a timed wait expires once nobody else can run
                t.state, t.waiting = "blocked", lambda: not self._count or not any(
                    u.state == "ready" for u in sim.threads
                )
                sim.reschedule(t)
                if self._count:
                    return False
            else:
                sim.block(t, lambda: not self._count)
        self._owner, self._count = who, 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return bool(self._count)

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    # what threading.Condition needs
    def _is_owned(self):
        return self._count > 0 and self._owner == get_ident()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


boot.LOCK_FACTORY = SimLock
