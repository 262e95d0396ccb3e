"""Executes one scenario (a JSON value) in the current process and records what happened.

A scenario fixes everything: the data, the programs, what each simulated thread does, the order in
which threads run, and every fault.  See ``execute``.
"""
import builtins
import functools
import gc
import hashlib
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings
import weakref

import numpy

from . import boot, corpus, gen, hooks
from .sched import NoProgress, Sim, SimAbort


class UserError(Exception):
    """What user callbacks raise when told to fail."""


# User code may raise anything; handlers in the code under test catch by type.
USER_ERRORS = {"Exception": UserError}
for _c in (ValueError, TypeError, RuntimeError, KeyError, IndexError, AttributeError, AssertionError, OSError,
           ZeroDivisionError, FloatingPointError, NotImplementedError, MemoryError, RecursionError, LookupError,
           ImportError, UnicodeError, SystemExit, GeneratorExit, StopIteration, StopAsyncIteration, EOFError,
           BufferError, ArithmeticError, ReferenceError, SyntaxError, Warning, NameError, TimeoutError,
           FileNotFoundError, BrokenPipeError, OverflowError):
    USER_ERRORS[_c.__name__] = type("User" + _c.__name__, (_c,), {})


# -- data ------------------------------------------------------------------------------------------
def make_array(spec) -> numpy.ndarray:
    """spec: {"dt","sh","s"(seed),"lay","ix"?}"""
    sh = tuple(spec["sh"])
    n = 1
    for d in sh:
        n *= d
    rs = random.Random(spec["s"])
    dt = spec["dt"]
    lo, hi = spec.get("rng", (-8, 8))
    vals = [rs.randint(lo, hi) for _ in range(n)]
    if dt[0] == "f":
        a = numpy.array(vals, dtype="f8").reshape(sh) / 4.0
        a = numpy.asarray(a).astype(dt)
    elif dt == "b":
        a = numpy.array([v % 2 == 0 for v in vals], dtype=bool).reshape(sh)
    else:
        a = numpy.array(vals, dtype="i8").reshape(sh).astype(dt)
    a = numpy.asarray(a)
    if spec.get("sp"):  # special values
        flat = a.reshape(-1)
        if dt[0] == "f" and flat.size:
            flat[0] = {"inf": numpy.inf, "nan": numpy.nan, "big": 1e300, "zero": 0.0}[spec["sp"]]
        a = flat.reshape(sh)
    lay = spec.get("lay", "C")
    if a.ndim == 0:
        if lay == "R":
            a.flags.writeable = False
        return a
    if lay == "F":
        a = numpy.asfortranarray(a)
    elif lay == "S":
        base = numpy.zeros((a.shape[0] * 2 + 1,) + a.shape[1:], dtype=a.dtype)
        base[1::2] = a
        a = base[1::2]
    elif lay == "T":
        a = numpy.ascontiguousarray(a.T).T
    elif lay == "N":
        a = numpy.ascontiguousarray(a[::-1])[::-1]
    elif lay == "R":
        a = a.copy()
        a.flags.writeable = False
    elif lay == "B" and a.shape[0]:
        a = numpy.broadcast_to(a[:1], a.shape)
    return a


def to_numpy(x):
    mod = type(x).__module__.split(".")[0]
    if mod == "torch":
        return "torch", x.detach().numpy()
    if mod in ("jaxlib", "jax"):
        return "jax", numpy.asarray(x)
    if isinstance(x, numpy.ndarray):
        return "numpy", x
    if isinstance(x, numpy.generic):
        return "scalar", numpy.asarray(x)
    return type(x).__name__, None


def canon(x, depth=0):
    """Observable value of a result, detached from its memory."""
    if isinstance(x, tuple):
        return ("tuple", tuple(canon(y, depth + 1) for y in x))
    if isinstance(x, numpy.generic) or type(x) in (int, float, bool):
        a = numpy.asarray(x)
        return ("scalar", str(a.dtype), a.shape, a)
    if isinstance(x, (str, bytes, type(None))):
        return ("py", x)
    lib, a = to_numpy(x)
    if a is None:
        return ("obj", lib)
    return (lib, str(a.dtype), a.shape, a.astype(a.dtype, order="C", copy=True))


def same(a, b) -> bool:
    if a[0] != b[0] and {a[0], b[0]} != {"numpy", "scalar"}:
        return False
    if a[0] == "tuple":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] in ("py", "obj"):
        return a[1] == b[1]
    if a[1:3] != b[1:3]:
        return False
    x, y = a[3], b[3]
    if x.dtype.kind == "f":
        if x.size == 0:
            return True
        with numpy.errstate(all="ignore"):
            eps = 1e-8 if x.dtype.itemsize == 8 else 2e-3
            fx, fy = numpy.isfinite(x), numpy.isfinite(y)
            if not numpy.array_equal(fx, fy):
                return False
            if not numpy.array_equal(x[~fx], y[~fy], equal_nan=True):
                return False
            x, y = x[fx], y[fy]
            if not x.size:
                return True
            scale = 1.0 + numpy.abs(x).astype("f8")
            return bool((numpy.abs(x - y) <= eps * scale).all())
    return numpy.array_equal(x, y)


def brief(c):
    if c is None:
        return "nothing"
    if c[0] == "exc":
        return f"raised {c[1]}: {c[2][:120]}"
    if c[0] == "tuple":
        return "(" + ", ".join(brief(x) for x in c[1]) + ")"
    if c[0] in ("py", "obj"):
        return f"{c[0]} {str(c[1])[:200]}"
    if len(c) != 4 or not isinstance(c[3], numpy.ndarray):
        return str(c)[:300]
    v = numpy.array2string(c[3], threshold=12, precision=6).replace("\n", " ")
    return f"{c[0]} {c[1]}{list(c[2])} {v}"


def digest(x):
    """Order-insensitive digest of an array (for callback argument logs)."""
    _, a = to_numpy(x)
    if a is None:
        return ("?",)
    v = numpy.sort(numpy.round(numpy.asarray(a, dtype="f8"), 7).reshape(-1) + 0.0)
    return (str(a.dtype), tuple(sorted(a.shape)), hashlib.md5(v.tobytes()).hexdigest()[:12])


# -- process-wide settings ---------------------------------------------------------------------------
def settings_global():
    import torch
    import jax

    st = numpy.random.get_state()
    out = {
        "random state": hash(random.getstate()),
        "numpy random state": (st[2], st[3], hash(st[1].tobytes())),
        "torch random state": hash(torch.get_rng_state().numpy().tobytes()),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "warning filters": tuple(map(repr, warnings.filters)),
        "showwarning": warnings.showwarning,
        "environ": tuple(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "torch default dtype": torch.get_default_dtype(),
        "torch deterministic": torch.are_deterministic_algorithms_enabled(),
        "torch threads": torch.get_num_threads(),
        "jax x64": jax.config.jax_enable_x64,
        "jax debug nans": jax.config.jax_debug_nans,
        "gc enabled": gc.isenabled(),
        "gc threshold": gc.get_threshold(),
        "gc callbacks": len(gc.callbacks),
        "stdout": sys.stdout,
        "stderr": sys.stderr,
        "stdin": sys.stdin,
        "excepthook": sys.excepthook,
        "displayhook": sys.displayhook,
        "int digits": sys.get_int_max_str_digits(),
        "sys.path": tuple(sys.path),
        "umask": umask(),
        "numpy errcall": numpy.geterrcall(),
        "numpy bufsize": numpy.getbufsize(),
        "numpy print options": repr(numpy.get_printoptions()),
        "dont_write_bytecode": sys.dont_write_bytecode,
        "thread stack size": stack_size(),
        "signal handlers": tuple(signal.getsignal(n) for n in (1, 2, 3, 10, 12, 13, 14, 15)),
        "interval timer": signal.getitimer(signal.ITIMER_REAL)[1],
        "resource limits": tuple(resource.getrlimit(n) for n in range(8)),
        "scheduling": (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0)),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, tuple(logging.root.handlers), logging.root.manager.disable),
        "warnings captured": logging._warnings_showwarning,
        "float precision": (torch.get_float32_matmul_precision(), repr(torch._tensor_str.PRINT_OPTS)),
        "torch default device": str(torch.get_default_device()),
        "jax configuration": tuple(jax.config.values.values()),
        "thread excepthook": threading.excepthook,
        "unraisablehook": sys.unraisablehook,
        "breakpointhook": sys.breakpointhook,
        "gc debug": gc.get_debug(),
        "new-thread tracing": (threading.gettrace(), threading.getprofile()),
        "socket timeout": socket.getdefaulttimeout(),
        "import hooks": (tuple(sys.meta_path), tuple(sys.path_hooks)),
        "open builtin": (builtins.open, builtins.print, builtins.input, builtins.__import__),
    }
    return out


def stack_size():
    n = threading.stack_size()  # reading it resets it
    threading.stack_size(n)
    return n


def umask():
    with open("/proc/self/status", "rb") as f:
        for line in f:
            if line.startswith(b"Umask"):
                return line


def decimal_settings(c):
    """The settings of a decimal context; its flags only record what happened."""
    return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(k.__name__ for k, v in c.traps.items() if v)


def settings_local():
    import torch
    import decimal

    return {
        "numpy error state": tuple(sorted(numpy.geterr().items())),
        "torch grad enabled": torch.is_grad_enabled(),
        "torch inference mode": torch.is_inference_mode_enabled(),
        "trace function": sys.gettrace(),
        "profile function": sys.getprofile(),
        "decimal context": decimal_settings(decimal.getcontext()),
        "torch autocast": torch.is_autocast_enabled(),
    }


def diff(a, b):
    return [k for k in a if a[k] is not b[k] and a[k] != b[k]]


# -- stdio ---------------------------------------------------------------------------------------------
class Recorder(io.TextIOBase):
    encoding = "utf-8"

    def __init__(self, name, mode, world):
        self.label, self.mode, self.w = name, mode, world
        self.text = []

    def writable(self):
        return True

    def readable(self):
        return True

    def write(self, s):
        self.w.stdio.append((self.label, s[:80]))
        if self.mode == "broken":
            raise BrokenPipeError(32, "simulated broken pipe")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file.")
        if self.mode == "full":
            raise OSError(28, "simulated full disk")
        return len(s)

    def flush(self):
        if self.mode == "broken":
            raise BrokenPipeError(32, "simulated broken pipe")

    def read(self, *a):
        self.w.stdio.append((self.label, "<read>"))
        if self.mode == "broken":
            raise OSError(5, "simulated input error")
        return ""

    readline = read

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False


# -- the world -----------------------------------------------------------------------------------------
class World:
    def __init__(self, scn, profile=False):
        self.scn = scn
        self.watch = set(scn.get("watch", ()))
        sch = scn.get("sched", {})
        self.sim = Sim(
            sch.get("flavour", "L"), sch.get("points"), scn.get("faults"), profile=profile,
            budget=scn.get("budget", 3_000_000),
        )
        self.arrays: dict[str, numpy.ndarray] = {}
        self.owned: list = []  # (label, array, bytes, meta)
        self.envs: list = []  # (label, dict, snapshot)
        self.slots: dict = {}
        self.problems: list = []  # (property, message)
        self.ext_log: dict = {}  # (tid, op) -> [(name, digest)...]
        self.ext_count: dict = {}
        self.trace_count: dict = {}
        self.entered: dict = {}
        self.stdio: list = []
        self.outcomes: dict = {}
        self.kept: list = []
        self.refs: list = []
        self.fired: dict = {}
        self.version: dict = {}  # array -> which contents it has now
        self.user_errors: dict = {}
        self.acts = {}
        for a in scn.get("acts", ()):
            self.acts.setdefault((a["tid"], a["op"], a["at"]), []).append(a)
        self.symbols: list = []
        self.acted: list = []
        self.fs_log: list = []
        self.saved: dict = {}
        self.mid_checks = 0
        self.reentered = 0
        self.progress = {}

    # -- ownership ---------------------------------------------------------------------------------
    def own(self, label, a):
        meta = (a.shape, a.strides, a.dtype.str, a.flags.writeable)
        self.owned.append((label, a, a.tobytes(), meta))
        if a.base is not None and isinstance(a.base, numpy.ndarray):
            b = a.base
            self.owned.append((label + " (base)", b, b.tobytes(),
                               (b.shape, b.strides, b.dtype.str, b.flags.writeable)))

    def const_array(self, n):
        a = hooks.make_const(n)
        if "data" in self.watch:
            self.own(f"captured constant of length {n}", a)
        if "retain" in self.watch:
            self.refs.append(("captured constant", weakref.ref(a)))
        return a

    def array(self, name):
        spec = self.scn["arrays"][name]
        if "of" in spec:  # the same array object, which the caller has meanwhile given new contents
            base = spec["of"]
            a = self.array(base)
            if self.version.get(base) != name and a.flags.writeable:
                a[...] = make_array({k: v for k, v in spec.items() if k != "of"})
                self.version[base] = name
                self.fired["caller_changes_argument"] = self.fired.get("caller_changes_argument", 0) + 1
            return a
        if self.version.get(name):  # and back
            self.arrays[name][...] = make_array(spec)
            self.version[name] = None
        a = self.arrays.get(name)
        if a is None:
            a = self.arrays[name] = make_array(self.scn["arrays"][name])
            if "data" in self.watch:
                self.own(f"array {name}", a)
        return a

    def check_data(self, when):
        self.mid_checks += 1
        for label, a, raw, meta in self.owned:
            if (a.shape, a.strides, a.dtype.str, a.flags.writeable) != meta:
                self.problem("data", f"{label}: shape, strides or flags changed {when}")
            elif a.tobytes() != raw:
                self.problem("data", f"{label}: contents changed {when}")
        for label, d, snap in self.envs:
            try:
                now = list(d.items())
            except RuntimeError:
                now = None
            if now is None or len(now) != len(snap) or any(
                k is not k0 or v is not v0 for (k, v), (k0, v0) in zip(now, snap)
            ):
                self.problem("data", f"{label}: the caller's mapping was changed {when}")

    def check_kept(self, when):
        for label, r, c in self.kept:
            if not same(canon(r), c):
                self.problem("data", f"{label}: an already returned result changed {when}")

    def problem(self, kind, msg):
        if not any(k == kind and m == msg for k, m in self.problems) and len(self.problems) < 20:
            self.problems.append((kind, msg))

    # -- programs ------------------------------------------------------------------------------------
    def fn(self, pname):
        p = self.scn["programs"][pname]
        if "ast" in p:
            ast = p["ast"]
            n = len(ast["params"])

            def body(*args):
                hooks.trace("gen")
                return gen.build(ast, args, hooks)

            body.__name__ = f"generated_{pname}"
            assert n
            return body
        base = corpus.PROGRAMS[p["name"]].fn
        if p.get("fresh"):  # a distinct function object per use
            def fresh(*args):
                return base(*args)

            return fresh
        return base

    def make_slot(self, spec):
        import ein

        kind = spec["kind"]
        fn = self.fn(spec["p"])
        if kind == "fn":
            if "retain" in self.watch:
                inner = fn

                def fn(*args):  # noqa
                    return inner(*args)

                self.refs.append(("user function", weakref.ref(fn)))
            if "traces" in self.watch:
                body = fn

                def fn(*args):  # noqa
                    t = self.sim.me()
                    if t is not None:
                        self.entered[(t.tid, t.op)] = self.entered.get((t.tid, t.op), 0) + 1
                    return body(*args)

            if spec.get("typed"):
                from ein.frontend.functions import typed_function
                from ein.phi.type_system import type_from_ndarray

                return typed_function(*(type_from_ndarray(self.array(a)) for a in spec["typed"]))(fn)
            return ein.function(fn)
        if kind == "closed":
            args = [ein.wrap(self.array(a)) for a in spec["args"]]
            return ein.wrap(fn(*args))
        if kind == "open":
            from ein.phi.type_system import type_from_ndarray

            arrs = [self.array(a) for a in spec["args"]]
            vs, expr = ein.with_varargs([type_from_ndarray(a) for a in arrs], fn)
            env = dict(zip(vs, arrs))
            if "data" in self.watch:
                self.envs.append((f"environment of {spec['p']}", env, list(env.items())))
            return (vs, expr, env)
        raise AssertionError(kind)

    def slot(self, ref):
        """A shared slot by name, or a fresh private object from an inline specification."""
        if isinstance(ref, str):
            v = self.slots[ref]
            if isinstance(v, BaseException):
                raise v
            return v
        return self.make_slot(ref)

    # -- user callbacks --------------------------------------------------------------------------------
    def on_ext(self, name, fn, args):
        sim, t = self.sim, self.sim.me()
        if t is None or t.op < 0:
            self.stray_ext = getattr(self, "stray_ext", 0) + 1
            self.problem("effects", f"callback {name} ran outside any evaluation")
            return fn(*args)
        key = (t.tid, t.op)
        k = self.ext_count.get(key, 0)
        self.ext_count[key] = k + 1
        if "effects" in self.watch:
            self.ext_log.setdefault(key, []).append((name, tuple(digest(a) for a in args)))
        if "data" in self.watch and k < 6:
            self.check_data(f"while a callback ran inside thread {t.tid} operation {t.op}")
        self.act(t, f"ext{k}")
        return fn(*args)

    def on_trace(self, where):
        t = self.sim.me()
        if t is None or t.op < 0:
            return
        key = (t.tid, t.op)
        k = self.trace_count.get(key, 0)
        self.trace_count[key] = k + 1
        self.act(t, f"trace{k}")

    def act(self, t, at):
        for a in self.acts.get((t.tid, t.op, at), ()):
            do = a["do"]
            self.fired[do] = self.fired.get(do, 0) + 1
            self.acted.append((do, t.tid, t.op, at))
            if do == "raise":
                e = USER_ERRORS[a.get("exc", "Exception")](f"callback failure {t.tid}/{t.op}/{at}")
                self.user_errors[(t.tid, t.op)] = e
                raise e
            if do == "interrupt":
                e = KeyboardInterrupt("simulated interrupt in callback")
                self.user_errors[(t.tid, t.op)] = e
                raise e
            if do == "gc":
                gc.collect()
            elif do == "yield":
                self.sim.preempt(t)
            elif do == "stall":
                # Resumes only when every other thread has finished.
                others = [u for u in self.sim.threads if u is not t]
                t.stalled = True
                self.sim.block(t, lambda: all(u.state == "done" or u.stalled for u in others))
                t.stalled = False
            elif do == "reenter":
                self.reentered += 1
                key = (t.tid, t.op)
                saved = (self.ext_count.get(key), self.trace_count.get(key))
                # nested callbacks of the inner evaluation are not subject to acts
                acts, self.acts = self.acts, {k: v for k, v in self.acts.items() if k[:2] != key}
                log = self.ext_log.get(key)
                self.ext_log[key] = []
                try:
                    out = self.attempt(a["sub"], t)
                finally:
                    self.acts = acts
                    self.ext_log[key] = log if log is not None else []
                    for d, v in zip((self.ext_count, self.trace_count), saved):
                        if v is None:
                            d.pop(key, None)
                        else:
                            d[key] = v
                self.outcomes.setdefault(("sub", t.tid, t.op), []).append((a["sub"], out))
            else:
                raise AssertionError(do)

    # -- operations --------------------------------------------------------------------------------------
    def run_op(self, op):
        import ein

        k = op["k"]
        if k == "call":
            f = self.slot(op["f"])
            args = [self.array(a) for a in op["args"]]
            be = op["be"]
            if be == "auto":
                return f(*args)
            if be == "tensor":
                import torch

                return f(*(torch.from_numpy(a) for a in args))
            return getattr(f, be)(*args)
        if k == "eval":
            e = self.slot(op["e"])
            return e.eval(backend=op["be"])
        if k == "interp":
            vs, expr, env = self.slot(op["e"])
            if "args" in op:
                arrs = [self.array(a) for a in op["args"]]
                env = dict(zip(vs, arrs))
            if op.get("missing"):
                env = dict(list(env.items())[1:])
            if op.get("via") == "eval" and type(expr.type).__name__ in ("Vector", "Scalar"):
                x = (ein.Vec if type(expr.type).__name__ == "Vector" else ein.Scalar)(expr)
                return x.eval(env=env, backend=op["be"])
            return getattr(ein, "interpret_with_" + op["be"])(expr, env)
        if k == "pp":
            from ein import debug

            e = self.slot(op["e"])
            expr = e[1] if isinstance(e, tuple) else e.expr
            w = op["which"]
            if "names" in self.watch and w in ("phi", "str", "graph"):
                text = {"phi": debug.pretty_phi, "str": str, "graph": lambda e: debug.graph(e).to_string()}[w](expr)
                self.check_printed(expr, text, w)
                return canon_names(text) if w != "graph" else bag(text)
            if w == "phi":
                return canon_names(debug.pretty_phi(expr))
            if w == "yarr":
                return bag(debug.pretty_yarr_of_phi(expr))
            if w == "graph":
                return bag(debug.graph(expr).to_string())
            if w == "str":
                return canon_names(str(expr))
            if w == "type":
                return str(expr.type)
            raise AssertionError(w)
        if k == "derive":
            a = self.slot(op["e"])
            b = self.slot(op["e2"]) if "e2" in op else a
            return derive(a, b, op["how"]).eval(backend=op["be"])
        if k == "phi":  # trace a function without running it
            f = self.slot(op["f"])
            from ein.phi.type_system import type_from_ndarray
            from ein import debug

            vs, e = f.phi(*(type_from_ndarray(self.array(a)) for a in op["args"]))
            return canon_names(debug.pretty_phi(e))
        if k == "sym":
            from ein.symbols import Index, Variable

            out = []
            for c in op["names"]:
                if c in "vi":  # printed and dropped again
                    text = repr(Variable() if c == "v" else Index())
                    self.symbols.append((None, text))
                    out.append(text[:1])
                    continue
                if c == "x":  # very many
                    for _ in range(40):
                        s = Variable()
                        self.symbols.append((s, repr(s)))
                    out.append("x")
                    continue
                if c in "XY":  # past every plausible bound, unobserved
                    t = self.sim.me()
                    t.quiet += 1
                    for _ in range(66_000):
                        s = Variable() if c == "X" else Index()
                        self.symbols.append((s, repr(s)))
                    t.quiet -= 1
                    out.append("X")
                    continue
                s = self.symbols_shared(c) if c.isdigit() else (Variable() if c == "V" else Index())
                self.symbols.append((s, None))
                pos = len(self.symbols) - 1
                text = repr(s)
                self.symbols[pos] = (s, text)
                out.append(text[:1])
            return "".join(out)
        if k == "gc":
            gc.collect()
            return "gc"
        if k == "del":
            self.slots.pop(op["slot"], None)
            return "del"
        if k == "save":
            from . import disk

            return disk.save(self, op)
        if k == "scribble":
            n = 0
            for label, r, c in list(self.kept):
                lib, a = to_numpy(r)
                if lib not in ("numpy", "torch") or not a.flags.writeable or not a.size:
                    continue
                if any(numpy.shares_memory(a, o) for _, o, _, _ in self.owned):
                    continue
                self.kept = [x for x in self.kept if not numpy.shares_memory(a, to_numpy(x[1])[1])
                             or x[1] is not r]
                if a.dtype.kind == "b":
                    numpy.logical_not(a, out=a)
                else:
                    a += 17
                n += 1
            self.fired["scribble"] = self.fired.get("scribble", 0) + n
            self.kept = [x for x in self.kept if x[1] is not None and same(canon(x[1]), x[2])]
            return "scribble"
        raise AssertionError(k)

    def check_printed(self, expr, text, which):
        """Every symbol of the program occurs in its printed form, under its own name."""
        import re

        t = self.sim.me()
        t.quiet += 1
        try:
            mine = symbols_of(expr)
            for s in mine:
                self.symbols.append((s, repr(s)))
            shown = {x.replace("&amp;", "&") for x in re.findall(r"(?:&amp;|[&@])\d+", text)}
            names = {repr(s) for s in mine}
            if len(names) < len(mine):
                self.problem("names", f"a printed program has {len(mine)} symbols under {len(names)} names")
            if which == "phi" and not plain(expr):
                return  # records are taken apart before printing, which may drop what nobody uses
            if names - shown:
                self.problem("names", f"a program printed ({which}) without its symbols {sorted(names - shown)[:4]}")
            elif which != "phi" and shown - names:
                self.problem("names", f"a program printed ({which}) with foreign symbols {sorted(shown - names)[:4]}")
        finally:
            t.quiet -= 1

    def symbols_shared(self, c):
        pool = self.__dict__.setdefault("_pool", {})
        if c not in pool:
            from ein.symbols import Index, Variable

            pool[c] = Variable() if int(c) % 2 else Index()
        return pool[c]

    def attempt(self, op, t):
        err = op.get("err")
        old = numpy.seterr(all="raise") if err else None
        try:
            r = self.run_op(op)
            out = canon(r)
            if "retain" in self.watch:
                self.note_result(r, t)
            if "data" in self.watch and not isinstance(r, (str, tuple)):
                self.kept.append((f"thread {t.tid} operation {t.op}", r, out))
            del r
            return out
        except (SimAbort, NoProgress):
            raise
        except BaseException as e:
            return self.exc(e, t)
        finally:
            if old is not None:
                numpy.seterr(**old)

    def exc(self, e, t):
        t.quiet += 1  # describing the failure is the harness's business
        try:
            return self._exc(e, t)
        finally:
            t.quiet -= 1

    def _exc(self, e, t):
        own = self.user_errors.get((t.tid, t.op))
        tag = "same object" if own is e else ""
        out = ("exc", type(e).__name__, str(e), tag)
        if "retain" in self.watch:  # the caller drops the failure with all it refers to, and nothing else
            self.user_errors.pop((t.tid, t.op), None)
            return out
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if x is None or id(x) in seen:
                continue
            seen.add(id(x))
            x.__traceback__ = None
            todo += [x.__cause__, x.__context__]
        return out

    # -- running -------------------------------------------------------------------------------------------
    def body(self, tid):
        ops = self.scn["threads"][tid]

        def run(sim, t):
            # Thread-local settings start from the thread's defaults.
            for i, op in enumerate(ops):
                before = settings_local() if "settings" in self.watch else None
                sim.begin_op(t, i)
                self.progress[(tid, i)] = "started"
                try:
                    out = self.attempt(op, t)
                except NoProgress as e:
                    out = ("stuck", "NoProgress", str(e), "")
                sim.end_op(t)
                t.op = -1
                self.progress[(tid, i)] = "ended"
                self.outcomes[(tid, i)] = out
                if before is not None:
                    for k in diff(before, settings_local()):
                        self.problem("settings", f"{k} differs after thread {tid} operation {i}")
                    self.check_settings(f"after thread {tid} operation {i}")
                if "data" in self.watch:
                    self.check_data(f"by the end of thread {tid} operation {i}")
                    self.check_kept(f"by the end of thread {tid} operation {i}")
                if "retain" in self.watch:
                    self.check_dropped(tid, i, op)
                t.op = i

        return run

    def note_result(self, r, t):
        """What is returned belongs to the caller alone, unless it is part of the caller's own data or a constant."""
        t.quiet += 1
        try:
            mine = [a for a in [*self.arrays.values(), *(w() for _, w in self.refs)] if isinstance(a, numpy.ndarray)]
            out = []
            for x in r if isinstance(r, tuple) else (r,):
                kind, a = to_numpy(x)
                if kind not in ("numpy", "torch") or kind == "numpy" and not a.flags.writeable:
                    continue
                if not a.size or any(numpy.may_share_memory(a, m) for m in mine):
                    continue
                out.append(weakref.ref(x))
            self.results = getattr(self, "results", {})
            self.results[(t.tid, t.op)] = out
        finally:
            t.quiet -= 1

    def check_dropped(self, tid, i, op):
        """Arrays this operation alone used must be gone once the caller drops them."""
        refs = getattr(self, "results", {}).pop((tid, i), ())
        if any(w() is not None for w in refs):
            gc.collect()
        for w in refs:
            if w() is not None:
                self.problem("retain", f"the result of thread {tid} operation {i} is still referenced "
                                       f"although its caller dropped it")
        for name in op.get("drop", ()):
            a = self.arrays.pop(name, None)
            if a is None:
                continue
            ref = weakref.ref(a)
            del a
            if ref() is not None:
                gc.collect()
            if ref() is not None:
                self.problem("retain", f"array {name} is still referenced after thread {tid} "
                                       f"operation {i} although its caller dropped it")

    def check_settings(self, when):
        now = settings_global()
        for k in diff(self.settings0, now):
            self.problem("settings", f"{k} changed {when}")
            self.settings0[k] = now[k]

    def fingerprint(self, s):
        from ein import debug

        if isinstance(s, tuple):
            expr = s[1]
        elif hasattr(s, "expr"):
            expr = s.expr
        else:
            return None
        layout = repr(getattr(s, "layout", None))
        return (canon_names(debug.pretty_phi(expr)), str(expr.type), layout,
                tuple(sorted(map(repr, expr.free_symbols))), term_dump(expr))

    def check_facts(self, n, s):
        """What the nodes of a program remember of themselves (sets of symbols) must still be true of them."""
        expr = s[1] if isinstance(s, tuple) else getattr(s, "expr", None)
        if not hasattr(expr, "subterms"):
            return
        seen: set = set()
        todo = [expr]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo += x.subterms
            for name, val in list(vars(x).items()):
                prop = getattr(type(x), name, None)
                if isinstance(prop, functools.cached_property) and isinstance(val, (set, frozenset)):
                    if prop.func(x) != val:
                        self.problem("program", f"a {type(x).__name__} of program {n} now has other {name}")

    def on_switch(self):
        if "data" in self.watch:
            self.check_data("as seen by another thread during an evaluation")
        if "settings" in self.watch:
            self.check_settings("as seen by another thread during an evaluation")

    def run(self):
        scn = self.scn
        hooks.WORLD = self
        boot.HASH.reset(scn.get("salt", 0), scn.get("collide", 0))
        random.seed(1), numpy.random.seed(2)
        boot.POISON.value = scn.get("poison", 77)
        if "settings" in self.watch:
            import torch

            torch.manual_seed(3)
        real_stdio = sys.stdin, sys.stdout, sys.stderr
        stdio = scn.get("stdio")
        fd = None
        if stdio is not None:
            fd = os.memfd_create("stdout")
            self.saved_fds = (os.dup(0), os.dup(1))
            os.dup2(fd, 1)
            null = os.open("/dev/null", os.O_RDONLY)
            os.dup2(null, 0)
            mk = lambda n, m: None if m == "none" else Recorder(n, m, self)  # noqa: E731
            sys.stdin = mk("stdin", stdio.get("in", "ok"))
            sys.stdout = mk("stdout", stdio.get("out", "ok"))
            sys.stderr = mk("stderr", stdio.get("err", "ok"))
        if scn.get("warn"):
            warnings.simplefilter(scn["warn"])
        if "fs" in scn:
            from .disk import Disk

            self.disk = Disk(self)
            self.disk.install()
        clk = boot.CLOCK
        clk.on, clk.base, clk.skew = True, scn.get("clock", {}).get("start", 10**18), 0
        clk.events = lambda: self.sim.events
        self.sim.clock_jumps = {tuple(j[:3]): j[3] for j in scn.get("clock", {}).get("jumps", ())}
        for name, spec in scn.get("slots", {}).items():
            try:
                self.slots[name] = self.make_slot(spec)
            except Exception as e:
                e.__traceback__ = None
                self.slots[name] = e
        if "print" in self.watch:
            self.prints = {n: self.fingerprint(s) for n, s in self.slots.items()}
        threading.stack_size(64 << 20)  # for the simulated threads
        if "settings" in self.watch:
            self.settings0 = settings_global()
        if {"data", "settings"} & self.watch:
            self.sim.on_switch = self.on_switch
            self.sim.peeks = {(int(k.split("/")[0]), int(k.split("/")[1])): v
                              for k, v in scn.get("peeks", {}).items()}
        prio = scn.get("sched", {}).get("prio") or list(range(len(scn["threads"]), 0, -1))
        self.sim.run([self.body(i) for i in range(len(scn["threads"]))], prio)
        clk.on = False
        boot.POISON.value = None
        self.files = None
        if "fs" in scn:
            self.disk.uninstall()
            self.files = self.disk.listing()
            self.disk.remove()
        self.total_events = self.sim.events
        sys.stdin, sys.stdout, sys.stderr = real_stdio
        if fd is not None:
            os.dup2(self.saved_fds[1], 1)
            os.dup2(self.saved_fds[0], 0)
            if os.fstat(fd).st_size:
                self.stdio.append(("stdout", "<written to the file descriptor>"))
        hooks.WORLD = None

    def finish(self):
        """Checks after the run; returns the record."""
        sim = self.sim
        if "retain" in self.watch and not sim.aborted:
            for name, a in self.arrays.items():
                self.refs.append((f"array {name}", weakref.ref(a)))
            for name, s in self.slots.items():
                if isinstance(s, tuple):
                    self.refs.append((f"program {name}", weakref.ref(s[1])))
                elif hasattr(s, "expr"):
                    self.refs.append((f"program {name}", weakref.ref(s.expr)))
                elif not isinstance(s, BaseException):
                    self.refs.append((f"function {name}", weakref.ref(s)))
            s = None
            a = None
            self.arrays.clear()
            self.slots.clear()
            self.kept.clear()
            self.owned.clear()
            self.envs.clear()
            self.user_errors.clear()
            sim.threads.clear()
            sim.by_ident.clear()
            sim.current = None
            gc.collect()
            for label, ref in self.refs:
                if ref() is not None:
                    self.problem("retain", f"{label} is still referenced after its users dropped it")
        if "print" in self.watch and not sim.aborted:
            for n, fp in self.prints.items():
                if n in self.slots and self.fingerprint(self.slots[n]) != fp:
                    self.problem("program", f"program {n} is not what it was before it was used")
                elif n in self.slots:
                    self.check_facts(n, self.slots[n])
        if self.symbols:
            seen: dict = {}
            gone: set = set()
            for s, text in self.symbols:
                if text is None:
                    continue
                if s is not None and repr(s) != text:
                    self.problem("names", f"a symbol printed as {text} and later as {s!r}")
                other = seen.setdefault(text, s)
                if other is not s or text in gone:
                    self.problem("names", f"two different symbols print as {text}")
                if s is None:
                    gone.add(text)
        for (label, text) in self.stdio:
            if label != "stderr":
                self.problem("stdio", f"touched {label}: {text!r}")
        return {
            "outcomes": self.outcomes,
            "problems": self.problems,
            "ext": self.ext_log,
            "ext_n": dict(self.ext_count),
            "trace_n": dict(self.trace_count),
            "entered": self.entered,
            "h": sim.h,
            "events": self.total_events,
            "switches": sim.switches,
            "faults": sim.fault_log,
            "fired": self.fired,
            "acted": self.acted,
            "fs": self.fs_log,
            "saved": self.saved,
            "files": self.files,
            "deadlock": sim.deadlock,
            "harness": sim.harness_tb,
            "profile": sim.profile,
            "locs": sim.locname if sim.profile is not None else None,
            "mid_checks": self.mid_checks,
            "reentered": self.reentered,
            "id_reused": boot.IDS.reused,
            "clock_reads": boot.CLOCK.reads,
            "sim_ns": self.total_events * 1000 + boot.CLOCK.skew,
        }


def plain(expr):
    from ein.phi import phi

    seen = set()

    def go(e):
        if id(e) in seen:
            return True
        seen.add(id(e))
        if isinstance(e, (phi.Cons, phi.First, phi.Second, phi.Reduce, phi.Let)):
            return False
        return all(go(x) for x in e.subterms)

    return go(expr)


def symbols_of(expr):
    """The variables and indices of a program, in order of appearance."""
    import dataclasses

    from ein.symbols import Symbol

    out: dict = {}
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Symbol):
            out[id(x)] = x
        elif dataclasses.is_dataclass(x) and not isinstance(x, type):
            for f in dataclasses.fields(x):
                go(getattr(x, f.name, None))
        elif isinstance(x, (tuple, list, set, frozenset)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for a, b in x.items():
                go(a), go(b)

    go(expr)
    return list(out.values())


def term_dump(expr):
    """Structural digest of a program, independent of what evaluation may cache on it."""
    import dataclasses

    seen: dict = {}

    def go(x):
        k = id(x)
        if k in seen:
            return seen[k]
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            v = (type(x).__name__,) + tuple(go(getattr(x, f.name)) for f in dataclasses.fields(x))
        elif isinstance(x, (tuple, list)):
            v = tuple(go(y) for y in x)
        elif isinstance(x, dict):
            v = tuple((go(a), go(b)) for a, b in x.items())
        elif hasattr(x, "value") and type(x).__name__ == "Value":
            v = go(x.value)
        elif isinstance(x, numpy.ndarray):
            v = (x.shape, str(x.dtype), x.tobytes())
        elif callable(x):
            v = getattr(x, "__name__", "fn")
        else:
            v = repr(x)
        v = hashlib.md5(repr(v).encode()).hexdigest()
        seen[k] = v
        return v

    return go(expr)


def derive(a, b, how):
    """A new program built from existing ones."""
    from ein import array
    from ein.frontend.std import concat
    from ein.phi.type_system import Scalar as ScalarType
    from ein.phi.type_system import Vector

    def rank(x):
        t, r = x.expr.type, 0
        while isinstance(t, Vector):
            t, r = t.elem, r + 1
        return r, t

    ra, ka = rank(a)
    rb, kb = rank(b)

    def elem(x, r, idx):
        return x[tuple(idx)] if r else x

    def to_float(e, k):
        if k == ScalarType(float):
            return e
        if k == ScalarType(int):
            return e.float()
        return e.where(1.0, 0.0)

    if how == "concat" and ra and ra == rb and ka == kb:
        return concat(a, b)
    if how == "self" and ra == 1:
        return array(lambda i: to_float(a[i], ka) * 2.0 + to_float(a[i], ka))
    if how == "outer" and ra == 1 and rb == 1:
        return array(lambda i, j: to_float(a[i], ka) * to_float(b[j], kb))
    if ra == 2:
        return array(lambda i, j: to_float(a[i, j], ka) + 1.0)
    if ra == 1:
        return array(lambda i: to_float(a[i], ka) + 1.0)
    if ra == 0:
        return to_float(a, ka) + 1.0
    return a


def canon_names(text: str) -> str:
    """Rename printed symbols in order of appearance."""
    import re

    seen: dict = {}

    def sub(m):
        return seen.setdefault(m.group(0), f"{m.group(1)}{{{len(seen)}}}")

    text = re.sub(r"(&amp;|[&@$])(\d+)", sub, text)
    return re.sub(r"\s+", "", text)  # lines are broken by width, which depends on the numbers


def bag(text: str) -> str:
    """The words of a text in no particular order, numbers left out: what must not depend on the order
    in which equal alternatives happen to be visited."""
    import re

    return " ".join(sorted(re.findall(r"[A-Za-z_]+|[^A-Za-z_0-9\s]", re.sub(r"\d+", "", text))))


def execute(scn, profile=False):
    gc.disable()
    w = World(scn, profile)
    w.run()
    return w.finish()
