"""Loading the system under test behind the simulator's seams.

Importing this module
  * loads the package ``ein`` from the *source text* of the repository's working tree (no .pyc is
    ever consulted), remembering every code object so that the scheduler can instrument them;
  * puts the iteration order of hash based containers behind a seam: the hashes of symbols and terms
    (which the code under test derives from memory addresses) become ``mix(salt, ordinal)`` where the
    ordinal numbers distinct hash values in order of first appearance.  Equality of hashes is exactly
    the repository's, only the order in which sets enumerate their members is the simulator's;
  * puts locks created by the code under test behind a seam (see ``sched.SimLock``).

Nothing in the repository is modified.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import threading
import types
import warnings
import weakref

REPO = os.environ.get("SIMEIN_REPO", "/repo")
PKG_ROOT = os.path.join(REPO, "ein")

CODES: list[types.CodeType] = []  # every code object of the package, in load order
CODE_KEY: dict[types.CodeType, str] = {}  # stable label: path:qualname:firstlineno


CODE_ORD: dict[int, int] = {}  # id of code object -> stable number


def _register(code: types.CodeType) -> None:
    CODES.append(code)
    CODE_ORD[id(code)] = 4096 * len(CODES)
    rel = os.path.relpath(code.co_filename, REPO)
    CODE_KEY[code] = f"{rel}:{code.co_qualname}:{code.co_firstlineno}"
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _register(c)


class HashSeam:
    """Controls the enumeration order of sets of symbols and terms."""

    def __init__(self) -> None:
        self.salt = 0
        self.next = 1 << 20
        self.collide = 0
        self.canon: dict[int, int] = {}
        self.installed: list[str] = []

    def reset(self, salt: int, collide: int = 0) -> None:
        # Only called before any symbol or term of a run has been created.
        self.salt, self.collide = salt, collide

    def mix(self, n: int) -> int:
        x = (n + 1) * 0x9E3779B97F4A7C15 + self.salt * 0xD1B54A32D192ED03
        x &= 0xFFFFFFFFFFFFFFFF
        x ^= x >> 31
        x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 27
        if self.collide:  # adversarial, and legal: few distinct hash values
            x %= self.collide
        return x & 0x0FFFFFFFFFFFFFFF

    def wrap(self, orig):
        canon = self.canon

        def __hash__(obj):
            h = orig(obj)
            n = canon.get(h)
            if n is None:
                n = canon[h] = len(canon)
            return self.mix(n)

        return __hash__

    def wrap_identity(self, orig):
        """For objects hashed by their address: number them in the order they are first hashed."""

        def __hash__(obj):
            try:
                n = obj.__dict__["__sim_ord__"]
            except KeyError:
                n = obj.__dict__["__sim_ord__"] = self.next
                self.next = n + 1
            except AttributeError:
                return orig(obj)
            return self.mix(n)

        return __hash__

    def install_symbols(self, mod) -> None:
        cls = getattr(mod, "Symbol", None)
        if isinstance(cls, type):
            if cls.__hash__ is object.__hash__:
                cls.__hash__ = self.wrap_identity(cls.__hash__)
            elif cls.__hash__ is not None:
                cls.__hash__ = self.wrap(cls.__hash__)
            self.installed.append("Symbol")

    def install_terms(self, mod) -> None:
        cls = getattr(mod, "Term", None)
        if isinstance(cls, type):
            cls.__hash__ = self.wrap(cls.__hash__)
            self.installed.append("Term")


HASH = HashSeam()


class IdSeam:
    """What ``id`` returns to the code under test: small numbers, reused as soon as their object has
    died (as CPython is free to do, but deterministically and always)."""

    def __init__(self) -> None:
        self.live: dict[int, tuple[int, object]] = {}  # real id -> (virtual id, weak reference)
        self.free: list[int] = []
        self.next = 0x10000
        self.reused = 0

    def __call__(self, obj) -> int:
        real = _real_id(obj)
        hit = self.live.get(real)
        if hit is not None and hit[1]() is obj:
            return hit[0]
        try:
            v = self.free.pop() if self.free else None

            def dead(ref, real=real):
                cur = self.live.get(real)
                if cur is not None and cur[1] is ref:
                    del self.live[real]
                    self.free.append(cur[0])

            ref = weakref.ref(obj, dead)
        except TypeError:
            if v is not None:
                self.free.append(v)
            return real
        if v is None:
            self.next += 16
            v = self.next
        else:
            self.reused += 1
        self.live[real] = (v, ref)
        return v


_real_id = id
IDS = IdSeam()


class Clock:
    """time.time and friends as seen while a simulation runs: simulated, advancing per event."""

    def __init__(self) -> None:
        self.on = False
        self.base = 0
        self.events = lambda: 0
        self.skew = 0
        self.reads = 0

    @property
    def now(self) -> int:
        return self.base + 1000 * self.events()

    def install(self) -> None:
        import time

        def patch(name, scale, wall):
            real = getattr(time, name)

            def fake():
                if not self.on:
                    return real()
                self.reads += 1
                t = self.now + (self.skew if wall else 0)
                return t if scale is None else t / scale

            fake.__name__ = name
            setattr(time, name, fake)

        for n, wall in (("time", True), ("monotonic", False), ("perf_counter", False)):
            patch(n, 1e9, wall)
            patch(n + "_ns", None, wall)


CLOCK = Clock()


class Poison:
    """What freshly allocated, uninitialised arrays contain: while a simulation runs, a value of the
    scenario's choice (reference executions use another one), so that a result which depends on it shows."""

    def __init__(self) -> None:
        self.value = None
        self.fills = 0

    def fill(self, a):
        if self.value is not None and getattr(a, "dtype", None) is not None:
            self.fills += 1
            try:
                if a.dtype.kind in "fiub":
                    a.fill(bool(self.value & 1) if a.dtype.kind == "b" else self.value)
            except Exception:
                pass
        return a

    def install(self) -> None:
        import numpy
        import torch

        def wrap(mod, name, torch_like):
            real = getattr(mod, name)

            def fresh(*args, **kwargs):
                a = real(*args, **kwargs)
                if self.value is None:
                    return a
                if torch_like:
                    try:
                        self.fills += 1
                        a.fill_(self.value)
                    except Exception:
                        pass
                    return a
                return self.fill(a)

            fresh.__name__ = name
            fresh.__module__ = mod.__name__
            setattr(mod, name, fresh)

        for n in ("empty", "empty_like"):
            wrap(numpy, n, False)
            wrap(torch, n, True)


POISON = Poison()


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            source = f.read()
        code = compile(source, path, "exec", dont_inherit=True)
        _register(code)
        return code

    def exec_module(self, module):
        module.__dict__["id"] = IDS
        super().exec_module(module)
        if module.__name__ == "ein.symbols":
            HASH.install_symbols(module)
        elif module.__name__ == "ein.term":
            HASH.install_terms(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "ein" and not fullname.startswith("ein."):
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(PKG_ROOT, *rel)
        if os.path.isdir(base):
            file = os.path.join(base, "__init__.py")
            if os.path.exists(file):
                return importlib.util.spec_from_file_location(
                    fullname,
                    file,
                    loader=_Loader(fullname, file),
                    submodule_search_locations=[base],
                )
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


# --- locks -------------------------------------------------------------------------------------
# Locks the code under test creates are replaced by simulated ones, whichever factory it uses.
LOCK_FACTORY = None  # set by sched


def _from_ein(depth: int) -> bool:
    f = sys._getframe(depth)
    hops = 0
    while f is not None and hops < 6:
        name = f.f_globals.get("__name__", "")
        if name == "ein" or name.startswith("ein."):
            return True
        if name not in ("threading", "functools", "dataclasses", __name__):
            return False
        f = f.f_back
        hops += 1
    return False


def _patch_locks() -> None:
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        if LOCK_FACTORY is not None and _from_ein(2):
            return LOCK_FACTORY(False)
        return real_lock()

    def RLock(*args, **kwargs):
        if LOCK_FACTORY is not None and _from_ein(2):
            return LOCK_FACTORY(True)
        return real_rlock(*args, **kwargs)

    import _thread

    threading.Lock = Lock  # type: ignore
    threading._allocate_lock = Lock  # what conditions and events wait on
    _thread.allocate_lock = _thread.allocate = Lock  # type: ignore
    threading.RLock = RLock  # type: ignore


def load():
    """Import the package under test; returns the module ``ein``."""
    if "ein" in sys.modules:
        return sys.modules["ein"]
    for c in (UserWarning, RuntimeWarning, DeprecationWarning, FutureWarning):
        warnings.filterwarnings("ignore", category=c)  # not the bare "ignore", which code under test may add
    import numpy  # noqa
    import torch
    import jax  # noqa

    torch.set_num_threads(1)
    sys.meta_path.insert(0, _Finder())
    from . import sched  # noqa  (sets LOCK_FACTORY)

    _patch_locks()
    CLOCK.install()
    POISON.install()
    import ein

    for dirpath, dirnames, filenames in sorted(os.walk(PKG_ROOT)):
        dirnames.sort()
        for f in sorted(filenames):
            if not f.endswith(".py") or f == "__main__.py":
                continue
            rel = os.path.relpath(os.path.join(dirpath, f), REPO)[:-3].split(os.sep)
            if rel[-1] == "__init__":
                rel = rel[:-1]
            importlib.import_module(".".join(rel))

    assert os.path.realpath(ein.__file__) == os.path.realpath(
        os.path.join(PKG_ROOT, "__init__.py")
    ), ein.__file__
    return ein
