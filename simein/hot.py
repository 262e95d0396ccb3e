"""Where the code under test touches state that several threads (or a failed and a later operation) may share.

A static pass over the bytecode of the package marks lines that write to module globals, attributes,
captured variables or subscripts, or that read a name written that way anywhere in the same module.
Another pass over the source finds the bodies of try and with statements, where an error may be held up.
The marks only bias where preemptions and faults are placed; they never decide a verdict."""

import collections
import dis
import functools
import itertools
import sys
import threading
import types

from . import boot

MUTATORS = {
    "append", "add", "clear", "discard", "difference_update", "extend", "insert", "intersection_update", "pop",
    "popitem", "popleft", "appendleft", "remove", "setdefault", "sort", "reverse", "update", "move_to_end",
    "symmetric_difference_update", "set", "wait", "acquire", "release", "cache_clear",
}
CACHES = (type(functools.lru_cache(lambda: 0)), itertools.count, threading.local)
CONTAINERS = (dict, list, set, bytearray, collections.deque, collections.abc.MutableMapping,
              collections.abc.MutableSet, collections.abc.MutableSequence)
_marks: dict | None = None


def _lines(code):
    """[(line, [instructions])] in bytecode order."""
    out: dict = {}
    line = None
    for ins in dis.get_instructions(code):
        if ins.positions and ins.positions.lineno is not None:
            line = ins.positions.lineno
        out.setdefault(line, []).append(ins)
    return out


def _owner(inss, a, env):
    """Whether the object whose attribute instruction a touches is an instance (self), a class or a function."""
    p = inss[a - 1] if a else None
    return p is not None and (
        p.opname.startswith("LOAD_FAST") and p.argval in ("self", "cls") or p.opname == "LOAD_GLOBAL" and not isinstance(env.get(p.argval), types.ModuleType))


def marks() -> dict:
    """id(code) -> (hot lines, hot offsets, lines of shared state, offsets of shared state)"""
    global _marks
    if _marks is not None:
        return _marks
    mods = {getattr(m, "__file__", None): m for m in list(sys.modules.values())
            if (getattr(m, "__name__", "") or "").split(".")[0] == "ein"}
    info = [(c, _lines(c)) for c in boot.CODES if c.co_flags & 0x2]  # module and class bodies run once
    globs: dict = {}
    cells: dict = {}
    attrs: set = set()

    def is_mutating(inss):
        return any(
            i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE")
            or i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in MUTATORS
            or i.opname == "BINARY_OP" and "=" in (i.argrepr or "") for i in inss)

    for code, lines in info:
        m = mods.get(code.co_filename)
        env = vars(m) if m is not None else {}
        init = code.co_name in ("__init__", "__new__", "__post_init__")
        for inss in lines.values():
            mutates = is_mutating(inss)
            for a, i in enumerate(inss):
                op, v = i.opname, i.argval
                if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    globs.setdefault(code.co_filename, set()).add(v)
                elif op == "LOAD_GLOBAL":
                    x = env.get(v)
                    nxt = inss[a + 1].opname if a + 1 < len(inss) else ""
                    if isinstance(x, CACHES) or isinstance(x, CONTAINERS) and (mutates or nxt.startswith("STORE_")):
                        globs.setdefault(code.co_filename, set()).add(v)
                elif op in ("STORE_ATTR", "DELETE_ATTR") and not init:
                    attrs.add(v)
                elif op == "LOAD_ATTR" and mutates and v not in MUTATORS and not init and _owner(inss, a, env):
                    nxt = inss[a + 1] if a + 1 < len(inss) else i
                    if nxt.argval in MUTATORS or any(x.opname in ("STORE_SUBSCR", "DELETE_SUBSCR") for x in inss):
                        attrs.add(v)
                elif op == "LOAD_DEREF" and mutates or op == "STORE_DEREF" and v in code.co_freevars:
                    cells.setdefault(code.co_filename, set()).add(v)
    out: dict = {}
    for code, lines in info:
        m = mods.get(code.co_filename)
        env = vars(m) if m is not None else {}
        g, d = globs.get(code.co_filename, ()), cells.get(code.co_filename, ())
        backend = "/backend/" in code.co_filename
        hot, shared = set(), set()
        for line, inss in lines.items():
            if line is None:
                continue
            if is_mutating(inss):
                hot.add(line)
            for a, i in enumerate(inss):
                op, v = i.opname, i.argval
                if op in ("LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL") and v in g or (
                        op in ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR") and v in attrs and _owner(inss, a, env)):
                    shared.add(line)
                elif op in ("LOAD_DEREF", "STORE_DEREF") and v in d:
                    (shared if backend and is_mutating(inss) else hot).add(line)
        hot |= shared
        if not hot:
            continue
        order = [x for x in lines if x is not None]

        def wide(some):
            return some | {order[a + 1] for a, x in enumerate(order[:-1]) if x in some}

        def offsets(some):
            return {i.offset for x in some for i in lines[x]}

        out[id(code)] = (wide(hot), offsets(hot), wide(shared), offsets(shared))
    _marks = out
    return out


def heat(code: types.CodeType, pos: int, flavour: str) -> int:
    """0 nothing known, 1 some mutable state, 2 state that outlives the operation"""
    m = marks().get(id(code))
    if m is None:
        return 0
    i = 0 if flavour == "L" else 1
    return 2 if pos in m[2 + i] else 1 if pos in m[i] else 0


_guards: dict | None = None


def guards() -> dict:
    """file -> line -> the innermost try or with statement of a function whose body the line belongs to"""
    global _guards
    if _guards is None:
        import ast

        _guards = {}
        for name in sorted({c.co_filename for c in boot.CODES}):
            try:
                with open(name, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for fn in ast.walk(tree):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for st in ast.walk(fn):
                    if isinstance(st, (ast.Try, ast.TryStar)) and not st.handlers and not any(
                            isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise))
                            for y in st.finalbody for x in ast.walk(y)):
                        continue  # passes every error on
                    if isinstance(st, (ast.Try, ast.TryStar, ast.With, ast.AsyncWith)):
                        for x in range(st.body[0].lineno, st.body[-1].end_lineno + 1):
                            _guards.setdefault(name, {})[x] = f"{name.rsplit('/', 1)[-1]}:{st.lineno}"
    return _guards


def guard(frame):
    """The innermost such statement that is being executed in this or a calling frame."""
    g = guards()
    while g and frame is not None:
        lines = g.get(frame.f_code.co_filename)
        if lines is not None:
            region = lines.get(frame.f_lineno)
            if region is not None:
                return region
        frame = frame.f_back
    return None
