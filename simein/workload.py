"""Choosing programs, data and fault/preemption points.  Everything is drawn from a seeded Random."""
import json
import random

from . import corpus, gen

BACKENDS = ("numpy", "torch", "jax", "naive")
_FILES_CACHE: dict = {}


class Builder:
    """Accumulates a scenario."""

    def __init__(self, rng: random.Random):
        self.r = rng
        self.scn = {"arrays": {}, "programs": {}, "slots": {}, "threads": [], "sched": {}, "faults": [],
                    "acts": [], "salt": 0}
        self.na = self.ns = self.np = 0
        self.private: set = set()  # arrays one operation uses and its caller then drops

    def add_program(self, p) -> str:
        for k, v in self.scn["programs"].items():
            if v == p:
                return k
        self.np += 1
        k = f"p{self.np}"
        self.scn["programs"][k] = p
        return k

    def add_array(self, spec) -> str:
        for k, v in self.scn["arrays"].items():
            if v == spec and k not in self.private:
                return k
        return self.new_array(spec)

    def new_array(self, spec) -> str:
        self.na += 1
        k = f"a{self.na}"
        self.scn["arrays"][k] = spec
        return k

    def add_args(self, specs, fresh=False):
        if not fresh:
            return [self.add_array(s) for s in specs]
        out = [self.new_array(s) for s in specs]
        self.private.update(out)
        return out

    def add_slot(self, spec) -> str:
        self.ns += 1
        k = f"s{self.ns}"
        self.scn["slots"][k] = spec
        return k


def sig_of(p):
    return p["ast"]["params"] if "ast" in p else corpus.PROGRAMS[p["name"]].params


def tags_of(p):
    return frozenset(("gen",)) | (frozenset(("ext",)) if p.get("ext") else frozenset()) if "ast" in p \
        else corpus.PROGRAMS[p["name"]].tags


def corpus_names(want=(), avoid=()):
    return [n for n, p in corpus.PROGRAMS.items()
            if all(t in p.tags for t in want) and not any(t in p.tags for t in avoid)]


DECK = None  # (batch, block, cards drawn): lets consecutive blocks go through the whole corpus


def draw(r, names, stride=1):
    """A program of the corpus: the next card of a deck that the blocks of a batch deal out in turn,
    stride cards per block."""
    if DECK is None:
        return r.choice(names)
    batch, block, drawn = DECK
    key = (tuple(names), stride)
    n = drawn[key] = drawn.get(key, -1) + 1
    deck = list(names)
    random.Random(f"{batch}:{stride}:deck").shuffle(deck)
    return deck[(block * stride + n) % len(deck)] if n < stride else r.choice(names)


def pick_program(r, want=(), avoid=(), p_gen=0.4):
    if not [t for t in want if t != "ext"] and r.random() < p_gen:
        ext = "ext" in want or ("ext" not in avoid and r.random() < 0.15)
        for _ in range(20):
            ast = gen.Gen(r, size=r.choice((5, 8, 12, 20, 30)), ext=ext).program()
            if "ext" in want and '"half"' not in json.dumps(ast):
                continue
            return {"ast": ast, "ext": ext and '"half"' in json.dumps(ast)}
    return {"name": r.choice(corpus_names(want, avoid))}


def pick_args(r, p, plain=False, big=0.03, zero=0.05, misfit=0.06, small=False):
    """Specifications of one set of arguments for program p."""
    dims: dict = {}
    params = sig_of(p)
    tags = tags_of(p)
    big = not plain and not small and r.random() < big and "ast" not in p
    x = r.random()
    scale = "small" if plain or small or x < 0.86 else "medium" if x < 0.95 else "long"
    if scale == "long" and ("ast" in p or any("," in s for s in params)):
        scale = "medium"
    room = 1 if "ast" in p else 2  # dimensions that may be larger than usual

    def dim(d):
        if d not in dims:
            x = r.random()
            if x < zero and not plain:
                dims[d] = 0
            elif scale == "medium" and sum(v > 9 for v in dims.values()) < room and x < 0.8:
                dims[d] = r.choice((10, 12, 16, 17, 20, 33)) if room == 2 else r.choice((10, 12, 16))
            elif scale == "long" and x < 0.9:
                dims[d] = r.choice((40, 65, 100, 129, 257))
            else:
                dims[d] = r.choice((6, 7, 8, 9)) if x > 0.92 else r.choice((1, 2, 3, 4, 5))
            if "sizes" in tags and dims and not plain:  # independent names for what should be one size
                first = next(iter(dims.values()))
                dims[d] = first if r.random() < 0.5 else r.choice((1, first, first + 1))
        return dims[d]

    out = []
    for s in params:
        kind, rest = s.split("[")
        ds = [d for d in rest[:-1].split(",") if d]
        sh = [dim(d) for d in ds]
        if big and len(ds) == 1:
            sh = [dims.setdefault(ds[0] + "!", 1030)]
        spec = {"sh": sh, "s": r.randint(0, 999)}
        if kind == "f":
            x = r.random()
            spec["dt"] = "f8" if plain or x < 0.85 else "f4" if x < 0.95 else "i8"
            if not plain and r.random() < 0.05:
                spec["sp"] = r.choice(("inf", "nan", "big", "zero"))
        elif kind == "b":
            spec["dt"] = "b"
        elif kind == "ix":
            spec["dt"] = "i8" if plain or r.random() < 0.9 else "i4"
            spec["rng"] = (-1, 5)
        else:
            spec["dt"] = "i8" if plain or r.random() < 0.9 else "i4"
            spec["rng"] = (0, 6) if ds else r.choice(((0, 7), (0, 7), (0, 1), (1, 2), (2, 4)))
        if not plain and sh:
            x = r.random()
            spec["lay"] = "C" if x < 0.55 else r.choice("FSTNRB")
        elif not sh and not plain and r.random() < 0.2:
            spec["lay"] = "R"
        out.append(spec)
    if "poly" in tags_of(p):  # any rank and element kind will do
        extra = [dim(d) for d in r.choice(((), (), ("m",), ("m", "k")))]
        dt = r.choice(("f8", "f8", "f4", "i8", "b"))
        for spec in out:
            spec["sh"] = spec["sh"] + extra
            spec["dt"] = dt
            spec.pop("sp", None)
    if not plain and r.random() < misfit:  # sizes that do not fit
        i = r.randrange(len(out))
        if out[i]["sh"]:
            if r.random() < 0.5:
                out[i]["sh"] = [d + r.choice((1, 2)) for d in out[i]["sh"]]
            else:  # or fit only by broadcasting
                j = r.randrange(len(out[i]["sh"]))
                out[i]["sh"] = [1 if k == j else d for k, d in enumerate(out[i]["sh"])]
    if not plain and r.random() < 0.015:  # a rank that does not fit
        i = r.randrange(len(out))
        out[i]["sh"] = out[i]["sh"] + [2]
    return out


_handled: list | None = None


def handled_errors():
    """The kinds of exception that some function of the code under test handles: what to try more often."""
    global _handled
    if _handled is None:
        import ast
        import glob
        import os

        from .boot import PKG_ROOT
        from .world import USER_ERRORS

        found = set()
        for path in sorted(glob.glob(os.path.join(PKG_ROOT, "**", "*.py"), recursive=True)):
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            for fn in ast.walk(tree):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                for h in ast.walk(fn):
                    where = None
                    if isinstance(h, ast.ExceptHandler):
                        where = [h.type] if h.type is not None else []
                    elif isinstance(h, ast.Call) and "suppress" in ast.dump(h.func):
                        where = h.args
                    for w in where or ():
                        for n in ast.walk(w):
                            if isinstance(n, ast.Name) and n.id in USER_ERRORS:
                                found.add(n.id)
        _handled = sorted(found)
    return _handled


def failing(r, tid, op, at, interrupts=False):
    """User code that fails at a given callback or trace."""
    if interrupts and r.random() < 0.3:
        return {"tid": tid, "op": op, "at": at, "do": "interrupt"}
    if r.random() < 0.12:  # what generators and iteration give a meaning of their own
        return {"tid": tid, "op": op, "at": at, "do": "raise", "exc": r.choice(("StopIteration", "GeneratorExit"))}
    if handled_errors() and r.random() < 0.5:
        return {"tid": tid, "op": op, "at": at, "do": "raise", "exc": r.choice(handled_errors())}
    exc = r.choice(("Exception", "Exception", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError",
                    "AttributeError", "AssertionError", "OSError", "ZeroDivisionError", "FloatingPointError",
                    "NotImplementedError", "MemoryError", "RecursionError", "LookupError", "ImportError",
                    "UnicodeError", "SystemExit", "GeneratorExit", "StopIteration", "StopIteration", "EOFError",
                    "ArithmeticError", "NameError", "TimeoutError", "OverflowError", "Warning"))
    return {"tid": tid, "op": op, "at": at, "do": "raise", "exc": exc}


def pick_backend(r, p, naive=True, jax=0.03, p_naive=0.05):
    x = r.random()
    t = tags_of(p)
    if x < jax and not (t & {"ext", "dyn", "nojax"}):
        return "jax"
    if x < 0.72:
        return "numpy"
    if x < 1 - p_naive or not naive:
        return "torch"
    return "naive"


def call_op(b: Builder, f, args, be):
    if be == "naive":
        be = "numpy"
    return {"k": "call", "f": f, "args": args, "be": be}


# -- placing points -------------------------------------------------------------------------------------
def place(r, prof, locs, kind="all", focus=None):
    """Choose an event number: uniformly over distinct code locations, or over files first."""
    d = prof.get(kind) if prof else None
    if not d:
        return None
    keys = sorted(d)
    if kind == "all" and r.random() < 0.45:  # where shared state may be touched
        mark = r.choice(("!!", "!!", "!"))
        keys = [k for k in keys if locs[k].endswith(mark)] or keys
    x = r.random()
    if x < 0.45:
        loc = r.choice(keys)
    else:
        files: dict = {}
        for k in keys:
            files.setdefault(locs[k].split(":", 1)[0], []).append(k)
        f = r.choice(sorted(files))
        if x < 0.75:
            loc = r.choice(files[f])
        else:  # a function first
            fns: dict = {}
            for k in files[f]:
                fns.setdefault(locs[k].rsplit("@", 1)[0], []).append(k)
            loc = r.choice(fns[r.choice(sorted(fns))])
    return r.choice(d[loc])
