"""Random well-typed programs as JSON syntax trees (so that failures can be shrunk and stored).

Scalar expressions
  ["c", v] constant          ["x", name] bound name (index, counter, accumulator, let)
  ["get", array, [scalar..]]  ["op", name, scalar..]   ["size", array, axis]
  ["fsum"|"fmin"|"fmax"|"rsum"|"rmax", name, size|null, scalar]
  ["fold", i, acc, size, init, body]   ["fold2", i, acc, size, init0, init1, body0, body1]
Array expressions
  ["p", k] parameter  ["x", name] let  ["arr", [names], [sizes|null], scalar]  ["cat", a, b]
  ["afold", i, acc, size, init, body]   ["k", n] captured constant array
Program: {"params": [...], "lets": [[name, expr], ..], "body": expr}
"""
import json


class Gen:
    def __init__(self, rng, size=8, ext=False):
        self.rng = rng
        self.fresh = 0
        self.budget = size
        self.ext = ext

    def name(self, p):
        self.fresh += 1
        return f"{p}{self.fresh}"

    def program(self):
        r = self.rng
        dims = ["n", "m", "k"]
        self.arrays = []  # (expr, kind, dims)
        params = []
        for _ in range(r.randint(1, 3)):
            kind = r.choice("fffffib")
            rank = r.choice((0, 1, 1, 1, 2, 2, 3)) if kind == "f" else r.choice((0, 1, 1))
            ds = [r.choice(dims[:2] if r.random() < 0.7 else dims) for _ in range(rank)]
            if kind == "i" and rank == 1 and r.random() < 0.6:
                params.append(f"ix[{','.join(ds)}]")
            else:
                params.append(f"{kind}[{','.join(ds)}]")
            self.arrays.append((["p", len(params) - 1], kind, tuple(ds)))
        if not any(ds for _, k, ds in self.arrays if k == "f"):
            params.append("f[n]")
            self.arrays.append((["p", len(params) - 1], "f", ("n",)))
        if r.random() < 0.15:
            self.arrays.append((["k", 9], "f", ("$9",)))
        self.sizes = {}  # dim -> scalar expression
        for e, _k, ds in self.arrays:
            for ax, d in enumerate(ds):
                self.sizes.setdefault(d, ["size", e, ax])
        lets = []
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            e, kind, ds = self.array(r.choice((0, 1, 1, 2)), 3)
            nm = self.name("t")
            lets.append([nm, e])
            self.arrays.append((["x", nm], kind, ds))
        body, kind, ds = self.array(r.choice((0, 1, 1, 2, 2)), 4)
        return {"params": params, "lets": lets, "body": body}

    def array(self, rank, depth):
        r = self.rng
        if rank == 0:
            kind = r.choice("fffi")
            return self.scalar(kind, depth, []), kind, ()
        roll = r.random()
        if roll < 0.06:
            c = [a for a in self.arrays if len(a[2]) == rank]
            if c:
                return r.choice(c)
        if roll < 0.14 and rank == 1:
            e1, k1, d1 = self.array(1, depth - 1)
            c = [a for a in self.arrays if len(a[2]) == 1 and a[1] == k1]
            if c:
                e2, _, d2 = r.choice(c)
                d = self.name("$c")
                e = ["cat", e1, e2]
                self.sizes[d] = ["op", "+", ["size", e1, 0], ["size", e2, 0]]
                return e, k1, (d,)
        if roll < 0.2:
            c = [a for a in self.arrays if len(a[2]) == rank and a[1] == "f"]
            if c:
                init, _, ds = r.choice(c)
                i, acc = self.name("i"), self.name("acc")
                saved = self.arrays
                self.arrays = saved + [(["x", acc], "f", ds)]
                names = [self.name("j") for _ in ds]
                scope = [(i, None)] + list(zip(names, ds))
                inner = self.scalar("f", min(depth - 1, 2), scope)
                self.arrays = saved
                body = [
                    "arr", names, [self.sizes[d] for d in ds],
                    ["op", "+", ["op", "*", ["c", 0.5], ["get", ["x", acc], [["x", n] for n in names]]],
                     inner],
                ]
                return ["afold", i, acc, ["c", r.randint(0, 3)], init, body], "f", ds
        pool = [d for d in self.sizes]
        ds = tuple(r.choice(pool) for _ in range(rank))
        names = [self.name("i") for _ in ds]
        kind = r.choice("ffffib")
        body = self.scalar(kind, depth, list(zip(names, ds)))
        direct = set()
        self._direct(body, direct)
        infer = all(n in direct for n in names) and r.random() < 0.5
        sizes = [None] * rank if infer else [self.sizes[d] for d in ds]
        return ["arr", names, sizes, body], kind, ds

    def _direct(self, e, out):
        if isinstance(e, list):
            if e and e[0] == "get":
                for s in e[2]:
                    if s[0] == "x":
                        out.add(s[1])
            for s in e:
                self._direct(s, out)

    def index_into(self, d, scope, depth):
        r = self.rng
        same = [n for n, nd in scope if nd == d]
        anyi = [n for n, _ in scope]
        roll = r.random()
        if same and roll < 0.6:
            return ["x", r.choice(same)]
        if (same or anyi) and roll < 0.78:
            b = ["x", r.choice(same or anyi)]
            return ["op", r.choice("+-"), b, ["c", r.randint(1, 3)]]
        if anyi and roll < 0.86:
            return ["x", r.choice(anyi)]
        if roll < 0.93 and depth > 0:
            return self.scalar("i", depth - 1, scope)
        return ["c", r.randint(-1, 4)]

    def element(self, kind, scope, depth):
        r = self.rng
        c = [a for a in self.arrays if a[1] == kind]
        if not c:
            return None
        known = {d for _, d in scope}
        w = [3 if all(d in known for d in a[2]) else 1 for a in c]
        e, _, ds = r.choices(c, w)[0]
        if not ds:
            return e
        return ["get", e, [self.index_into(d, scope, depth) for d in ds]]

    def scalar(self, kind, depth, scope):
        r = self.rng
        self.budget -= 1
        if depth <= 0 or self.budget < 0:
            if r.random() < 0.75:
                e = self.element(kind, scope, 0)
                if e is not None:
                    return e
            if kind == "i":
                idx = [n for n, _ in scope]
                if idx and r.random() < 0.7:
                    return ["x", r.choice(idx)]
                return ["c", r.randint(-2, 4)]
            if kind == "b":
                return ["op", "<", self.scalar("f", 0, scope), ["c", 0.5]]
            return ["c", r.choice((-1.5, -0.5, 0.25, 0.5, 1.0, 2.0))]
        roll = r.random()
        if roll < 0.3:
            e = self.element(kind, scope, depth)
            if e is not None:
                return e
        if kind == "b":
            op = r.choice(("<", "<=", "==", "&", "|", "~", "!="))
            if op in "&|":
                return ["op", op, self.scalar("b", depth - 1, scope), self.scalar("b", depth - 1, scope)]
            if op == "~":
                return ["op", op, self.scalar("b", depth - 1, scope)]
            k = r.choice("ffi") if op in ("<", "<=") else "i"
            return ["op", op, self.scalar(k, depth - 1, scope), self.scalar(k, depth - 1, scope)]
        if kind == "i":
            op = r.choice(("+", "-", "*", "%", "where", "size", "x", "neg", "fold"))
            if op == "size":
                return ["size", *r.choice([(s[1], s[2]) for s in self.sizes.values() if s[0] == "size"])]
            if op == "x":
                return self.scalar("i", 0, scope)
            if op == "neg":
                return ["op", "neg", self.scalar("i", depth - 1, scope)]
            if op == "%":
                return ["op", "%", self.scalar("i", depth - 1, scope), ["c", r.choice((2, 3, 5))]]
            if op == "where":
                return ["op", "where", self.scalar("b", depth - 1, scope),
                        self.scalar("i", depth - 1, scope), self.scalar("i", depth - 1, scope)]
            if op == "fold":
                return self.fold("i", depth, scope)
            return ["op", op, self.scalar("i", depth - 1, scope), self.scalar("i", depth - 1, scope)]
        if roll < 0.62:
            op = r.choice(("+", "+", "-", "*", "*", "min", "max", "where", "neg", "abs", "rdiv", "sin",
                           "cos", "float", "square", "half" if self.ext else "+"))
            if op in ("neg", "abs", "sin", "cos", "square", "half"):
                return ["op", op, self.scalar("f", depth - 1, scope)]
            if op == "float":
                return ["op", "float", self.scalar("i", depth - 1, scope)]
            if op == "where":
                return ["op", "where", self.scalar("b", depth - 1, scope),
                        self.scalar("f", depth - 1, scope), self.scalar("f", depth - 1, scope)]
            return ["op", op, self.scalar("f", depth - 1, scope), self.scalar("f", depth - 1, scope)]
        if roll < 0.86:
            d = r.choice(list(self.sizes))
            n = self.name("s")
            form = r.choice(("fsum", "fsum", "fmin", "fmax", "rsum", "rmax"))
            if form == "fsum" and r.random() < 0.5:
                body = ["op", "*", self.element("f", scope + [(n, d)], 0) or ["c", 0.5],
                        self.element("f", scope + [(n, d)], 0) or ["c", 0.5]]
            else:
                body = self.scalar("f", depth - 1, scope + [(n, d)])
            direct = set()
            self._direct(body, direct)
            sz = None if n in direct and r.random() < 0.5 else self.sizes[d]
            return [form, n, sz, body]
        return self.fold("f", depth, scope)

    def fold(self, kind, depth, scope):
        r = self.rng
        d = r.choice(list(self.sizes))
        i, acc = self.name("i"), self.name("acc")
        size = self.sizes[d] if r.random() < 0.6 else ["c", r.randint(0, 3)]
        sc = scope + [(i, d)]
        half = ["c", 0.5]
        if kind == "i":
            return ["fold", i, acc, size, ["c", r.randint(-1, 1)],
                    ["op", "%", ["op", "+", ["x", acc], self.scalar("i", depth - 1, sc)], ["c", 97]]]
        if r.random() < 0.3:
            a0 = ["op", "*", half, ["op", r.choice(("+", "-")), ["fst", acc], self.scalar("f", depth - 1, sc)]]
            a1 = ["op", r.choice(("min", "max", "+")), ["op", "*", half, ["snd", acc]],
                  r.choice((["fst", acc], self.scalar("f", depth - 2, sc)))]
            return ["fold2", i, acc, size, ["c", 0.0], ["c", 1.0], a0, a1]
        upd = r.choice(("+", "-", "max", "min"))
        return ["fold", i, acc, size, ["c", r.choice((0.0, 1.0))],
                ["op", upd, ["op", "*", half, ["x", acc]], self.scalar("f", depth - 1, sc)]]


def build(ast, args, hooks):
    """Interpret the syntax tree with the public API of ein."""
    import ein
    from ein import array, fold, wrap
    from ein.frontend import std

    def op(name, *a):
        if name == "+":
            return a[0] + a[1]
        if name == "-":
            return a[0] - a[1]
        if name == "*":
            return a[0] * a[1]
        if name == "%":
            return a[0] % a[1]
        if name == "min":
            return wrap(a[0]).min(a[1])
        if name == "max":
            return wrap(a[0]).max(a[1])
        if name == "where":
            return a[0].where(a[1], a[2])
        if name == "neg":
            return -a[0]
        if name == "abs":
            return a[0].abs()
        if name == "rdiv":
            return a[0] / (a[1] * a[1] + 1.0)
        if name == "sin":
            return a[0].sin()
        if name == "cos":
            return a[0].cos()
        if name == "float":
            return a[0].float()
        if name == "square":
            return a[0] ** 2
        if name == "half":
            return ein.ext(hooks.EXT["half"], ein.scalar_type(float))(a[0])
        if name == "<":
            return a[0] < a[1]
        if name == "<=":
            return a[0] <= a[1]
        if name == "==":
            return a[0] == a[1]
        if name == "!=":
            return a[0] != a[1]
        if name == "&":
            return a[0] & a[1]
        if name == "|":
            return a[0] | a[1]
        if name == "~":
            return ~a[0]
        raise AssertionError(name)

    def go(e, env):
        t = e[0]
        if t == "c":
            return wrap(e[1])
        if t == "x":
            return env[e[1]]
        if t == "p":
            return args[e[1]]
        if t == "k":
            return wrap(hooks.big_const(e[1]))
        if t == "fst":
            return env[e[1]][0]
        if t == "snd":
            return env[e[1]][1]
        if t == "get":
            return go(e[1], env)[tuple(go(s, env) for s in e[2])]
        if t == "op":
            return op(e[1], *(go(s, env) for s in e[2:]))
        if t == "size":
            return go(e[1], env).size(e[2])
        if t in ("fsum", "fmin", "fmax", "rsum", "rmax"):
            fn = {"fsum": std.fold_sum, "fmin": std.fold_min, "fmax": std.fold_max,
                  "rsum": std.reduce_sum, "rmax": std.reduce_max}[t]
            cnt = None if e[2] is None else go(e[2], env)
            return fn(lambda i: go(e[3], {**env, e[1]: i}), count=cnt)
        if t == "fold":
            return fold(go(e[4], env), lambda i, acc: go(e[5], {**env, e[1]: i, e[2]: acc}),
                        count=go(e[3], env))
        if t == "fold2":
            return fold((go(e[4], env), go(e[5], env)),
                        lambda i, acc: (go(e[6], {**env, e[1]: i, e[2]: acc}),
                                        go(e[7], {**env, e[1]: i, e[2]: acc})),
                        count=go(e[3], env))[0]
        if t == "afold":
            return fold(go(e[4], env), lambda i, acc: go(e[5], {**env, e[1]: i, e[2]: acc}),
                        count=go(e[3], env))
        if t == "cat":
            return std.concat(go(e[1], env), go(e[2], env))
        if t == "arr":
            names, sizes, body = e[1:]

            def cons(*ix):
                return go(body, {**env, **dict(zip(names, ix))})

            if sizes[0] is not None:
                return array(cons, size=tuple(go(s, env) for s in sizes))
            if len(names) == 1:
                return array(lambda a: cons(a))
            if len(names) == 2:
                return array(lambda a, b: cons(a, b))
            return array(lambda a, b, c: cons(a, b, c))
        raise AssertionError(t)

    env = {}
    for name, e in ast["lets"]:
        env[name] = go(e, env)
    return go(ast["body"], env)


def shrinks(ast):
    """Smaller candidate programs."""
    import copy

    def rank_preserving(e):
        # replace any scalar sub-expression by one of its own scalar operands
        if isinstance(e, list) and e:
            if e[0] == "op":
                for s in e[2:]:
                    yield s
                yield ["c", 1.0]
            if e[0] in ("fsum", "fmin", "fmax", "rsum", "rmax", "fold", "fold2"):
                yield ["c", 0.5]

    def walk(root, path=()):
        if isinstance(root, list):
            for cand in rank_preserving(root):
                yield path, cand
            for i, s in enumerate(root):
                yield from walk(s, path + (i,))

    for where in ["body"] + [("lets", i) for i in range(len(ast["lets"]))]:
        root = ast["body"] if where == "body" else ast["lets"][where[1]][1]
        for path, cand in walk(root):
            new = copy.deepcopy(ast)
            holder = new["body"] if where == "body" else new["lets"][where[1]][1]
            if not path:
                if where == "body":
                    new["body"] = copy.deepcopy(cand)
                else:
                    new["lets"][where[1]][1] = copy.deepcopy(cand)
            else:
                for p in path[:-1]:
                    holder = holder[p]
                holder[path[-1]] = copy.deepcopy(cand)
            yield new


SWAPS = {"+": "-*", "-": "+*", "*": "+-", "min": ("max",), "max": ("min",), "<": (">", "<="), ">": ("<",),
         "<=": ("<",), "fsum": ("fmax", "rsum"), "fmin": ("fmax",), "fmax": ("fmin",), "rsum": ("rmax",),
         "rmax": ("rsum",), "sin": ("cos",), "cos": ("sin",), "&": "|", "|": "&", "and": ("or",), "or": ("and",)}


def sibling(ast, r):
    """A program that differs from the given one in a single detail, or None."""
    out = json.loads(json.dumps(ast))
    spots = []

    def walk(e):
        if not isinstance(e, list):
            return
        if e and e[0] == "c" and not isinstance(e[1], bool):
            spots.append((e, 1, [e[1] + 1, -e[1] if e[1] else 2]))
        elif len(e) > 1 and e[0] == "op" and e[1] in SWAPS and (e[1] not in "+-*" or len(e) == 4):
            spots.append((e, 1, SWAPS[e[1]]))
        elif e and isinstance(e[0], str) and e[0] in SWAPS:
            spots.append((e, 0, SWAPS[e[0]]))
        elif e and e[0] == "get" and len(e[2]) > 1:
            spots.append((e, 2, [e[2][::-1]]))
        for x in e:
            walk(x)

    for _, e in out["lets"]:
        walk(e)
    walk(out["body"])
    if not spots:
        return None
    e, k, choices = r.choice(spots)
    e[k] = r.choice(choices)
    return out
