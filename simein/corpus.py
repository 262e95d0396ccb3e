"""Hand-written programs, covering every construct of the language that the backends implement.

A program is a plain Python function over ein arrays, as a user would write it, with a parameter
signature such as ``"f[n,k] f[k,m]"``: kind (f float, i int, b bool) and symbolic dimensions, shared
between parameters.  ``ix[n]`` are integer arrays that hold indices (partly out of range).
User callbacks (extrinsics) go through ``hooks``: the world decides what they do during a run.
"""
from dataclasses import dataclass

import numpy

from . import hooks

PROGRAMS: dict[str, "Prog"] = {}


@dataclass
class Prog:
    name: str
    sig: str
    fn: object
    tags: frozenset

    @property
    def params(self):
        return self.sig.split()


def prog(sig, *tags):
    def deco(fn):
        name = fn.__name__.lstrip("_")
        PROGRAMS[name] = Prog(name, sig, fn, frozenset(tags))
        return fn

    return deco


def install():
    """Defines the programs; call after ein has been loaded."""
    import ein
    from ein import array, fold, wrap, ext, scalar_type, vector_type
    from ein.frontend import std
    from ein.frontend.std import (
        concat, fold_sum, fold_min, fold_max, fold_argmin, reduce_sum, reduce_min, reduce_max,
        reduce_argmin, where,
    )

    @prog("f[n,k] f[k,m]")
    def matmul(a, b):
        return array(lambda i, j: fold_sum(lambda t: a[i, t] * b[t, j]))

    @prog("f[n] f[n]")
    def dot(a, b):
        return fold_sum(lambda i: a[i] * b[i])

    @prog("f[n] f[m]")
    def outer(a, b):
        return array(lambda i, j: a[i] * b[j])

    @prog("f[n] f[n]")
    def saxpy(a, b):
        return array(lambda i: (2.0 * a[i] + b[i]) * (a[i] - b[i]) + 1.0)

    @prog("f[n] f[]")
    def scale(a, s):
        return array(lambda i: -(a[i] * s) + s)

    @prog("f[n]")
    def softmax(a):
        mx = fold_max(lambda i: a[i])
        e = array(lambda i: (a[i] - mx).exp())
        tot = fold_sum(lambda i: e[i])
        return array(lambda i: e[i] / tot)

    @prog("f[n]", "slice")
    def smooth(a):
        return array(lambda i: (a[i - 1] + a[i] + a[i + 1]) / 3.0)

    @prog("f[n,m]", "slice")
    def stencil(m):
        return array(
            lambda i, j: m[i, j] + 0.5 * (m[i - 1, j] + m[i + 1, j] + m[i, j - 1] + m[i, j + 1])
        )

    @prog("f[n]", "slice")
    def shift_far(a):
        return array(lambda i: a[i + 3] - a[i - 2], size=a.size(0))

    @prog("f[n]", "slice")
    def edge_left(a):
        return array(lambda i: a[i - 1] * 2.0, size=a.size(0))

    @prog("f[n]", "slice")
    def pad_out(a):
        return array(lambda i: a[i - 2], size=a.size(0) + 4)

    @prog("f[n] ix[m]")
    def gather(a, ix):
        return array(lambda i: a[ix[i]] * 2.0)

    @prog("f[n,m] ix[k]")
    def gather_rows(m, ix):
        return array(lambda i, j: m[ix[i], j])

    @prog("f[n,m] ix[n]")
    def gather_along(m, ix):
        return array(lambda i: m[i, ix[i]])

    @prog("f[n,m] ix[k] ix[l]")
    def gather_two(m, ix, iy):
        return array(lambda i, j: m[ix[i], iy[j]] + 1.0)

    @prog("f[n,m]")
    def transpose(m):
        return array(lambda i, j: m[j, i])

    @prog("f[n,m]")
    def double_transpose(m):
        t = array(lambda i, j: m[j, i])
        return array(lambda i, j: t[j, i] + m[i, j])

    @prog("f[n,n]")
    def diagonal(m):
        return array(lambda i: m[i, i])

    @prog("f[n,n]")
    def symmetrise(m):
        return array(lambda i, j: (m[i, j] + m[j, i]) / 2.0)

    @prog("f[n] f[m]")
    def concat2(a, b):
        return concat(a, b, a)

    @prog("f[n,m] f[n,k]")
    def concat_cols(a, b):
        return array(lambda i: concat(array(lambda j: a[i, j]), array(lambda j: b[i, j] * 2.0)))

    @prog("f[n]", "nojax")
    def concat_records(a):
        r = array(lambda i: (a[i], i))
        c = concat(r, r)
        return array(lambda i: c[i][0] + c[i][1].float())

    @prog("f[n,m]")
    def reduce_rows(m):
        return array(lambda i: reduce_sum(lambda j: m[i, j]))

    @prog("f[n,m]")
    def reduce_cols(m):
        return array(lambda j: reduce_max(lambda i: m[i, j]))

    @prog("f[n]")
    def reduce_abs(a):
        return array(lambda i: a[i].abs()).reduce(wrap(0.0), lambda x, y: x + y)

    @prog("f[n]")
    def argmin_fold(a):
        return fold_argmin(lambda i: a[i])

    @prog("f[n,m]")
    def argmin_rows(m):
        return array(lambda i: fold_argmin(lambda j: m[i, j]))

    @prog("f[n]")
    def argmin_reduce(a):
        return reduce_argmin(lambda i: a[i])

    @prog("i[]", "dyn")
    def fibonacci(n):
        fib = fold(
            array(lambda i: 0, size=n),
            lambda i, acc: array(
                lambda j: where(j == i, where(i > 1, acc[i - 1] + acc[i - 2], 1), acc[j]), size=n
            ),
            count=n,
        )
        return fib

    @prog("f[n]")
    def mean_var(a):
        s, q = fold((wrap(0.0), wrap(0.0)), lambda i, acc: (acc[0] + a[i], acc[1] + a[i] * a[i]))
        n = a.size(0).float()
        mu = s / n
        return q / n - mu * mu

    @prog("f[n]")
    def records(a):
        r = array(lambda i: {"x": a[i], "y": (i, -a[i])})
        return array(lambda i: r[i]["x"] * r[i]["y"][1] + r[i]["y"][0].float())

    @dataclass
    class Cplx:
        re: object
        im: object

        def __mul__(self, o):
            return Cplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    @prog("f[n] f[n]")
    def complex_mul(a, b):
        z = array(lambda i: Cplx(a[i], b[i]))
        w = array(lambda i: z[i] * z[i])
        return array(lambda i: w[i].re + w[i].im)

    @prog("f[n] f[n]")
    def select(a, b):
        return array(lambda i: where((a[i] > 0.0) & ~(b[i] <= 1.0), a[i], b[i] * 0.5))

    @prog("i[]", "dyn")
    def arange(n):
        return array(lambda i: i * i + 1, size=n)

    @prog("i[] i[]", "dyn")
    def grid(n, m):
        return array(lambda i, j: (i.float() + 1.0) / (j.float() + 1.0), size=(n, m))

    @prog("f[n,n]")
    def matrix_power(m):
        def mm(x, y):
            return array(
                lambda i, j: fold_sum(lambda t: x[i, t] * y[t, j], count=m.size(0)),
                size=(m.size(0), m.size(0)),
            )

        return fold(m, lambda i, acc: mm(acc, m), count=3)

    @prog("i[n] i[n]")
    def int_ops(a, b):
        return array(lambda i: (a[i] + 3) % 5 + a[i] * b[i] - (-b[i]))

    @prog("i[n]")
    def int_sum(a):
        return fold(wrap(0), lambda i, acc: acc + a[i] * a[i])

    @prog("b[n] b[n]")
    def logic(p, q):
        return array(lambda i: (p[i] & q[i]) | ~p[i])

    @prog("b[n] f[n]")
    def mask_sum(p, a):
        return fold_sum(lambda i: p[i].where(a[i], 0.0))

    @prog("i[n]")
    def cast(a):
        return array(lambda i: a[i].float() / 4.0)

    @prog("f[n]")
    def or_empty(a):
        return a.or_empty(0, wrap(-1.0))

    @prog("f[n] f[n]")
    def assume(a, b):
        return array(lambda i: a.assume(b)[i] + 1.0)

    @prog("f[n]")
    def powers(a):
        return array(lambda i: a[i] ** 3 + (a[i].abs() + 1.0) ** 0.5 + (a[i].abs() + 1.0) ** -2)

    @prog("f[n]")
    def trig(a):
        return array(lambda i: a[i].sin() ** 2 + a[i].cos() ** 2 + a[i].tanh())

    @prog("f[n] f[n]")
    def minmax(a, b):
        return array(lambda i: std.min(a[i], b[i], 0.5) + std.max(a[i], b[i]))

    @prog("f[n,m]")
    def identity(m):
        return m

    @prog("f[n,m]")
    def view_row(m):
        return m[0]

    @prog("f[n] f[n]")
    def bump(a, b):
        t = array(lambda i: a[i] + b[i])
        return array(lambda i: t[i] * t[i] + t[i])

    @prog("f[b,n,k] f[b,k,m]")
    def batched(a, b):
        return array(lambda t, i, j: fold_sum(lambda k: a[t, i, k] * b[t, k, j]))

    @prog("f[n,k] f[m,k]")
    def distances(x, y):
        return array(lambda i, j: fold_sum(lambda t: (x[i, t] - y[j, t]) ** 2) ** 0.5)

    @prog("f[n,k] f[m,k] f[m,d]")
    def attention(q, k, v):
        s = array(lambda i, j: fold_sum(lambda t: q[i, t] * k[j, t]))
        e = array(lambda i, j: (s[i, j] / 8.0).exp())
        z = array(lambda i: fold_sum(lambda j: e[i, j]))
        return array(lambda i, d: fold_sum(lambda j: e[i, j] * v[j, d]) / z[i])

    @prog("f[n,k] f[c,k]")
    def kmeans(x, cs):
        def dist(i, c):
            return fold_sum(lambda t: (x[i, t] - cs[c, t]) ** 2)

        lab = array(lambda i: fold_argmin(lambda c: dist(i, c), count=cs.size(0)), size=x.size(0))
        return array(
            lambda c, t: fold_sum(
                lambda i: where(lab[i] == c, x[i, t], 0.0), count=x.size(0)
            ),
            size=(cs.size(0), cs.size(1)),
        )

    @prog("f[n,k] f[k,m]")
    def minplus(a, b):
        return array(lambda i, j: reduce_min(lambda t: a[i, t] + b[t, j]))

    @prog("f[n]", "nojax")
    def scan(a):
        one = array(lambda i: array(lambda _: a[i], size=1))
        nil = array(lambda _: 0.0, size=0)

        def cat(x, y):
            last = x.or_empty(x.size(0) - 1, 0.0)
            return concat(x, array(lambda i: y[i] + last))

        return one.reduce(nil, cat)

    @prog("f[n] i[]")
    def shift_dyn(a, k):
        return array(lambda i: a[i + k], size=a.size(0))

    @prog("f[n]")
    def shared(a):
        s = fold_sum(lambda i: a[i] * a[i])
        t = array(lambda i: a[i] / (s + 1.0))
        return array(lambda i, j: t[i] * t[j] + s)

    @prog("f[n,m] f[m]")
    def nested_fold(m, w):
        return array(
            lambda i: fold(wrap(1.0), lambda j, acc: acc * 0.5 + m[i, j] * w[j])
        )

    @prog("f[n,m]")
    def fold_vec_acc(m):
        return fold(
            array(lambda j: 0.0, size=m.size(1)),
            lambda i, acc: array(lambda j: acc[j].max(m[i, j]) + 0.25, size=m.size(1)),
            count=m.size(0),
        )

    @prog("f[n]")
    def fold_two_deep(a):
        return fold(
            wrap(0.0),
            lambda i, acc: acc
            + fold(wrap(1.0), lambda j, inner: inner * 0.5 + a[j] * a[i], count=a.size(0)),
            count=a.size(0),
        )

    @prog("f[n] f[]")
    def const_wrap(a, s):
        c = wrap(hooks.big_const(16))
        return array(lambda i: c[i] * a[i] + s, size=a.size(0))

    @prog("ix[n]")
    def const_big(ix):
        c = wrap(hooks.big_const(1100))
        return array(lambda i: c[ix[i]] + c[i], size=ix.size(0))

    @prog("f[n,m]")
    def mixed_sizes(m):
        return array(lambda i, j: (i * m.size(1) + j).float() + m[i, j])

    @prog("f[n,m]")
    def reduce_pairs(m):
        pairs = array(lambda i: (m[i, 0], m[i, 1]))
        r = pairs.reduce((wrap(0.0), wrap(1.0)), lambda x, y: (x[0] + y[0], x[1] * y[1]))
        return r[0] + r[1]

    @prog("f[n,m,k]")
    def permute3(t):
        return array(lambda i, j, k: t[k, i, j] + 1.0)

    @prog("f[n,m]")
    def rowmax_center(m):
        mx = array(lambda i: fold_max(lambda j: m[i, j]))
        mn = array(lambda j: fold_min(lambda i: m[i, j]))
        return array(lambda i, j: m[i, j] - mx[i] + mn[j])

    @prog("f[]")
    def scalar_only(x):
        return (x * 2.0 + 1.0) / (x * x + 1.0)

    @prog("f[n]", "poly")
    def poly_concat(a):
        return concat(a, a)

    @prog("f[n]", "poly")
    def poly_index(a):
        return array(lambda i: a[i - 1], size=a.size(0))

    @prog("f[n]", "poly")
    def poly_first(a):
        return a.or_empty(0, a[0]) if not hasattr(a[0], "size") else a[0]

    @prog("f[n] f[n]", "poly")
    def poly_pick(a, b):
        return array(lambda i: where(i % 2 == 0, a[i], b[i]), size=a.size(0))

    # ---- indices as values, and results that can be computed in place --------------------------------
    @prog("f[n]")
    def index_scale(a):
        return array(lambda i: a[i] + i.float() * 3.0)

    @prog("i[n]")
    def index_add(a):
        return array(lambda i: i * 3 + a[i])

    @prog("i[n]")
    def index_parity(a):
        return array(lambda i: where(i % 2 == 0, a[i] * 2, -i))

    @prog("f[n,m]")
    def index_grid(m):
        return array(lambda i, j: (i + 2 * j).float() * 0.5 + m[i, j])

    @prog("i[]", "dyn")
    def index_only(n):
        return array(lambda i: (i + 1) * (i + 1) - i, size=n)

    @prog("f[n]")
    def chain_inplace(a):
        t = array(lambda i: a[i] + 1.0)
        u = array(lambda i: t[i] * 2.0)
        v = array(lambda i: u[i] - 3.0)
        return array(lambda i: -(v[i] / 4.0))

    @prog("f[n] f[n] f[n]")
    def fused(a, b, c):
        return array(lambda i: (a[i] + b[i]) * (b[i] + c[i]) - (a[i] + c[i]).max(b[i]))

    @prog("f[n]")
    def long_sum(a):
        return array(lambda i: sum((a[i] * float(k) for k in range(9)), wrap(0.0)))

    @prog("f[n]")
    def deep_lets(a):
        t = a

        def step(u, k):
            return array(lambda i: u[i] * 0.5 + float(k))

        for k in range(7):
            t = step(t, k)
        return t

    @prog("f[n]", "slice")
    def pad_inplace(a):
        return array(lambda i: a[i - 1] * 3.0 + 1.0, size=a.size(0) + 2)

    @prog("f[n]", "slice")
    def pad_only(a):
        return array(lambda i: a[i + 1], size=a.size(0))

    @prog("f[n,m]")
    def first_row_scaled(m):
        r = m[0]
        return array(lambda j: r[j] * 2.0 + m[0, j])

    @prog("f[n,m]")
    def slices(m):
        return array(lambda i: fold_sum(lambda j: m[:, i][j]))

    # ---- constants ---------------------------------------------------------------------------------
    @prog("f[n]")
    def const_two(a):
        c, d = wrap(hooks.big_const(6)), wrap(hooks.big_const(7))
        return array(lambda i: c[i] * a[i] + d[i] * 2.0, size=a.size(0))

    @prog("f[]")
    def const_only(x):
        c = wrap(hooks.big_const(8))
        return fold_sum(lambda i: c[i] * c[i]) + x

    @prog("f[n]")
    def const_result(a):
        c = wrap(hooks.big_const(5))
        return array(lambda i: c[i], size=5)

    @prog("f[]")
    def const_itself(x):
        return wrap(hooks.big_const(6))

    # ---- larger ranks, records, accumulators --------------------------------------------------------
    @prog("f[b,n,m,k]")
    def permute4(t):
        return array(lambda i, j, k, l: t[l, k, j, i] * 2.0)

    @prog("f[b,n,h] f[b,m,h] f[b,h]")
    def head_scores(s, t, g):
        z = array(lambda b, h, u, v: s[b, u, h] + t[b, v, h] + g[b, h])
        mx = array(lambda b, h, u: fold_max(lambda v: z[b, h, u, v]))
        e = array(lambda b, h, u, v: (z[b, h, u, v] - mx[b, h, u]).exp())
        return array(lambda b, h, u: fold_sum(lambda v: e[b, h, u, v]))

    @prog("f[n] f[n] f[m] f[m] f[n]")
    def mri(kx, ky, x, y, ph):
        mag = array(lambda i: ph[i] * ph[i])
        ang = array(lambda i: 6.28 * fold_sum(lambda j: kx[i] * x[j] + ky[i] * y[j]))
        return array(lambda i: (mag[i] * ang[i]).sin())

    @prog("f[t,n]")
    def pathfinder(costs):
        n = costs.size(1)
        return fold(
            array(lambda i: 0.0, size=n),
            lambda t, d: array(
                lambda i: costs[t, i] + std.min(d[i], d[std.max(i - 1, 0)], d[std.min(i + 1, n - 1)])
            ),
        )

    @prog("f[n,m] f[n,m]")
    def hotspot(ts0, p):
        r, c = ts0.size(0), ts0.size(1)

        def step(ts, y, x):
            dx = ts[y, std.min(x + 1, c - 1)] + ts[y, std.max(x - 1, 0)] - 2.0 * ts[y, x]
            dy = ts[std.min(y + 1, r - 1), x] + ts[std.max(y - 1, 0), x] - 2.0 * ts[y, x]
            return ts[y, x] + 0.1 * (p[y, x] + dx + dy)

        return fold(ts0, lambda _, ts: array(lambda y, x: step(ts, y, x)), count=2)

    @prog("i[] i[]", "dyn")
    def mandelbrot(w, h):
        def count(i, j):
            cx, cy = i.float() / 3.0 - 1.5, j.float() / 3.0 - 1.0

            def step(k, acc):
                out, zx, zy = acc
                return where(
                    zx * zx + zy * zy <= 4.0,
                    (k + 1, zx * zx - zy * zy + cx, 2.0 * zx * zy + cy),
                    (out, zx, zy),
                )

            return fold((wrap(0), wrap(0.0), wrap(0.0)), step, count=4)[0]

        return array(lambda i, j: count(i, j), size=(w, h))

    @prog("f[n] f[n]", "nojax")
    def fold_records(x, y):
        p = array(lambda i: {"x": x[i], "y": y[i]})
        pp = fold(
            p,
            lambda j, q: array(lambda i: where(i == j, {"x": -q[i]["y"], "y": q[i]["x"]}, q[i])),
            count=p.size(0),
        )
        return array(lambda i: pp[i]["x"] + pp[i]["y"])

    @prog("f[n]")
    def nested_records(a):
        p = array(lambda i: ((i, 2 * i), (a[i], {"m": -a[i], "i": i})))
        r = p.reduce(
            ((wrap(0), wrap(0)), (wrap(0.0), {"m": wrap(0.0), "i": wrap(0)})),
            lambda x, y: ((x[0][0] + y[0][0], x[0][1] + y[0][1]),
                          (x[1][0] + y[1][0], {"m": x[1][1]["m"] + y[1][1]["m"], "i": x[1][1]["i"] + y[1][1]["i"]})),
        )
        return r[1][0] - r[1][1]["m"] + (r[0][0] + r[1][1]["i"]).float()

    @prog("f[n]")
    def gauss_pivot(a):
        m = array(lambda i, j: where(i == j, a[i] + 3.0, a[j] * 0.25), size=(a.size(0), a.size(0)))
        return fold(
            m,
            lambda k, t: array(
                lambda i, j: where(i == k, t[i, j], t[i, j] - t[i, k] * t[k, j] / (t[k, k] * t[k, k] + 1.0)),
                size=(a.size(0), a.size(0)),
            ),
            count=a.size(0),
        )

    @prog("f[n] f[m] f[k]")
    def triple_outer(a, b, c):
        return array(lambda i, j, k: a[i] * b[j] + c[k])

    @prog("f[n,m] f[m] f[n]")
    def bilinear(m, x, y):
        return fold_sum(lambda i: fold_sum(lambda j: y[i] * m[i, j] * x[j]))

    @prog("f[n] f[m]", "sizes")
    def two_sizes(a, b):
        return array(lambda i: a[i] + b[i])

    @prog("f[n] f[m] f[k]", "sizes")
    def three_sizes(a, b, c):
        return array(lambda i: a[i] * b[i] - c[i])

    @prog("f[n,m] f[k]", "sizes")
    def two_sizes_fold(m, w):
        return array(lambda i: fold_sum(lambda j: m[i, j] * w[j]))

    @prog("f[n] f[n] f[n] f[n]")
    def many_args(a, b, c, d):
        return array(lambda i: (a[i] + b[i]) * (c[i] - d[i]) + a[i] * d[i])

    # ---- programs whose intermediate results may be views of the inputs ----
    @prog("f[n,m] i[]")
    def view_row(m, k):
        return array(lambda j: m[k, j] * 2.0 + 1.0)

    @prog("f[n,m] i[] f[m]")
    def view_row_times(m, k, w):
        return array(lambda j: m[k, j] * w[j])

    @prog("f[n,m] i[] f[n]")
    def view_column_minus(m, k, w):
        return array(lambda i: w[i] - m[i, k])

    @prog("f[n] i[]")
    def fold_maybe_empty(a, k):
        t = fold(a, lambda i, acc: array(lambda j: acc[j] * 0.5 + 1.0), count=k)
        return array(lambda j: t[j] * 2.0)

    @prog("f[n]")
    def fold_clipped_acc(a):
        n = a.size(0)
        return fold(a, lambda t, acc: array(lambda i: acc[std.min(std.max(i, 0), n - 1)] * 0.5, size=n), count=2)

    @prog("f[n] f[n] i[]")
    def fold_swap(a, b, k):
        x, y = fold((a, b), lambda i, acc: (acc[1], acc[0]), count=k)
        return array(lambda i: x[i] * 2.0 - y[i])

    @prog("f[n,m] f[n,m]")
    def view_sliced(m, w):
        return array(lambda i, j: m[i + 1, j] * w[i, j + 1], size=(m.size(0) - 1, w.size(1) - 1))

    @prog("f[n,m]")
    def view_transposed(m):
        return array(lambda j, i: m[i, j] + 0.5)

    @prog("f[n,m]")
    def view_reduce_rows(m):
        return array(lambda i: array(lambda j: m[i, j])).reduce(
            array(lambda j: 0.0, size=m.size(1)), lambda x, y: array(lambda j: x[j] + y[j]))

    @prog("f[n,m] f[m] i[]", "nojax")
    def view_reduce_given(m, w, k):
        t = array(lambda i: array(lambda j: m[i, j]), size=k).reduce(w, lambda x, y: array(lambda j: x[j] + y[j]))
        return array(lambda j: t[j] * 2.0)

    @prog("f[n] i[]")
    def fold_each_maybe_empty(a, k):
        return array(lambda j: fold(a[j], lambda i, acc: acc * 0.5 + 1.0, count=k) * 2.0)

    @prog("f[n] f[n] i[]")
    def fold_each_minus(a, b, k):
        return array(lambda j: b[j] - fold(a[j], lambda i, acc: acc + b[j], count=k))

    @prog("f[n] i[]", "nojax")
    def shift_clipped_scaled(a, k):
        n = a.size(0)
        return array(lambda i: a[std.min(std.max(i - k, 0), n - 1)] * 0.5, size=n)

    @prog("f[n]", "ext")
    def ext_same(a):
        f = ext(hooks.EXT["same"], scalar_type(float))
        return array(lambda i: f(a[i]) * 2.0 + 1.0)

    @prog("f[n]", "ext")
    def ext_kept(a):
        f = ext(hooks.EXT["kept"], vector_type(float))
        t = f(a)
        return array(lambda i: t[i] * 2.0 - a[i])

    # ---- programs with user callbacks -----------------------------------------------------------
    @prog("f[n] f[n]", "ext")
    def ext_pointwise(a, b):
        f = ext(hooks.EXT["affine"], scalar_type(float))
        return array(lambda i: f(a[i], b[i]) + a[i])

    @prog("f[n,m]", "ext", "batchext")
    def ext_rows(m):
        f = ext(hooks.EXT["sort"], vector_type(float))
        return array(lambda i: f(array(lambda j: m[i, j])))

    @prog("f[n]", "ext")
    def ext_in_fold(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return fold(wrap(0.0), lambda i, acc: f(acc) + a[i])

    @prog("f[n]", "ext")
    def ext_twice(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        g = ext(hooks.EXT["affine"], scalar_type(float))
        t = array(lambda i: f(a[i]))
        return array(lambda i: g(t[i], t[i] * 2.0) + t[i])

    @prog("f[n] f[n]", "ext", "batchext")
    def ext_in_reduce(a, b):
        f = ext(hooks.EXT["affine"], scalar_type(float))
        return array(lambda i: a[i] + b[i]).reduce(wrap(0.0), lambda x, y: f(x, y))

    @prog("f[n]", "ext")
    def ext_scalar_let(a):
        s = fold_sum(lambda i: a[i] * a[i])
        f = ext(hooks.EXT["half"], scalar_type(float))
        r = f(s)
        return array(lambda i: a[i] * r + r)

    @prog("f[n]", "ext")
    def ext_const(a):
        f = ext(hooks.EXT["affine"], scalar_type(float))
        k = f(wrap(2.0), wrap(-1.0))
        return array(lambda i: a[i] * k + f(wrap(0.5), a[i]))

    @prog("f[n]", "ext")
    def ext_const_array(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        c = wrap(hooks.big_const(4))
        t = array(lambda j: f(c[j]))
        return array(lambda i: a[i] + t[0] * t[3])

    @prog("f[n]", "ext")
    def ext_unused_branch(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return array(lambda i: where(a[i] > 0.0, f(a[i]), f(-a[i]) * 2.0))

    @prog("f[n]", "ext")
    def ext_same_twice(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return array(lambda i: f(a[i]) + f(a[i]) * 2.0)

    @prog("f[n] f[n]", "ext")
    def ext_mixed(a, b):
        f = ext(hooks.EXT["half"], ([scalar_type(float)], scalar_type(float)))
        g = ext(hooks.EXT["affine"], ([scalar_type(float), scalar_type(float)], scalar_type(float)))
        return fold(wrap(1.0), lambda i, acc: g(acc * 0.25, f(a[i])) - f(b[i]), count=a.size(0))

    @prog("f[n,m]", "ext")
    def ext_nested_fold(m):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return array(lambda i: fold(wrap(0.0), lambda j, acc: f(acc + m[i, j])))

    @prog("f[n]", "ext")
    def ext_in_both(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        s = fold(wrap(0.0), lambda i, acc: f(acc) * 0.5 + a[i])
        t = fold(wrap(1.0), lambda i, acc: f(acc) + s, count=2)
        return array(lambda i: f(a[i] + s) + t)

    @prog("f[n] f[n]", "ext", "batchext")
    def ext_of_concat(a, b):
        f = ext(hooks.EXT["sort"], vector_type(float))
        return f(concat(a, b))

    @prog("f[n]", "ext")
    def ext_nullary(a):
        f = ext(hooks.EXT["tick"], scalar_type(float))
        k = f()
        return array(lambda i: a[i] * k)

    @prog("i[n]", "ext")
    def ext_int_fold(a):
        f = ext(hooks.EXT["step"], scalar_type(int))
        return fold(wrap(0), lambda i, acc: acc + f(a[i]))

    @prog("i[n]", "ext")
    def ext_int_fold_acc(a):
        f = ext(hooks.EXT["step"], scalar_type(int))
        return fold(wrap(1), lambda i, acc: f(acc) % 7 + a[i])

    @prog("f[n]", "ext")
    def ext_index(a):
        f = ext(hooks.EXT["step"], scalar_type(int))
        return array(lambda i: a[f(i)] + a[i])

    @prog("f[n]", "ext")
    def ext_mask(a):
        f = ext(hooks.EXT["positive"], scalar_type(bool))
        return array(lambda i: where(f(a[i]), a[i], 0.0))

    @prog("f[n]", "ext")
    def ext_nested_calls(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        g = ext(hooks.EXT["affine"], scalar_type(float))
        return array(lambda i: g(f(a[i]), f(f(a[i] * 2.0))))

    @prog("f[n] f[n]", "ext")
    def ext_in_dot(a, b):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return fold_sum(lambda i: f(a[i]) * b[i])

    @prog("f[n] f[n]", "ext")
    def ext_concat_operands(a, b):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return concat(array(lambda i: f(a[i])), array(lambda i: f(b[i]) * 2.0))

    @prog("f[n]", "ext")
    def ext_record_acc(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        x, y = fold((wrap(0.0), wrap(1.0)), lambda i, acc: (acc[1] + a[i], f(acc[0])))
        return x * 2.0 + y

    @prog("f[n]", "ext")
    def ext_record_first(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        return fold((wrap(0.0), wrap(1.0)), lambda i, acc: (acc[1] + a[i], f(acc[0])))[0]

    @prog("f[n]", "ext")
    def ext_record_array(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        t = array(lambda i: (f(a[i]), a[i] * 2.0))
        return array(lambda i: t[i][0] + t[i][1])

    @prog("f[n]", "ext", "batchext")
    def ext_record_reduce(a):
        f = ext(hooks.EXT["half"], scalar_type(float))
        x, y = array(lambda i: (f(a[i]), a[i])).reduce(
            (wrap(0.0), wrap(1.0)), lambda u, v: (u[0] + v[0], u[1] * v[1]))
        return x - y

    @prog("f[n,m]", "ext", "batchext")
    def ext_row_sums(m):
        f = ext(hooks.EXT["sum"], scalar_type(float))
        return array(lambda i: f(m[i]) * 2.0)

    @prog("f[n]", "ext", "dyn")
    def ext_size(a):
        f = ext(hooks.EXT["step"], scalar_type(int))
        return array(lambda i: a[i] + 1.0, size=f(wrap(1)))

    @prog("f[n]", "ext")
    def ext_shifted(a):
        f = ext(hooks.EXT["step"], scalar_type(int))
        k = f(wrap(0))
        return array(lambda i: a[i + k], size=a.size(0))

    # ---- programs whose tracing runs user code with side effects under the simulator's control ----
    @prog("f[n] f[n]", "trace")
    def traced(a, b):
        hooks.trace("start")
        t = array(lambda i: hooks.trace("body") or a[i] * b[i] + 1.0)
        hooks.trace("mid")
        return fold_sum(lambda i: t[i] * a[i])

    @prog("f[n,m]", "trace")
    def traced_matrix(m):
        hooks.trace("start")
        r = array(lambda i: hooks.trace("row") or fold_sum(lambda j: hooks.trace("col") or m[i, j] * m[i, j]))
        hooks.trace("mid")
        return array(lambda i: hooks.trace("end") or r[i] / (r[0] + 1.0))

    @prog("f[n]", "trace", "ext")
    def traced_ext(a):
        hooks.trace("start")
        f = ext(hooks.EXT["half"], scalar_type(float))
        t = array(lambda i: hooks.trace("body") or f(a[i]))
        return fold(wrap(0.0), lambda i, acc: hooks.trace("fold") or acc + t[i])

    # ---- programs that fail ----------------------------------------------------------------------
    @prog("f[n] i[n]", "fails")
    def ill_typed(a, b):
        return array(lambda i: a[i] + b[i])

    @prog("f[n]", "fails")
    def unbounded(a):
        return array(lambda i: i)

    @prog("f[n] f[m]", "mayfail", "sizes")
    def mismatch(a, b):
        return array(lambda i: a[i] * 2.0 + b[i])

    @prog("f[n]", "fails", "ext")
    def ext_bad_result(a):
        f = ext(hooks.EXT["weird"], scalar_type(float))
        return array(lambda i: a[i] + f(a[i]) * 2.0)

    @prog("f[n] f[n]", "mayfail")
    def late_failure(a, b):
        t = fold_sum(lambda i: a[i] * a[i])
        u = fold(wrap(0.0), lambda i, acc: acc * 0.5 + b[i] + t, count=b.size(0))
        return array(lambda i: a[i] + u + b[i])


def _halvings(n):
    """Calls of a pairwise combining function by a reduction of n elements in the array backends."""
    c = 0
    while n > 1:
        c += n % 2 + 1
        n //= 2
    return c + (n > 0)


# How often a program calls its callbacks when every input has its declared shape: in the array backends,
# where a call outside folds is made once for all indices, and in the reference backend, where it is made
# once per element.  Inside folds both call once per iteration.
CALLS = {
    "ext_pointwise": (lambda n, m: 1, lambda n, m: n),
    "ext_rows": (lambda n, m: 1, lambda n, m: n),
    "ext_in_fold": (lambda n, m: n, lambda n, m: n),
    "ext_twice": (lambda n, m: 2, lambda n, m: 2 * n),
    "ext_in_reduce": (lambda n, m: _halvings(n), lambda n, m: n),
    "ext_scalar_let": (lambda n, m: 1, lambda n, m: 1),
    "ext_const": (lambda n, m: 2, lambda n, m: n + 1),
    "ext_const_array": (lambda n, m: 1, lambda n, m: 4),
    "ext_unused_branch": (lambda n, m: 2, lambda n, m: 2 * n),
    "ext_same_twice": (lambda n, m: 1, lambda n, m: n),
    "ext_mixed": (lambda n, m: 3 * n, lambda n, m: 3 * n),
    "ext_nested_fold": (lambda n, m: m if n else None, lambda n, m: n * m if n else None),
    "ext_in_both": (lambda n, m: 3 + n, lambda n, m: None),
    "ext_of_concat": (lambda n, m: 1, lambda n, m: 1),
    "ext_nullary": (lambda n, m: 1, lambda n, m: 1),
    "ext_int_fold": (lambda n, m: n, lambda n, m: n),
    "ext_int_fold_acc": (lambda n, m: n, lambda n, m: n),
    "ext_index": (lambda n, m: 1, lambda n, m: n),
    "ext_mask": (lambda n, m: 1, lambda n, m: n),
    "ext_nested_calls": (lambda n, m: 4, lambda n, m: 4 * n),
    "ext_in_dot": (lambda n, m: 1, lambda n, m: n),
    "ext_concat_operands": (lambda n, m: 2, lambda n, m: 2 * n),
    "ext_record_acc": (lambda n, m: n, lambda n, m: n),
    "ext_record_first": (lambda n, m: n, lambda n, m: n),
    "ext_record_array": (lambda n, m: 1, lambda n, m: n),
    "ext_record_reduce": (lambda n, m: 1, lambda n, m: n),
    "ext_row_sums": (lambda n, m: 1, lambda n, m: n),
    "ext_size": (lambda n, m: 1, lambda n, m: 1),
    "ext_same": (lambda n, m: 1, lambda n, m: n),
    "ext_kept": (lambda n, m: 1, lambda n, m: 1),
    "ext_shifted": (lambda n, m: 1, lambda n, m: 1),
    "traced_ext": (lambda n, m: 1, lambda n, m: n),
}


def expected_calls(name, specs, be):
    """(least, most) callback calls of one evaluation of a program of the corpus, or None."""
    if name not in CALLS:
        return None
    dims: dict = {}
    sigs = PROGRAMS[name].params
    for sig, spec in zip(sigs, specs):
        names = [x for x in sig[sig.find("[") + 1:-1].split(",") if x] if "[" in sig else []
        if len(names) != len(spec["sh"]):
            return None
        for x, d in zip(names, spec["sh"]):
            if dims.setdefault(x, d) != d:
                return None
    c = CALLS[name][be == "naive"](dims.get("n", 1), dims.get("m", 1))
    if c is None:
        return None
    # equal inputs may make equal subterms, which are evaluated once
    return (c if len(sigs) == 1 else 0), c
