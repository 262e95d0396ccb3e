"""User callbacks reachable from programs; the running world decides what happens inside them."""
import numpy

WORLD = None  # set by world for the duration of a run

_CONST: dict[int, numpy.ndarray] = {}


def big_const(n: int):
    w = WORLD
    if w is not None:
        return w.const_array(n)
    return make_const(n)


def make_const(n: int) -> numpy.ndarray:
    return ((numpy.arange(n) * 7) % 13 - 6) / 4.0


def trace(where: str):
    if WORLD is not None:
        WORLD.on_trace(where)
    return None


def _np(x):
    return x


def _is_torch(x):
    return type(x).__module__.split(".")[0] == "torch"


def _affine(a, b):
    return a * 0.5 + b


def _half(a):
    return a * 0.5 + 0.25


def _sort(a):
    if _is_torch(a):
        return a.sort(dim=-1).values
    return numpy.sort(a, axis=-1)


def _weird(a):
    # wrong shape: a batch that cannot be broadcast against the caller's
    if _is_torch(a):
        import torch

        return torch.zeros((11, 13), dtype=torch.float64)
    return numpy.zeros((11, 13))


def _tick():
    return numpy.array(0.75)


def _step(i):
    return i * 2 + 1


def _sum(a):
    return a.sum(-1)


def _positive(a):
    return a > 0.0


def _same(a):
    return a


def _kept(a):
    """An array that the caller keeps for itself."""
    k = big_const(a.shape[-1])
    if _is_torch(a):
        import torch

        return torch.from_numpy(k)
    return k


class Ext:
    def __init__(self, name, fn):
        self.__name__ = name
        self.fn = fn

    def __call__(self, *args):
        w = WORLD
        if w is None:
            return self.fn(*args)
        return w.on_ext(self.__name__, self.fn, args)


EXT = {f.__name__[1:]: Ext(f.__name__[1:], f) for f in (_affine, _half, _sort, _weird, _tick, _step, _sum, _positive, _same, _kept)}
