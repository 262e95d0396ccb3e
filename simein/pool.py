"""Worker processes.

A worker imports numpy, torch, jax and the code under test once and then forks a child per simulated
run, so that every run starts from the same pristine state and nothing a run leaves behind can reach
the next one.  Children answer over a pipe; a child that does not answer in time is killed.
"""
import os
import pickle
import select
import signal
import sys
import time
import traceback

WALL = float(os.environ.get("SIMEIN_WALL", "40"))


class ChildTimeout(Exception):
    pass


class ChildCrash(Exception):
    pass


def in_child(fn, *args, wall=WALL):
    """Run fn(*args) in a forked child and return its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                raise ChildTimeout()
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                raise ChildTimeout()
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    except ChildTimeout:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if not chunks:
        raise ChildCrash(f"child ended with status {status}")
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "err":
        raise RuntimeError("harness error in child:\n" + val)
    return val


def environment(hashseed: int):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed), JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
        TF_CPP_MIN_LOG_LEVEL="3", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false",
    )
    env.pop("PYTHONPATH", None)
    return env
