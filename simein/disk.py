"""A simulated disk for saving graphs: real files in a scratch directory, faults decided by the
scenario; graphviz (an external program) is replaced by a stub."""
import builtins
import errno
import hashlib
import io
import os
import shutil
import tempfile

_real_open = builtins.open
ROOT = os.environ.get("SIMEIN_SCRATCH", "/dev/shm")


class Disk:
    def __init__(self, world):
        self.w = world
        self.dir = tempfile.mkdtemp(prefix="simein-", dir=ROOT)
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        os.mkdir(os.path.join(self.dir, "out"))
        self.plan = list(world.scn.get("fs", ()))
        self.counts: dict = {}
        self.graphviz = 0

    def fault(self, what, path):
        """Is there a fault planned for the n-th event of this kind?"""
        n = self.counts.get(what, 0)
        self.counts[what] = n + 1
        for f in self.plan:
            if f["what"] == what and f["n"] == n:
                self.w.fs_log.append((what, f["how"], n))
                return f["how"]
        return None

    def open(self, file, mode="r", *args, **kwargs):
        inside = isinstance(file, (str, os.PathLike)) and os.path.abspath(file).startswith(self.dir)
        if not inside or not any(c in mode for c in "wax+"):
            return _real_open(file, mode, *args, **kwargs)
        how = self.fault("open", file)
        if how:
            code = getattr(errno, how)
            raise OSError(code, os.strerror(code), os.fspath(file))
        return Wrapped(self, _real_open(file, mode, *args, **kwargs), file)

    def os_open(self, path, flags, *args, **kwargs):
        inside = isinstance(path, (str, os.PathLike)) and os.path.abspath(path).startswith(self.dir)
        if inside and flags & (os.O_WRONLY | os.O_RDWR):
            how = self.fault("open", path)
            if how:
                code = getattr(errno, how)
                raise OSError(code, os.strerror(code), os.fspath(path))
        return self.real_os_open(path, flags, *args, **kwargs)

    def call_graphviz(self, program, arguments, working_dir, **kwargs):
        """Stands for running the external program: a deterministic rendering of the input file."""

        class P:
            returncode = 0

        how = self.fault("graphviz", program)
        self.graphviz += 1
        if how == "missing":
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), program)
        fmt = [a for a in arguments if a.startswith("-T")][0][2:]
        src = [a for a in arguments if not a.startswith("-")][-1]
        with _real_open(os.path.join(working_dir, src), "rb") as f:
            data = f.read()
        if how == "fails":
            P.returncode = 1
            return b"", b"simulated failure", P
        return rendering(fmt, data), b"", P

    def install(self):
        import pydot

        self.saved = (builtins.open, io.open, tempfile.tempdir, pydot_mod().call_graphviz, os.open)
        builtins.open = io.open = self.open
        self.real_os_open = os.open
        os.open = self.os_open
        tempfile.tempdir = self.tmp
        self.home = os.environ.get("HOME")
        os.environ["HOME"] = os.path.join(self.dir, "out")
        pydot_mod().call_graphviz = self.call_graphviz

    def uninstall(self):
        if self.home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = self.home
        builtins.open, io.open, tempfile.tempdir, pydot_mod().call_graphviz, os.open = self.saved

    def listing(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with _real_open(p, "rb") as h:
                    out[os.path.relpath(p, self.dir)] = h.read()
        return out

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def pydot_mod():
    import sys

    import pydot

    return sys.modules[pydot.Dot.__module__]


def rendering(fmt, data):
    return b"RENDERED " + fmt.lower().encode() + b" " + hashlib.md5(data).hexdigest().encode() + b"\n"


class Wrapped:
    """A file whose writes may fail, be short, or fail on close."""

    def __init__(self, disk, f, path):
        self._d, self._f, self._p = disk, f, path

    def write(self, data):
        how = self._d.fault("write", self._p)
        if how == "torn":
            self._f.write(data[: len(data) // 2])
            self._f.flush()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if how:
            raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)))
        return self._f.write(data)

    def close(self):
        how = None if self._f.closed else self._d.fault("close", self._p)
        self._f.close()
        if how:
            raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)


def save(world, op):
    from ein import debug

    e = world.slot(op["e"])
    expr = e[1] if isinstance(e, tuple) else e.expr
    dot = debug.graph(expr)
    disk = world.disk
    path = os.path.join("~" if op.get("home") else os.path.join(disk.dir, "out"), op["path"])
    key = op["path"] + ("." + op["fmt"] if op.get("fmt") else "" if "." in op["path"] else ".png")
    fmt = key.rsplit(".", 1)[1]
    text = dot.to_string()
    world.saved[key] = (fmt, text)
    if op.get("old") is not None:  # an earlier drawing under that name
        with _real_open(os.path.join(disk.dir, "out", key), "wb") as f:
            f.write(b"old drawing\n" * op["old"])
    if op.get("fmt"):
        debug.save_graph(dot, path, op["fmt"])
    else:
        debug.save_graph(dot, path)
    return "saved"
