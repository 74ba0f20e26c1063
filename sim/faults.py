"""Simulated sources, disk and encoding environment: the I/O seam.

Loading reads from streams defined here (or from scratch files through the
patched open); saving goes to scratch files through the patched open. Everything
outside the scratch directory is left alone."""
import builtins, errno, gc, io, os, resource, shutil, signal, tempfile

from .core import HarnessError

EXC = {
    "oserror": lambda: OSError(errno.EIO, "simulated I/O error"),
    "timeout": lambda: TimeoutError(errno.ETIMEDOUT, "simulated timeout"),
    "bare": lambda: OSError("simulated device failure"),  # without an error number
    "eoferror": lambda: EOFError("simulated end of a compressed file"),
    "memory": lambda: MemoryError("simulated"),
    "value": lambda: ValueError("simulated closed stream"),
    "kbd": lambda: KeyboardInterrupt("simulated"),
    "exit": lambda: SystemExit("simulated"),
}
INTERRUPTS = ("kbd", "exit")

# scratch directories carry the id of the main process, which removes leftovers
# of workers it had to kill
PREFIX = "svgio-sim-%d-" % os.getpid()


def remove_leftovers():
    for base in {"/dev/shm", tempfile.gettempdir()}:
        if os.path.isdir(base):
            for name in os.listdir(base):
                if name.startswith(PREFIX):
                    shutil.rmtree(os.path.join(base, name), ignore_errors=True)


class SimStream:
    """A source delivering `data` (bytes or str) in reads of given sizes; may
    fail at a given read. Never returns more than was asked for."""

    def __init__(self, data, chunks, fault=None, on_read=None, ctx=None):
        self.data, self.chunks, self.fault = data, list(chunks) or [16384], fault
        self.pos, self.reads, self.on_read, self.ctx = 0, 0, on_read, ctx
        self.fired = False
        self.closed_by_library = False

    def read(self, n=-1):
        if self.on_read is not None:
            self.on_read(self)
        i = self.reads
        self.reads += 1
        if self.ctx is not None:
            self.ctx.steps += 1
        f = self.fault
        if f is not None and not self.fired and i >= f["at"]:
            self.fired = True
            if self.ctx is not None:
                self.ctx.fault("read-" + f["kind"])
            if f["kind"] == "eof":
                self.pos = len(self.data)
            else:
                raise EXC[f["kind"]]()
        size = self.chunks[i] if i < len(self.chunks) else self.chunks[-1]
        if n is None or n < 0:
            size = len(self.data)
        else:
            size = max(1, min(size, n))
        out = self.data[self.pos:self.pos + size]
        self.pos += len(out)
        return out

    def close(self):
        self.closed_by_library = True


def gen_chunks(rng, total):
    """Sizes of successive reads."""
    style = rng.random()
    if style < 0.15:
        return [1 << 20]
    if style < 0.3:
        return [1] * min(total, 400) + [97]
    if style < 0.5:
        k = rng.choice([2, 3, 7, 16, 64, 255, 1024, 4096])
        return [k]
    out = []
    left = total
    while left > 0 and len(out) < 300:
        k = rng.choice([1, 1, 2, 3, 5, 10, 40, 100, 500, 3000, 20000])
        out.append(k)
        left -= k
    return out or [1]


# ------------------------------------------------------------------ disk

class FaultyRaw(io.FileIO):
    """A file whose writes, reads and close follow a fault plan."""

    def __init__(self, disk, path, mode, opener=None, closefd=True):
        self._disk = disk
        self._written = 0
        self._readn = 0
        super().__init__(path, mode, closefd=closefd, opener=opener)
        disk.opened.append(self)

    def write(self, b):
        d = self._disk
        b = bytes(b)
        f = d.next_fault("write", self._written, len(b))
        if f is None:
            limit = d.short
            if limit and len(b) > limit:
                d.count("short-write")
                b = b[:limit]
            n = super().write(b)
            self._written += n
            return n
        room = f["at"] - self._written
        if room > 0:  # a short write up to the faulty byte first; the next call fails
            n = super().write(b[:room])
            self._written += n
            d.unfire(f)
            d.count("short-write")
            return n
        d.count(f["kind"])
        raise d.error(f["kind"])

    def readinto(self, buf):
        d = self._disk
        f = d.read_fault(self._readn)
        self._readn += 1
        if f is not None:
            d.count("read-" + f["kind"])
            if f["kind"] == "eof":
                return 0
            raise EXC[f["kind"]]()
        if d.read_chunk:
            mv = memoryview(buf)[:d.read_chunk]
            return super().readinto(mv)
        return super().readinto(buf)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = b""
        while True:
            b = self.read(65536)
            if not b:
                return out
            out += b

    def close(self):
        d = self._disk
        writing = not self.closed and self.writable()
        super().close()
        if writing:
            f = d.close_fault()
            if f is not None:
                d.count("close-error")
                raise d.error("EIO")


class SimDisk:
    """A scratch directory whose files are reached through a patched open()."""

    ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EFBIG": errno.EFBIG,
           "EMFILE": errno.EMFILE, "EACCES": errno.EACCES, "EROFS": errno.EROFS, "EINTR": errno.EINTR}

    def __init__(self, ctx):
        self.ctx = ctx
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix=PREFIX, dir=base)
        self.opened = []
        self.reset()
        self._patched = False

    def reset(self, faults=(), short=0, encoding=None, read_faults=(), read_chunk=0):
        self.faults = [dict(f) for f in faults]
        self.short = short
        self.encoding = encoding      # default text encoding of the simulated platform
        self.read_faults = [dict(f) for f in read_faults]
        self.read_chunk = read_chunk
        self.fired = []               # kinds of faults that fired since reset

    def count(self, kind):
        self.fired.append(kind)
        self.ctx.fault(kind)

    def error(self, kind):
        if kind in EXC:
            return EXC[kind]()
        if kind == "EINTR":
            return InterruptedError(errno.EINTR, "simulated EINTR")
        return OSError(self.ERR[kind], "simulated " + kind)

    def next_fault(self, what, at, size):
        """The fault hit by an operation on bytes at .. at+size, if any."""
        for f in self.faults:
            if f["op"] == what and not f.get("used") and f["at"] < at + max(size, 1):
                if not f.get("sticky") or f["kind"] == "EINTR":
                    f["used"] = True
                return f
        return None

    def unfire(self, f):
        f["used"] = False

    def close_fault(self):
        for f in self.faults:
            if f["op"] == "close" and not f.get("used"):
                f["used"] = True
                return f

    def read_fault(self, i):
        for f in self.read_faults:
            if not f.get("used") and i >= f["at"]:
                f["used"] = True
                return f

    def open_fault(self, name):
        for f in self.faults:
            if f["op"] == name and not f.get("used"):
                f["used"] = True
                return f

    def path(self, name):
        return os.path.join(self.dir, name)

    def mine(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.dir + os.sep) or (not os.path.isabs(p) and os.getcwd().startswith(self.dir))

    # -- the patched open -------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, int) and self.mine(file):
            f = self.open_fault("open")
            if f is not None and (("r" not in mode or "+" in mode) or f.get("read")):
                self.count("open-" + f["kind"])
                raise self.error(f["kind"])
            rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
            raw = FaultyRaw(self, file, rawmode, opener, closefd)
            try:
                if "b" in mode:
                    if buffering == 0:
                        return raw
                    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
                    if "+" in rawmode:
                        return io.BufferedRandom(raw, size)
                    if "r" in rawmode:
                        return io.BufferedReader(raw, size)
                    return io.BufferedWriter(raw, size)
                if "+" in rawmode:
                    buf = io.BufferedRandom(raw)
                elif "r" in rawmode:
                    buf = io.BufferedReader(raw)
                else:
                    buf = io.BufferedWriter(raw)
                if encoding is None or encoding == "locale":
                    if self.encoding:
                        self.ctx.fault("default-encoding-used")
                    encoding = self.encoding or "utf-8"
                return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
            except BaseException:
                raw.close()
                raise
        return self._real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def _os_wrap(self, name, real):
        def wrapped(*a, **k):
            try:
                mine = any(self.mine(x) for x in a[:2] if isinstance(x, (str, bytes, os.PathLike)))
            except Exception:
                mine = False
            if mine:
                f = self.open_fault(name)
                if f is not None:
                    self.count(name + "-" + f["kind"])
                    raise self.error(f["kind"])
            return real(*a, **k)
        return wrapped

    def __enter__(self):
        self._real_open = builtins.open
        self._io_open = io.open
        self._os = {n: getattr(os, n) for n in ("replace", "rename")}
        builtins.open = self.open
        io.open = self.open
        for n, real in self._os.items():
            setattr(os, n, self._os_wrap(n, real))
        self._patched = True
        return self

    def __exit__(self, *exc):
        if self._patched:
            builtins.open = self._real_open
            io.open = self._io_open
            for n, real in self._os.items():
                setattr(os, n, real)
            self._patched = False

    def all_closed(self):
        if any(not f.closed for f in self.opened):
            gc.collect()
        return all(f.closed for f in self.opened)

    def open_fds(self):
        """Descriptors of this process inside the scratch directory."""
        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if t.startswith(self.dir + os.sep):
                out.append(t)
        return out

    def dispose(self):
        for f in self.opened:
            try:
                if not f.closed:
                    super(FaultyRaw, f).close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


class file_size_limit:
    """A real limit of the operating system on the size of written files."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.oldsig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.oldsig)
