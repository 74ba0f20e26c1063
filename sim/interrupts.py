"""Interruptions at chosen lines of the library, and counting of those lines."""
import sys

from . import env


class Stopped(BaseException):
    """An exit request of the application's own."""


KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Stopped": Stopped}


class LineInterrupt:
    """Raises at the k-th line event (from 0) the library executes inside the
    `with` block of this thread; k None only counts."""

    def __init__(self, k=None, exc=KeyboardInterrupt, opcodes=False):
        self.k, self.exc, self.n, self.fired, self.where = k, exc, 0, False, None
        self.opcodes = opcodes
        self.places = {} if k is None else None  # code location -> the events there

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            n = self.n
            self.n = n + 1
            if self.places is not None:
                self.places.setdefault((frame.f_code, frame.f_lineno), []).append(n)
            if n == self.k and not self.fired:
                self.fired = True
                self.where = frame.f_code.co_name
                raise self.exc("simulated")
        return self._local

    def _global(self, frame, event, arg):
        if env.is_svgio(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def pick(self, f, rare):
        """An event by a fraction: any of them, or one in a function, functions
        being as likely as each other however often their lines were reached."""
        if not rare or not self.places:
            return min(int(f * self.n), self.n - 1)
        funcs = {}
        for (code, line), evs in self.places.items():
            funcs.setdefault(code, []).append(evs)
        at, x = list(funcs.values()), min(f, 0.999999)
        for _ in range(2):  # a function, a line of it, then an event there
            x *= len(at)
            at, x = at[int(x)], x % 1
        return at[int(x * len(at))]

    def each_place(self, f):
        """One event of every place in the code that was reached."""
        return sorted(evs[int(min(f, 0.999999) * len(evs))] for evs in self.places.values())

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def _warm():
    """Tracing of single instructions takes effect only from the second time
    it is asked for in a process: ask once, so that every run is the same."""
    def probe():
        return 1

    def local(frame, event, arg):
        return local

    def glob(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    for _ in range(2):
        sys.settrace(glob)
        probe()
        sys.settrace(None)


_warm()
