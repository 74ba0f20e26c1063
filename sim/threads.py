"""Client threads under a scheduler that decides every switch: exactly one
thread runs at a time (it holds the baton), and it gives the baton away only at
a traced event inside the library (a line, or a single instruction), at a
simulated lock, or when its program ends."""
import sys
import threading
import _thread

from . import env, simlock
from .core import Violation


class Abort(BaseException):
    """Unwinds the clients after a deadlock."""


class Scheduler:
    """`switches`: [[n, client], ...]: after n events of the run so far, client
    goes on. `quantum`: instead, the next client goes on every so many events."""

    def __init__(self, programs, first=0, switches=(), quantum=None, opcodes=False, ctx=None):
        self.programs = programs
        self.n = len(programs)
        self.locks = []
        for _ in programs:
            lk = _thread.allocate_lock()
            lk.acquire()
            self.locks.append(lk)
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.switches = sorted(([int(a), int(c) % self.n] for a, c in switches), reverse=True)
        self.quantum = quantum
        self.opcodes = opcodes
        self.first = first % self.n
        self.live = set(range(self.n))
        self.current = None
        self.events = 0
        self.per = [0] * self.n
        self.blocked = 0
        self.deadlock = False
        self.crash = [None] * self.n
        self.fired = []
        self.ctx = ctx

    # ------------------------------------------------------------ tracing

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._local

    def _global(self, frame, event, arg):
        if env.is_svgio(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def point(self, frame):
        self.events += 1
        self.blocked = 0
        me = self.current
        self.per[me] += 1
        if self.quantum:
            if self.events % self.quantum == 0:
                self.switch_to(self.after(me), frame)
        elif self.switches and self.events >= self.switches[-1][0]:
            to = self.switches.pop()[1]
            if to not in self.live:
                to = self.after(me)
            self.switch_to(to, frame)

    def after(self, me):
        for d in range(1, self.n + 1):
            c = (me + d) % self.n
            if c in self.live:
                return c
        return me

    def switch_to(self, to, frame=None):
        me = self.current
        if to == me:
            return
        if frame is not None:
            self.fired.append((self.events, me, to, frame.f_code.co_name))
        self.current = to
        self.locks[to].release()
        self.locks[me].acquire()
        if self.deadlock:
            raise Abort()

    def blocked_yield(self):
        """A simulated lock is held by somebody else."""
        self.blocked += 1
        me = self.current
        to = self.after(me)
        if to == me or self.blocked > 2 * len(self.live):
            self.deadlock = True
            raise Abort()
        self.switch_to(to)

    # ------------------------------------------------------------ clients

    def _client(self, i):
        self.locks[i].acquire()
        try:
            if not self.deadlock:
                sys.settrace(self._global)
                try:
                    self.programs[i]()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.crash[i] = e
        finally:
            self.live.discard(i)
            if self.live:
                to = self.after(i)
                self.current = to
                self.locks[to].release()
            else:
                self.done_lock.release()

    def run(self):
        threads = [threading.Thread(target=self._client, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        simlock.current_scheduler = self
        try:
            self.current = self.first
            self.locks[self.first].release()
            self.done_lock.acquire()
        finally:
            simlock.current_scheduler = None
        for t in threads:
            t.join()
        if self.deadlock:
            raise Violation("deadlock", "the clients wait for each other's locks for ever")
        for i, e in enumerate(self.crash):
            if e is not None:
                raise e
