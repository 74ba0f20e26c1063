"""What every simulated world shares: violations, the run context, seeds."""
import hashlib, random, traceback
from collections import Counter


class Violation(Exception):
    """A property does not hold. `kind` names what failed; it is what
    minimisation and replay have to reproduce."""

    def __init__(self, kind, message):
        super().__init__("%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The simulator itself is at fault: never reported as a violation."""


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_of(*parts):
    return random.Random(seed_of(*parts))


class Ctx:
    """Collects what one run did."""

    def __init__(self):
        self.faults = Counter()   # fault kinds that fired
        self.ops = Counter()      # operations executed
        self.steps = 0            # simulated time: operations and scheduling points
        self.sigs = set()         # abstract states / interleavings reached
        self.nontrivial = False
        self._log = hashlib.sha256()
        self.trace = None         # filled when tracing a replay

    def log(self, *parts):
        text = "|".join(str(p) for p in parts)
        self._log.update(text.encode("utf-8", "backslashreplace"))
        self._log.update(b"\n")
        if self.trace is not None:
            self.trace.append(text)

    def digest(self):
        return self._log.hexdigest()[:24]

    def sig(self, *parts):
        h = hashlib.blake2b("|".join(str(p) for p in parts).encode("utf-8", "backslashreplace"), digest_size=8)
        self.sigs.add(int.from_bytes(h.digest(), "big"))

    def op(self, name):
        self.ops[name] += 1
        self.steps += 1

    def fault(self, name):
        self.faults[name] += 1


def describe_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/svgio/" in fr.filename:
            where = " in svgio %s" % fr.name
            break
    try:
        text = str(e)
    except Exception:
        text = "<unprintable>"
    return "%s(%s)%s" % (type(e).__name__, text[:300], where)


def check(cond, kind, message, *args):
    if not cond:
        raise Violation(kind, message % args if args else message)


def weighted(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]
