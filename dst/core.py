"""What a simulated run records, and how it reports a broken property."""
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold: `key` names the failing input/site, stably."""

    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key = key
        self.msg = msg


class NoProgress(BaseException):
    """Raised inside code under test that exhausted its step budget.

    A BaseException, so that no `except Exception` of the code under test eats it.
    """


class Rec:
    """Recorder of one simulated run."""

    def __init__(self, known=()):
        self.known_keys = set(known)
        self.known = {}
        self.h = hashlib.sha256()
        self.n = 0
        self.faults = {}
        self.counts = {}
        self.simtime = 0.0
        self.cover = set()
        self.log = []
        self.keep = 0

    def ev(self, *what):
        """One event of the run; the sequence of events is the trace."""
        s = repr(what)
        self.h.update(s.encode('utf-8', 'backslashreplace'))
        self.n += 1
        if self.keep:
            self.log.append(s[:300])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def reach(self, what):
        """Coverage item (a JSON-able string) this run reached."""
        self.cover.add(what)

    def bad(self, key, msg):
        """A broken property at `key`: known findings are counted, others raise."""
        if key in self.known_keys:
            self.known[key] = self.known.get(key, 0) + 1
            self.ev('known', key)
            return
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return cond

    def digest(self):
        return self.h.hexdigest()[:16]


def rng(*parts):
    """A private generator for these parts: independent of everything else."""
    s = hashlib.sha256(json.dumps(parts).encode()).digest()
    return random.Random(int.from_bytes(s[:8], 'big'))


def brief(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)
