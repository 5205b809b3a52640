"""Deterministic scheduler for real threads.

Threads of the simulated process are real Python threads, but exactly one holds
the baton.  It can be taken away at every source line executed in the code under
test (a sys.settrace seam) and at every simulated blocking operation; who gets it
next is the plan's decision, never the operating system's.

A schedule is either
  {'mode': 'pre', 'switches': [[step, thread], ...]}    few preemptions at given steps
  {'mode': 'rand', 'seed': n, 'p': 0.1}                 a coin at each step
  {'mode': 'rand', ..., 'q': 0.4}                       with probability q at the hot lines the caller names
  {'mode': 'pre', 'volley': [step, ...]}                the first thread, at its own i-th given step, hands
                                                        over to thread i, which goes on to its end
                                                        (or until it has to wait)
With 'opcodes' the steps are bytecode instructions instead of source lines.
"""
import random
import sys
import threading
import types

from .core import NoProgress

_real_lock = threading.Lock


class Killed(BaseException):
    pass


class Thread:
    def __init__(self, sched, idx, fn):
        self.steps = 0
        self.sched = sched
        self.idx = idx
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waiting = None          # predicate, when blocked
        self.error = None
        self.result = None
        self.th = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        self.sched.local.me = self
        try:
            if self.sched.dead:
                raise Killed()
            if self.sched.codes is None:
                sys.settrace(self.sched.tracer)
            try:
                self.result = self.fn(self)
            finally:
                sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.sched.finished(self)


class Sched:
    def __init__(self, plan, rec, prefixes, budget=400000, codes=None):
        self.mode = plan.get('mode', 'rand')
        self.volley = {}
        for i, k in enumerate(plan.get('volley', ())):
            self.volley.setdefault(k, []).append(i + 1)
        self.switches = {}
        for k, t in plan.get('switches', ()):
            self.switches.setdefault(k, t)
        self.rng = random.Random(plan.get('seed', 0))
        self.p = plan.get('p', 0.1)
        self.q = plan.get('q', 0)
        self.hot = frozenset()       # (code object, line) pairs
        self.opcodes = plan.get('opcodes', False)
        self.hook = None             # called with the thread at every point (fault injection)
        self.rec = rec
        self.codes = codes
        self.prefixes = tuple(prefixes)
        self.budget = budget
        self.threads = []
        self.step = 0
        self.nswitch = 0
        self.deadlock = False
        self.dead = False
        self.exhausted = None
        self.local = threading.local()
        self.mainsem = threading.Semaphore(0)
        self.want = {}

    # -- tracing
    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn not in self.want:
            self.want[fn] = fn.startswith(self.prefixes)
        if not self.want[fn]:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point()
        return self.local_trace

    # -- running
    def spawn(self, fn):
        t = Thread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def me(self):
        return getattr(self.local, 'me', None)

    def run(self):
        if not self.threads:
            return
        for t in self.threads:
            t.th.start()
        with Watch(self.codes, self.opcodes, self.point):
            CURRENT[0] = self
            self.threads[0].sem.release()
            self.mainsem.acquire()
            for t in self.threads:
                t.th.join(20)
            CURRENT[0] = None
        if self.exhausted:
            raise NoProgress(self.exhausted)

    def runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.waiting is not None:
                if not t.waiting():
                    continue
            out.append(t)
        return out

    def handover(self, me, to):
        """Give the baton to `to`; returns when `me` gets it back."""
        if to is me:
            return
        self.nswitch += 1
        self.rec.ev('sw', self.step, me.idx, to.idx)
        to.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Killed()

    def point(self, where=None):
        """A place where the baton may be taken away."""
        me = self.me()
        if me is None or self.dead:
            if self.dead and me is not None:
                raise Killed()
            return
        self.step += 1
        me.steps += 1
        if self.step > self.budget:
            self.exhausted = '%d steps' % self.step
            self.kill(me)
        to = None
        if self.volley:
            for i in self.volley.get(me.steps, ()) if me.idx == 0 else ():
                if not self.threads[i].done and self.threads[i].waiting is None:
                    self.handover(me, self.threads[i])
        elif self.mode == 'rand':
            if self.rng.random() < (self.q if self.q and where in self.hot else self.p):
                cand = self.runnable()
                if cand:
                    to = cand[self.rng.randrange(len(cand))]
        elif self.step in self.switches:
            cand = self.runnable()
            if cand:
                to = cand[self.switches[self.step] % len(cand)]
        if to is not None:
            self.handover(me, to)
        if self.hook is not None:
            self.hook(me)

    def block(self, pred, timed=False):
        """Block the current thread until pred() is true (if timed, perhaps not even then)."""
        me = self.me()
        while not pred():
            self.step += 1
            if self.step > self.budget:
                self.exhausted = '%d steps' % self.step
                self.kill(me)
            me.waiting = pred
            cand = [t for t in self.runnable() if t is not me]
            if not cand:
                me.waiting = None
                if timed:
                    return
                self.deadlock = True
                self.kill(me)
            to = cand[self.rng.randrange(len(cand))] if self.mode == 'rand' else cand[0]
            self.handover(me, to)
            me.waiting = None
            if timed:
                return

    def finished(self, me):
        if self.dead:
            rest = [t for t in self.threads if not t.done]
            (rest[0].sem if rest else self.mainsem).release()
            return
        cand = self.runnable()
        if cand:
            to = cand[self.rng.randrange(len(cand))] if self.mode == 'rand' else cand[0]
            self.rec.ev('end', me.idx, to.idx)
            to.sem.release()
            return
        rest = [t for t in self.threads if not t.done]
        if rest:
            self.deadlock = True
            self.dead = True
            rest[0].sem.release()
            return
        self.mainsem.release()

    def kill(self, me):
        self.dead = True
        raise Killed()


# ------------------------------------------------------------ code events

def nested(code):
    """A code object and those inside it."""
    yield code
    for k in code.co_consts:
        if hasattr(k, 'co_code'):
            yield from nested(k)


def live_codes(modules):
    """Code objects of the functions and classes of loaded modules."""
    out, seen = [], set()

    def walk(o, mod):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, (classmethod, staticmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                walk(f, mod)
        elif isinstance(o, types.FunctionType):
            if o.__module__ == mod:
                out.extend(nested(o.__code__))
        elif isinstance(o, type) and o.__module__ == mod:
            for v in list(vars(o).values()):
                walk(v, mod)
    for m in modules:
        for v in list(vars(m).values()):
            walk(v, m.__name__)
    return list(dict.fromkeys(out))


class Watch:
    """Calls fn() at every line (or instruction) of the given code, on any thread
    (sys.monitoring: code that is not watched runs at full speed)."""
    TOOL = 3

    def __init__(self, codes, opcodes, fn):
        self.codes = codes
        self.ev = sys.monitoring.events.INSTRUCTION if opcodes else sys.monitoring.events.LINE
        self.fn = fn

    def cb(self, code, where):
        self.fn((code, where))

    def __enter__(self):
        if self.codes is None:
            return self
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'dst')
        mon.register_callback(self.TOOL, self.ev, self.cb)
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, self.ev)
        return self

    def __exit__(self, *a):
        if self.codes is None:
            return
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, 0)
        mon.register_callback(self.TOOL, self.ev, None)
        mon.free_tool_id(self.TOOL)


# ------------------------------------------------------------ locks of the code under test

CURRENT = [None]                 # the scheduler running now
_real_rlock = threading.RLock


class Lock:
    """What threading.Lock() and RLock() give the code under test: blocks in the scheduler."""
    again = False

    def __init__(self):
        self.l = _real_lock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT[0]
        me = s and s.me()
        who = me or threading.get_ident()
        if self.again and self.owner == who:
            self.count += 1
            return True
        tries = 0
        while not self.l.acquire(False):
            if not blocking:
                return False
            tries += 1
            if timeout >= 0 and tries > 50:
                return False
            if me is None:
                if self.owner == who:
                    raise NoProgress('waits for a lock it holds')
                if not self.l.acquire(True, 60):
                    raise NoProgress('waits for a lock nobody gives back')
                break
            s.rec.count('lock waits')
            s.block(lambda: not self.l.locked(), timeout >= 0)
        self.owner = who
        self.count = 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.l.release()

    def locked(self):
        return self.l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    again = True


def lock_seam(prefix):
    """From now on code under this directory gets these locks."""
    import _thread
    if threading.Lock is not _real_lock:
        return

    def maker(real, sim):
        def make(*a):
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename == threading.__file__:
                f = f.f_back
            return sim() if f is not None and f.f_code.co_filename.startswith(prefix) else real(*a)
        return make

    threading.Lock = _thread.allocate_lock = maker(_real_lock, Lock)
    threading.RLock = _thread.RLock = maker(_real_rlock, RLock)


# ------------------------------------------------------------ import locks

class ImportSeam:
    """Replaces CPython's per-module import lock by one that blocks in the scheduler."""

    def __init__(self, sched):
        import _frozen_importlib as fi
        self.fi = fi
        self.sched = sched
        seam = self

        class SimModuleLock:
            def __init__(self, name):
                self.name = name
                self.owner = None
                self.count = 0

            def acquire(self):
                me = sched.me()
                if self.owner is not None and self.owner is not me:
                    # deadlock avoidance as in importlib: a cycle is broken by an error
                    seen, lk = set(), self
                    while lk is not None and lk.owner is not None:
                        if lk.owner is me:
                            sched.rec.count('import lock cycles')
                            raise fi._DeadlockError('deadlock on %r' % self.name)
                        if id(lk) in seen:
                            break
                        seen.add(id(lk))
                        lk = seam.blocked.get(lk.owner)
                    seam.blocked[me] = self
                    sched.rec.count('import lock waits')
                    sched.rec.ev('wait', me.idx if me else -1, self.name)
                    try:
                        sched.block(lambda: self.owner is None)
                    finally:
                        seam.blocked.pop(me, None)
                self.owner = me if me is not None else 'main'
                self.count += 1
                return True

            def release(self):
                self.count -= 1
                if self.count == 0:
                    self.owner = None

        self.cls = SimModuleLock
        self.blocked = {}

    def __enter__(self):
        self.saved = self.fi._ModuleLock
        self.savedlocks = dict(self.fi._module_locks)
        self.fi._module_locks.clear()
        self.fi._ModuleLock = self.cls
        return self

    def __exit__(self, *a):
        self.fi._ModuleLock = self.saved
        self.fi._module_locks.clear()
        self.fi._module_locks.update(self.savedlocks)
