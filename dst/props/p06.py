"""P06: a failed import leaves nothing broken behind."""
import random
import sys

from .. import oracle, session, snap, wire, world, worlds
from . import p05, p11

ID = 'P06'
LEVEL = 'exploration'
RUNS = {'quick': 360, 'thorough': 12000}
RULE = ('One run = a node with 0-5 modules imported and serving imports a further one; 1-16 attempts fail: an interrupt, '
        'memory exhaustion or other error at a seeded executed source line of it or of a dependency (biased to registry '
        'updates at the end of modules, in half of the runs at each of the last 4-16 lines in turn; sometimes inside pyasn1 code that line calls), or the disk failing the read of '
        'one of the files.  After each failure the node serves as before; then the import succeeds and everything '
        'published is compared with a node that never failed.  Non-trivial: at least one fault fired; distinct: '
        'event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'CPython import system', 'pyasn1'],
              'stub': ['source file access (compiled once per check, fails on demand)', 'interrupts (trace hook)']}
ASSUMPTIONS = ['the identifiers a module that failed half-way had already registered may or may not be known meanwhile']
LISTS = ('faults', 'ops')
NEEDS = {}
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError,
       'PermissionError': PermissionError, 'ImportError': ImportError, 'ModuleNotFoundError': ModuleNotFoundError,
       'RuntimeError': RuntimeError, 'RecursionError': RecursionError}


def preload():
    p05.preload()
    if not NEEDS:
        NEEDS.update(world.needs())


def plan(rng, tier, idx, total):
    m = session.model()
    target = m.modules[idx % len(m.modules)] if idx < len(m.modules) or rng.random() < 0.7 else rng.choice(m.modules)
    ops = rng.sample(m.modules, rng.choice((0, 0, 1, 1, 2, 3, 5)))
    ops = [x for x in ops if target not in NEEDS.get(x, ())]
    faults = []
    for i in range(rng.choice((1, 1, 1, 2, 3))):
        if rng.random() < 0.2:
            faults.append({'k': 'file', 'at': round(rng.random(), 4), 'e': rng.choice(('OSError', 'PermissionError', 'ImportError', 'ModuleNotFoundError'))})
        else:
            faults.append({'k': 'line', 'm': round(rng.random(), 4),
                           'at': round(1 - rng.random() ** 3 if rng.random() < 0.6 else rng.random(), 4),
                           'j': 0 if rng.random() < 0.7 else rng.randrange(1, 60),
                           'e': rng.choice(('KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'RecursionError'))})
    if idx < len(m.modules) or rng.random() < 0.3:
        # at every step of the end of the module itself, one after the other
        faults = [{'k': 'line', 'tail': i, 'j': 0 if rng.random() < 0.8 else rng.randrange(1, 60),
                   'e': rng.choice(('KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'RecursionError'))}
                  for i in range(16 if idx < len(m.modules) else rng.choice((4, 8, 16)))]
        w = rng.choice((0, 2) if idx < len(m.modules) else (0, 1, 2))
        if w == 0:
            faults.reverse()
        elif w == 1:
            rng.shuffle(faults)
            del faults[3:]
    if idx < len(m.modules) or rng.random() < 0.2:
        # first the disk fails on each module it asks for, in the order it does
        mine = world.DIRECT.get(target, ())
        ops = [x for x in ops if not set(mine) & NEEDS.get(x, set())]
        faults[:0] = [{'k': 'file', 'of': n, 'e': rng.choice(('OSError', 'PermissionError', 'ImportError', 'ImportError',
                       'ModuleNotFoundError', 'MemoryError'))} for n in mine]
    return {'ops': ops, 'target': target, 'faults': faults, 'seed': rng.getrandbits(32)}


class Lines:
    """Watches module source lines executed; may raise at one of them."""

    def __init__(self, fault=None):
        self.seq = []
        self.fault = fault           # (index into seq, j, exception class)
        self.fired = False
        self.left = None
        self.repo = world.REPO + '/'

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.repo):
            return self.line
        if self.left is not None and '/site-packages/pyasn1/' in fn:
            return self.inner
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.seq.append(frame.f_globals.get('__name__', '').rpartition('.')[2])
            if self.fault and not self.fired and self.left is None and len(self.seq) > self.fault[0]:
                self.left = self.fault[1]
            elif self.left is not None:
                self.left = 0       # the call took fewer steps than that
            self.maybe()
        return self.line

    def inner(self, frame, event, arg):
        if event == 'line':
            self.maybe()
        return self.inner

    def maybe(self):
        if self.left is not None and not self.fired:
            if self.left <= 0:
                self.fired = True
                raise self.fault[2]('injected')
            self.left -= 1


def attempt(target, lines):
    sys.settrace(lines.tracer)
    try:
        worlds.imp(target)
        return None
    except BaseException as e:
        return e
    finally:
        sys.settrace(None)


def published(m):
    mods = world.loaded()
    return {n: snap.digest(th) for n, _, th in snap.items(mods)}


def execute(plan, rec):
    m = session.model()
    rng = random.Random(plan['seed'])
    target = plan['target']

    def base():
        world.purge()
        for n in plan['ops']:
            world.load_or_violate(n)

    # the node that never fails: reference, and the list of points where to fail
    base()
    if target in world.loaded():
        return
    before = set(world.loaded())
    rec.ev('serving', sorted(before), 'to import', target)
    ref_lines = Lines()
    e = attempt(target, ref_lines)
    if e is not None:
        rec.bad('import:%s' % target, 'does not import after %s: %s: %s' % (
            plan['ops'], type(e).__name__, str(e)[-300:]))
        return
    ref = worlds.State(m)
    ref_pub = published(m)
    new = sorted(set(world.loaded()) - before)
    seq = ref_lines.seq
    base()

    # what the node serves meanwhile
    skip = set(p11.SPLIT)
    for reg, es in m.registries.items():
        skip |= {(reg, k) for k, by in es.items() if not before & set(by)}

    def opened(f, key):
        by = m.registries.get(f['open'][1], {}).get(wire.keystr(key), {})
        return bool(set(world.loaded()) & set(by))

    names = [t for t in sorted(m.types) if t.split('.')[0] in before and not t.endswith('ChangeSubjectName')]
    hot = [t for t, _, _ in p05.FIELDS if t.split('.')[0] in before and not t.endswith('ChangeSubjectName')]
    serving = []
    if names:
        serving = oracle.probes(m, names, rng, 3, 0.3, skip) + (oracle.probes(m, hot, rng, 4, 1, skip) if hot else [])

    def cls(t):
        mod, c = t.split('.', 1)
        return getattr(world.loaded()[mod], c)

    specs = [(p, cls(p.t)) for p in serving]

    def serve(when):
        for p, c in specs:
            p.check(lambda k, msg: rec.bad('%s' % k, '%s: %s' % (when, msg)), c, opened=opened)
            rec.count('messages served')

    had = {n: sys.modules[world.PKG + '.' + n] for n in before}
    for i, f in enumerate(plan['faults']):
        need = [n for n in new if n not in world.loaded()]
        lines = Lines()
        hit = []
        if f['k'] == 'file':
            victim = world.PKG + '.' + (f['of'] if 'of' in f else need[int(f['at'] * len(need)) % len(need)])
            if victim in sys.modules:
                continue            # came in with an earlier attempt

            def disk(name):
                if name == victim and not hit:
                    hit.append(name)
                    raise EXC[f['e']]('injected')
            world.FAULT[0] = disk
        else:
            idx = [j for j, n in enumerate(seq) if n == (target if 'tail' in f else need[int(f['m'] * len(need)) % len(need)])]
            if not idx:
                continue
            # as many lines as will really run now: modules that are in already do not run again
            if 'tail' in f:
                at = idx[max(0, len(idx) - 1 - f['tail'])]
            else:
                at = idx[min(len(idx) - 1, int(f['at'] * len(idx)))]
            again = set(need) | ({world.PKG} if world.PKG not in sys.modules else set())
            at = sum(1 for n in seq[:at] if n in again)
            lines = Lines((at, f['j'], EXC[f['e']]))
        e = attempt(target, lines)
        world.FAULT[0] = None
        fired = bool(hit) or lines.fired
        if not fired:
            if e is not None:
                rec.bad('import:%s' % target, 'does not import after a failed attempt: %s: %s' % (
                    type(e).__name__, str(e)[-300:]))
            break
        rec.fault('%s while importing' % f['e'] + (' (disk)' if hit else ''))
        rec.ev('fault', i, f['k'], len(lines.seq), type(e).__name__)
        rec.reach('%s:%s' % (lines.seq[-1] if lines.seq else hit, len(lines.seq)))
        if e is None or not isinstance(e, EXC[f['e']]):
            rec.bad('swallowed:%s' % target, '%s injected into the import, which ended with %s' % (
                f['e'], 'success' if e is None else type(e).__name__))
        if target in world.loaded() and e is not None:
            rec.bad('halfway:%s' % target, 'module stays importable although its import failed')
        for n, mod in had.items():
            if sys.modules.get(world.PKG + '.' + n) is not mod:
                rec.bad('dropped:%s' % n, 'module imported before is gone after a failed import of %s' % target)
        if i < 3 or i % 4 == 0:
            serve('after a failed import of %s' % target)
    e = attempt(target, Lines())
    if e is not None:
        rec.bad('retry:%s' % target, 'importing again fails: %s: %s' % (type(e).__name__, str(e)[-300:]))
        return
    st = worlds.State(m)
    if st.mods != ref.mods:
        rec.bad('modules:%s' % target, 'other modules loaded than without the failure: %s' % sorted(
            set(st.mods) ^ set(ref.mods))[:5])
    worlds.compare(m, ref, st, rec.bad, 'after a failed and repeated import of %s' % target)
    pub = published(m)
    for n in sorted(set(pub) | set(ref_pub)):
        if pub.get(n) != ref_pub.get(n):
            if '[' in n and n in pub and n in ref_pub:
                continue            # compared, with behaviour, above
            rec.bad('changed:%s' % n, 'published object is not what it is without the failure')
        rec.count('published objects compared')
    serve('after the import of %s at last succeeded' % target)
