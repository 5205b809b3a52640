"""P08: threads may share schemas; concurrent use equals serial use."""
import random
import sys

from pyasn1.codec.ber import decoder as ber_decoder

from .. import core, focus, oracle, session, snap, threads, wire, world, worlds
from . import p11, p13

ID = 'P08'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('One run = 2-4 threads, each with 3-8 operations (decode, open, build, encode, hostile and BER input, reading, '
        'cloning, registry entries and constants used directly) on 1-3 types they all share, interleaved by the '
        'scheduler at source lines or bytecode instructions of pyasn1 and of the modules.  Messages are judged against '
        'the frozen model, every other operation against what it gives alone, and the published objects touched against '
        'a fresh process.  Non-trivial: at least one baton change; distinct: event-trace hash (every switch).')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'pyasn1 codecs', 'Python threads'],
              'stub': ['thread scheduler', 'peer (dst/wire.py over dst/model/wire.json)']}
ASSUMPTIONS = ['threads share schema objects and registries, never a value one of them received or built',
               'C code (ints, dicts, bytes) is atomic, as under the interpreter lock']
LISTS = ('ops', 'switches')
CODES = []
OWN = []               # code of the repository's own functions; types whose registries run such code


def preload():
    p13.preload()
    if not CODES:
        mods = [m for n, m in sorted(sys.modules.items())
                if n.startswith('pyasn1.') or n.startswith(world.PKG + '.')]
        CODES.extend(threads.live_codes(mods))
        own = focus.own_codes()
        OWN[:] = [frozenset((c, l) for c in own for _, _, l in c.co_lines() if l), focus.governed()]


def plan(rng, tier, idx, total):
    m = session.model()
    names = [t for t in sorted(m.types) if 'ChangeSubjectName' not in t]
    hot = [names[(idx * 2 + j) % len(names)] for j in range(2)] + [rng.choice(names)]
    if rng.random() < 0.4:
        hot = [rng.choice(p11.LIST)[0] for j in range(2)]
        hot = [t for t in hot if t in m.types and 'ChangeSubjectName' not in t] or [names[0]]
    own = focus.behaving()
    if own and rng.random() < min(0.3, 0.1 * len(own)):
        hot = [rng.choice(own) for j in range(2)]
    gov = OWN[1]
    if gov and rng.random() < 0.25:
        hot = [rng.choice(gov) for j in range(2)]
    # the busy way: everybody does the same thing at the same time
    ops = []
    n = rng.choice((2, 2, 3, 4))
    twins = rng.random() < 0.5
    for j in range(rng.randrange(3, 9)):
        t = rng.choice(hot)
        s, o = rng.getrandbits(32), rng.random() < 0.5
        for th in range(n):
            if rng.random() < 0.4:
                t = rng.choice(hot)
            op = {'th': th, 't': t, 's': rng.getrandbits(32), 'o': rng.random() < 0.5,
                  'h': rng.choice(('msg', 'msg', 'msg', 'out', 'bad', 'ber', 'read', 'clone', 'half', 'mutate', 'shared'))}
            if op['h'] == 'shared':
                op['n'] = rng.randrange(1 << 20)
            if twins and rng.random() < 0.7:     # all handle the same message, or its mirror image
                op.update(t=t, s=s, o=o, h='msg', rot=rng.choice((0, 1, 1, 2)))
            ops.append(op)
    p = {'ops': ops, 'n': n, 'seed': rng.getrandbits(32), 'opcodes': rng.random() < 0.2}
    if rng.random() < 0.6:
        p['mode'] = 'rand'
        p['p'] = rng.choice((0.0005, 0.002, 0.01, 0.05))
        p['q'] = rng.choice((0, 0.2, 0.5))      # at the lines of the repository's own functions
        if p['q']:
            p['opcodes'] = False
    else:
        p['mode'] = 'pre'
        p['switches'] = [[1 + int(rng.expovariate(1 / 6000.0)), rng.randrange(4)] for _ in range(rng.randint(1, 20))]
    return p


def execute(plan, rec):
    m = session.model()
    mods = world.loaded()
    touched = set()

    def cls(t):
        mod, c = t.split('.', 1)
        return getattr(mods[mod], c)

    def alone(op):
        """An operation and everything it shows."""
        if op['h'] == 'out':
            v = wire.Gen(m, random.Random(op['s']), depth=2).value(m.types[op['t']])
            c = wire.Codec(m, 'ber', random.Random(op['s'])) if op['o'] else wire.Codec(m)
            return list(worlds.outcome(c.encode(m.types[op['t']], v), cls(op['t'])()))
        try:
            return p13.step(m, op, cls, touched)
        except wire.Unsatisfiable:
            return 'none'

    work = [[] for _ in range(plan['n'])]
    for op in plan['ops']:
        touched.add(op['t'])
        if op['h'] == 'msg':
            try:
                p = oracle.Probe(m, op['t'], op['s'], op['o'], p11.SPLIT, rot=op.get('rot', 0))
            except wire.Unsatisfiable:
                continue
            work[op['th']].append((op, p))
        else:
            try:
                work[op['th']].append((op, alone(op)))
            except wire.Unsatisfiable:
                continue

    sched = threads.Sched(plan, rec, (), budget=20000000, codes=CODES)
    sched.hot = OWN[0]

    def body(todo):
        def run(th):
            for op, want in todo:
                if op['h'] == 'msg':
                    want.check(rec.bad, cls(op['t']))
                    rec.count('messages')
                else:
                    got = alone(op)
                    rec.check(got == want, 'differs:%s:%s' % (op['h'], op['t']), lambda: 'alone %s, among threads %s' % (
                        core.brief(want), core.brief(got)))
                rec.count('operations (%s)' % op['h'])
                rec.ev(th.idx, op['h'], op['t'])
        return run

    for todo in work:
        sched.spawn(body(todo))
    sched.run()
    rec.check(not sched.deadlock, 'deadlock', 'threads wait for each other')
    for t in sched.threads:
        if isinstance(t.error, core.Violation):
            raise t.error
        if t.error is not None:
            raise t.error
    rec.fault('preemption', sched.nswitch)
    rec.count('scheduling points', sched.step)
    rec.reach('sw%d' % min(sched.nswitch, 500))
    mine = {n: th for n, _, th in snap.items(mods)}
    pick = [n for n in p13.FRESH if n in touched or ('[' not in n and n.endswith('Map'))]
    pick += random.Random(plan['seed']).sample(sorted(p13.FRESH), 30)
    for n in sorted(set(pick)):
        if n not in mine:
            rec.bad('gone:' + n, 'published object vanished')
        if snap.digest(mine[n]) != p13.FRESH[n]:
            rec.bad('changed:' + n, 'published object is not what it was')
        rec.count('published objects compared')
