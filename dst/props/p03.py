"""P03: PEM readers of one process never influence each other."""
import base64
import os
import random

from .. import core, pemsim, threads, world

ID = 'P03'
LEVEL = 'exploration'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('One run = 2-4 real threads (and readers nested in a source of another reader), each reading its own '
        'PEM source with its own markers, interleaved by the deterministic scheduler at every source line of the PEM '
        'module and every read; some sources fail half-way. Each thread is compared with its serial reference. '
        'Non-trivial: at least one baton change; distinct: event-trace hash (switch points and results).')
COMPONENTS = {'real': ['pyasn1_modules.pem', 'base64', 'Python threads'], 'stub': ['thread scheduler', 'raw byte sources']}
ASSUMPTIONS = ['preemption granularity is one source line of the code under test']
LISTS = ('ops', 'switches')


def preload():
    world.setup_path()
    world.check_origin()
    world.load('pem')


def plan(rng, tier, idx, total):
    kinds = rng.sample(pemsim.KINDS, rng.randint(2, 5))
    ops = []
    for t in range(rng.randint(2, 4)):
        items = []
        for i in range(rng.randint(1, 4)):
            items.append({'o': 'block', 'k': rng.choice(kinds), 'n': rng.choice((3, 9, 48, 96, rng.randrange(1, 130))),
                          's': rng.getrandbits(32), 'w': rng.choice((4, 16, 64))})
            if rng.random() < 0.4:
                items.append({'o': 'spam', 's': rng.getrandbits(32), 'n': rng.randint(1, 3)})
        ops.append({'items': items, 'kinds': kinds, 'how': rng.choice(('lines', 'lines', 'text')), 's': rng.getrandbits(32),
                    'fail': rng.random() if rng.random() < 0.25 else None,
                    'nest': rng.random() < 0.25,
                    'calls': [rng.sample(kinds, rng.randint(1, len(kinds))) for _ in range(rng.randint(1, 5))]})
    p = {'ops': ops, 's': rng.getrandbits(32), 'nthreads': len(ops)}
    if rng.random() < 0.5:
        p['mode'] = 'rand'
        p['p'] = rng.choice((0.02, 0.1, 0.3, 0.7))
    else:
        p['mode'] = 'pre'
        p['switches'] = [[rng.randrange(1, 120), rng.randrange(4)] for _ in range(rng.randint(1, 12))]
    p['seed'] = rng.getrandbits(32)
    return p


class Nested:
    """A source that, to produce each of its lines, reads a PEM block of another source."""

    def __init__(self, inner, pem, rec, op, me):
        self.inner, self.pem, self.rec, self.op = inner, pem, rec, op
        self.n = 0
        self.me = me

    def readline(self, *a):
        self.n += 1
        if self.n % 2:
            payload = b'nested%d' % (self.n * 7919)
            lines = pemsim.block_lines('NESTED', payload, 64)
            src = pemsim.Lines([x + '\n' for x in lines], self.rec)
            got = self.pem.readPemBlocksFromFile(src, pemsim.marker('OTHER'), pemsim.marker('NESTED'))
            self.rec.check(got == (1, payload), 'nested', 'nested reader got %s' % core.brief(got))
            self.rec.count('nested reads')
        return self.inner.readline()

    __iter__ = pemsim.Lines.__iter__
    __next__ = pemsim.Lines.__next__


def execute(plan, rec):
    pem = world.load('pem')
    sched = threads.Sched(plan, rec, [os.path.join(world.REPO, world.PKG)])

    def body(op):
        def run(th):
            r = random.Random(op['s'])
            from .p01 import compose
            lines, _ = compose({'ops': op['items'], 'kinds': op['kinds']})
            errors = []
            if op['fail'] is not None:
                errors = [[int(op['fail'] * len(lines)), OSError(5, 'Input/output error')]]
            texts = [x + '\n' for x in lines]
            src = pemsim.open_source(op['how'], texts, r, rec, sched.point, errors)
            if op['nest']:
                src = Nested(src, pem, rec, op, th)
            out = []
            for what in op['calls']:
                try:
                    got = pem.readPemBlocksFromFile(src, *[pemsim.marker(k) for k in what])
                    out.append([got[0], bytes(got[1] or b'').hex()])
                except OSError as e:
                    out.append(['OSError', e.errno])
                    break
            if r.random() < 0.5:
                data = bytes(r.getrandbits(8) for _ in range(90))
                t = pem.readBase64fromText(base64.b64encode(data).decode())
                rec.check(t == data, 'base64', 'readBase64fromText differs')
            # the serial reference
            want, pos = [], 0
            for what in op['calls']:
                wi, b, pos = pemsim.ref_read(lines, pos, [pemsim.marker(k) for k in what])
                want.append([wi, b])
            return out, want, errors
        return run

    for op in plan['ops']:
        sched.spawn(body(op))
    sched.run()
    rec.check(not sched.deadlock, 'deadlock', 'threads block each other')
    for t, op in zip(sched.threads, plan['ops']):
        if isinstance(t.error, core.Violation):
            raise t.error
        if t.error is not None:
            raise core.Violation('thread-error', 'thread %d: %r' % (t.idx, t.error))
        out, want, errors = t.result
        for n, (gi, gs) in enumerate(out):
            if gi == 'OSError':
                rec.check(errors, 'error', 'thread %d: error out of nowhere' % t.idx)
                break
            wi, b = want[n]
            if b is None:
                rec.check(gs == '', 'leak', 'thread %d call %d returned %s, expected nothing' % (t.idx, n, core.brief(gs)))
                if wi == -1:
                    rec.check(gi == -1, 'leak', 'thread %d call %d returned index %s' % (t.idx, n, gi))
                break
            rec.check([gi, gs] == [wi, pemsim.ref_decode(b).hex()], 'leak', lambda: 'thread %d call %d returned %s, alone it gets %s'
                      % (t.idx, n, core.brief([gi, gs]), core.brief([wi, pemsim.ref_decode(b).hex()])))
            rec.count('blocks delivered')
    rec.fault('preemption', sched.nswitch)
    rec.ev('steps', sched.step, [t.result[0] for t in sched.threads])
    rec.reach('sw%d' % min(sched.nswitch, 200))
