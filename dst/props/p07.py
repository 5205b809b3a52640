"""P07: importing from several threads at once is as good as importing one by one."""
import random

from .. import core, focus, oracle, session, snap, threads, wire, world, worlds
from . import p05, p11, p13

ID = 'P07'
LEVEL = 'exploration'
RUNS = {'quick': 640, 'thorough': 14000}
RULE = ('One run = 2-4 threads, each importing its own seeded list of 1-4 modules (overlapping, sharing dependencies and '
        'registries, biased to modules that write the same registry) and using each module right after importing it, '
        'interleaved by the scheduler at source lines or bytecode instructions of the modules; in some runs one thread '
        'has an import interrupted and repeats it.  The end state is compared with importing the same modules one '
        'after the other.  Non-trivial: at least one baton change; distinct: event-trace hash (every switch and wait).')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'CPython import system', 'pyasn1', 'Python threads'],
              'stub': ['thread scheduler', 'per-module import locks (scheduler owned, same deadlock avoidance)',
                       'source file access (compiled once per check)']}
ASSUMPTIONS = ['a thread waiting for an import that fails in another thread may see ImportError and tries again '
               '(CPython behaviour)', 'pyasn1 itself is not interrupted in the middle of a call']
LISTS = ('ops', 'switches', 'serve')
NEEDS = {}
HOT = set()


def preload():
    p05.preload()
    if not NEEDS:
        NEEDS.update(world.needs())
        for n in sorted(NEEDS):
            try:
                world.load(n)
            except Exception:
                continue
        mods = world.loaded()
        for full, (_, code) in world.CODE.items():
            mod = mods.get(full[len(world.PKG) + 1:])
            if mod is not None:
                HOT.update(focus.hot_lines(code, vars(mod)))


def plan(rng, tier, idx, total):
    m = session.model()
    n = rng.choice((2, 2, 2, 3, 3, 4))
    first = m.modules[idx % len(m.modules)]
    pool = list(m.modules)
    if rng.random() < 0.6:
        mine = [reg for reg, es in m.registries.items() if any(first in by for by in es.values())]
        reg = rng.choice(mine) if mine else rng.choice(sorted(m.registries))
        pool = sorted(set(x for by in m.registries[reg].values() for x in by))
        if len(pool) < 2:
            pool = list(m.modules)
    ops = []
    for i in range(n):
        x = rng.sample(pool, min(len(pool), rng.choice((1, 1, 2, 3, 4))))
        if i == 0 or rng.random() < 0.25:
            x.insert(rng.randrange(len(x) + 1), first)
        ops.append([x, rng.choice(worlds.ROUTES)])
    p = {'ops': ops, 'full': idx % 3 == 0, 'seed': rng.getrandbits(32), 'opcodes': rng.random() < 0.3,
         'warm': rng.sample(m.modules, rng.choice((0, 0, 0, 1, 3)))}
    if rng.random() < 0.6:
        p['mode'] = 'rand'
        p['p'] = rng.choice((0.002, 0.01, 0.05, 0.2, 0.5))
        if rng.random() < 0.5:      # where shared containers are touched
            p.update(opcodes=False, p=rng.choice((0, 0.002)), q=rng.choice((0.1, 0.3, 0.6)))
    else:
        p['mode'] = 'pre'
        p['switches'] = [[round(rng.random(), 5), rng.randrange(4)] for _ in range(rng.randint(1, 12))]
    if idx < 2 * len(m.modules) or rng.random() < 0.4:
        volley(m, rng, p, first)
        if idx < len(m.modules) or rng.random() < 0.5:
            p['tail'] = 'hot'
    elif rng.random() < 0.15:
        p['fault'] = [rng.randrange(n), round(rng.random(), 4), rng.choice(('KeyboardInterrupt', 'MemoryError'))]
    return p


def volley(m, rng, p, first):
    """At each of the last lines of one module's import another thread imports another module
    that writes the same registries."""
    regs = [reg for reg, es in m.registries.items() if any(first in by for by in es.values())]
    pool = sorted(set(x for reg in regs for by in m.registries[reg].values() for x in by if first not in by))
    pool = [x for x in pool or m.modules if first not in NEEDS.get(x, ()) and x not in NEEDS.get(first, ())] or m.modules
    rest = rng.sample(pool, min(len(pool), rng.randrange(4, 13)))
    p['ops'] = [[[first], 'module']] + [[[x], rng.choice(worlds.ROUTES)] for x in rest]
    p['warm'] = sorted(set(y for x in [first] + rest for y in NEEDS.get(x, ())) - set([first] + rest))
    p['mode'] = 'pre'
    p['opcodes'] = False
    p['tail'] = rng.choice((1, 1, 1, 2))
    p['switches'] = []


def ready():
    return {n for n, mod in world.loaded().items()
            if not getattr(getattr(mod, '__spec__', None), '_initializing', False)}


def published():
    return {n: snap.digest(th) for n, _, th in snap.items(world.loaded())}


def execute(plan, rec):
    m = session.model()
    rng = random.Random(plan['seed'])
    codes = [c for _, code in world.CODE.values() for c in threads.nested(code)]

    def base():
        world.purge()
        for n in plan['warm']:
            world.load_or_violate(n)

    # one by one
    base()
    lines = [0]
    solo, hits = [], []

    def count(where):
        lines[0] += 1
        if where in HOT:
            hits.append(lines[0])

    with threads.Watch(codes, plan['opcodes'], count):
        for xs, route in plan['ops']:
            if 'tail' in plan and xs is not plan['ops'][0][0] and not solo:
                solo.append(lines[0])
            for n in xs:
                try:
                    worlds.imp(n, route)
                except Exception as e:
                    rec.bad('import:%s' % n, 'does not import: %s: %s' % (type(e).__name__, str(e)[-300:]))
                    return
    ref = worlds.State(m)
    ref_pub = published() if plan['full'] else {}

    # what each thread will do with what it imported
    work = []
    for xs, route in plan['ops']:
        todo = []
        have = set()
        for x in plan['warm']:
            have |= NEEDS.get(x, {x})
        for x in xs:
            have |= NEEDS.get(x, {x})
            skip = set(p11.SPLIT)
            for reg, es in m.registries.items():
                skip |= {(reg, k) for k, by in es.items() if not have & set(by)}
            names = [t for t in sorted(m.types) if t.split('.')[0] == x and 'ChangeSubjectName' not in t]
            ps = oracle.probes(m, names, rng, 2, 0.4, skip, depth=2) if names else []
            hot = [f for f in p05.FIELDS if f[0].split('.')[0] in NEEDS.get(x, ()) and 'ChangeSubjectName' not in f[0]]
            if hot:
                t, fname, reg = rng.choice(hot)[:3]
                ks = [k for k, by in m.registries.get(reg, {}).items() if x in by and (reg, k) not in skip and (t, k) not in p13.KNOWN]
                try:
                    if ks:
                        ps.append(oracle.Probe(m, t, rng.getrandbits(32), True, skip, rng.choice(sorted(ks)), fname, 2))
                except wire.Unsatisfiable:
                    pass
            todo.append((x, ps))
        work.append(todo)

    # all at once
    base()
    sp = dict(plan)
    if 'tail' in plan:
        # first switch so many lines before the end, and again at every (second) line; whoever
        # gets the baton runs to its end
        n = len(plan['ops']) - 1
        if plan['tail'] == 'hot':
            mine = [h for h in hits if h <= solo[0]] if solo else hits
            sp['volley'] = sorted((rng.sample(mine, len(mine)) * n)[:n])
        else:
            sp['volley'] = [max(1, (solo or lines)[0] - plan['tail'] * (n - 1 - i)) for i in range(n)]
    elif plan['mode'] == 'pre':
        sp['switches'] = [[1 + int(f * lines[0]), t] for f, t in plan['switches']]
    sched = threads.Sched(sp, rec, (), budget=5000000, codes=codes)
    sched.hot = HOT
    fault = plan.get('fault')
    fired = []
    if fault and fault[0] < len(plan['ops']):
        at = 1 + int(fault[1] * lines[0] / len(plan['ops']))

        def hook(th):
            if th.idx == fault[0] and th.steps >= at and not fired and th.importing:
                fired.append(1)
                rec.fault('%s in an importing thread' % fault[2])
                raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[fault[2]]('injected')
        sched.hook = hook

    def body(todo, route):
        def run(th):
            for name, ps in todo:
                th.importing = True
                try:
                    mod = worlds.imp(name, route)
                except (KeyboardInterrupt, MemoryError, ImportError):
                    if not fired:
                        raise
                    mod = worlds.imp(name, route)
                th.importing = False
                rec.ev('in', th.idx, name)
                rec.count('imports')
                for p in ps:
                    owner, _, c = p.t.partition('.')
                    owner = world.loaded().get(owner)
                    T = getattr(owner, c, None)
                    if T is None:
                        rec.bad('missing:' + p.t, 'not there right after its module was imported')
                        continue
                    p.check(lambda k, msg: rec.bad(k, 'right after a concurrent import of %s: %s' % (name, msg)), T)
                    rec.count('messages served between imports')
        return run

    for todo, (xs, route) in zip(work, plan['ops']):
        sched.spawn(body(todo, route)).importing = False
    with threads.ImportSeam(sched):
        sched.run()
    who = sorted(set(x for xs, _ in plan['ops'] for x in xs))
    if sched.deadlock:
        rec.bad('deadlock', 'threads importing %s wait for each other' % who[:9])
        return
    for t in sched.threads:
        if isinstance(t.error, core.Violation):
            raise t.error
        if t.error is not None:
            e = t.error
            rec.bad('thread-error:%s' % type(e).__name__, 'a thread importing %s among %s failed: %s: %s' % (
                [x for x, _ in work[t.idx]], who[:9], type(e).__name__, str(e)[-300:]))
            return
    rec.fault('preemption', sched.nswitch)
    rec.reach('sw%d' % min(sched.nswitch, 400))
    st = worlds.State(m)
    if st.mods != ref.mods:
        rec.bad('modules', 'other modules loaded than one by one: %s' % sorted(set(st.mods) ^ set(ref.mods))[:5])
    worlds.compare(m, ref, st, rec.bad, 'imported from %d threads' % len(work), p11.SPLIT)
    pub = published() if plan['full'] else {}
    for n in sorted(set(pub) | set(ref_pub)):
        if pub.get(n) != ref_pub.get(n):
            if '[' in n and n in pub and n in ref_pub:
                continue
            rec.bad('changed:%s' % n, 'published object is not what it is after importing one by one')
        rec.count('published objects compared')
    for todo in work:
        for name, ps in todo:
            for p in ps:
                owner, _, c = p.t.partition('.')
                p.check(lambda k, msg: rec.bad(k, 'after concurrent imports: %s' % msg),
                        getattr(world.loaded()[owner], c))
