"""P04: what registries hold does not depend on import order."""
import random

from .. import session, world, worlds

ID = 'P04'
LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 12000}
RULE = ('One run = one set of 2-131 modules imported, in one process each (crash in between), in 2-4 seeded orders and '
        'by seeded routes, some repeatedly; after each order every public registry is compared with the first order, '
        'entry by entry (structure, and behaviour where structure differs), with what the published modules register, '
        'and across all the names it is offered under.  Non-trivial: at least two orders; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'CPython import system', 'pyasn1 codecs'], 'stub': ['source file access (compiled once per check)']}
ASSUMPTIONS = ['a crash is modelled by dropping every module of the package from the interpreter']
LISTS = ('ops', 'orders')


def preload():
    session.preload()
    world.cache_code()


def plan(rng, tier, idx, total):
    m = session.model()
    n = rng.choice((2, 3, 4, 6, 10, 20, 50, len(m.modules)))
    writers = sorted(set(x for es in m.registries.values() for by in es.values() for x in by))
    pool = writers if rng.random() < 0.6 else m.modules
    ops = rng.sample(pool, min(n, len(pool)))
    # modules that register the same identifier, in turn
    both = sorted(set(tuple(sorted(by)) for es in m.registries.values() for by in es.values() if len(by) > 1))
    rivals = list(both[idx // 2 % len(both)]) if idx % 2 == 0 else []
    if rivals and rng.random() < 0.7:
        ops = ops[:rng.choice((0, 0, 2))]
    ops += [x for x in rivals if x not in ops]
    orders = []
    for i in range(rng.choice((2, 2, 3, 4) if n < 20 else (2,))):
        orders.append([rng.getrandbits(32), rng.choice((0, 0, 0.3))])
    if rivals:
        orders.append([rng.getrandbits(32), 0, 'reversed'])
    return {'ops': ops, 'orders': orders}


def execute(plan, rec):
    m = session.model()
    first = None
    want = None
    for i, (s, again, *rev) in enumerate(plan['orders']):
        rng = random.Random(s)
        world.purge()
        rec.fault('crash, restart from nothing')
        order = list(plan['ops'])
        if rev:
            order.reverse()
        elif i:
            rng.shuffle(order)
        order += [x for x in order if rng.random() < again]
        for n in order:
            route = rng.choice(worlds.ROUTES)
            try:
                worlds.imp(n, route)
            except Exception as e:
                rec.bad('import:%s' % n, 'does not import after %s: %s: %s' % (
                    order[:order.index(n)][-5:], type(e).__name__, str(e)[-300:]))
                return
            rec.ev(n, route)
            rec.count('imports')
        st = worlds.State(m)
        rec.reach(','.join(order))
        rec.count('registry entries compared', sum(map(len, st.regs.values())))
        what = '%s against %s' % (order[:8], plan['ops'][:8])
        exp = worlds.expected(m, st.mods)
        for reg, keys in sorted(exp.items()):
            missing = keys - set(st.regs.get(reg, ()))
            if missing:
                rec.bad('missing:%s[%s]' % (reg, sorted(missing)[0]), '%s: %d identifiers of the modules imported are '
                        'not registered' % (order[:8], len(missing)))
        worlds.same_everywhere(st, rec.bad)
        if first is None:
            first = st
            continue
        if set(st.mods) != set(first.mods):
            rec.bad('modules:%s' % sorted(set(st.mods) ^ set(first.mods))[0],
                    'another set of modules is loaded: %s' % what)
        worlds.compare(m, first, st, rec.bad, what)
