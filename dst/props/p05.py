"""P05: importing more modules never takes away or changes what could be decoded."""
import random

from .. import oracle, reflect, session, snap, wire, world, worlds
from . import p11

ID = 'P05'
LEVEL = 'exploration'
RUNS = {'quick': 440, 'thorough': 14000}
RULE = ('One run = the life of one node that imports 2-8 further groups of modules while it serves: before and after '
        'each import it decodes messages kept from earlier and new ones, with registered and not yet registered '
        'identifiers in every governed field, through schema objects obtained at different times; what a field opens '
        'to is compared with what the modules loaded at that moment publish; in the first runs each module in turn comes '
        'into a node that already serves everything it builds upon, whose types must stay what they are; a few nodes crash and come back with the '
        'modules in another order.  Non-trivial: at least two imports with messages; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'CPython import system', 'pyasn1 DER codecs incl. open types'],
              'stub': ['source file access (compiled once per check)', 'peer (dst/wire.py over dst/model/wire.json)']}
ASSUMPTIONS = ['dst/model/wire.json states which module registers which identifier for which type']
LISTS = ('ops',)
NEEDS = {}
FIELDS = []           # (type, field, registry)
KIND = reflect.Reflector()
KNOWN = {('rfc2459.Extension', '2.5.29.14')}


def preload():
    p11.preload()
    world.cache_code()
    if not NEEDS:
        NEEDS.update(world.needs())
    if FIELDS:
        return
    m = session.model()
    for t, ref in sorted(m.types.items()):
        for f in m.node(ref).get('f', ()):
            if 'open' in f and f['open'][1]:
                FIELDS.append((t, f['n'], f['open'][1]))


def around(rng, m, mod):
    """What was obtained from the modules mod builds upon, before it came, serves after it, and
    recognises what others register later on."""
    mods = sorted(NEEDS[mod] - {mod})
    loaded = NEEDS[mod]
    rng.shuffle(mods)
    early, own, late = [], [], []
    fields = list(FIELDS)
    rng.shuffle(fields)
    for t, g, reg in fields:
        ks = sorted(m.registries.get(reg) or {})
        if t.split('.')[0] not in loaded or not ks:
            continue
        new = [k for k in ks if not set(m.registries[reg][k]) & loaded]
        k = rng.choice(new or ks)
        (own if t.split('.')[0] == mod else early).append({'t': t, 'g': g, 'key': k, 's': rng.getrandbits(32)})
        if len(late) < 8:
            late.append(rng.choice(sorted(m.registries[reg][k])))
    del early[24:], own[12:]
    return [{'h': 'import', 'mods': mods, 'msgs': early}, {'h': 'import', 'mods': [mod], 'msgs': own, 'same': 1},
            {'h': 'import', 'mods': late[:3], 'msgs': [dict(x, s=x['s'] ^ 1) for x in early[:6]]},
            {'h': 'import', 'mods': late[3:], 'msgs': []}]


def plan(rng, tier, idx, total):
    m = session.model()
    if idx % 2 == 0 and idx // 2 < 4 * len(m.modules):
        return {'ops': around(rng, m, m.modules[idx // 2 % len(m.modules)]), 'seed': rng.getrandbits(32)}
    used = {}
    for t, g, reg in FIELDS:
        used.setdefault(reg, []).append((t, g))
    ops, tail = [], []
    for i in range(rng.randrange(2, 9)):
        # an identifier, a type with a field it governs, the module that registers it
        msgs = []
        mods = [rng.choice(m.modules) for _ in range(rng.choice((0, 0, 1)))]
        for j in range(rng.randrange(1, 4)):
            reg = rng.choice(sorted(used))
            t, g = rng.choice(used[reg])
            ks = sorted(m.registries.get(reg) or {})
            if not ks:
                continue
            k = rng.choice(ks)
            msgs.append({'t': t, 'g': g, 'key': k, 's': rng.getrandbits(32)})
            mods.append(t.split('.')[0])
            late = rng.choice(sorted(m.registries[reg][k]))
            if rng.random() < 0.5:
                mods.append(late)
            else:
                ops.append({'h': 'late', 'mods': [late], 'msgs': []})
        rng.shuffle(mods)
        ops.append({'h': 'import', 'mods': mods, 'msgs': msgs})
    if rng.random() < 0.25:
        tail.append({'h': 'split', 'i': rng.randrange(1 << 16), 's': rng.getrandbits(32), 'mods': [], 'msgs': []})
    late = [o for o in ops if o['h'] == 'late']
    ops = [o for o in ops if o['h'] != 'late']
    for o in late:
        ops.insert(rng.randrange(len(ops) + 1), o)
    if rng.random() < 0.2:
        ops.insert(rng.randrange(len(ops) + 1), {'h': 'crash', 's': rng.getrandbits(32), 'mods': [], 'msgs': []})
    return {'ops': ops + tail, 'seed': rng.getrandbits(32)}


def execute(plan, rec):
    m = session.model()
    rng = random.Random(plan['seed'])
    world.purge()
    kept = []            # [probe, schema class, schema instance]

    def do_import(n):
        try:
            worlds.imp(n, rng.choice(worlds.ROUTES))
        except Exception as e:
            rec.bad('import:%s' % n, 'does not import with %d modules loaded: %s: %s' % (
                len(world.loaded()), type(e).__name__, str(e)[-300:]))

    def cls(t):
        mod, c = t.split('.', 1)
        return getattr(world.loaded()[mod], c)

    def serve(when):
        mods = set(world.loaded())

        def opened(f, key):
            by = m.registries.get(f['open'][1], {}).get(wire.keystr(key), {})
            return bool(mods & set(by))

        for p, c, inst in kept:
            for spec in (inst, c):
                p.check(rec.bad, spec, build=False, opened=opened)
                rec.count('messages decoded')
            f = [f for f in m.node(p.ref)['f'] if f['n'] == FIELDOF[id(p)]][0] if id(p) in FIELDOF else None
            if f:
                typed(p, inst, f, opened(f, wire.keyval(p.key)), when)

    def typed(p, spec, f, want, when):
        """Did the field itself open, or stay raw, as it should?"""
        try:
            obj, _ = session.der_decoder.decode(p.der, asn1Spec=spec, decodeOpenTypes=True)
            c = obj.getComponentByName(f['n'])
            if m.node(f['o'])['k'] in ('SetOf', 'SequenceOf'):
                c = c[0]
        except Exception as e:
            rec.bad('reject:%s' % p.site(), 'refused %s: %s' % (when, session.errtext(e)))
            return
        hole = m.node(f['o'])
        if hole['k'] in ('SetOf', 'SequenceOf'):
            hole = m.node(hole['e'])
        if m.node(m.final[f['open'][1]][p.key])['k'] == hole['k']:
            return      # cannot be told apart
        got = KIND.kind(c) != hole['k']
        if got != want:
            rec.bad('%s:%s' % ('lost' if want else 'early', p.site()),
                    '%s: identifier %s is %s by the modules loaded (%s), but the field came out %s' % (
                        when, p.key, 'registered' if want else 'not registered',
                        ','.join(sorted(set(world.loaded()) & set(m.registries[f['open'][1]][p.key]))),
                        'typed' if got else 'raw'))
        rec.count('fields opened' if want else 'fields left raw')

    held = {}            # public name -> [registry, the map as first obtained, {identifier: entry digest}]

    def hold(when):
        mods = world.loaded()
        exp = worlds.expected(m, mods)
        R = None
        for reg, ds in sorted(worlds.registries(m, mods).items()):
            for name, d in sorted(ds.items()):
                mine = {worlds.keystr(k): v for k, v in d.items()}
                if name not in held:
                    held[name] = [reg, d, {}]
                _, first, was = held[name]
                if first is not d and {worlds.keystr(k) for k in first} != set(mine):
                    rec.bad('stale:%s' % name, '%s: the registry obtained earlier does not know %s' % (
                        when, sorted(set(mine) ^ {worlds.keystr(k) for k in first})[:3]))
                for k in sorted(was):
                    if k not in mine:
                        rec.bad('forgot:%s[%s]' % (name, k), '%s: no longer registered' % when)
                missing = exp.get(reg, set()) - set(mine)
                if missing:
                    rec.bad('missing:%s[%s]' % (name, sorted(missing)[0]), '%s: not registered' % when)
                ks = [k for k in sorted(mine) if (reg, k) not in p11.SPLIT]
                if name != min(ds):
                    ks = []
                for k in rng.sample(ks, min(2, len(ks))) + [k for k in was if was[k] and rng.random() < 0.1]:
                    if k not in was or not was[k]:
                        d1 = worlds.payloads(m, sorted(set(
                            x[0] for x in m.registries.get(reg, {}).get(k, {}).values())), 3)
                        was[k] = [(x, worlds.outcome(x, mine[k])) for x in d1]
                    for x, o in was[k]:
                        o2 = worlds.outcome(x, mine[k])
                        if o2 != o:
                            rec.bad('meaning:%s[%s]' % (name, k), '%s: octets %s: %s before, %s now' % (
                                when, x.hex()[:200], str(o)[:120], str(o2)[:120]))
                        rec.count('registry entries used')
                for k in mine:
                    was.setdefault(k, None)

    FIELDOF = {}
    for i, op in enumerate(plan['ops']):
        if op['h'] == 'crash':
            mods = sorted(world.loaded())
            world.purge()
            random.Random(op['s']).shuffle(mods)
            for n in mods:
                do_import(n)
            for x in kept:
                x[1] = cls(x[0].t)
                x[2] = x[1]()
            rec.fault('crash, re-import in another order')
            for x in held.values():
                x[1] = None
            for n, d in [(n, d) for ds in worlds.registries(m, world.loaded()).values() for n, d in ds.items()]:
                if n in held:
                    held[n][1] = d
            serve('after a crash')
            continue
        if op['h'] == 'split':
            split(m, op, rec, do_import)
            continue
        before = world.loaded()
        was = types(before) if 'same' in op else {}
        for n in op['mods']:
            do_import(n)
        rec.ev(i, op['mods'], len(world.loaded()))
        rec.count('imports', len(op['mods']))
        now = types(before) if was else {}
        for n in was:
            if now.get(n) != was[n]:
                rec.bad('changed:%s' % n, 'this type is another one after importing %s' % ','.join(op['mods']))
        rec.count('types compared', len(was))
        serve('after importing %s' % ','.join(op['mods']))
        hold('after importing %s' % ','.join(op['mods']))
        for msg in op['msgs']:
            if msg['t'].split('.')[0] not in world.loaded() or (msg['t'], msg['key']) in KNOWN:
                continue
            try:
                p = oracle.Probe(m, msg['t'], msg['s'], True, p11.SPLIT, msg['key'], msg['g'])
            except wire.Unsatisfiable:
                continue
            reg = [r for t, g, r in FIELDS if t == msg['t'] and g == msg['g']][0]
            if (reg, msg['key']) in p11.SPLIT or 'ChangeSubjectName' in p.t:
                continue
            c = cls(p.t)
            FIELDOF[id(p)] = msg['g']
            kept.append([p, c, c()])
            rec.reach('%s.%s=%s' % (msg['t'], msg['g'], msg['key']))
        serve('on arrival')


def types(mods):
    """Digests of the types these modules publish, whatever their registries hold."""
    return {n: snap.digest(th) for n, o, th in snap.items(mods, True) if not isinstance(o, dict) and '[' not in n}


def split(m, op, rec, do_import):
    """Identifiers on which published modules disagree: the later import must not take away."""
    reg, k = sorted(p11.SPLIT)[op['i'] % len(p11.SPLIT)]
    by = m.registries[reg][k]
    rng = random.Random(op['s'])
    order = sorted(by)
    rng.shuffle(order)
    world.purge()
    home = reg.split('.')
    d = worlds.payloads(m, sorted(set(x[0] for x in by.values())))
    for n in order:
        do_import(home[0])
        spec = {worlds.keystr(a): b for a, b in getattr(world.loaded()[home[0]], home[1]).items()}.get(k)
        known = [x for x in d if worlds.outcome(x, spec) != 'refused'] if spec is not None else []
        do_import(n)
        spec = {worlds.keystr(a): b for a, b in getattr(world.loaded()[home[0]], home[1]).items()}.get(k)
        lost = [x for x in known if worlds.outcome(x, spec) == 'refused']
        rec.ev('split', n, len(known), len(lost))
        if lost:
            rec.bad('narrowed:%s[%s]:%s' % (reg, k, n), 'importing %s after %s: octets %s no longer decode' % (
                n, sorted(set(by) & set(world.loaded()) - {n}), lost[0].hex()[:200]))
    do_import('rfc5280')
