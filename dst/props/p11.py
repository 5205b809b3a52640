"""P11: open type fields come out as the registered type, or stay raw."""
import random

from pyasn1 import error
from pyasn1.type import univ

from .. import bridge, session, wire, world
from ..core import brief
from . import p09

ID = 'P11'
LEVEL = 'exploration'
RUNS = {'quick': 1300, 'thorough': 30000}
CHUNK = 16
RULE = ('One run = one conversation of about 24 messages with open type fields on a faulty stream. The messages carry '
        'in turn every registered identifier in every field it governs, unknown identifiers, and whole messages with '
        'nested registered content; the node decodes each with or without opening, or with a map of the caller, in a '
        'seeded order; some runs crash the node and re-import everything in another order. Non-trivial: at least one '
        'message answered; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'all registries', 'pyasn1 DER codecs incl. open types'],
              'stub': ['network (dst/net.py)', 'peer (dst/wire.py over dst/model/wire.json)']}
ASSUMPTIONS = ['dst/model/wire.json states which identifier is registered for which type',
               'entries on which the published modules disagree structurally are left to P04/P05']
LISTS = ('ops',)
LIST = []
WHOLE = []
SOLO = {}              # module -> [(registry, identifier)] it registers, as others do
SPLIT = set()          # registry entries with structurally different registrations


def preload():
    session.preload()
    if LIST:
        return
    m = session.model()
    for reg, es in m.registries.items():
        for k, by in es.items():
            if len(set(x[0] for x in by.values())) > 1:
                SPLIT.add((reg, k))
            if len(by) > 1:
                for x in by:
                    SOLO.setdefault(x, []).append((reg, k))
    for t, ref in sorted(m.types.items()):
        opens = [f for f in m.node(ref).get('f', ()) if 'open' in f]
        for f in opens:
            reg = f['open'][1]
            LIST.append([t, f['n'], None])
            for k in sorted(m.final.get(reg) or {}):
                if (reg, k) not in SPLIT:
                    LIST.append([t, f['n'], k])
    for reg, es in sorted(m.final.items()):
        for name in m.mapnames[reg]:
            for k in sorted(es):
                if (reg, k) not in SPLIT:
                    LIST.append([name, '', k, reg])
    seen = {}

    def nested(ref):
        if ref in seen:
            return seen[ref]
        seen[ref] = False
        node = m.node(ref)
        r = any('open' in f or nested(f['o']) for f in node.get('f', ()))
        if node.get('e') is not None:
            r = r or nested(node['e'])
        seen[ref] = r
        return r
    WHOLE.extend(t for t in sorted(m.types) if nested(m.types[t]) and not t.endswith('.ChangeSubjectName'))


def plan(rng, tier, idx, total):
    ops = []
    if idx % 8 == 0:        # a node that has imported nothing but one of several modules registering the same
        mod = sorted(SOLO)[idx // 8 % len(SOLO)]
        for reg, k in SOLO[mod]:
            for i in range(3):
                ops.append({'t': mod + '.', 'reg': reg, 'key': k, 'm': 'direct', 's': rng.getrandbits(32)})
        return {'ops': ops, 'seed': rng.getrandbits(32), 'solo': mod}
    for j in range(CHUNK):
        t = LIST[(idx * CHUNK + j) % len(LIST)]
        if not t[1]:
            ops.append({'t': t[0], 'reg': t[3], 'key': t[2], 'm': 'direct', 's': rng.getrandbits(32)})
            continue
        s = rng.getrandbits(32)
        modes = ['open'] + [x for x in ('plain', 'mine', 'open', 'odd') if rng.random() < 0.2]
        rng.shuffle(modes)
        for md in modes:
            ops.append({'t': t[0], 'g': t[1], 'key': t[2], 'm': md, 's': s})
    for j in range(5):
        t = rng.choice([x for x in LIST if x[1] and x[2] is None])
        ops.append({'t': t[0], 'g': t[1], 'key': None, 'm': rng.choice(('open', 'open', 'open', 'plain', 'odd')),
                    's': rng.getrandbits(32)})
    for j in range(3):
        ops.append({'t': rng.choice(WHOLE), 'm': rng.choice(('whole', 'whole', 'wholeplain')), 's': rng.getrandbits(32)})
    if rng.random() < 0.5:
        rng.shuffle(ops)
    crashy = rng.random() < 0.02
    for op in ops:
        if rng.random() < 0.05:
            op['f'] = {'cut': round(rng.random(), 3)}
    if crashy:
        rng.choice(ops)['f'] = {'crash': round(rng.random(), 3)}
    return {'ops': ops, 'seed': rng.getrandbits(32)}


def site(op):
    return '%s.%s=%s(%s)' % (op['t'], op.get('g', ''), op.get('key') or '', 'open' if op['m'] == 'odd' else op['m'])


def near(m, rng, ref, f, v):
    """Mostly let an unknown identifier be one that resembles a registered one."""
    known = m.final.get(f['open'][1])
    if not known or rng.random() < 0.3:
        return
    k = wire.keyval(rng.choice(sorted(known)))
    if isinstance(k, int):
        k += rng.choice((-1, 1, 256, -256, 1 << 32))
    else:
        k = list(k)
        w = rng.randrange(5)
        if w == 0:
            k += [rng.choice((0, 1, 2, 127, 128, 1 << 33))]
        elif w == 1 and len(k) > 2:
            k.pop()
        elif w == 2:
            k[-1] += rng.choice((1, 128, 1 << 32))
        elif w == 3:
            k[-1] = max(0, k[-1] - 1)
        else:
            i = rng.randrange(2, len(k)) if len(k) > 2 else 1
            k[i] = k[i] ^ 1 if i > 1 else k[i]
    name = f['open'][0]
    gov = m.node([x for x in m.node(ref)['f'] if x['n'] == name][0]['o'])
    if isinstance(v[name], list) == isinstance(k, list) and wire.holds(gov, gov.get('c'), k):
        v[name] = k


def live_key(k):
    v = wire.keyval(k)
    return univ.Integer(v) if isinstance(v, int) else univ.ObjectIdentifier(tuple(v))


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    items = []
    solo = plan.get('solo')
    if solo:
        world.purge()
        world.load_or_violate(solo)
        rec.fault('crash, restart with one module')
    for op in plan['ops']:
        rng = random.Random(op['s'])
        gen = wire.Gen(m, rng, depth=rng.choice((2, 4)), openp=0.7 if op['m'].startswith('whole') else 0)
        gen.skip = SPLIT
        gen.opens = op['m'] in ('open', 'odd', 'whole', 'mine')
        inner = None
        try:
            if op['m'] == 'direct':
                if op['key'] not in m.final[op['reg']]:
                    continue
                if solo:
                    names = [n for n in m.mapnames[op['reg']] if n.split('.')[0] in world.loaded()]
                    by = m.registries[op['reg']][op['key']]
                    if not names or solo not in by:
                        continue
                    ref = by[solo][0]
                    op = dict(op, t=names[0])
                    v = gen.value(ref)
                    items.append((op, ref, v, codec.encode(ref, v), inner))
                    continue
                ref = m.final[op['reg']][op['key']]
                v = gen.value(ref)
            elif op['m'].startswith('whole'):
                ref = m.types[op['t']]
                v = gen.value(ref)
                if touches_split(m, ref, v):
                    continue
            else:
                ref = m.types[op['t']]
                v = gen.aimed(ref, [op['g']], 'has', None)
                f = gen._field(m.node(ref), op['g'])
                if op['key']:
                    inner = gen.fill_open(m.node(ref), v, 0, op['g'], op['key'])
                    if inner is None:
                        rec.count('targets no encoder can hit')
                        continue
                else:
                    near(m, rng, ref, f, v)
                    if op['m'] == 'mine' and m.node(f['o'])['k'] == 'OctetString':
                        v[op['g']] = gen.any_blob()     # the caller's map says: one ASN.1 value
                    known = m.final.get(f['open'][1]) or {}
                    if wire.keystr(v[f['open'][0]]) in known:
                        continue
                if not wire.holds(m.node(ref), m.node(ref).get('c'), v):
                    continue
            items.append((op, ref, v, codec.encode(ref, v), inner))
        except wire.Unsatisfiable:
            rec.count('targets no encoder can hit')
    if not items:
        return
    maps = {}

    def known(f, key):
        return wire.keystr(key) in (m.final.get(f['open'][1]) or {})

    def process(node, op, i, buf, complete):
        _, ref, v, payload, inner = items[i]
        s = site(op)
        opts = {}
        opened = None
        mode = op['m']
        if mode == 'direct':
            mod, name = op['t'].split('.')
            mp = getattr(node.mods.get(mod) or world.load_or_violate(mod), name, None)
            spec = mp.get(live_key(op['key'])) if mp is not None else None
            if spec is None:
                rec.bad('unregistered:%s[%s]' % (op['t'], op['key']), 'published identifier is not registered')
                return b'', len(payload)
        else:
            spec = node.schema(op['t'])
            if mode in ('open', 'whole', 'mine', 'odd'):
                opts['decodeOpenTypes'] = True
                opened = known
            if mode in ('mine', 'odd'):
                # the caller's own map: for the governing value of this message, or for another one
                gov = [f for f in m.node(ref)['f'] if f['n'] == op['g']][0]['open'][0]
                gv = v[gov]
                if mode == 'odd':
                    gv = gv + 1000 if isinstance(gv, int) else gv + [4242]
                kv = univ.Integer(gv) if isinstance(gv, int) else univ.ObjectIdentifier(tuple(gv))
                opts['openTypes'] = {kv: univ.Any()}
                if mode == 'mine':
                    opened = lambda f, key: False if f['n'] == op['g'] else known(f, key)
        try:
            obj, rest = session.der_decoder.decode(buf, asn1Spec=spec, **opts)
        except error.SubstrateUnderrunError:
            raise
        except Exception as e:
            if not complete:
                raise error.SubstrateUnderrunError('prefix')
            rec.bad('reject:' + s, 'refused: %s; octets %s' % (session.errtext(e), brief(payload.hex(), 300)))
            return b'', len(payload)
        used = len(buf) - len(rest)
        try:
            if inner and mode in ('open', 'odd'):
                c = obj.getComponentByName(op['g'])
                cs = list(c) if isinstance(v[op['g']], list) else [c]
                node_ref = inner[1]
                a = [session.canon(m, codec, node_ref, bridge.extract(m, node_ref, x)) for x in cs]
                b = [session.canon(m, codec, node_ref, wire.with_defaults(m, node_ref, x)) for x in inner[2]]
                if sorted(map(repr, a)) != sorted(map(repr, b)):
                    rec.bad('inner:' + s, '%s; octets %s' % (session.diff(b, a), brief(payload.hex(), 300)))
                rec.count('fields opened to the registered type')
            elif op.get('g'):
                c = obj.getComponentByName(op['g'])
                cs = list(c) if isinstance(v[op['g']], list) else [c]
                for x in cs:
                    if not isinstance(x, univ.OctetString):     # Any is one
                        rec.bad('notraw:' + s, 'field came out as %s' % type(x).__name__)
                rec.count('fields left raw')
            got = session.canon(m, codec, ref, bridge.extract(m, ref, obj, opened=opened))
            want = session.canon(m, codec, ref, wire.with_defaults(m, ref, v))
            if got != want:
                rec.bad('value:' + s, '%s; octets %s' % (session.diff(want, got), brief(payload.hex(), 300)))
        except bridge.Mismatch as e:
            rec.bad('shape:' + s, '%s; octets %s' % (brief(str(e), 300), brief(payload.hex(), 300)))
            return b'', used
        try:
            # a copy of its own: reading leaves traces in a pyasn1 value (absent optionals)
            again = session.der_encoder.encode(session.der_decoder.decode(payload, asn1Spec=spec, **opts)[0])
        except Exception as e:
            rec.bad('encode:' + s, 'received value does not encode: %s; octets %s' % (
                session.errtext(e), brief(payload.hex(), 300)))
            again = payload
        rec.ev(s, used)
        rec.reach(s)
        return again, used

    def answered(op, i, reply):
        if reply and reply != items[i][3]:
            rec.bad('octets:' + site(op), 'node re-encodes as %s what it received as %s' % (
                brief(reply.hex(), 300), brief(items[i][3].hex(), 300)))

    class S(session.Session):
        def restart(self, node):
            world.purge()
            order = list(m.modules)
            self.rng.shuffle(order)
            for n in order:
                world.load_or_violate(n)
            node.mods = dict(world.loaded())
            rec.ev('restart', order[:5])

    S(rec, [x[0] for x in items], [x[3] for x in items], process, answered, plan['seed']).run()


def touches_split(m, ref, v):
    node = m.node(ref)
    k = node['k']
    if k == 'Choice':
        f = [f for f in node['f'] if f['n'] == v[0]][0]
        return touches_split(m, f['o'], v[1])
    if k in ('SequenceOf', 'SetOf'):
        return any(touches_split(m, node['e'], x) for x in v)
    if k in ('Sequence', 'Set'):
        for f in node['f']:
            if f['n'] not in v:
                continue
            if 'open' in f and (f['open'][1], wire.keystr(v[f['open'][0]])) in SPLIT:
                return True
            if touches_split(m, f['o'], v[f['n']]):
                return True
    return False
