"""P09: two parties of the published format understand each other, on a bad network."""
import random

from pyasn1 import error

from .. import bridge, core, session, targets, wire, world
from ..core import brief

ID = 'P09'
LEVEL = 'exploration'
RUNS = {'quick': 2600, 'thorough': 60000}
CHUNK = 20
RULE = ('One run = one conversation of about 20 messages between a peer with its own ASN.1 stack (frozen wire '
        'model, no pyasn1) and a node running the real modules, on a simulated stream that fragments, stalls and '
        'is reset in mid-message, with node crashes (re-import in another order) and retransmission. The messages '
        'aim in turn at every component, alternative, named value, default and size/range boundary of every '
        'type, alias and constant. Non-trivial: at least one message answered; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'pyasn1 DER/BER codecs', 'module import/re-import'],
              'stub': ['network (dst/net.py)', 'peer (dst/wire.py over dst/model/wire.json)']}
ASSUMPTIONS = ['dst/model/wire.json states the published wire format (frozen from the pinned tree after repairs '
               'and reviewed against the RFC texts quoted in the modules where the tree was in doubt)',
               'defects of the pyasn1 0.5.1 release itself are avoided by the generator (DESIGN.md)']
LISTS = ('ops',)
LIST = []


def preload():
    session.preload()
    if not LIST:
        m = session.model()
        good, _ = targets.enumerate_targets(m)
        LIST.extend(good)
        for n in sorted(m.aliases):
            LIST.append([n, [], 'has', None])
        for n in sorted(m.oids):
            LIST.append([n, [], 'const', wire.Codec(m).encode(
                {'k': 'ObjectIdentifier', 't': [[0, 0, 6]]}, m.oids[n]).hex()])
        for n, (ref, v) in sorted(m.consts.items()):
            LIST.append([n, [], 'const', v])


def plan(rng, tier, idx, total):
    ops = []
    for j in range(CHUNK):
        t = LIST[(idx * CHUNK + j) % len(LIST)]
        op = {'t': t[0], 'p': t[1], 'w': t[2], 'a': t[3], 's': rng.getrandbits(32),
              'd': 'ber' if rng.random() < 0.2 else 'der'}
        if len(t) > 4:
            op['k'] = t[4]
            op['d'] = 'der'
        if isinstance(op['a'], str) and len(op['a']) > 2000 and op['a'] == (
                op['a'][:2] * len(op['a']))[:len(op['a'])]:
            op['a'] = {'rep': [op['a'][:2], len(op['a'])]}
        w = rng.random()
        if w < 0.06:
            op['f'] = {'cut': round(rng.random(), 3)}
        elif w < 0.075:
            op['f'] = {'crash': round(rng.random(), 3)}
        ops.append(op)
    if rng.random() < 0.3:
        rng.shuffle(ops)
    return {'ops': ops, 'seed': rng.getrandbits(32)}


def arg(op):
    a = op['a']
    if isinstance(a, dict) and list(a) == ['rep']:
        s, n = a['rep']
        return (s * (n // len(s) + 1))[:n]
    return a


def refof(m, name):
    return m.types[name] if name in m.types else m.aliases[name]


def site(op):
    """Stable name of what the message is about."""
    if 'k' in op:
        return '%s#%s' % (op['t'], op['k'])
    return '%s/%s=%s%s' % (op['t'], '.'.join(op['p']), op['w'],
                           '' if op['a'] is None else ':' + brief(str(op['a']), 40))


def prepare(m, ops, rec, skip_absent=None):
    """The peer writes its messages: [(op, ref, value, payload, DER)] and drops
    targets no value can hit."""
    out = []
    der = wire.Codec(m)
    for op in ops:
        rng = random.Random(op['s'])
        if op['w'] == 'const':
            d = bytes.fromhex(arg(op))
            out.append((op, None, None, d, d))
            continue
        else:
            ref = refof(m, op['t'])
            try:
                v = wire.Gen(m, rng, depth=rng.choice((3, 5, 6))).aimed(ref, op['p'], op['w'], arg(op))
            except wire.Unsatisfiable:
                rec.count('targets no encoder can hit')
                continue
        d = der.encode(ref, v)
        p = wire.Codec(m, 'ber', rng).encode(ref, v) if op['d'] == 'ber' else d
        out.append((op, ref, v, p, d))
    return out


def execute(plan, rec):
    m = session.model()
    # re-exported names another module may stop offering are not part of this property
    node0 = session.Node(rec)
    ops = [op for op in plan['ops'] if op['t'] in m.types or op['t'] in m.oids or op['t'] in m.consts
           or node0.has(op['t'])]
    items = prepare(m, ops, rec)
    if not items:
        return
    codec = wire.Codec(m)
    wanted = [ref is not None and session.canon(m, codec, ref, wire.with_defaults(m, ref, v))
              for _, ref, v, _, _ in items]

    def process(node, op, i, buf, complete):
        _, ref, v, payload, der = items[i]
        if op['w'] == 'const':
            return constant(node, op, buf, complete)
        dec = session.ber_decoder if op['d'] == 'ber' else session.der_decoder
        s = site(op)
        try:
            obj, rest = dec.decode(buf, asn1Spec=node.schema(op['t']))
        except error.SubstrateUnderrunError:
            raise
        except Exception as e:
            if not complete:    # the pyasn1 release in use may err on a bare header
                raise error.SubstrateUnderrunError('prefix')
            rec.bad('reject:' + s, '%s message refused: %s; octets %s' % (
                op['d'].upper(), session.errtext(e), brief(payload.hex(), 300)))
            return b'', len(payload)
        used = len(buf) - len(rest)
        try:
            got = session.canon(m, codec, ref, bridge.extract(m, ref, obj))
        except bridge.Mismatch as e:
            rec.bad('shape:' + s, '%s; octets %s' % (brief(str(e), 300), brief(payload.hex(), 300)))
            return b'', used
        if got != wanted[i]:
            rec.bad('value:' + s, '%s; octets %s' % (session.diff(wanted[i], got), brief(payload.hex(), 300)))
        try:
            again = session.der_encoder.encode(obj)
        except Exception as e:
            rec.bad('encode:' + s, 'received value does not encode: %s; octets %s' % (
                session.errtext(e), brief(payload.hex(), 300)))
            again = der
        try:
            mine = session.der_encoder.encode(bridge.build(m, ref, v, node.schema(op['t'])))
        except Exception as e:
            rec.bad('encode:' + s, 'an application cannot make this value: %s; %s' % (
                session.errtext(e), brief(v, 300)))
            mine = der
        rec.ev(s, op['d'], used)
        rec.count('messages decoded')
        rec.reach(s)
        return len(again).to_bytes(4, 'big') + again + mine, used

    def constant(node, op, buf, complete):
        """The node is asked to send the constant of that name; the peer states its octets."""
        if not complete:
            raise error.SubstrateUnderrunError('prefix')
        mod, name = op['t'].split('.', 1)
        have = getattr(node.mods.get(mod) or world.load_or_violate(mod), name, None)
        if have is None:
            rec.bad('const:' + op['t'], 'constant is gone')
            return b'', len(items[i0(op)][3])
        try:
            mine = session.der_encoder.encode(have)
        except Exception as e:
            rec.bad('const:' + op['t'], 'does not encode: ' + session.errtext(e))
            mine = b''
        payload = items[i0(op)][3]
        rec.count('constants compared')
        rec.reach(op['t'])
        return len(payload).to_bytes(4, 'big') + payload + mine, len(payload)

    def i0(op):
        return [k for k, x in enumerate(items) if x[0] is op][0]

    def answered(op, i, reply):
        _, ref, v, payload, der = items[i]
        if not reply:
            return
        n = int.from_bytes(reply[:4], 'big')
        again, mine = reply[4:4 + n], reply[4 + n:]
        s = site(op)
        if again != der:
            rec.bad('octets:' + s, 'node re-encodes as %s what the peer encoded as %s' % (
                brief(again.hex(), 300), brief(der.hex(), 300)))
        if mine != der:
            rec.bad('const:' + op['t'] if op['w'] == 'const' else 'made:' + s,
                    'node sends %s where the format says %s' % (brief(mine.hex(), 300), brief(der.hex(), 300)))
        rec.count('answers compared octet for octet', 2)

    session.Session(rec, [x[0] for x in items], [x[3] for x in items], process, answered, plan['seed']).run()
