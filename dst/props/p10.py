"""P10: malformed messages are refused and never emitted; the session goes on."""
import random

from .. import bridge, net, session, targets, wire
from ..core import brief
from . import p09

ID = 'P10'
LEVEL = 'exploration'
RUNS = {'quick': 1800, 'thorough': 40000}
CHUNK = 16
RULE = ('One run = about 24 messages from a hostile peer to a node over a datagram link that loses, duplicates, '
        'delays and reorders; two thirds are malformed (a mandatory component left out, an element with a tag of '
        'its own, a value just outside a range, size, alphabet or value set), the rest valid traffic; the node also '
        'tries to build and emit each malformed message itself. The malformed messages go in turn through every '
        'mandatory component, component tag and constraint boundary of every type. Non-trivial: at least one '
        'message refused; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'pyasn1 DER codecs'],
              'stub': ['datagram network (dst/net.py)', 'hostile peer (dst/wire.py)']}
ASSUMPTIONS = p09.ASSUMPTIONS + [
    'messages another reading could make valid (a missing component beside one of the same tag, ANY) are not sent']
LISTS = ('ops',)
BAD, GOOD = [], []


def preload():
    session.preload()
    if not BAD:
        m = session.model()
        good, bad = targets.enumerate_targets(m)
        BAD.extend(t for t in bad if targets.decisive(m, t))
        GOOD.extend(t for t in good if len(t) == 4)
        bymod = {}
        for t in GOOD:
            bymod.setdefault(t[0].split('.')[0], []).append(t)
        NEAR.update(bymod)


NEAR = {}


def plan(rng, tier, idx, total):
    ops = []
    for j in range(CHUNK):
        t = BAD[(idx * CHUNK + j) % len(BAD)]
        ops.append({'t': t[0], 'p': t[1], 'w': t[2], 'a': p09_pack(t[3]), 's': rng.getrandbits(32)})
        if rng.random() < 0.5:
            near = NEAR.get(t[0].split('.')[0]) or GOOD
            t = rng.choice(near if rng.random() < 0.7 else GOOD)
            ops.append({'t': t[0], 'p': t[1], 'w': t[2], 'a': p09_pack(t[3]), 's': rng.getrandbits(32)})
    if rng.random() < 0.5:
        rng.shuffle(ops)
    return {'ops': ops, 'seed': rng.getrandbits(32),
            'rates': {'loss': rng.choice((0, 0.1, 0.3)), 'dup': rng.choice((0, 0.1, 0.4)),
                      'late': rng.choice((0, 0.2, 0.5))}}


def p09_pack(a):
    if isinstance(a, str) and len(a) > 2000 and a == (a[:2] * len(a))[:len(a)]:
        return {'rep': [a[:2], len(a)]}
    return a


EVIL = ('miss', 'bare', 'tag', 'out', 'size')


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    msgs = []
    for op in plan['ops']:
        rng = random.Random(op['s'])
        ref = m.types[op['t']]
        try:
            v = wire.Gen(m, rng, depth=rng.choice((2, 4))).aimed(ref, op['p'], op['w'], p09.arg(op))
            d = codec.encode(ref, v)
        except wire.Unsatisfiable:
            rec.count('targets no encoder can hit')
            continue
        except UnicodeEncodeError:
            d = None                # not even the octets exist; the node must not make them either
        msgs.append((op, ref, v, d))
    node = session.Node(rec)
    n = net.Net(rec)
    link = net.Datagrams(n, random.Random(plan['seed']), plan['rates'])
    state = {'acked': set()}

    def makeable(op, ref):
        # an omitted structure is made (empty) by the API itself, and so are preset values
        if op['w'] in ('miss', 'bare'):
            if len(op['p']) != 1:
                return False
            f = [f for f in m.node(ref)['f'] if f['n'] == op['p'][0]][0]
            sub = m.node(f['o'])
            return sub['k'] not in wire.CONSTRUCTED and 'd' not in sub
        return op['w'] != 'tag'

    def emit(op, ref, v):
        """Can an application make the node send this?"""
        return session.der_encoder.encode(bridge.build(m, ref, v, node.schema(op['t'])))

    def node_rx(data):
        i = int.from_bytes(data[:2], 'big')
        op, ref, v, d = msgs[i]
        payload = data[2:]
        s = p09.site(op)
        evil = op['w'] in EVIL
        if d is not None:
            try:
                obj, rest = session.der_decoder.decode(payload, asn1Spec=node.schema(op['t']))
                err = None
            except Exception as e:
                err = e
            if evil and op['w'] != 'size':
                if err is None:
                    rec.bad('accepted:' + s, 'malformed message accepted: %s' % brief(payload.hex(), 300))
                else:
                    rec.count('malformed messages refused')
            elif err is not None and op['w'] != 'size':
                rec.bad('reject:' + s, 'valid message refused after malformed ones: %s; octets %s' % (
                    session.errtext(err), brief(payload.hex(), 300)))
            elif err is None and op['w'] == 'size':
                try:
                    session.der_encoder.encode(obj)
                except Exception:
                    rec.count('out-of-size lists refused on encoding')
                else:
                    rec.bad('relayed:' + s, 'list of %s elements is passed on: %s' % (
                        op['a'], brief(payload.hex(), 300)))
            elif err is None:
                try:
                    got = session.canon(m, codec, ref, bridge.extract(m, ref, obj))
                except bridge.Mismatch as e:
                    rec.bad('shape:' + s, brief(str(e), 300))
                else:
                    want = session.canon(m, codec, ref, wire.with_defaults(m, ref, v))
                    if got != want:
                        rec.bad('value:' + s, session.diff(want, got))
                    rec.count('valid messages decoded')
        if evil and makeable(op, ref):
            try:
                out = emit(op, ref, v)
            except Exception:
                rec.count('malformed messages not emitted')
            else:
                rec.bad('emitted:' + s, 'node emits a malformed message: %s' % brief(out.hex(), 300))
        elif not evil:
            try:
                out = emit(op, ref, v)
            except Exception as e:
                rec.bad('encode:' + s, 'valid message cannot be made any more: %s' % session.errtext(e))
            else:
                if out != d:
                    rec.bad('made:' + s, 'node sends %s where the format says %s' % (
                        brief(out.hex(), 300), brief(d.hex(), 300)))
        rec.ev(s, i, evil)
        rec.reach(s)
        link.send(peer_rx, data[:2], not state['calm'])

    def peer_rx(data):
        state['acked'].add(int.from_bytes(data, 'big'))

    def offer(i, attempt):
        if i in state['acked']:
            return
        state['calm'] = attempt > 3
        link.send(node_rx, i.to_bytes(2, 'big') + (msgs[i][3] or b''), attempt <= 3)
        if attempt < 8:
            n.after(1.0, offer, i, attempt + 1)

    state['calm'] = False
    for i in range(len(msgs)):
        n.after(0.02 * i, offer, i, 0)
    n.run()
    if len(state['acked']) != len(msgs):
        rec.bad('stalled', 'no answer to %d messages' % (len(msgs) - len(state['acked'])))
