"""P12: nodes using different generations of a structure relay each other's messages."""
import hashlib
import json
import random

from pyasn1 import error

from .. import bridge, net, session, targets, wire, world
from ..core import brief

ID = 'P12'
LEVEL = 'exploration'
RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('One run = six messages sent along seeded routes of 2-5 nodes, each node using another module of the same group, '
        'relaying the decoded value, copying it into a value of its own, or grafting the received components into its '
        'own container; hops are datagrams that get lost, duplicated and reordered, the sender repeats until the '
        'destination has confirmed; nodes may restart and re-import in another order in between.  Non-trivial: at '
        'least one message delivered; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module with a same-structure sibling', 'pyasn1 DER codecs'],
              'stub': ['network (dst/net.py)', 'peer (dst/wire.py over dst/model/wire.json)']}
ASSUMPTIONS = ['dst/model/wire.json states the published structures; a message is only sent to generations whose '
               'published constraints admit it']
LISTS = ('ops',)
GROUPS = []            # [[type names]]
AIMS = []              # [[type names], path, what, arg]: every place of every group's types
SK = {}


def skeleton(m, ref, stack=()):
    """Wire structure of a node: kinds, tags, optionality, defaults; no names, no constraints."""
    if isinstance(ref, int):
        if ref in stack:
            return 'rec%d' % (len(stack) - stack.index(ref))
        if ref in SK:
            return SK[ref]
        stack = stack + (ref,)
    n = m.node(ref)
    r = [n['k'], n['t']]
    if 'f' in n:
        fs = [[skeleton(m, f['o'], stack), 'opt' in f, f.get('def')] for f in n['f']]
        r.append(sorted(fs, key=str) if n['k'] == 'Choice' else fs)
    if n.get('e') is not None:
        r.append(skeleton(m, n['e'], stack))
    h = hashlib.md5(json.dumps(r).encode()).hexdigest()
    if isinstance(ref, int) and len(stack) == 1:
        SK[ref] = h
    return h


def opens(m, ref, seen):
    """Open type bindings below a node, in order."""
    if isinstance(ref, int):
        if ref in seen:
            return []
        seen.add(ref)
    n = m.node(ref)
    out = [[f['n'], f['open']] for f in n.get('f', ()) if 'open' in f]
    for f in n.get('f', ()):
        out += opens(m, f['o'], seen)
    if n.get('e') is not None:
        out += opens(m, n['e'], seen)
    return out


def preload():
    session.preload()
    if GROUPS:
        return
    m = session.model()
    g = {}
    for t in sorted(m.types):
        g.setdefault((t.split('.')[1], skeleton(m, m.types[t])), []).append(t)
    for k in sorted(g):
        if len(g[k]) > 1:
            GROUPS.append(g[k])
    where = {}
    for t in targets.enumerate_targets(m)[0]:
        if len(t) == 4:
            where.setdefault(t[0], []).append(t[1:])
    for g in GROUPS:
        seen = set()
        for t in g:
            for a in where.get(t, ()):
                if json.dumps(a) not in seen:
                    seen.add(json.dumps(a))
                    AIMS.append([g, t] + a)
    big = [x for x in GROUPS if m.node(m.types[x[0]])['k'] in ('Sequence', 'Set')
           and len(set(m.types[t] for t in x)) > 1]
    GROUPS.extend(big)          # structures with really separate definitions: twice as often
    GROUPS.extend(big)


def plan(rng, tier, idx, total):
    ops = []
    for j in range(6):
        aim = None
        if j < 4:
            a = AIMS[(idx * 4 + j) % len(AIMS)]
            g, aim = a[0], a[2:]
            route = [t for t in g if t != a[1]]
            rng.shuffle(route)
            route = [a[1]] + route[:4]
        else:
            g = GROUPS[(idx * 2 + j) % len(GROUPS)]
            route = [rng.choice(g) for _ in range(rng.choice((2, 2, 3, 4, 5)))]
            if len(set(route)) == 1:
                route[-1] = rng.choice([t for t in g if t != route[0]])
        ops.append({'r': [[t, rng.choice(('relay', 'relay', 'copy', 'graft'))] for t in route], 'a': aim,
                    'o': not aim and rng.random() < 0.3, 's': rng.getrandbits(32)})
    rates = {'loss': rng.choice((0, 0.1, 0.3)), 'dup': rng.choice((0, 0.2)), 'late': rng.choice((0, 0.3))}
    crash = [round(rng.random(), 3)] if rng.random() < 0.02 else []
    return {'ops': ops, 'seed': rng.getrandbits(32), 'rates': rates, 'crash': crash}


def convert(m, a, b, v):
    """Value v of node a as a value of node b (same skeleton), or Unsatisfiable."""
    na, nb = m.node(a), m.node(b)
    k = na['k']
    if k == 'Choice':
        fa = [f for f in na['f'] if f['n'] == v[0]][0]
        s = skeleton(m, fa['o'])
        cand = [f for f in nb['f'] if f['n'] == v[0] and skeleton(m, f['o']) == s] or \
            [f for f in nb['f'] if skeleton(m, f['o']) == s]
        if len(cand) != 1:
            raise wire.Unsatisfiable('alternative')
        out = [cand[0]['n'], convert(m, fa['o'], cand[0]['o'], v[1])]
    elif k in ('SequenceOf', 'SetOf'):
        out = [convert(m, na['e'], nb['e'], x) for x in v]
    elif k in ('Sequence', 'Set'):
        out = {fb['n']: convert(m, fa['o'], fb['o'], v[fa['n']])
               for fa, fb in zip(na['f'], nb['f']) if fa['n'] in v}
    else:
        out = v
    if not wire.holds(nb, nb.get('c'), out):
        raise wire.Unsatisfiable('constraint')
    return out


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    rng = random.Random(plan['seed'])
    nw = net.Net(rec)
    link = net.Datagrams(nw, rng, plan['rates'])
    mods = dict(world.loaded())
    msgs = []
    for op in plan['ops']:
        g = random.Random(op['s'])
        gen = wire.Gen(m, g, depth=g.choice((3, 5)), openp=0.6 if op['o'] else 0)
        gen.opens = op['o']
        refs = [m.types[t] for t, _ in op['r']]
        if op['o']:
            o = [json.dumps(opens(m, r, set())) for r in refs]
            openhop = [x == o[0] for x in o]
        else:
            openhop = [False] * len(refs)
        vs = None
        for attempt in range(6):
            try:
                v = gen.aimed(refs[0], *op['a']) if op['a'] else gen.value(refs[0])
                vs = []
                for r in refs:
                    try:
                        vs.append(convert(m, refs[0], r, v))
                    except wire.Unsatisfiable:
                        if not op['a']:
                            raise
                        vs.append(None)
                if op['a'] and len(vs) - vs.count(None) < 2:
                    vs = None
                break
            except wire.Unsatisfiable:
                vs = None
        if vs is None:
            rec.count('values no generation shares')
            continue
        keep = [i for i, x in enumerate(vs) if x is not None]    # what the others cannot hold goes around them
        if len(keep) < len(vs):
            op = dict(op, r=[op['r'][i] for i in keep])
            refs, vs, openhop = [[x[i] for i in keep] for x in (refs, vs, openhop)]
        msgs.append({'op': op, 'refs': refs, 'v': vs, 'open': openhop, 'd': codec.encode(refs[0], v), 'done': False})

    def schema(t):
        mod, cls = t.split('.', 1)
        x = getattr(mods.get(mod) or world.load_or_violate(mod), cls)
        return x() if isinstance(x, type) else x

    def hop(msg, h, data):
        """Node h of the message's route receives octets; returns what it sends on."""
        t, how = msg['op']['r'][h]
        ref, want = msg['refs'][h], msg['v'][h]
        s = '%s(%s)' % (t, how)
        opts = {'decodeOpenTypes': True} if msg['open'][h] else {}
        try:
            obj, rest = session.der_decoder.decode(data, asn1Spec=schema(t), **opts)
        except Exception as e:
            rec.bad('reject:%s' % t, 'message of %s refused: %s; octets %s' % (
                msg['op']['r'][0][0], session.errtext(e), brief(data.hex(), 300)))
            return data
        if rest:
            rec.bad('rest:%s' % t, '%d octets left over; octets %s' % (len(rest), brief(data.hex(), 300)))
        try:
            if how == 'relay' or msg['open'][h]:
                again = session.der_encoder.encode(obj)
            elif how == 'copy':
                again = session.der_encoder.encode(bridge.build(m, ref, want, schema(t)))
            else:
                again = session.der_encoder.encode(graft(m, ref, obj, want, schema(t)))
        except Exception as e:
            rec.bad('encode:%s' % s, 'received value cannot be passed on: %s; octets %s' % (
                session.errtext(e), brief(data.hex(), 300)))
            return data
        if again != msg['d']:
            rec.bad('octets:%s' % s, 'came as %s, goes on as %s' % (brief(data.hex(), 300), brief(again.hex(), 300)))
        if not msg['open'][h]:
            try:
                obj, _ = session.der_decoder.decode(data, asn1Spec=schema(t))
                got = session.canon(m, codec, ref, bridge.extract(m, ref, obj))
            except bridge.Mismatch as e:
                rec.bad('shape:%s' % t, '%s; octets %s' % (brief(str(e), 300), brief(data.hex(), 300)))
                return again
            exp = session.canon(m, codec, ref, wire.with_defaults(m, ref, want))
            if got != exp:
                rec.bad('value:%s' % t, '%s; octets %s' % (session.diff(exp, got), brief(data.hex(), 300)))
        rec.count('hops')
        rec.reach('%s>%s' % (msg['op']['r'][h - 1][0] if h else '', t))
        rec.ev(s, len(again))
        return again

    def arrive(i, h, faulty, data):
        msg = msgs[i]
        out = hop(msg, h, data)
        if h + 1 < len(msg['refs']):
            link.send(lambda d: arrive(i, h + 1, faulty, d), out, faulty)
        elif not msg['done']:
            msg['done'] = True
            rec.ev('delivered', i)
            rec.count('messages delivered')

    def offer(i, n):
        if msgs[i]['done']:
            return
        faulty = n < 4          # faults stop
        link.send(lambda d: arrive(i, 0, faulty, d), msgs[i]['d'], faulty)
        nw.after(2.0, offer, i, n + 1)
        if n > 8:
            rec.bad('stalled', 'message %d never delivered although faults had stopped' % i)

    def crash():
        rec.fault('restart, re-import in another order')
        world.purge()
        need = sorted(set(t.split('.')[0] for x in msgs for t, _ in x['op']['r']))
        rng.shuffle(need)
        for n in need:
            world.load_or_violate(n)
        mods.clear()
        mods.update(world.loaded())

    for i in range(len(msgs)):
        nw.after(0.1 * rng.random(), offer, i, 0)
    for c in plan['crash']:
        nw.after(c, crash)
    nw.run(until=lambda: all(x['done'] for x in msgs))


def graft(m, ref, obj, want, mine):
    """The received components, put into a container of the node's own.  (Size-constrained
    lists are copied by value: the pyasn1 release in use takes no received one as a component.)"""
    node = m.node(ref)

    def movable(r):
        n = m.node(r)
        return not (n['k'] in ('SequenceOf', 'SetOf') and n.get('c'))

    if node['k'] in ('Sequence', 'Set'):
        own = {f['n']: want[f['n']] for f in node['f'] if f['n'] in want and not movable(f['o'])}
        bridge.fill(m, node, own, mine)
        for f in node['f']:
            c = obj.getComponentByName(f['n'], None, False)
            if f['n'] not in own and c is not None and c.isValue:
                mine.setComponentByName(f['n'], c)
        return mine
    if node['k'] in ('SequenceOf', 'SetOf') and movable(node['e']):
        mine.clear()
        for x in obj:
            mine.append(x)
        return mine
    return obj
