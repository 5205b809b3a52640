"""P14: the dump tools show exactly what their input holds, however it arrives."""
import base64
import random

from .. import bridge, pemsim, session, targets, tools, wire
from ..core import brief

ID = 'P14'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('One run = five invocations of dump tools as simulated processes (fresh imports, __main__, simulated '
        'standard streams), each on a valid input: any number of structures of its kinds, between unrelated text and '
        'blocks of other kinds, delivered in seeded fragments, output taken in seeded short writes. What is printed '
        'is compared with the structures the peer put in. Non-trivial: at least one tool run; distinct: trace hash.')
COMPONENTS = {'real': ['tools/*.py', 'pyasn1_modules.pem and the rfc modules they use', 'io text and buffer layers',
                       'pyasn1 codecs'],
              'stub': ['raw standard input and output', 'process (status, argv)', 'peer (dst/wire.py)']}
ASSUMPTIONS = ['prettyPrint of pyasn1 renders a value faithfully; the value rendered is compared with the value sent']
LISTS = ('ops',)
AIMS = {}


def types_of(name):
    if name in tools.PEM:
        return [t for _, t in tools.PEM[name]] if name != 'pkcs7dump' else sorted(tools.PKCS7.values())
    return ['rfc6402.PKIData'] if name == 'cmcdump' else [tools.B64[name]]


def preload():
    tools.preload()
    if not AIMS:
        m = session.model()
        good, _ = targets.enumerate_targets(m)
        want = {t for n in tools.DUMPS for t in types_of(n)}
        for t in good:
            if t[0] in want and len(t) == 4 and not (isinstance(t[3], str) and len(t[3]) > 2000):
                AIMS.setdefault(t[0], []).append(t[1:])


def plan(rng, tier, idx, total):
    ops = []
    for j in range(5):
        name = tools.DUMPS[(idx * 5 + j) % len(tools.DUMPS)]
        op = {'tool': name, 's': rng.getrandbits(32), 'in': rng.choice((None, (1, 2, 3, 7), (1, 64, 500), (400,))),
              'out': rng.choice((None, (1, 5, 50), (1000,))), 'eol': rng.choice(('lf', 'crlf', 'mixed')),
              'deco': rng.choice((0, 0, 0.2)), 'w': rng.choice((4, 64, 64, 76, 76, 1 << 20)), 'items': []}
        if name in tools.PEM:
            for i in range(rng.choice((1, 1, 2, 3, 5, 5) + (14,) * (rng.random() < 0.1)) if rng.random() < 0.93 or name in tools.ONCE else 0):
                w = rng.random()
                had = [it for it in op['items'] if it[0] == 'block']
                if had and w < 0.2 and name not in tools.ONCE:
                    op['items'].append(list(rng.choice(had)))           # the same one again
                elif w < 0.75 or (not i and name in tools.ONCE):
                    k, t = rng.choice(tools.PEM[name])
                    op['items'].append(['block', k, rng.getrandbits(32), aim(rng, name, t)])
                elif w < 0.9:
                    op['items'].append(['spam', None, rng.getrandbits(32), None])
                else:
                    op['items'].append(['other', None, rng.getrandbits(32), None])
            if name in tools.ONCE and rng.random() < 0.3:
                op['items'].insert(0, ['spam', None, rng.getrandbits(32), None])
        else:
            op['items'].append(['body', None, rng.getrandbits(32), aim(rng, name, types_of(name)[0])])
        op['args'] = ['-d'] if name == 'cmpdump' and rng.random() < 0.1 else []
        ops.append(op)
    return {'ops': ops}


def aim(rng, name, t):
    if name == 'pkcs7dump' or rng.random() < 0.5:
        return None
    return rng.choice(AIMS.get(t) or [None])


def shrink(plan):
    for i, op in enumerate(plan['ops']):
        for j in range(len(op['items'])):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, items=op['items'][:j] + op['items'][j + 1:])]
                       + plan['ops'][i + 1:])
        for k, v in (('in', None), ('out', None), ('deco', 0), ('eol', 'lf')):
            if op[k] != v:
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, **{k: v})] + plan['ops'][i + 1:])


def compose(op, m, rec):
    """-> (rendered text lines, [what each structure is: (type, value, octets)...])."""
    name = op['tool']
    r = random.Random(op['s'])
    lines, units = [], []
    kinds = [k for k, _ in tools.PEM.get(name, ())]
    for what, kind, s, a in op['items']:
        rr = random.Random(s)
        if what == 'spam':
            lines += [pemsim.spam_line(rr, kinds) for _ in range(rr.randint(1, 4))]
        elif what == 'other':
            k = rr.choice([k for k in pemsim.KINDS if k not in kinds])
            lines += pemsim.block_lines(k, bytes(rr.getrandbits(8) for _ in range(rr.randrange(100))), op['w'])
        else:
            parts = tools.message(name, kind, m, s, a)
            units.append(parts)
            if what == 'block':
                lines += pemsim.block_lines(kind, parts[0][2], op['w'])
            else:
                t = base64.b64encode(parts[0][2]).decode()
                lines += [t[i:i + op['w']] for i in range(0, len(t), op['w'])]
    texts = pemsim.render(lines, op['eol'], op['deco'], r)
    if texts and op['s'] % 3 == 0:
        texts[-1] = texts[-1].rstrip('\r\n')
    return texts, units


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    for n, op in enumerate(plan['ops']):
        name = op['tool']
        r = random.Random(op['s'])
        texts, units = compose(op, m, rec)
        if name in tools.ONCE:
            units = units[:1]
        data = ''.join(texts).encode('utf-8')
        if '-d' in op['args'] and len(data) > 3000:
            op = dict(op, args=[])
        res = tools.run(name, op['args'], data, rec, r, op['in'], op['out'])
        where = '%s run %d' % (name, n)
        rec.check(res.status == 0, 'status:' + name, lambda: '%s ended with status %d (%s) on valid input %s' % (
            where, res.status, session.errtext(res.error) if res.error else '', brief(data.hex(), 400)))
        if not units and name in tools.ONCE:
            continue
        out = res.out.decode('utf-8')
        want = []
        for parts in units:
            for t, v, octets in parts:
                it = tools.Item(t, octets, True)
                if it.text is None:
                    rec.bad('decode:' + t, '%s: %s is not decoded: %s' % (where, t, brief(octets.hex(), 300)))
                want.append(it)
                ref = m.types[t]
                try:
                    got = session.canon(m, codec, ref, bridge.extract(m, ref, it.value))
                except bridge.Mismatch as e:
                    rec.bad('value:' + t, '%s: %s' % (where, brief(str(e), 300)))
                    continue
                sent = session.canon(m, codec, ref, wire.with_defaults(m, ref, v))
                rec.check(got == sent, 'value:' + t, lambda: '%s: %s' % (where, session.diff(sent, got)))
        found, rest = tools.take(out, want)
        rec.check(found == len(want), 'missing:' + name, lambda: '%s printed %d of the %d structures of its input, '
                  'then %s' % (where, found, len(want), brief(rest[-1], 200)))
        for s in rest:
            rec.check(tools.decoration(s), 'extra:' + name, lambda: '%s printed what is not in its input: %s'
                      % (where, brief(s, 200)))
        if name in tools.PEM and name not in tools.ONCE:
            rec.check(tools.numbers(rest[-1]) in ([len(units)], [len(units)] * 2, []) or
                      len(units) in tools.numbers(rest[-1]), 'count:' + name,
                      lambda: '%s reports %s, printed %d' % (where, brief(rest[-1], 80), len(units)))
        rec.count('structures printed', len(want))
        for t, v, o in (p for parts in units for p in parts):
            rec.reach('%s:%s' % (name, t))
