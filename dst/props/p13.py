"""P13: what a process did before never changes what a message means."""
import random
import sys

from pyasn1.codec.ber import decoder as ber_decoder
from pyasn1.type import base, tag, univ

from .. import bridge, focus, oracle, session, snap, wire, world
from ..core import brief
from . import p11

ID = 'P13'
LEVEL = 'exploration'
RUNS = {'quick': 1600, 'thorough': 30000}
RULE = ('One run = one process history of 12-30 seeded operations (decode valid, invalid, BER, opened; build; encode; '
        'encode incomplete; overwrite, clear and grow received values; print, compare, hash, clone and re-tag shared '
        'objects; use registry entries directly), a third of them aborted by an interrupt or memory error at a seeded '
        'source line inside codec or modules; then probe messages on the types used are judged against the frozen '
        'model and every published object touched (all of them in every fifteenth run) is compared with a fresh process. '
        'Non-trivial: at least one operation ran; distinct: event-trace hash.')
COMPONENTS = {'real': ['every pyasn1_modules.rfc* module', 'pyasn1 codecs'],
              'stub': ['peer (dst/wire.py over dst/model/wire.json)', 'faults (trace hook)']}
ASSUMPTIONS = ['the process the runs are forked from has only imported the modules: it is the fresh process']
LISTS = ('ops',)
FRESH = {}
TEXTS = []             # [type, octets, how a fresh process prints it], of types with code of their own
ITEMS = []
HOW = ('dec', 'dec', 'open', 'ber', 'bad', 'bad', 'enc', 'half', 'mutate', 'mutate', 'read', 'clone', 'shared',
       'shared', 'unknown')


def preload():
    p11.preload()
    if FRESH:
        return
    focus.behaving()
    ITEMS.extend(snap.items(world.loaded()))
    for name, _, th in ITEMS:
        FRESH[name] = snap.digest(th)
    m = session.model()
    own = focus.behaving()
    rng = random.Random(6)
    keep = []
    for t in sorted(rng.sample(own, min(len(own), 40))):
        for i in range(3):
            try:
                v = wire.Gen(m, rng, depth=3).value(m.types[t])
                der = wire.Codec(m).encode(m.types[t], v)
                keep.append(fresh(t, der))
                TEXTS.append([t, der, keep[-1].prettyPrint()])
            except Exception:
                continue


def fresh(t, der):
    mod, c = t.split('.', 1)
    return session.der_decoder.decode(der, asn1Spec=getattr(world.loaded()[mod], c)())[0]


def plan(rng, tier, idx, total):
    m = session.model()
    names = sorted(m.types)
    hot = [names[(idx * 3 + j) % len(names)] for j in range(3)] + [rng.choice(names)]
    own = focus.behaving()
    if own and rng.random() < min(0.3, 0.1 * len(own)):
        hot += [rng.choice(own) for j in range(4)]
    ops = []
    for j in range(rng.randrange(12, 31)):
        t = rng.choice(hot)
        op = {'t': t, 'h': rng.choice(HOW), 's': rng.getrandbits(32)}
        if op['h'] == 'shared':
            op['n'] = rng.randrange(1 << 20)
        if op['h'] in ('open', 'unknown') and rng.random() < 0.6:
            x = rng.choice([x for x in p11.LIST if x[1]])
            op.update(t=x[0], g=x[1], key=x[2])
        if rng.random() < 0.33:
            op['x'] = [int(rng.expovariate(1 / 300.0)) + 1, rng.choice(('KeyboardInterrupt', 'MemoryError'))]
        ops.append(op)
    return {'ops': ops, 'full': idx % 15 == 0, 'seed': rng.getrandbits(32)}


class Abort:
    """Raise at the n-th source line executed in codec or module code."""

    def __init__(self, rec, x):
        self.rec = rec
        self.left = x[0]
        self.exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[x[1]]
        self.fired = False

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        return self.line if '/pyasn1' in fn else None

    def line(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                self.rec.fault('aborted by ' + self.exc.__name__)
                raise self.exc()
        return self.line

    def __enter__(self):
        sys.settrace(self.tracer)

    def __exit__(self, *a):
        sys.settrace(None)


def execute(plan, rec):
    m = session.model()
    rng = random.Random(plan['seed'])
    mods = world.loaded()
    touched = set()

    def cls(t):
        mod, c = t.split('.', 1)
        return getattr(mods[mod], c)

    for i, op in enumerate(plan['ops']):
        touched.add(op['t'])
        try:
            if 'x' in op:
                with Abort(rec, op['x']):
                    what = step(m, op, cls, touched)
            else:
                what = step(m, op, cls, touched)
        except (KeyboardInterrupt, MemoryError):
            if 'x' not in op:
                raise
            what = 'aborted'
        except wire.Unsatisfiable:
            what = 'none'
        except Exception as e:
            if 'x' not in op:
                raise
            what = 'aborted, ' + type(e).__name__
        rec.ev(i, op['h'], op['t'], what)
        rec.count('operations (%s)' % op['h'])
        rec.reach('%s %s' % (op['h'], op['t']))

    # messages still mean what they mean
    ps = []
    for t in sorted(touched):
        if t not in m.types:
            continue
        ps += oracle.probes(m, [t], rng, 2, 0.5, p11.SPLIT)
    ps += oracle.probes(m, sorted(m.types), rng, 3, 0.5, p11.SPLIT)
    for op in plan['ops']:
        if op.get('key') and (op['t'], op['key']) not in KNOWN:
            try:
                ps.append(oracle.Probe(m, op['t'], rng.getrandbits(32), True, p11.SPLIT, op['key'], op['g']))
            except wire.Unsatisfiable:
                pass
    for p in ps:
        if 'ChangeSubjectName' in p.t:
            continue
        p.check(rec.bad, cls(p.t))
        rec.count('probe messages')
    # ... and still read what they read
    for t, der, text in rng.sample(TEXTS, len(TEXTS)):
        now = quiet(lambda: fresh(t, der).prettyPrint())
        rec.check(now == text, 'prints:' + t, lambda: 'prints otherwise than in a fresh process; octets %s' % (
            brief(der.hex(), 300)))
        rec.count('messages printed')
    # published objects are as in a fresh process
    mine = {n: th for n, _, th in snap.items(mods)}
    for n in FRESH:
        if n not in mine:
            rec.bad('gone:' + n, 'published object vanished')
    pick = sorted(FRESH) if plan['full'] else sorted(
        [n for n in FRESH if n in touched] + rng.sample(sorted(FRESH), 60)
        + [n for n in FRESH if '[' not in n and n.endswith('Map')])
    for n in pick:
        if snap.digest(mine[n]) != FRESH[n]:
            rec.bad('changed:' + n, 'published object is not what it was')
        rec.count('published objects compared')


KNOWN = {('rfc2459.Extension', '2.5.29.14')}


def quiet(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        return None


def step(m, op, cls, touched):
    rng = random.Random(op['s'])
    h = op['h']
    if h == 'shared':
        return shared(m, op, rng, touched)
    T = cls(op['t'])
    ref = m.types[op['t']]
    gen = wire.Gen(m, rng, depth=rng.choice((2, 3)), openp=0.5 if h == 'open' else 0)
    if op.get('g'):
        v = gen.aimed(ref, [op['g']], 'has', None)
        if op['key'] and h == 'open':
            gen.fill_open(m.node(ref), v, 0, op['g'], op['key'])
    else:
        v = gen.value(ref)
    der = wire.Codec(m).encode(ref, v)
    dec, enc = session.der_decoder.decode, session.der_encoder.encode
    if h == 'dec':
        return 'ok' if quiet(dec, der, asn1Spec=T()) else 'err'
    if h in ('open', 'unknown'):
        r = quiet(dec, der, asn1Spec=T(), decodeOpenTypes=True,
                  **({'openTypes': {univ.ObjectIdentifier('1.2.3'): univ.Null('')}} if rng.random() < 0.2 else {}))
        if r:
            quiet(r[0].prettyPrint)
            if rng.random() < 0.5:
                churn(m, rng, m.node(ref), r[0])
        return 'ok' if r else 'err'
    if h == 'ber':
        r = quiet(ber_decoder.decode, wire.Codec(m, 'ber', rng).encode(ref, v), asn1Spec=T())
        return 'ok' if r else 'err'
    if h == 'bad':
        b = bytearray(der)
        for i in range(rng.randrange(1, 4)):
            w = rng.randrange(4)
            if w == 0 and b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif w == 1:
                del b[rng.randrange(len(b) + 1):]
            elif w == 2:
                p = rng.randrange(len(b) + 1)
                b[p:p] = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 5)))
            elif b:
                p = rng.randrange(len(b))
                del b[p:p + rng.randrange(1, 4)]
        r = quiet(dec, bytes(b), asn1Spec=T(), decodeOpenTypes=rng.random() < 0.5)
        return 'ok' if r else 'err'
    if h == 'enc':
        return 'ok' if quiet(lambda: enc(bridge.build(m, ref, v, T()))) == der else 'differs'
    if h == 'half':
        obj = T()
        node = m.node(ref)
        if node['k'] in ('Sequence', 'Set', 'Choice') and node['f']:
            for f in rng.sample(node['f'], rng.randrange(len(node['f']) + 1)):
                quiet(obj.getComponentByName, f['n'])
                if isinstance(v, dict) and f['n'] in v and m.node(f['o'])['k'] not in wire.CONSTRUCTED:
                    quiet(obj.setComponentByName, f['n'], bridge.scalar(m.node(f['o']), v[f['n']]))
        return 'ok' if quiet(enc, obj) else 'err'
    if h == 'mutate':
        r = quiet(dec, der, asn1Spec=T())
        if not r:
            return 'err'
        obj = r[0]
        churn(m, rng, m.node(ref), obj)
        quiet(enc, obj)
        return 'ok'
    if h == 'read':
        obj = (quiet(dec, der, asn1Spec=T()) or [T()])[0] if rng.random() < 0.5 else T()
        for f in rng.sample((repr, str, len, list, hash, lambda o: o == o, lambda o: o.prettyPrint(),
                             lambda o: o.prettyPrintType(), lambda o: o.isInconsistent, lambda o: dict(o),
                             lambda o: o[0], lambda o: o['nosuch'], lambda o: list(o.items()),
                             lambda o: o.getComponent(), lambda o: o.asOctets()), 5):
            quiet(f, obj)
        return 'ok'
    if h == 'clone':
        obj = T()
        a = quiet(obj.clone)
        b = quiet(obj.subtype, explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, rng.randrange(9)))
        for o in (a, b, obj):
            if o is not None:
                churn(m, rng, m.node(ref), o)
        return 'ok'
    raise ValueError(h)


def churn(m, rng, node, obj, depth=0):
    """Scribble over a value of the application's own."""
    k = node['k']
    if k not in wire.CONSTRUCTED or depth > 4:
        return
    w = rng.randrange(6)
    if w == 0:
        quiet(obj.clear)
        return
    if w == 1:
        quiet(lambda: obj.reset())
        return
    if k in ('SequenceOf', 'SetOf'):
        e = m.node(node['e'])
        for i in range(rng.randrange(1, 4)):
            c = quiet(obj.getComponentByPosition, i)
            if c is not None:
                churn(m, rng, e, c, depth + 1)
        quiet(obj.extend, [7, 'x'])
        return
    for f in node['f']:
        if rng.random() < 0.2:
            continue
        sub = m.node(f['o'])
        c = quiet(obj.getComponentByName, f['n'])       # defaults and optionals spring up here
        if sub['k'] in wire.CONSTRUCTED:
            if c is not None:
                churn(m, rng, sub, c, depth + 1)
        else:
            try:
                v = wire.Gen(m, rng).value(f['o'])
            except wire.Unsatisfiable:
                continue
            quiet(obj.setComponentByName, f['n'], bridge.scalar(sub, v))


def shared(m, op, rng, touched):
    """Published instances (registry entries, templates, constants) used as they are."""
    insts = [(n, o) for n, o, _ in ITEMS if isinstance(o, base.Asn1Item)]
    n, o = insts[op['n'] % len(insts)]
    touched.add(n)
    dec, enc = session.der_decoder.decode, session.der_encoder.encode
    data = bytes.fromhex(rng.choice(('0500', '3000', '300506032a0304', '020101', '0c0161', '3102300030', '0401aa',
                                     '300a06032a03043103020101', 'a0030201', '03020780', '06032a0304')))
    for w in rng.sample(range(8), 4):
        if w == 0:
            quiet(dec, data, asn1Spec=o)
            quiet(dec, data, asn1Spec=o, decodeOpenTypes=True)
        elif w == 1:
            quiet(enc, o)
        elif w == 2:
            c = quiet(o.clone)
            for x in (c, quiet(o.subtype, implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))):
                if x is not None and hasattr(x, 'clear'):
                    quiet(x.clear)
                    quiet(x.setComponentByPosition, 0)
                    quiet(lambda: x.extend([1]))
        elif w == 3:
            quiet(repr, o)
            quiet(str, o)
            quiet(o.prettyPrint)
        elif w == 4:
            quiet(lambda: o == 5)
            quiet(hash, o)
            quiet(len, o)
        elif w == 5:
            quiet(lambda: o + (1, 2))
            quiet(lambda: o + 'x')
            quiet(lambda: o * 2)
        elif w == 6:
            mod, _, name = n.partition('.')
            r = quiet(dec, data, asn1Spec=o)
            if r and hasattr(r[0], 'clear'):
                quiet(r[0].clear)
                quiet(r[0].setComponentByPosition, 0)
        else:
            quiet(lambda: univ.SequenceOf(componentType=o).setComponentByPosition(0))
    return n
