"""P15: tools end and fail cleanly on whatever they are given."""
import random

from .. import pemsim, session, tools, wire
from ..core import brief
from . import p02, p14

ID = 'P15'
LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 50000}
RULE = ('One run = five invocations of dump tools as simulated processes on input damaged at the level of the '
        'structure, its base64 armour or the octet stream, with failing reads, failing or full output and aborts '
        '(interrupt, memory) at seeded steps. What is printed must be the structures the delivered input holds, in '
        'order, up to the one that fails; success only if all were sound; an end within a step budget. '
        'Non-trivial: at least one tool run; distinct: trace hash.')
COMPONENTS = p14.COMPONENTS
ASSUMPTIONS = ['which octets a block holds is decided by the reference reader over the text delivered; whether they '
               'are a sound structure by decoding and encoding them with the published type (P09 and P10 check that)',
               'octets after a complete structure inside a PEM block are ignored by design']
LISTS = ('ops',)

ERR = {'EIO': lambda: OSError(5, 'Input/output error'), 'int': lambda: KeyboardInterrupt(),
       'mem': lambda: MemoryError(), 'ENOSPC': lambda: OSError(28, 'No space left on device'),
       'EPIPE': lambda: BrokenPipeError(32, 'Broken pipe'), 'EISDIR': lambda: IsADirectoryError(21, 'Is a directory')}

DER = ('flip', 'byte', 'cut', 'extend', 'drop', 'dup', 'ber', 'type', 'rand', 'deep', 'len', 'empty', 'twice',
       'lax', 'lax', 'lax')
LAYERED = ('pkcs7dump', 'cmcdump')


def preload():
    p14.preload()


def plan(rng, tier, idx, total):
    base = p14.plan(rng, tier, idx, total)
    for op in base['ops']:
        for it in op['items']:
            it.append([[rng.choice(DER), rng.getrandbits(30)] for _ in range(rng.choice((1, 1, 2)))]
                      if it[0] in ('block', 'body') and rng.random() < 0.3 else [])
            if op['tool'] in LAYERED and rng.random() < 0.25:
                it[-1] = [['kind', rng.getrandbits(30)]]
            elif op['tool'] in LAYERED and rng.random() < 0.5:
                it[-1] = [['inner', rng.getrandbits(30), rng.choice(DER)]]
        enabled = rng.sample(('lose', 'dup', 'swap', 'junk', 'inject', 'loseend', 'losebegin'), rng.randint(1, 3))
        op['text'] = [[rng.choice(enabled), rng.random(), rng.getrandbits(30)] for _ in range(rng.randint(1, 2))] \
            if rng.random() < 0.25 else []
        op['cut'] = rng.random() if rng.random() < 0.1 else None
        op['bytes'] = [rng.random(), rng.choice(('ff', 'c3', 'e28c', '80'))] if rng.random() < 0.05 else None
        op['inerr'] = [rng.random(), rng.choice(('EIO', 'int', 'EISDIR'))] if rng.random() < 0.12 else None
        op['outerr'] = [rng.random(), rng.choice(('ENOSPC', 'EPIPE', 'EIO')), rng.randrange(2)] \
            if rng.random() < 0.15 else None
        op['abort'] = [rng.random(), rng.choice(('int', 'mem'))] if rng.random() < 0.12 else None
        if rng.random() < 0.03:
            op['args'] = rng.choice((['x'], ['-d', 'x'], ['-h']))
        elif op['args'] == ['-d']:
            op['args'] = []
    return base


def shrink(plan):
    for i, op in enumerate(plan['ops']):
        for j in range(len(op['items'])):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, items=op['items'][:j] + op['items'][j + 1:])]
                       + plan['ops'][i + 1:])
        for k in ('in', 'out', 'cut', 'bytes', 'inerr', 'outerr', 'abort'):
            if op[k] is not None:
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, **{k: None})] + plan['ops'][i + 1:])
        if op['text']:
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, text=[])] + plan['ops'][i + 1:])


def hurt(o, dmg, parts, m, rec):
    """Damage a structure."""
    for kind, s, *sub in dmg:
        r = random.Random(s)
        rec.fault('structure: ' + kind)
        i = r.randrange(len(o)) if o else 0
        if kind == 'flip' and o:
            o = o[:i] + bytes([o[i] ^ (1 << r.randrange(8))]) + o[i + 1:]
        elif kind == 'byte' and o:
            o = o[:i] + bytes([r.getrandbits(8)]) + o[i + 1:]
        elif kind == 'cut':
            o = o[:i]
        elif kind == 'extend':
            o += bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 9))))
        elif kind == 'drop':
            o = o[:i] + o[i + r.choice((1, 2, 8)):]
        elif kind == 'dup':
            o = o[:i] + o[i:i + r.choice((1, 4, 30))] + o[i:]
        elif kind == 'ber':
            o = wire.Codec(m, 'ber', r).encode(m.types[parts[0][0]], parts[0][1])
        elif kind == 'lax':
            o = wire.Codec(m, 'lax', r).encode(m.types[parts[0][0]], parts[0][1])
        elif kind == 'type':
            n = r.choice(tools.DUMPS)
            o = tools.message(n, r.choice(tools.PEM[n])[0] if n in tools.PEM else None, m, s)[0][2]
        elif kind == 'rand':
            o = bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 40))))
        elif kind == 'deep':
            o = bytes.fromhex(r.choice(('3080', '30', 'a080', '308230', '2480'))) * r.choice((3, 50, 2000))
        elif kind == 'len' and len(o) > 2:
            o = o[:1] + bytes.fromhex(r.choice(('80', '84ffffffff', '8100', '820001', 'ff', '88' + '7f' * 8))) + o[2:]
        elif kind == 'empty':
            o = b''
        elif kind == 'kind':
            o = tools.rekind(parts, m, r)
        elif kind == 'inner' and len(parts) > 1:
            i = r.randrange(1, len(parts))
            o = tools.rewrap(parts[:i], hurt(parts[i][2], [[sub[0], s >> 3]], parts[i:], m, rec), m)
        elif kind == 'twice':
            o += o
    return o


def compose(op, m, rec):
    import base64
    name = op['tool']
    r = random.Random(op['s'])
    lines = []
    kinds = [k for k, _ in tools.PEM.get(name, ())]
    for what, kind, s, a, dmg in op['items']:
        rr = random.Random(s)
        if what == 'spam':
            lines += [pemsim.spam_line(rr, kinds) for _ in range(rr.randint(1, 4))]
        elif what == 'other':
            k = rr.choice([k for k in pemsim.KINDS if k not in kinds])
            lines += pemsim.block_lines(k, bytes(rr.getrandbits(8) for _ in range(rr.randrange(100))), op['w'])
        else:
            parts = tools.message(name, kind, m, s, a)
            o = hurt(parts[0][2], dmg, parts, m, rec)
            if what == 'block':
                lines += pemsim.block_lines(kind, o, op['w'])
            else:
                t = base64.b64encode(o).decode()
                lines += [t[i:i + op['w']] for i in range(0, len(t), op['w'])]
    lines = p02.damage(lines, op['text'], r, rec, kinds or ['CMS'])
    text = ''.join(pemsim.render(lines, op['eol'], op['deco'], r))
    if op['cut'] is not None:
        rec.fault('input cut')
        text = text[:int(op['cut'] * (len(text) + 1))]
    data = text.encode('utf-8', 'surrogateescape')
    if op['bytes']:
        rec.fault('undecodable octets')
        i = int(op['bytes'][0] * (len(data) + 1))
        data = data[:i] + bytes.fromhex(op['bytes'][1]) + data[i:]
    return data


def reference(name, data):
    """What the delivered input holds: [(items up to the first bad one, sound, why)...], the
    second where decoding line by line and joined differ."""
    broken = None
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError as e:
        text, broken = data[:e.start].decode('utf-8'), 'undecodable'
    out = []
    for how in (0, 1):
        items, sound, why = [], True, ''
        if name in tools.B64:
            try:
                octets = p02.lenient([text])[0]
                if octets is None:
                    sound, why = False, 'base64'
                elif octets or name == 'cmcdump':
                    items, sound = tools.layers(name, octets)
            except UnicodeError:
                sound, why = False, 'text'
        else:
            lines = [t.strip() for t in text.replace('\r\n', '\n').replace('\r', '\n').split('\n')]
            markers = [pemsim.marker(k) for k, _ in tools.PEM[name]]
            pos = 0
            while True:
                i, body, pos = pemsim.ref_read(lines, pos, markers)
                if body is None:
                    if name in tools.ONCE:
                        sound, why = False, 'none'
                    break
                octets = p02.lenient(body)[how]
                if octets is None:
                    sound, why = False, 'base64'
                    break
                if name in tools.ONCE:
                    if octets:
                        items, sound = tools.layers(name, octets)
                    else:
                        sound = False
                    break
                it = tools.Item(tools.PEM[name][i][1], octets, True)
                items.append(it)
                if not it.good:
                    sound, why = False, 'structure' if octets else 'empty block'
                    break
        if broken and sound and name not in tools.ONCE or broken and why == 'none':
            sound, why = False, broken
        out.append((items, sound, why))
        if name in tools.B64:
            break
    return out


def verdict(name, res, want):
    """None if what the tool did fits this reading of its input, else (key, message)."""
    items, sound, why = want
    out = res.out.decode('utf-8')
    shown = [it for it in items if it.text is not None]
    found, rest = tools.take(out, shown)
    if res.status == 0 and found < len(shown):
        return ('missing:' + name, 'success, with %d of %d structures printed' % (found, len(shown)))
    for s in rest:
        if not tools.decoration(s):
            return ('invented:' + name, 'printed what is not in its input: %s' % brief(s, 200))
    if res.status == 0 and name in tools.PEM and name not in tools.ONCE:
        if tools.numbers(rest[-1]) and len(shown) not in tools.numbers(rest[-1]):
            return ('count:' + name, 'reports %s, printed %d' % (brief(rest[-1], 80), len(shown)))
    if res.status == 0 and not sound:
        if why == 'empty block':
            return ('blind:%s#empty block' % name, 'success, though a block it came to holds nothing')
        return ('success:' + name, 'success, though %s' % (why or 'a structure is not sound'))
    return None


def execute(plan, rec):
    m = session.model()
    for n, op in enumerate(plan['ops']):
        name = op['tool']
        data = compose(op, m, rec)
        seed = op['s']
        where = '%s run %d' % (name, n)
        quiet = tools.run(name, op['args'], data, rec, random.Random(seed), op['in'], op['out'])
        judge(name, op, data, quiet, rec, where)
        inerr = [[int(op['inerr'][0] * (len(data) + 1)), ERR[op['inerr'][1]]()]] if op['inerr'] else []
        outerr = [int(op['outerr'][0] * (len(quiet.out) + 1)), ERR[op['outerr'][1]](), op['outerr'][2]] \
            if op['outerr'] else None
        abort = [1 + int(op['abort'][0] * quiet.steps), ERR[op['abort'][1]]()] if op['abort'] else None
        if not (inerr or outerr or abort):
            continue
        res = tools.run(name, op['args'], data, rec, random.Random(seed), op['in'], op['out'], inerr, outerr,
                        abort=abort)
        base = quiet
        try:
            data.decode('utf-8')
        except UnicodeDecodeError as e:     # how far it got undisturbed depends on the reading ahead
            base = tools.run(name, op['args'], data[:e.start], rec, random.Random(seed), op['in'], op['out'])
        what = '%s with %s' % (where, ' '.join(str(x) for x in (op['inerr'], op['outerr'], op['abort']) if x))
        rec.check(base.out.startswith(res.out), 'output:' + name,
                  lambda: '%s printed %s, undisturbed %s' % (what, brief(res.out[-200:]), brief(quiet.out[-200:])))
        hit = res.stdin_failed or res.stdout_failed or res.aborted or len(res.out) < len(quiet.out)
        rec.check(res.status != 0 or not hit, 'success:' + name, '%s claims success' % what)
        rec.check(res.status != 0 or base.status == 0, 'success:' + name, '%s succeeds, undisturbed it fails' % what)
        rec.count('failures met' if hit else 'failures not met')


def judge(name, op, data, res, rec, where):
    if op['args']:
        rec.check(res.status != 0, 'usage:' + name, '%s accepts arguments %r' % (where, op['args']))
        rec.count('usage')
        return
    bad = None
    for want in reference(name, data):
        bad = verdict(name, res, want)
        if bad is None:
            rec.count('refused' if res.status else 'accepted')
            rec.reach('%s %d %s' % (name, res.status, want[2]))
            return
    rec.bad(bad[0], '%s: status %d, %s; input %s' % (where, res.status, bad[1], brief(data.decode('latin-1'), 500)))
