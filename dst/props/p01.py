"""P01: PEM blocks come out whole, in order, once, whatever the source looks like."""
import base64
import random

from .. import core, pemsim, world

ID = 'P01'
LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 400000}
TRIVIAL_EVENTS = 2
RULE = ('One run = one simulated text source (fragmented raw reads with seeded sizes and delays under real '
        'BufferedReader/TextIOWrapper, a bare readline object, or StringIO; LF/CRLF/mixed; blanks around lines; text and '
        'near-markers between blocks; missing final newline) read by a seeded history of reader calls whose '
        'marker sets change from call to call, compared call by call with a reference reader, including where '
        'the source is left. Non-trivial: at least three reader calls or block/spam events; distinct: event-trace hash.')
COMPONENTS = {'real': ['pyasn1_modules.pem', 'base64', 'io.BufferedReader', 'io.TextIOWrapper', 'io.StringIO'],
              'stub': ['raw byte source']}
ASSUMPTIONS = ['base64 lines have a length that is a multiple of four, as PEM encoders emit them',
               'reference reader (dst/pemsim.py ref_read) states the intended block structure']


ODD = ['X.509', 'A+B (1) [x]*', 'lower case', 'CERTIFICATE ', 'Gr\u00f6\u00dfe', 'PKCS', '\\d\\w', '{}%s', 'K' * 200]


def preload():
    world.setup_path()
    world.check_origin()
    world.load('pem')


def plan(rng, tier, idx, total):
    kinds = rng.sample(pemsim.KINDS + (ODD if rng.random() < 0.2 else []), rng.randint(1, 6))
    cross = rng.random() < 0.25             # callers may pair any start with any stop line
    ops = []
    for i in range(rng.randint(1, 9)):
        if rng.random() < 0.55:
            n = rng.choice((0, 1, 2, 3, 4, 5, 47, 48, 49, 57, 96, 200, rng.randrange(600), rng.choice((20000, 70000)) if rng.random() < 0.1 else 12))
            w = rng.choice((4, 8, 64, 64, 64, 76))
            if rng.random() < 0.08:         # encoders that do not fold lines, or fold them late
                n, w = rng.choice((n, 800, 3069, 3072, 3075, 6150, 12300, 49152, 70000)), rng.choice((1000, 4096, 1 << 20))
            ops.append({'o': 'block', 'k': rng.choice(kinds), 'n': n, 's': rng.getrandbits(32), 'w': w})
            had = [o for o in ops[:-1] if o['o'] == 'block']
            if had and rng.random() < 0.15:         # the same one again
                ops[-1] = dict(rng.choice(had))
            elif cross and rng.random() < 0.5:
                ops[-1]['e'] = rng.choice(kinds)
        else:
            ops.append({'o': 'spam', 's': rng.getrandbits(32), 'n': rng.randint(1, 4)})
    calls = []
    for i in range(rng.randint(1, 8)):
        w = rng.random()
        if w < 0.8:
            n = rng.randint(1, len(kinds))
            calls.append(['blocks', rng.sample(kinds, n)])
            if cross:
                if rng.random() < 0.5 and calls[0][0] == 'blocks':      # same starts as before, other stops
                    calls[-1][1] = list(calls[0][1])
                    n = len(calls[-1][1])
                if rng.random() < 0.7:
                    calls[-1].append(rng.sample(kinds, n))
            elif rng.random() < 0.1:                # callers may know many kinds
                for j in range(rng.choice((3, 8, 30, 300))):
                    calls[-1][1].insert(rng.randint(0, len(calls[-1][1])), 'KIND %d' % j)
        elif w < 0.9:
            calls.append(['pem', rng.choice(kinds)])
            if cross and rng.random() < 0.7:
                calls[-1].append([rng.choice(kinds)])
        elif w < 0.95:
            calls.append(['pemdefault', None])
        else:
            calls.append(['line', None])
    return {'kinds': kinds, 'ops': ops, 'calls': calls, 'eol': rng.choice(('lf', 'crlf', 'mixed')),
            'deco': rng.choice((0, 0, 0.3)), 'final': rng.random() < 0.7, 's': rng.getrandbits(32),
            'how': rng.choice(('lines', 'lines', 'stringio', 'text', 'text', 'text')),
            'tail': rng.random() < 0.15,
            'whole': [rng.choice((rng.randrange(300), rng.randrange(300), rng.choice((6000, 49152, 70000, 200000))
                                  if rng.random() < 0.15 else 48)),
                      rng.choice((4, 60, 64, 76, 1000, 1 << 20)), rng.choice(('text', 'text', 'lines', 'stringio'))]}


LISTS = ('ops', 'calls')


def shrink(plan):
    for i, o in enumerate(plan['ops']):
        if o.get('n', 0) > 3:
            yield dict(plan, ops=plan['ops'][:i] + [dict(o, n=3)] + plan['ops'][i + 1:])
    if plan['how'] != 'lines':
        yield dict(plan, how='lines')
    if plan['deco']:
        yield dict(plan, deco=0)


def compose(plan):
    lines, blocks = [], []
    for o in plan['ops']:
        r = random.Random(o['s'])
        if o['o'] == 'spam':
            lines += [pemsim.spam_line(r, plan['kinds']) for _ in range(o['n'])]
        else:
            payload = r.randbytes(o['n'])
            blocks.append((o['k'], payload, len(lines)))
            lines += pemsim.block_lines(o['k'], payload, o['w'], o.get('e'))
    return lines, blocks


def clean(line):
    t = line.rstrip('=')
    return len(line) % 4 == 0 and len(line) - len(t) < 3 and all(c in pemsim.B64 for c in t)


def execute(plan, rec):
    pem = world.load('pem')
    r = random.Random(plan['s'])
    lines, blocks = compose(plan)
    texts = pemsim.render(lines, plan['eol'], plan['deco'], r)
    if texts and not plan['final']:
        texts[-1] = texts[-1].rstrip('\r\n')
        if not texts[-1]:
            texts.pop()
    src = pemsim.open_source(plan['how'], texts, r, rec)
    stripped = [t.strip() for t in texts]
    pos = 0
    for n, (how, what, *ends) in enumerate(plan['calls']):
        if how == 'line':
            got = src.readline().strip()
            want = stripped[pos] if pos < len(stripped) else ''
            pos = min(pos + 1, len(stripped))
            rec.check(got == want, 'source-position', 'after call %d the source continues with %r, expected %r'
                      % (n, core.brief(got), core.brief(want)))
            continue
        if how == 'blocks':
            markers = [(pemsim.marker(k)[0], pemsim.marker(e)[1]) for k, e in zip(what, ends[0] if ends else what)]
        else:
            what = what or 'CERTIFICATE'
            markers = [(pemsim.marker(what)[0], pemsim.marker(ends[0][0] if ends else what)[1])]
        wi, body, pos = pemsim.ref_read(stripped, pos, markers)
        if body and not all(clean(x) for x in body):
            rec.count('runs cut short at a block of something else than base64')
            return
        if how == 'blocks':
            gi, gs = pem.readPemBlocksFromFile(src, *markers)
        elif how == 'pem':
            gi, gs = None, pem.readPemFromFile(src, *markers[0])
        else:
            gi, gs = None, pem.readPemFromFile(src)
        rec.count('reader calls')
        rec.ev('call', n, how, what, gi, bytes(gs).hex() if gs else '')
        if body is None:
            rec.check(not gs, 'invented', 'call %d returned %d bytes though no complete block is left'
                      % (n, len(gs)))
            if gi is not None and wi == -1:
                rec.check(gi == -1, 'no-block-index', 'call %d: index %r though no block began' % (n, gi))
            rec.reach('none')
            continue
        want = pemsim.ref_decode(body)
        rec.check(isinstance(gs, bytes) or not want, 'type', 'call %d returned %s' % (n, type(gs).__name__))
        rec.check(bytes(gs or b'') == want, 'content',
                  'call %d with markers %r returned %s, the block holds %s' % (n, what, core.brief(bytes(gs or b'').hex()),
                                                                            core.brief(want.hex())))
        if gi is not None:
            rec.check(gi == wi, 'index', 'call %d returned index %r for kind %d' % (n, gi, wi))
        rec.reach('block %s %s w%d' % (plan['how'], plan['eol'], len(body)))
        rec.count('blocks delivered')
    if plan['tail']:
        rest = [t for t in stripped[pos:]]
        if rest and all(len(x) % 4 == 0 and all(c in pemsim.B64 for c in x) for x in rest):
            got = pem.readBase64FromFile(src)
            rec.check(got == base64.b64decode(''.join(rest)), 'base64', 'readBase64FromFile differs')
    rest = []
    while True:
        s = src.readline()
        if not s:
            break
        rest.append(s.strip())
    want = stripped[pos:] if not plan['tail'] else rest
    rec.check(rest == want, 'source-position',
              'source left at %r, expected %r' % (core.brief(rest[:2]), core.brief(want[:2])))
    # whole-text reader: any text of base64 lines
    n, w, how = plan['whole']
    payload = r.randbytes(n)
    t = base64.b64encode(payload).decode()
    body = plan['eol'] == 'crlf' and '\r\n' or '\n'
    text = ''.join(t[i:i + w] + body for i in range(0, len(t), w))
    rec.check(pem.readBase64fromText(text) == payload, 'base64', 'readBase64fromText differs')
    src2 = pemsim.open_source(how, text.splitlines(True), r, rec)
    rec.check(pem.readBase64FromFile(src2) == payload, 'base64', 'readBase64FromFile differs')
    rec.ev('end', len(rest))
