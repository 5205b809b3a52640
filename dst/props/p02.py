"""P02: a damaged or failing PEM source never yields partial, mixed or invented data."""
import base64
import random

from .. import core, pemsim, world

ID = 'P02'
LEVEL = 'exploration'
RUNS = {'quick': 8000, 'thorough': 400000}
RULE = ('One run = one PEM source damaged by a seeded fault sequence (input cut at any character, lines lost, '
        'doubled or swapped, read errors raised mid-block, undecodable bytes, interrupted reads followed by a retry '
        'on the same source) and read by repeated calls; every non-empty result must be exactly the content '
        'between one start line and its own stop line. Non-trivial: at least one fault fired or call made; distinct: '
        'event-trace hash.')
COMPONENTS = {'real': ['pyasn1_modules.pem', 'base64', 'io.BufferedReader', 'io.TextIOWrapper'],
              'stub': ['raw byte source with faults']}
ASSUMPTIONS = ['a PEM body line that was damaged into other valid base64 cannot be told from an intact one; '
               'only what lies between a start and its stop line is attributed to that block']
LISTS = ('ops', 'faults', 'errors')

ERR = {'EIO': lambda: OSError(5, 'Input/output error'), 'reset': lambda: ConnectionResetError(104, 'reset'),
       'timeout': lambda: TimeoutError('timed out'), 'int': lambda: KeyboardInterrupt(),
       'mem': lambda: MemoryError(), 'value': lambda: ValueError('I/O operation on closed file')}


def preload():
    world.setup_path()
    world.check_origin()
    world.load('pem')


def plan(rng, tier, idx, total):
    kinds = rng.sample(pemsim.KINDS, rng.randint(1, 4))
    ops = []
    for i in range(rng.randint(1, 7)):
        if rng.random() < 0.7:
            n, w = rng.choice((0, 3, 48, 60, 96, 150, rng.randrange(400))), rng.choice((4, 64, 64, 76))
            if rng.random() < 0.05:
                n, w = rng.choice((800, 3072, 6150, 12300, 49152)), rng.choice((1000, 4096, 1 << 20))
            ops.append({'o': 'block', 'k': rng.choice(kinds), 'n': n, 's': rng.getrandbits(32), 'w': w})
        else:
            ops.append({'o': 'spam', 's': rng.getrandbits(32), 'n': rng.randint(1, 3)})
    enabled = rng.sample(('lose', 'dup', 'swap', 'junk', 'inject', 'loseend', 'losebegin'), rng.randint(0, 3))
    faults = [[rng.choice(enabled), rng.random(), rng.getrandbits(30)] for _ in range(rng.randint(1, 3))] if enabled else []
    how = rng.choice(('lines', 'lines', 'text', 'bytes', 'stringio'))
    errors = []
    if how in ('lines', 'text', 'bytes') and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            errors.append([rng.random(), rng.choice(sorted(ERR))])
    return {'kinds': kinds, 'ops': ops, 'faults': faults, 'errors': errors, 'how': how,
            'cut': rng.random() if rng.random() < 0.4 else None, 'eol': rng.choice(('lf', 'crlf')),
            'ask': [rng.sample(kinds, rng.randint(1, len(kinds))) for _ in range(9)], 's': rng.getrandbits(32)}


def shrink(plan):
    for i, o in enumerate(plan['ops']):
        if o.get('n', 0) > 3:
            yield dict(plan, ops=plan['ops'][:i] + [dict(o, n=3)] + plan['ops'][i + 1:])
    if plan['how'] != 'lines':
        yield dict(plan, how='lines')


def damage(lines, faults, r, rec, kinds):
    lines = list(lines)
    for kind, where, sub in faults:
        if not lines:
            break
        i = min(int(where * len(lines)), len(lines) - 1)
        if kind in ('loseend', 'losebegin'):
            tag = '-----END' if kind == 'loseend' else '-----BEGIN'
            c = [j for j, s in enumerate(lines) if s.startswith(tag)]
            if not c:
                continue
            i = c[int(where * len(c))]
            kind = 'lose'
            rec.fault('marker line lost')
        if kind == 'lose':
            del lines[i]
            rec.fault('line lost')
        elif kind == 'dup':
            lines.insert(i, lines[i])
            rec.fault('line doubled')
        elif kind == 'swap' and i + 1 < len(lines):
            lines[i], lines[i + 1] = lines[i + 1], lines[i]
            rec.fault('lines swapped')
        elif kind == 'junk':
            rr = random.Random(sub)
            s = lines[i]
            j = rr.randrange(len(s) + 1)
            lines[i] = s[:j] + rr.choice('*\u00e9 -=A') + s[j + 1:]
            rec.fault('character damaged')
        elif kind == 'inject':
            rr = random.Random(sub)
            b, e = pemsim.marker(rr.choice(kinds))
            lines.insert(i, rr.choice((b, b, e)))
            rec.fault('foreign marker line')
    return lines


def lenient(body):
    """What decoding these lines may give: line by line, or joined; None where it must fail."""
    out = []
    for f in (lambda: pemsim.ref_decode(body), lambda: base64.b64decode(''.join(body).encode())):
        try:
            out.append(f())
        except ValueError:
            out.append(None)
    return out


def execute(plan, rec):
    pem = world.load('pem')
    r = random.Random(plan['s'])
    from .p01 import compose
    lines, blocks = compose(plan)
    lines = damage(lines, plan['faults'], r, rec, plan['kinds'])
    texts = pemsim.render(lines, plan['eol'], 0, r)
    if plan['cut'] is not None and texts:
        whole = ''.join(texts)
        whole = whole[:int(plan['cut'] * (len(whole) + 1))]
        texts = whole.splitlines(True)
        if ''.join(texts) != whole:
            raise RuntimeError('splitlines')
        if texts and texts[-1].strip() == '' and not texts[-1].endswith('\n') and texts[-1] != '\r':
            texts.pop()
        rec.fault('input cut')
    stripped = [t.strip() for t in texts]
    errors = {}
    for where, kind in plan['errors']:
        errors.setdefault(min(int(where * (len(texts) + 1)), len(texts)), ERR[kind]())
    src = pemsim.open_source(plan['how'], texts, r, rec, None, sorted(errors.items(), key=lambda e: e[0]))
    exact = plan['how'] != 'text' and plan['how'] != 'bytes'
    pos = 0
    lost = False            # position in the source unknown (buffered reader threw half-way)
    allowed = None
    for n, what in enumerate(plan['ask'] * 2):
        markers = [pemsim.marker(k) for k in what]
        try:
            gi, gs = pem.readPemBlocksFromFile(src, *markers)
        except tuple({type(e) for e in errors.values()} or {OSError}) as e:
            if any(e is x for x in errors.values()):
                rec.ev('error', n, type(e).__name__)
                rec.count('errors surfaced unchanged')
                if exact:
                    pos = src.pos
                else:
                    lost = True
                continue
            if not isinstance(e, ValueError):
                rec.bad('error-changed', 'call %d: %r is not the error of the source' % (n, e))
            bad = e
        except ValueError as e:
            bad = e
        else:
            bad = None
        if bad is not None:
            # bad base64 (or undecodable text): legitimate only if the next block really is bad
            rec.ev('valueerror', n)
            if lost:
                continue
            wi, body, pos = pemsim.ref_read(stripped, pos, markers)
            rec.check(body is not None and None in lenient(body), 'spurious-error',
                      lambda: 'call %d raised %r on block %s' % (n, bad, core.brief(body)))
            rec.count('bad base64 reported')
            continue
        rec.count('reader calls')
        rec.ev('call', n, gi, bytes(gs).hex() if gs else '')
        if lost:
            # only containment: what comes back must be one block's content
            if gs:
                cands = []
                for start in range(len(stripped)):
                    wi, body, _ = pemsim.ref_read(stripped, start, markers)
                    if body is not None:
                        cands += lenient(body)
                rec.check(bytes(gs) in cands, 'mixed', 'call %d after an error returned %s, no block holds it'
                          % (n, core.brief(bytes(gs).hex())))
            continue
        wi, body, npos = pemsim.ref_read(stripped, pos, markers)
        if body is None:
            rec.check(not gs, 'partial', 'call %d returned %s though no complete block is left'
                      % (n, core.brief(bytes(gs or b'').hex())))
            if wi == -1:
                rec.check(gi == -1, 'no-block-index', 'index %r though no block began' % gi)
            rec.reach('truncated' if wi >= 0 else 'none')
            pos = npos
            if any(k >= pos for k in errors):
                continue
            break
        pos = npos
        ok = [x for x in lenient(body) if x is not None]
        rec.check(bytes(gs or b'') in ok, 'mixed', lambda: 'call %d returned %s, the block between its own start and '
                  'stop lines is %s' % (n, core.brief(bytes(gs or b'').hex()), [core.brief(x.hex()) for x in ok]))
        rec.check(gi == wi, 'index', 'call %d: index %r, block of kind %d' % (n, gi, wi))
        rec.count('blocks delivered')
        rec.reach('delivered')
