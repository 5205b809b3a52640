"""The simulated independent peer's own ASN.1 stack.

No pyasn1 here: a small DER encoder (and a BER "dialect" encoder) driven by the
frozen wire model in dst/model/wire.json, a value generator and a constraint
evaluator.  It is the reference model the real modules are compared with.

Model values are plain data:
  Integer/Enumerated int | Boolean bool | Null 0 | OctetString/Any hex str |
  BitString '0101' | ObjectIdentifier [arcs] | strings/times str |
  Sequence/Set {name: value} | Choice [name, value] | *Of [values] | Real str
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

UNIV = {'Boolean': 1, 'Integer': 2, 'BitString': 3, 'OctetString': 4, 'Null': 5,
        'ObjectIdentifier': 6, 'ObjectDescriptor': 7, 'Real': 9, 'Enumerated': 10,
        'UTF8String': 12, 'Sequence': 16, 'SequenceOf': 16, 'Set': 17, 'SetOf': 17,
        'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20,
        'VideotexString': 21, 'IA5String': 22, 'UTCTime': 23, 'GeneralizedTime': 24,
        'GraphicString': 25, 'VisibleString': 26, 'GeneralString': 27,
        'UniversalString': 28, 'BMPString': 30}

ENC = {'UTF8String': 'utf-8', 'NumericString': 'us-ascii', 'PrintableString': 'us-ascii',
       'TeletexString': 'iso-8859-1', 'VideotexString': 'iso-8859-1', 'IA5String': 'us-ascii',
       'GraphicString': 'iso-8859-1', 'VisibleString': 'us-ascii', 'GeneralString': 'iso-8859-1',
       'UniversalString': 'utf-32-be', 'BMPString': 'utf-16-be',
       'ObjectDescriptor': 'iso-8859-1', 'GeneralizedTime': 'us-ascii', 'UTCTime': 'us-ascii'}

STRINGS = frozenset(ENC)
CONSTRUCTED = frozenset(('Sequence', 'Set', 'SequenceOf', 'SetOf', 'Choice'))


class Model:
    def __init__(self, path=None):
        with open(path or os.path.join(HERE, 'model', 'wire.json')) as f:
            d = json.load(f)
        self.nodes = d['nodes']
        self.types = d['types']           # 'rfcN.Class' -> node index
        self.registries = d['registries']
        self.modules = d['modules']
        self.oids = d['oids']
        self.deps = d['deps']
        self.aliases = d['aliases']       # 'rfcN.Name' -> node: re-exported types, schema objects
        self.final = d['final']           # registry -> key -> node, with every module imported
        self.mapnames = d['mapnames']     # registry -> every public name of it
        self.consts = d['consts']         # 'rfcN.name' -> [node, value]

    def node(self, ref):
        return self.nodes[ref] if isinstance(ref, int) else ref


# ---------------------------------------------------------------- encoding

def enc_len(n):
    if n < 128:
        return bytes((n,))
    s = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes((0x80 | len(s),)) + s


def enc_tag(cls, cons, num):
    if num < 31:
        return bytes((cls | (0x20 if cons else 0) | num,))
    out = [num & 0x7f]
    num >>= 7
    while num:
        out.insert(0, 0x80 | (num & 0x7f))
        num >>= 7
    return bytes((cls | (0x20 if cons else 0) | 0x1f,)) + bytes(out)


def enc_int(v):
    n = max(1, (v.bit_length() + 8) // 8 if v >= 0 else ((v + 1).bit_length() + 8) // 8)
    return v.to_bytes(n, 'big', signed=True)


def enc_oid(arcs):
    out = b''
    for i, a in enumerate([arcs[0] * 40 + arcs[1]] + list(arcs[2:])):
        c = [a & 0x7f]
        a >>= 7
        while a:
            c.insert(0, 0x80 | (a & 0x7f))
            a >>= 7
        out += bytes(c)
    return out


def enc_real(v):
    # only the two simple forms the generator makes
    if v == '0':
        return b''
    raise ValueError(v)


class Codec:
    """rule: 'der' | 'ber' (ber with the given rng picks legal alternatives) | 'lax' (here and there
    not DER, in ways a lenient DER decoder does not notice)."""

    def __init__(self, model, rule='der', rng=None):
        self.m = model
        self.rate = rng.choice((0.01, 0.05, 0.3)) if rule == 'lax' else 0
        self.rule = rule
        self.rng = rng

    def _len(self, n):
        if self.rule == 'ber' and self.rng and self.rng.random() < 0.25:
            s = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
            s = b'\0' * self.rng.randrange(3) + s
            return bytes((0x80 | len(s),)) + s
        if self.lax():
            s = b'\0' * self.rng.choice((0, 0, 1)) + n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
            return bytes((0x80 | len(s),)) + s
        return enc_len(n)

    def lax(self):
        return self.rate and self.rng.random() < self.rate

    def content(self, node, v):
        k = node['k']
        if k in ('Integer', 'Enumerated'):
            return (b'\xff' if v < 0 else b'\0') * bool(self.lax()) + enc_int(v), False
        if k == 'Boolean':
            if not v:
                return b'\0', False
            if self.rule == 'ber' and self.rng:
                return bytes((self.rng.choice((1, 255, 128)),)), False
            return b'\xff', False
        if k == 'Null':
            return b'', False
        if k == 'BitString':
            pad = -len(v) % 8
            b = v + '01'[bool(self.lax())] * pad
            return bytes((pad,)) + bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8)), False
        if k in ('OctetString', 'Any'):
            return bytes.fromhex(v), False
        if k == 'ObjectIdentifier':
            return enc_oid(v), False
        if k in STRINGS:
            return v.encode(ENC[k]), False
        if k == 'Real':
            return enc_real(v), False
        if k == 'Choice':
            for f in node['f']:
                if f['n'] == v[0]:
                    return self.encode(f['o'], v[1]), True
            raise KeyError(v[0])
        if k in ('SequenceOf', 'SetOf'):
            parts = [self.encode(node['e'], x) for x in v]
            if k == 'SetOf' and self.rule != 'ber':
                ml = max([len(p) for p in parts] or [0])
                parts.sort(key=lambda p: p.ljust(ml, b'\0'), reverse=bool(self.lax()))
            return b''.join(parts), True
        if k in ('Sequence', 'Set'):
            parts = []
            for f in node['f']:
                if f['n'] not in v:
                    continue
                x = v[f['n']]
                if 'def' in f and x == f['def'] and not (
                        self.rule == 'ber' and self.rng and self.rng.random() < 0.5 or self.lax()):
                    continue
                parts.append((self.outer(f['o'], x), self.encode(f['o'], x)))
            if k == 'Set':
                if self.rule != 'ber':
                    parts.sort(key=lambda p: p[0], reverse=bool(self.lax()))
                elif self.rng:
                    self.rng.shuffle(parts)
            return b''.join(p for _, p in parts), True
        raise ValueError(k)

    def outer(self, ref, v):
        """Outermost (class, number) on the wire."""
        if v == ALIEN:
            return (0xc0, 6021)
        node = self.m.node(ref)
        if node['t']:
            c, _, n = node['t'][-1]
            return (c, n)
        if node['k'] == 'Choice':
            for f in node['f']:
                if f['n'] == v[0]:
                    return self.outer(f['o'], v[1])
        if node['k'] == 'Any':
            b = bytes.fromhex(v)
            return (b[0] & 0xc0, b[0] & 0x1f)
        raise ValueError(node['k'])

    def encode(self, ref, v):
        if v == ALIEN:
            return enc_tag(0xc0, False, 6021) + b'\x01\x2a'
        node = self.m.node(ref)
        body, cons = self.content(node, v)
        ber = self.rule == 'ber' and self.rng
        for i, (c, f, n) in enumerate(node['t']):
            isc = bool(f) or cons
            if (ber and i == 0 and not isc and node['k'] in ('OctetString',) and len(body) > 1
                    and self.rng.random() < 0.15):
                cut = self.rng.randrange(1, len(body))
                body = b''.join(b'\x04' + self._len(len(p)) + p for p in (body[:cut], body[cut:]))
                isc = True
            # indefinite lengths: plain (not re-tagged) SEQUENCEs only, elsewhere the
            # pyasn1 release in use has defects of its own
            if ber and len(node['t']) == 1 and c == 0 and n == 16 and self.rng.random() < 0.25:
                body = enc_tag(c, True, n) + b'\x80' + body + b'\0\0'
            else:
                body = enc_tag(c, isc, n) + self._len(len(body)) + body
        return body


# ---------------------------------------------------------------- constraints

def inf(x):
    return float('inf') if x == 'inf' else float('-inf') if x == '-inf' else x


def _size(node, v):
    if node['k'] == 'Choice':
        return 1
    return len(v) // 2 if node['k'] in ('OctetString', 'Any') else len(v)


def _eqv(node, lit, v):
    t, x = lit
    k = node['k']
    if k == 'Null':
        return True
    if k in ('Integer', 'Enumerated', 'Boolean'):
        return t in ('int', 'bool') and int(x) == int(v)
    if k in STRINGS:
        return t == 'str' and x == v
    if k == 'OctetString':
        return (t == 'hex' and x == v) or (t == 'str' and x.encode('latin-1').hex() == v)
    if k == 'ObjectIdentifier':
        return t == 'oid' and list(x) == list(v)
    if k == 'BitString':
        return t == 'bits' and x == v
    return False


def holds(node, c, v):
    """Does value v (of node) satisfy constraint expression c?"""
    if not c:
        return True
    cls, a = c
    if cls == 'ConstraintsIntersection':
        return all(holds(node, x, v) for x in a)
    if cls == 'ConstraintsUnion':
        return any(holds(node, x, v) for x in a)
    if cls == 'ConstraintsExclusion':
        return not any(holds(node, x, v) for x in a)
    if cls == 'ContainedSubtypeConstraint':
        return all(holds(node, x, v) for x in a)
    if cls == 'ValueRangeConstraint':
        return inf(a[0]) <= v <= inf(a[1])
    if cls == 'ValueSizeConstraint':
        return inf(a[0]) <= _size(node, v) <= inf(a[1])
    if cls == 'SingleValueConstraint':
        return any(_eqv(node, x, v) for x in a)
    if cls == 'PermittedAlphabetConstraint':
        ok = set(x[1] for x in a)
        return all(ch in ok for ch in v)
    if cls == 'WithComponentsConstraint':
        for name, sub in a:
            if sub[0] == 'ComponentPresentConstraint' and name not in v:
                return False
            if sub[0] == 'ComponentAbsentConstraint' and name in v:
                return False
        return True
    if cls == 'True':
        return True
    raise ValueError('constraint %r' % (cls,))


def numbers(c, what, out):
    """Collect the boundary numbers that appear in constraint c."""
    if not c:
        return out
    cls, a = c
    if cls == what:
        if cls == 'SingleValueConstraint':
            out.extend(x[1] for x in a)
        else:
            out.extend(x for x in a if isinstance(x, int))
    elif cls.startswith('Constraints') or cls == 'ContainedSubtypeConstraint':
        for x in a:
            if isinstance(x, list) and len(x) == 2 and isinstance(x[1], list):
                numbers(x, what, out)
    return out


def alphabet(c):
    if not c:
        return None
    cls, a = c
    if cls == 'PermittedAlphabetConstraint':
        return [x[1] for x in a]
    if cls == 'ConstraintsIntersection':
        got = [s for s in (alphabet(x) for x in a if isinstance(x, list)) if s is not None]
        if got:
            s = set(got[0])
            for g in got[1:]:
                s &= set(g)
            return [ch for ch in got[0] if ch in s]
    return None


# ---------------------------------------------------------------- generation

PRINTABLE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 \'()+,-./:=?'


def quirk(v):
    """-2**(8n-1): the pyasn1 release in use encodes these one octet too long."""
    return v < 0 and v == -(1 << (8 * len(enc_int(v)) - 1))


def hollow(m, ref, v):
    """A structure that encodes to nothing, seen through choices and lists: as (part of) an
    OPTIONAL component the pyasn1 release in use takes it for absent."""
    node = m.node(ref)
    k = node['k']
    if k == 'Choice':
        for f in node['f']:
            if f['n'] == v[0] and v[1] != ALIEN:
                return hollow(m, f['o'], v[1])
        return False
    if k in ('SequenceOf', 'SetOf'):
        return not v or any(hollow(m, node['e'], x) for x in v)
    if k in ('Sequence', 'Set'):
        return all('def' in f and v[f['n']] == f['def'] for f in node['f'] if f['n'] in v)
    return False


class Unsatisfiable(Exception):
    pass


def half_default(f, v):
    """The DEFAULT algorithm, with parameters present in one and absent in the other."""
    d = f.get('def')
    return (isinstance(d, dict) and isinstance(v, dict) and set(d) != set(v)
            and all(d[k] == v[k] for k in d if k in v))


class Gen:
    """Seeded generator of model values for a node."""

    def __init__(self, model, rng, depth=6, fill=0.5, maxlen=3, openp=0.0):
        self.m = model
        self.rng = rng
        self.depth = depth
        self.fill = fill
        self.maxlen = maxlen
        self.openp = openp            # how often an open type field carries a registered type
        self.opens = False            # receiver opens open types: registered identifiers need true content
        self.skip = ()                # (registry, key) never to use

    def pick_len(self, node, lo=0, hi=40):
        c = node.get('c')
        b = numbers(c, 'ValueSizeConstraint', [])
        rng = self.rng
        small = [x for x in b if x <= 400]
        cand = []
        if small and rng.random() < 0.6:
            cand.append(rng.choice(small))
        cand.append(rng.randrange(lo, hi))
        if b:
            l, h = min(b), min(max(b), min(b) + 300)
            cand.append(rng.randint(l, max(l, h)))
            cand.extend(small)
            cand.append(min(b))
        return cand

    def text(self, node, n):
        k = node['k']
        rng = self.rng
        al = alphabet(node.get('c'))
        if al:
            pool = al
        elif k == 'NumericString':
            pool = '0123456789 '
        elif k == 'PrintableString':
            pool = PRINTABLE
        elif k == 'UTF8String':
            pool = PRINTABLE + '@*_\u00e9\u4e2d\U0001f511'
        elif k == 'BMPString':
            pool = PRINTABLE + '@*_\u00e9\u4e2d'
        elif k == 'UniversalString':
            pool = PRINTABLE + '@*_\u00e9\u4e2d\U0001f511'
        elif k in ('TeletexString', 'GraphicString', 'GeneralString', 'VideotexString',
                   'ObjectDescriptor'):
            pool = PRINTABLE + '@*_\u00e9'
        else:
            pool = PRINTABLE + '@*_!"#$%&;<>[]^`{|}~'
        return ''.join(rng.choice(pool) for _ in range(n))

    def gtime(self, utc):
        r = self.rng
        s = '%02d%02d%02d%02d%02dZ' % (r.randint(1, 12), r.randint(1, 28), r.randrange(24),
                                       r.randrange(60), r.randrange(60))
        if utc:
            return '%02d' % r.randrange(100) + s
        return '%04d' % r.randint(1950, 2199) + s

    def simple(self, node):
        k = node['k']
        r = self.rng
        c = node.get('c')
        if k in ('Integer', 'Enumerated'):
            nv = list(node.get('v', {}).values())
            sv = [x for x in numbers(c, 'SingleValueConstraint', []) if isinstance(x, int)]
            rb = numbers(c, 'ValueRangeConstraint', [])
            cand = []
            if nv and (k == 'Enumerated' or r.random() < 0.6):
                cand.append(r.choice(nv))
            if sv:
                cand.append(r.choice(sv))
            if rb:
                if r.random() < 0.6:
                    cand.append(r.choice(rb))
                lo, hi = min(rb), max(rb)
                cand.append(r.randint(lo, hi) if lo < hi else lo + r.randrange(1000))
                cand.extend(rb)
            cand.append(r.choice((0, 1, 2, 127, 128, 255, 256, 65535, -1, -127, -129,
                                  r.getrandbits(31), r.getrandbits(63), -r.getrandbits(40),
                                  r.getrandbits(160))))
            cand.extend(nv)
            cand.extend(sv)
            cand.extend((0, 1))
            for v in cand:
                if holds(node, c, v) and not quirk(v):
                    return v
            raise Unsatisfiable(k)
        if k == 'Boolean':
            v = r.random() < 0.5
            if not holds(node, c, v):
                v = not v
            if not holds(node, c, v):
                raise Unsatisfiable(k)
            return v
        if k == 'Null':
            return 0
        if k == 'BitString':
            nv = list(node.get('v', {}).values())
            cands = self.pick_len(node, 0, 70)
            if nv and r.random() < 0.7:
                cands = [max(nv) + 1] + cands
            for n in cands:
                v = ''.join(r.choice('01') for _ in range(n))
                if holds(node, c, v):
                    return v
            raise Unsatisfiable(k)
        if k == 'OctetString':
            sv = [x for x in numbers(c, 'SingleValueConstraint', [])]
            for s in sv:
                h = s if isinstance(s, str) and not _has_nonhex(s) else None
                if h is not None and holds(node, c, h):
                    return h
            for n in self.pick_len(node):
                v = bytes(r.getrandbits(8) for _ in range(n)).hex()
                if holds(node, c, v):
                    return v
            raise Unsatisfiable(k)
        if k == 'ObjectIdentifier':
            sv = [x for x in numbers(c, 'SingleValueConstraint', []) if isinstance(x, list)]
            if sv:
                return list(r.choice(sv))
            n = r.randrange(0, 8)
            first = r.choice(((1, 2), (1, 3), (2, 5), (2, 16), (0, 9), (2, 23), (1, 0), (0, 0)))
            return list(first) + [r.choice((0, 1, 6, 113549, 127, 128, 840, r.getrandbits(28)))
                                  for _ in range(n + 1)]
        if k in ('GeneralizedTime', 'UTCTime'):
            return self.gtime(k == 'UTCTime')
        if k in STRINGS:
            sv = [x for x in numbers(c, 'SingleValueConstraint', []) if isinstance(x, str)]
            if sv:
                v = r.choice(sv)
                if holds(node, c, v):
                    return v
            for n in self.pick_len(node):
                v = self.text(node, n)
                if holds(node, c, v):
                    return v
            raise Unsatisfiable(k)
        if k == 'Any':
            return self.any_blob()
        if k == 'Real':
            return '0'
        raise ValueError(k)

    def any_blob(self):
        r = self.rng
        w = r.randrange(6)
        if w == 0:
            return '0500'
        if w == 1:
            return (b'\x02' + b'\x02' + bytes((r.randrange(1, 100), r.randrange(256)))).hex()
        if w == 2:
            b = bytes(r.getrandbits(8) for _ in range(r.randrange(0, 20)))
            return (b'\x04' + enc_len(len(b)) + b).hex()
        if w == 3:
            return '3006020101010100'
        if w == 4:
            b = bytes(r.getrandbits(8) for _ in range(r.randrange(128, 140)))
            return (b'\x04' + enc_len(len(b)) + b).hex()
        b = b'some text'[:r.randrange(0, 9)]
        return (b'\x0c' + enc_len(len(b)) + b).hex()

    def value(self, ref, depth=0, force=None):
        """force: name of a component/alternative that must be present at the top."""
        node = self.m.node(ref)
        k = node['k']
        r = self.rng
        if k not in CONSTRUCTED:
            return self.simple(node)
        deep = depth >= self.depth
        if k == 'Choice':
            names = [f['n'] for f in node['f']]
            if force in names:
                order = [force]
            else:
                order = names[:]
                r.shuffle(order)
                if deep:
                    order.sort(key=lambda n: weight(self.m, [f['o'] for f in node['f'] if f['n'] == n][0]))
            last = None
            for n in order:
                f = [f for f in node['f'] if f['n'] == n][0]
                try:
                    return [n, self.value(f['o'], depth + 1)]
                except Unsatisfiable as e:
                    last = e
            raise last or Unsatisfiable('Choice')
        if k in ('SequenceOf', 'SetOf'):
            if node['e'] is None:
                return []
            c = node.get('c')
            cands = self.pick_len(node, 1, self.maxlen + 1)
            cands = [min(x, 40) if x > 40 else x for x in cands]
            if deep:
                cands = sorted(cands)
            if not c and depth:
                cands = [max(1, x) for x in cands]
            for n in cands:
                if holds(node, c, [0] * n):
                    if n > 6:
                        first = self.value(node['e'], self.depth)
                        return [first] * n
                    return [self.value(node['e'], depth + 1) for _ in range(n)]
            raise Unsatisfiable(k)
        # Sequence / Set
        c = node.get('c')
        for attempt in range(60):
            out = {}
            for f in node['f']:
                must = not ('opt' in f or 'def' in f)
                if not must and f['n'] != force:
                    p = self.fill if not deep else min(self.fill, 0.08)
                    if self.fill == 1.0 and depth:
                        p = 0.3
                    if attempt > 10:
                        p = r.random()
                    if r.random() > p:
                        continue
                try:
                    out[f['n']] = self.value(f['o'], depth + 1)
                except Unsatisfiable:
                    if must or f['n'] == force:
                        raise
                if 'opt' in f and f['n'] in out and hollow(self.m, f['o'], out[f['n']]):
                    del out[f['n']]
            if holds(node, c, out):
                filled = set()
                if self.openp and r.random() < self.openp:
                    self.fill_open(node, out, depth, filled=filled)
                if self.opens:
                    self.settle(node, out, depth, filled)
                    for f in node['f']:     # known finding of P09, not to be met by chance
                        if half_default(f, out.get(f['n'])):
                            del out[f['n']]
                return out
        raise Unsatisfiable(k)

    def settle(self, node, out, depth, filled):
        """No arbitrary octets under an identifier that happens to be registered."""
        for f in node['f']:
            if 'open' not in f or f['n'] not in out or f['n'] in filled:
                continue
            g, reg = f['open']
            k = keystr(out[g])
            if k not in (self.m.final.get(reg) or {}) or self.fill_open(node, out, depth, f['n'], k):
                continue
            out[g] = out[g] + 100000 if isinstance(out[g], int) else out[g] + [4242]
            if not holds(self.m.node(self._field(node, g)['o']), self.m.node(self._field(node, g)['o']).get('c'), out[g]):
                raise Unsatisfiable('open')

    def wraps(self, f, ref):
        """The pyasn1 release in use wraps an opened value into the octet string that carries
        it only if its tag differs."""
        sub = self.m.node(f['o'])
        return sub['k'] != 'OctetString' or self.m.node(ref)['t'] != sub['t']

    def fill_open(self, node, out, depth, only=None, key=None, filled=None):
        """Put values of registered types into the open type fields of a value."""
        r = self.rng
        done = None
        for f in node['f']:
            if 'open' not in f or f['n'] not in out or (only and f['n'] != only):
                continue
            g, reg = f['open']
            entries = self.m.final.get(reg) or {}
            gov = self._field(node, g)
            keys = [key] if key else [k for k in sorted(entries)
                                      if (reg, k) not in self.skip and self.wraps(f, entries[k])]
            keys = [k for k in keys if holds(self.m.node(gov['o']), self.m.node(gov['o']).get('c'), keyval(k))]
            if not keys:
                continue
            k = r.choice(keys)
            try:
                n = len(out[f['n']]) if isinstance(out[f['n']], list) else 1
                vals = [self.value(entries[k], depth + 2) for _ in range(min(n, 4))]
            except Unsatisfiable:
                continue
            if any(hollow(self.m, entries[k], v) for v in vals):
                continue
            vals += vals[:1] * (n - len(vals))
            blobs = [Codec(self.m).encode(entries[k], v).hex() for v in vals]
            out[g] = keyval(k)
            out[f['n']] = blobs if isinstance(out[f['n']], list) else blobs[0]
            done = (k, entries[k], vals)
            if filled is not None:
                filled.add(f['n'])
        return done

    def aimed(self, ref, path, what, arg, depth=0):
        """A value that hits a target (see targets.py): the component at `path` is
        present / has value arg / has arg elements; or (malformed) is missing,
        carries an unknown tag, has a disallowed value or number of elements."""
        node = self.m.node(ref)
        k = node['k']
        r = self.rng
        if not path:
            if what in ('lean', 'full'):
                keep, self.fill = self.fill, 0.0 if what == 'lean' else 1.0
                try:
                    v = self.value(ref, depth)
                finally:
                    self.fill = keep
                return v
            if what in ('leaf', 'out', 'value'):
                return arg
            if what in ('len', 'size'):
                if not arg:
                    return []
                if arg > 6:
                    return [self.value(node['e'], self.depth)] * arg
                return [self.value(node['e'], depth + 1) for _ in range(arg)]
            for i in range(20):
                f = node.get('f')
                v = self.value(ref, depth, r.choice(f)['n'] if f else None)
                if not hollow(self.m, ref, v):
                    return v
            return v
        head, rest = path[0], path[1:]
        last = what in ('miss', 'bare', 'tag') and not rest
        if k == 'Choice':
            f = self._field(node, head)
            if last:
                return [head, ALIEN]
            return [head, self.aimed(f['o'], rest, what, arg, depth + 1)]
        if k in ('SequenceOf', 'SetOf'):
            v = [self.aimed(node['e'], rest, what, arg, depth + 1)]
            c = node.get('c')
            n = r.randrange(1, self.maxlen + 1)
            if not holds(node, c, [0] * n):
                ok = [x for x in self.pick_len(node, 1, 5) if x and holds(node, c, [0] * x)]
                if not ok:
                    raise Unsatisfiable(k)
                n = min(ok)
            while len(v) < n:
                v.insert(r.randrange(len(v) + 1),
                         self.value(node['e'], self.depth if n > 6 else depth + 1))
            return v
        f = self._field(node, head)
        for attempt in range(60):
            out = self.value(ref, depth, head if attempt < 20 else None)
            if last and what == 'bare':
                return {g['n']: out[g['n']] for g in node['f']
                        if g['n'] in out and g is not f and not ('opt' in g or 'def' in g)}
            if not last:
                out[head] = self.aimed(f['o'], rest, what, arg, depth + 1)
                if 'opt' in f and hollow(self.m, f['o'], out[head]):
                    raise Unsatisfiable('hollow')
            if holds(node, node.get('c'), out):
                if last:
                    if what == 'miss':
                        out.pop(head, None)
                    else:
                        out[head] = ALIEN
                return out
        raise Unsatisfiable(k)

    def _field(self, node, name):
        for f in node['f']:
            if f['n'] == name:
                return f
        raise KeyError(name)


def keyval(k):
    """Registry key as a model value."""
    return int(k[4:]) if k.startswith('int:') else [int(a) for a in k.split('.')]


def keystr(v):
    return 'int:%d' % v if isinstance(v, int) else '.'.join(map(str, v))


ALIEN = '\0alien'           # stands for an element with a tag of its own


def _has_nonhex(s):
    try:
        bytes.fromhex(s)
        return False
    except ValueError:
        return True


_W = {}


def weight(model, ref, stack=0):
    """Rough size of the smallest value of a node (to bottom out recursion early)."""
    if isinstance(ref, int) and ref in _W:
        return _W[ref]
    node = model.node(ref)
    k = node['k']
    if k == 'Choice':
        w = 1 + min([weight(model, f['o']) for f in node['f']] or [0])
    elif k in ('Sequence', 'Set'):
        w = 1 + sum(weight(model, f['o']) for f in node['f'] if 'opt' not in f and 'def' not in f)
    elif k in ('SequenceOf', 'SetOf'):
        w = 1 + (weight(model, node['e']) if node['e'] is not None else 0)
    else:
        w = 1
    if isinstance(ref, int):
        _W[ref] = w
    return w


def with_defaults(model, ref, v):
    """The abstract value: absent DEFAULT components filled in."""
    node = model.node(ref)
    k = node['k']
    if k == 'Choice':
        for f in node['f']:
            if f['n'] == v[0]:
                return [v[0], with_defaults(model, f['o'], v[1])]
    if k in ('SequenceOf', 'SetOf'):
        return [with_defaults(model, node['e'], x) for x in v]
    if k in ('Sequence', 'Set'):
        out = {}
        for f in node['f']:
            if f['n'] in v:
                out[f['n']] = with_defaults(model, f['o'], v[f['n']])
            elif 'def' in f:
                out[f['n']] = with_defaults(model, f['o'], f['def'])
        return out
    return v
