"""One message through the real modules, judged against the frozen model: what the
concurrency, import and history properties use as their probe."""
import random

from . import bridge, session, wire
from .core import brief


class Probe:
    """A value of a published type with its octets, made by the peer."""

    def __init__(self, m, t, seed, opens=False, skip=(), key=None, field=None, depth=None, rot=0):
        rng = random.Random(seed)
        gen = wire.Gen(m, rng, depth=depth or rng.choice((2, 3, 4)), openp=0.6 if opens else 0)
        gen.skip = skip
        gen.opens = opens
        self.m = m
        self.t = t
        self.opens = opens
        self.ref = m.types[t] if t in m.types else m.aliases[t]
        self.key = key
        if key:
            self.v = gen.aimed(self.ref, [field], 'has', None)
            if gen.fill_open(m.node(self.ref), self.v, 0, field, key) is None:
                raise wire.Unsatisfiable(key)
        else:
            self.v = gen.value(self.ref)
        if rot:
            self.v = rotated(m, self.ref, self.v, rot)
        self.codec = wire.Codec(m)
        self.der = self.codec.encode(self.ref, self.v)
        self.want = session.canon(m, self.codec, self.ref, wire.with_defaults(m, self.ref, self.v))

    def known(self, f, key):
        return wire.keystr(key) in (self.m.final.get(f['open'][1]) or {})

    def site(self):
        return '%s%s' % (self.t, '(open%s)' % ('=' + self.key if self.key else '') if self.opens else '')

    def check(self, bad, spec, decode=None, encode=None, build=True, opened=None):
        """Decode, compare, re-encode, build; bad(key, msg) on each disagreement.
        opened(f, key): which open type fields open (all registered ones by default)."""
        decode = decode or session.der_decoder.decode
        encode = encode or session.der_encoder.encode
        s = self.site()
        opts = {'decodeOpenTypes': True} if self.opens else {}
        x = spec() if isinstance(spec, type) else spec
        hexd = brief(self.der.hex(), 300)
        try:
            obj, rest = decode(self.der, asn1Spec=x, **opts)
        except Exception as e:
            return bad('reject:' + s, 'refused: %s; octets %s' % (session.errtext(e), hexd))
        if rest:
            bad('rest:' + s, '%d octets left over; octets %s' % (len(rest), hexd))
        try:
            got = session.canon(self.m, self.codec, self.ref, bridge.extract(
                self.m, self.ref, obj, opened=(opened or self.known) if self.opens else None))
        except bridge.Mismatch as e:
            return bad('shape:' + s, '%s; octets %s' % (brief(str(e), 300), hexd))
        if got != self.want:
            bad('value:' + s, '%s; octets %s' % (session.diff(self.want, got), hexd))
        try:
            again = encode(decode(self.der, asn1Spec=x, **opts)[0])
        except Exception as e:
            return bad('encode:' + s, 'does not encode again: %s; octets %s' % (session.errtext(e), hexd))
        if again != self.der:
            bad('octets:' + s, 're-encodes as %s what came as %s' % (brief(again.hex(), 300), hexd))
        if build and isinstance(spec, type):
            try:
                mine = encode(bridge.build(self.m, self.ref, self.v, spec()))
            except Exception as e:
                return bad('made:' + s, 'cannot be built: %s; octets %s' % (session.errtext(e), hexd))
            if mine != self.der:
                bad('made:' + s, 'built as %s, should be %s' % (brief(mine.hex(), 300), hexd))


def rotated(m, ref, v, n):
    """The same value with the elements of every SEQUENCE OF in another order."""
    node = m.node(ref)
    if node['k'] in ('SequenceOf', 'SetOf'):
        out = [rotated(m, node['e'], x, n) for x in v]
        return out[n % len(out):] + out[:n % len(out)] if out and node['k'] == 'SequenceOf' else out
    if node['k'] == 'Choice':
        return [v[0]] + [rotated(m, f['o'], v[1], n) for f in node['f'] if f['n'] == v[0]]
    if node['k'] in ('Sequence', 'Set'):
        parallel = any('open' in f for f in node['f'])
        return {f['n']: v[f['n']] if parallel else rotated(m, f['o'], v[f['n']], n) for f in node['f'] if f['n'] in v}
    return v


def probes(m, names, rng, n, opens=0.3, skip=(), depth=None):
    """n probes for names drawn from a list (fewer where nothing satisfies the constraints)."""
    out = []
    for i in range(n):
        t = rng.choice(names)
        try:
            out.append(Probe(m, t, rng.getrandbits(32), rng.random() < opens, skip, depth=depth))
        except wire.Unsatisfiable:
            pass
    return out
