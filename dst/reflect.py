"""Turn a live pyasn1 schema object into a plain-data wire model (JSON-able).

Only public, observable attributes of the schema object are read (its tags,
constraints, named values, components, open-type bindings), never source text.

Used (a) once, to freeze `dst/model/*.json`, the wire format of the published
release that the simulated independent peers speak, and (b) at run time to
compare what a registry entry means structurally (property P04/P05).
"""
import hashlib
import json

KINDS = ('Boolean', 'Enumerated', 'Integer', 'BitString', 'Any', 'Null',
         'ObjectIdentifier', 'Real',
         'UTF8String', 'NumericString', 'PrintableString', 'TeletexString',
         'T61String', 'VideotexString', 'IA5String', 'GraphicString',
         'VisibleString', 'ISO646String', 'GeneralString', 'UniversalString',
         'BMPString', 'ObjectDescriptor', 'GeneralizedTime', 'UTCTime',
         'OctetString', 'Choice', 'SequenceOf', 'SetOf', 'Sequence', 'Set')


class Reflector:
    """`mapname(dict) -> 'module.attr' or None` names registries by identity."""

    def __init__(self, mapname=lambda d: None):
        from pyasn1.type import univ, char, useful, constraint, base
        self.univ, self.char, self.useful = univ, char, useful
        self.constraint = constraint
        self.base = base
        self.mapname = mapname
        self.kindcls = []
        for k in KINDS:
            for m in (univ, char, useful):
                c = vars(m).get(k)
                if isinstance(c, type):
                    self.kindcls.append((k, c))
                    break
        self.bykind = dict(self.kindcls)

    def kind(self, o):
        for c in type(o).__mro__:
            for k, kc in self.kindcls:
                if c is kc:
                    if k == 'T61String':
                        k = 'TeletexString'
                    if k == 'ISO646String':
                        k = 'VisibleString'
                    return k
        raise TypeError('unknown kind %r' % (type(o),))

    # -- constraints
    def cons(self, c):
        if not c:
            return None
        cls = type(c).__name__
        C = self.constraint
        vals = c._values
        if isinstance(c, C.WithComponentsConstraint):
            args = [[f, self.cons2(x)] for f, x in vals]
        elif isinstance(c, (C.ComponentPresentConstraint, C.ComponentAbsentConstraint)):
            args = []
        elif isinstance(c, C.InnerTypeConstraint):
            args = [repr(vals)]
        elif isinstance(c, C.ValueRangeConstraint):   # also ValueSize
            args = [self.num(vals[0]), self.num(vals[1])]
        else:
            args = [self.cons2(x) for x in vals]
        return [cls, args]

    def num(self, v):
        if isinstance(v, float):
            if v == float('inf'):
                return 'inf'
            if v == float('-inf'):
                return '-inf'
        return int(v)

    def cons2(self, x):
        if isinstance(x, self.constraint.AbstractConstraint):
            return self.cons(x) or ['True', []]
        return self.plain(x)

    def plain(self, x):
        u = self.univ
        if isinstance(x, bool):
            return ['bool', x]
        if isinstance(x, int):
            return ['int', x]
        if isinstance(x, float):
            return ['float', repr(x)]
        if isinstance(x, str):
            return ['str', x]
        if isinstance(x, bytes):
            return ['hex', x.hex()]
        if isinstance(x, self.base.Asn1Item):
            if isinstance(x, u.ObjectIdentifier):
                return ['oid', list(x.asTuple())]
            if isinstance(x, self.char.AbstractCharacterString):
                return ['str', str(x)]
            if isinstance(x, (u.Integer, u.Boolean)):
                return ['int', int(x)]
            if isinstance(x, u.BitString):
                return ['bits', x.asBinary()]
            if isinstance(x, u.OctetString):
                return ['hex', x.asOctets().hex()]
            if isinstance(x, u.Null):
                return ['null', 0]
        return ['repr', repr(x)]

    # -- values of schema objects holding a value (defaults)
    def value(self, o):
        u = self.univ
        k = self.kind(o)
        if k in ('Sequence', 'Set'):
            out = {}
            for i, nt in enumerate(o.componentType.namedTypes):
                c = o.getComponentByPosition(i, instantiate=False)
                if c is not u.noValue and c.isValue:
                    if self.kind(nt.asn1Object) == 'Any' and not isinstance(c, u.Any):
                        from pyasn1.codec.der import encoder
                        out[nt.name] = encoder.encode(c).hex()
                    else:
                        out[nt.name] = self.value(c)
            return out
        if k == 'Choice':
            return [o.getName(), self.value(o.getComponent())]
        if k in ('SequenceOf', 'SetOf'):
            return [self.value(c) for c in o]
        if k in ('Integer', 'Enumerated'):
            return int(o)
        if k == 'Boolean':
            return bool(o)
        if k == 'Null':
            return 0
        if k == 'BitString':
            return o.asBinary() if len(o) else ''
        if k == 'ObjectIdentifier':
            return list(o.asTuple())
        if k in ('OctetString', 'Any'):
            return o.asOctets().hex()
        if k == 'Real':
            return repr(o)
        return str(o)

    def hasvalue(self, o):
        try:
            return bool(o.isValue)
        except Exception:
            return False

    def tags(self, ts):
        return [[t.tagClass, t.tagFormat, t.tagId] for t in ts.superTags]

    def node(self, o, stack=()):
        if id(o) in stack:
            raise RecursionError('recursive schema object %r' % type(o))
        stack = stack + (id(o),)
        k = self.kind(o)
        d = {'k': k, 't': self.tags(o.tagSet)}
        c = self.cons(o.subtypeSpec)
        if c:
            d['c'] = c
        if k in ('Sequence', 'Set', 'Choice'):
            comps = []
            for nt in o.componentType.namedTypes:
                e = {'n': nt.name, 'o': self.node(nt.asn1Object, stack)}
                if nt.isOptional:
                    e['opt'] = 1
                if nt.isDefaulted:
                    e['def'] = self.value(nt.asn1Object)
                if nt.openType is not None:
                    e['open'] = [nt.openType.name,
                                 self.mapname(getattr(nt.openType, '_OpenType__typeMap'))]
                comps.append(e)
            d['f'] = comps
            return d
        if k in ('SequenceOf', 'SetOf'):
            d['e'] = None if o.componentType is None else self.node(o.componentType, stack)
            return d
        if k in ('Integer', 'Enumerated', 'BitString'):
            nv = {str(n): int(v) for n, v in o.namedValues.items()}
            if nv:
                d['v'] = nv
        if k != 'Null' and self.hasvalue(o):
            d['d'] = self.value(o)
        return d


class Digester(Reflector):
    """node() as a hash, each shared schema object hashed once; for one look at a world."""

    def __init__(self, *a):
        super().__init__(*a)
        self.memo = {}

    def node(self, o, stack=()):
        m = self.memo.get(id(o))
        if m is None or m[0] is not o:
            d = super().node(o, stack)
            m = self.memo[id(o)] = o, hashlib.md5(json.dumps(d, sort_keys=True).encode()).hexdigest()
        return m[1]
