"""Move values between the model (plain data) and live pyasn1 objects, through
the public API of the real classes only (component names, getName, asOctets...)."""
from pyasn1.codec.der import encoder
from pyasn1.type import univ

from .wire import STRINGS, CONSTRUCTED


class Mismatch(Exception):
    """A live object is not shaped the way the published wire model says."""


def build(model, ref, v, obj):
    """Populate live schema instance `obj` (fresh) with model value v, the way an
    application does (in place for structures, plain Python values for leaves);
    returns the live value."""
    node = model.node(ref)
    k = node['k']
    if k in CONSTRUCTED:
        fill(model, node, v, obj)
        return obj
    return obj.clone(scalar(node, v))


def fill(model, node, v, obj):
    k = node['k']
    if k in ('Sequence', 'Set', 'Choice'):
        items = [v] if k == 'Choice' else [(f['n'], v[f['n']]) for f in node['f'] if f['n'] in v]
        obj.clear()
        for n, x in items:
            f = [f for f in node['f'] if f['n'] == n][0]
            sub = model.node(f['o'])
            try:
                obj.componentType.getPositionByName(n)
            except Exception as e:
                raise Mismatch('no component %r: %s' % (n, e))
            if sub['k'] in CONSTRUCTED:
                obj.setComponentByName(n)
                fill(model, sub, x, obj.getComponentByName(n))
            else:
                obj.setComponentByName(n, scalar(sub, x))
        return
    obj.clear()
    sub = model.node(node['e'])
    for i, x in enumerate(v):
        if sub['k'] in CONSTRUCTED:
            obj.setComponentByPosition(i)
            fill(model, sub, x, obj.getComponentByPosition(i))
        else:
            obj.setComponentByPosition(i, scalar(sub, x))


def scalar(node, v):
    """The plain Python value an application assigns; by name where the format names it."""
    k = node['k']
    if 'v' in node and k in ('Integer', 'Enumerated'):
        for name, n in node['v'].items():
            if n == v:
                return name
    if 'v' in node and k == 'BitString' and v.endswith('1'):
        on = [i for i, b in enumerate(v) if b == '1']
        names = {n: name for name, n in node['v'].items()}
        if all(i in names for i in on):
            return ','.join(names[i] for i in on)
    if k in ('OctetString', 'Any'):
        return bytes.fromhex(v)
    if k == 'BitString':
        return tuple(int(b) for b in v)
    if k == 'Null':
        return ''
    if k == 'Real':
        return 0.0
    if k == 'ObjectIdentifier':
        return tuple(v)
    return v


def extract(model, ref, obj, path='', opened=None):
    """Read a live decoded object into a model value (defaults filled in).
    opened(field, key): was this open type field to come out as a typed value?"""
    node = model.node(ref)
    k = node['k']
    if k in ('Sequence', 'Set'):
        out = {}
        for f in node['f']:
            n = f['n']
            try:
                c = obj.getComponentByName(n, None, 'def' in f)
            except Exception as e:
                raise Mismatch('%s: cannot read component %r: %s' % (path, n, e))
            if c is not None and c.isValue:
                if opened and 'open' in f and f['open'][0] in out and opened(f, out[f['open'][0]]):
                    out[n] = blobs(model, f['o'], c, path + '.' + n)
                else:
                    out[n] = extract(model, f['o'], c, path + '.' + n, opened)
        return out
    if k == 'Choice':
        n = obj.getName()
        for f in node['f']:
            if f['n'] == n:
                return [n, extract(model, f['o'], obj.getComponent(), path + '.' + n, opened)]
        raise Mismatch('%s: unexpected alternative %r' % (path, n))
    if k in ('SequenceOf', 'SetOf'):
        return [extract(model, node['e'], x, path + '[]', opened) for x in obj]
    try:
        if k in ('Integer', 'Enumerated'):
            return int(obj)
        if k == 'Boolean':
            return bool(obj)
        if k == 'Null':
            return 0
        if k == 'BitString':
            return obj.asBinary() if len(obj) else ''
        if k == 'ObjectIdentifier':
            return list(obj.asTuple())
        if k == 'Any' and not isinstance(obj, univ.Any):
            return encoder.encode(obj).hex()
        if k in ('OctetString', 'Any'):
            return obj.asOctets().hex()
        if k in STRINGS:
            return str(obj)
        if k == 'Real':
            return '0' if float(obj) == 0 else repr(obj)
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch('%s: not readable as %s: %r' % (path, k, e))
    raise Mismatch('%s: kind %s' % (path, k))


def blobs(model, ref, c, path):
    """Octets of the typed value(s) in an opened open type field."""
    if model.node(ref)['k'] in ('SetOf', 'SequenceOf'):
        return [blob(x, path) for x in c]
    return blob(c, path)


def blob(x, path):
    try:
        return encoder.encode(x).hex()
    except Exception as e:
        raise Mismatch('%s: opened value does not encode: %r' % (path, type(e).__name__))
