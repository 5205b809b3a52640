"""What the published objects of a process look like, as plain digests."""
import hashlib
import json

from pyasn1.type import base

from . import reflect, session, world


def items(mods, anymap=False):
    """[(name, object, thunk)] for every published schema class, instance, constant and map entry
    the frozen model lists (other names are the module's own business)."""
    pub = session.model()
    regs = set(pub.mapnames).union(*pub.mapnames.values())
    out = []
    maps = world.public_maps(mods)
    names = {id(v): k for k, v in maps.items()}
    R = reflect.Digester(lambda d: 'map' if anymap else names.get(id(d)))
    seen = set()
    for n, m in sorted(mods.items()):
        for k, v in sorted(vars(m).items()):
            if k.startswith('_'):
                continue
            name = n + '.' + k
            if name not in pub.types and name not in pub.oids and name not in pub.aliases and name not in pub.consts:
                continue
            if isinstance(v, type) and issubclass(v, base.Asn1Type):
                if v.__module__ == m.__name__:
                    out.append((name, v, lambda v=v: fresh(R, v())))
            elif isinstance(v, base.Asn1Item):
                out.append((name, v, lambda v=v: R.node(v)))
    for name, d in sorted(maps.items()):
        if name not in regs:
            continue
        out.append((name, d, lambda d=d: sorted(map(str, d))))
        for k, v in d.items():
            if isinstance(v, base.Asn1Item) and id(v) not in seen:
                seen.add(id(v))
                out.append(('%s[%s]' % (name, k), v, lambda v=v: R.node(v)))
    return out


def fresh(R, o):
    """A type, and what a new value of it starts with."""
    d = R.node(o)
    try:
        d += ' ' + json.dumps(R.value(o))
    except Exception:
        pass            # no value yet
    return d


def digest(thunk):
    try:
        return hashlib.md5(json.dumps(thunk(), sort_keys=True).encode()).hexdigest()
    except Exception as e:
        return 'unreadable: ' + type(e).__name__
