"""Freeze the published release's wire model into dst/model/wire.json.

Run by hand on the pinned tree (see DESIGN.md); no check runs it.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import world, reflect  # noqa

world.setup_path()
from pyasn1.type import base, univ  # noqa

KEYS = ('nodes', 'types', 'registries', 'modules', 'oids', 'deps', 'aliases', 'consts', 'final', 'mapnames')
nodes, index = [], {}


def intern(d):
    d = dict(d)
    if 'f' in d:
        d['f'] = [dict(e, o=intern(e['o'])) for e in d['f']]
    if d.get('e') is not None:
        d['e'] = intern(d['e'])
    key = json.dumps(d, sort_keys=True)
    if key not in index:
        index[key] = len(nodes)
        nodes.append(d)
    return index[key]


def oidkey(k):
    if isinstance(k, univ.ObjectIdentifier):
        return '.'.join(map(str, k.asTuple()))
    return 'int:%d' % int(k)


def der(v):
    from pyasn1.codec.der import encoder
    return encoder.encode(v).hex()


def main():
    names = world.names()
    # 1. per-module registry writes and dependency closure
    regs, deps = {}, {}
    for n in names:
        world.purge()
        world.load(n)
        deps[n] = sorted(x for x in world.loaded() if x != n)
    rank = lambda n: (len(deps[n]), n)
    public_maps = lambda: world.public_maps(rank=rank)
    for n in names:
        world.purge()
        world.load(n)
        cl = sorted(x for x in world.loaded() if x != n)
        deps[n] = cl
        world.purge()
        for x in cl:
            world.load(x)
        before = {}
        for mn, d in public_maps().items():
            before[id(d)] = dict((oidkey(k), id(v)) for k, v in d.items())
        keep = dict(world.loaded())
        world.load(n)
        here = {id(d): k for k, d in public_maps().items()}
        R = reflect.Reflector(lambda d: here.get(id(d)))
        for mn, d in public_maps().items():
            b = before.get(id(d), {})
            for k, v in d.items():
                if not isinstance(v, base.Asn1Item):
                    continue
                kk = oidkey(k)
                if b.get(kk) != id(v):
                    regs.setdefault(mn, {}).setdefault(kk, {})[n] = [
                        intern(R.node(v)), type(v).__module__.split('.')[-1] + '.' + type(v).__name__]
        del keep
    # 2. all types, constants
    world.purge()
    for n in names:
        world.load(n)
    maps = public_maps()
    mapname = {id(d): k for k, d in maps.items()}
    R = reflect.Reflector(lambda d: mapname.get(id(d)))
    final = {}
    for k, d in sorted(maps.items()):
        final[k] = {oidkey(i): intern(R.node(v)) for i, v in d.items()
                    if isinstance(v, base.Asn1Item)}
    mapnames = {}
    for n, m in sorted(world.loaded().items()):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, dict) and not k.startswith('_'):
                mapnames.setdefault(mapname[id(v)], []).append(n + '.' + k)
    types, oids, modules, aliases, consts = {}, {}, {}, {}, {}
    for n, m in sorted(world.loaded().items()):
        modules[n] = 1
        for k, v in sorted(vars(m).items()):
            if isinstance(v, type) and issubclass(v, base.Asn1Type) and v.__module__ == m.__name__ \
                    and not k.startswith('_'):
                types[n + '.' + k] = intern(R.node(v()))
            elif isinstance(v, univ.ObjectIdentifier) and not k.startswith('_') and v.isValue:
                oids[n + '.' + k] = list(v.asTuple())
            elif k.startswith('_'):
                continue
            elif isinstance(v, type) and issubclass(v, base.Asn1Type) \
                    and v.__module__.startswith(world.PKG + '.'):
                aliases[n + '.' + k] = intern(R.node(v()))
            elif isinstance(v, base.Asn1Item) and v.isValue:
                consts[n + '.' + k] = [intern(R.node(v)), der(v)]
            elif isinstance(v, base.Asn1Item):
                aliases[n + '.' + k] = intern(R.node(v))
    out = {'nodes': nodes, 'types': types, 'registries': regs, 'modules': sorted(modules),
           'oids': oids, 'deps': deps, 'aliases': aliases, 'consts': consts,
           'final': final, 'mapnames': mapnames}
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'model', 'wire.json'), 'w') as f:
        f.write('{\n')
        for i, k in enumerate(KEYS):
            v = out[k]
            f.write(json.dumps(k) + ': ')
            if isinstance(v, list):
                f.write('[\n' + ',\n'.join(json.dumps(x, sort_keys=True, separators=(',', ':')) for x in v) + ']')
            else:
                f.write('{\n' + ',\n'.join(json.dumps(a) + ':' + json.dumps(b, sort_keys=True, separators=(',', ':'))
                                           for a, b in sorted(v.items())) + '}')
            f.write(',\n' if i < len(KEYS) - 1 else '\n}\n')
    print(len(nodes), 'nodes', len(types), 'types', len(regs), 'registries',
          sum(map(len, regs.values())), 'entries', len(oids), 'oids')


if __name__ == '__main__':
    main()
