"""Import histories and what they leave in the registries."""
import importlib
import random

from pyasn1.codec.der import decoder, encoder
from pyasn1.codec.native import encoder as native
from pyasn1.type import univ

from . import reflect, snap, targets, wire, world

ROUTES = ('module', 'from', 'as', 'star', 'dunder')


def imp(name, route='module'):
    """Import a repository module the way applications do."""
    full = world.PKG + '.' + name
    if route == 'module':
        return importlib.import_module(full)
    ns = {}
    if route == 'from':
        exec('from %s import %s' % (world.PKG, name), ns)
    elif route == 'as':
        exec('import %s as m' % full, ns)
    elif route == 'star':
        exec('from %s import *' % full, ns)
    else:
        __import__(full, fromlist=['x'])
    return importlib.import_module(full)


def keystr(k):
    if isinstance(k, univ.ObjectIdentifier):
        return '.'.join(map(str, k.asTuple()))
    try:
        return 'int:%d' % int(k)
    except Exception:
        return str(k)


def registries(m, mods):
    """{published registry: {public name: dict}} present in this world."""
    out = {}
    for reg, names in m.mapnames.items():
        for n in names:
            mod, attr = n.split('.', 1)
            if mod in mods and isinstance(getattr(mods[mod], attr, None), dict):
                out.setdefault(reg, {})[n] = getattr(mods[mod], attr)
    return out


class State:
    """Registries of the world as it is now."""

    def __init__(self, m, only=None):
        self.m = m
        self.cache = {}
        mods = world.loaded()
        self.mods = sorted(mods)
        regs = registries(m, mods)
        byid = {}
        for reg, ds in regs.items():
            for d in ds.values():
                byid[id(d)] = reg
        self.R = reflect.Digester(lambda d: byid.get(id(d)))
        self.regs = {}
        self.names = {}
        for reg, ds in regs.items():
            if only is not None and reg not in only:
                continue
            for n, d in sorted(ds.items()):
                self.names.setdefault(reg, {})[n] = sorted(map(keystr, d))
            home = ds.get(reg) or ds[sorted(ds)[0]]
            self.regs[reg] = {keystr(k): v for k, v in home.items()}

    def digest(self, reg, k):
        if (reg, k) not in self.cache:
            self.cache[reg, k] = self._digest(reg, k)
        return self.cache[reg, k]

    def _digest(self, reg, k):
        return snap.digest(lambda: self.R.node(self.regs[reg][k]))


def expected(m, mods):
    """{registry: keys} the published modules loaded here register."""
    mods = set(mods)
    return {reg: {k for k, by in es.items() if mods & set(by)} for reg, es in m.registries.items()}


def behave(m, reg, k, a, b):
    """Do two registered objects decode alike?  None, or what tells them apart."""
    nodes = sorted(set(x[0] for x in m.registries.get(reg, {}).get(k, {}).values()))
    if not nodes:
        return 'an unpublished entry'
    for d in payloads(m, nodes):
        x, y = outcome(d, a), outcome(d, b)
        if x != y:
            return 'octets %s: %s / %s' % (d.hex()[:200], str(x)[:120], str(y)[:120])
    return None


def payloads(m, nodes, few=0):
    """Messages that tell types apart: random ones, and every boundary of every leaf."""
    out = []
    for ref in nodes:
        aims = [([], 'has', None)] * (few or 20)
        stack = [(ref, [], 0)] if not few else []
        while stack:
            r, path, depth = stack.pop()
            node = m.node(r)
            if node['k'] not in wire.CONSTRUCTED:
                g, b = targets.leaf_bounds(node)
                aims += [(path, 'leaf', v) for v in g] + [(path, 'out', v) for v in b]
            elif depth < 3:
                aims += [(path + [f['n']], 'has', None) for f in node.get('f', ())]
                stack += [(f['o'], path + [f['n']], depth + 1) for f in node.get('f', ())]
                if node.get('e') is not None:
                    stack.append((node['e'], path + ['*'], depth + 1))
        for i, (path, what, arg) in enumerate(aims):
            try:
                v = wire.Gen(m, random.Random(i), depth=3).aimed(ref, path, what, expand(arg))
                out.append(wire.Codec(m).encode(ref, v))
            except (wire.Unsatisfiable, UnicodeEncodeError):
                continue
    return out


def expand(a):
    if isinstance(a, dict) and list(a) == ['rep']:
        s, n = a['rep']
        return (s * (n // len(s) + 1))[:n]
    return a


def outcome(d, spec):
    try:
        obj, rest = decoder.decode(d, asn1Spec=spec)
    except Exception:
        return 'refused'
    try:
        return repr(native.encode(obj)), encoder.encode(obj).hex(), len(rest)
    except Exception as e:
        return 'decoded', type(e).__name__


def compare(m, a, b, bad, what, skip=()):
    """State a (reference) against state b of the same set of modules."""
    for reg in sorted(set(a.regs) | set(b.regs)):
        x, y = a.regs.get(reg), b.regs.get(reg)
        if x is None or y is None:
            bad('registry:%s' % reg, '%s: registry is there only in one order' % what)
            continue
        for k in sorted(set(x) ^ set(y)):
            bad('entry:%s[%s]' % (reg, k), '%s: known only %s' % (
                what, 'in the reference order' if k in x else 'in the other order'))
        for k in sorted(set(x) & set(y)):
            if (reg, k) not in skip and a.digest(reg, k) != b.digest(reg, k):
                d = behave(m, reg, k, x[k], y[k])
                if d:
                    bad('differs:%s[%s]' % (reg, k), '%s: registered types differ: %s' % (what, d))
    for st in (a, b):
        same_everywhere(st, bad)


def same_everywhere(st, bad):
    for reg, ds in sorted(st.names.items()):
        ref = ds[sorted(ds)[0]]
        for n, ks in sorted(ds.items()):
            if ks != ref:
                bad('copies:%s' % n, 'offers other identifiers than %s: %s' % (
                    sorted(ds)[0], sorted(set(ks) ^ set(ref))[:5]))
