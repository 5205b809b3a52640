"""Where in the tree under test shared Python state could be: types with code of their own.
Only steers the search; judges nothing."""
import dis
import types

from pyasn1.type import base

from . import session, threads, world

_cache = []


def own_code(cls):
    return any(c.__module__.startswith(world.PKG) and any(
        isinstance(v, (types.FunctionType, classmethod, staticmethod, property)) for v in vars(c).values())
        for c in cls.__mro__)


def behaving():
    """Names of published types that have, or contain, a type with methods defined in the repository."""
    if _cache:
        return _cache[0]
    m = session.model()
    memo = {}

    def walk(o, depth=0):
        c = type(o)
        k = id(o)
        if k in memo:
            return memo[k][1]
        memo[k] = (o, False)
        r = own_code(c)
        ct = getattr(o, 'componentType', None)
        if not r and ct is not None and depth < 6:
            if isinstance(ct, base.Asn1Item):
                r = walk(ct, depth + 1)
            else:
                try:
                    r = any(walk(nt.asn1Object, depth + 1) for nt in ct.namedTypes)
                except Exception:
                    r = False
        memo[k] = (o, r)
        return r

    out = []
    for t in sorted(m.types):
        mod, _, name = t.partition('.')
        c = getattr(world.loaded().get(mod), name, None)
        try:
            if isinstance(c, type) and walk(c()):
                out.append(t)
        except Exception:
            out.append(t)
    _cache.append([t for t in out if 'ChangeSubjectName' not in t])
    return _cache[0]


def hot_lines(code, ns):
    """[code object, line] pairs of a module's import that touch mutable state other threads
    could touch too, or that run in functions of its own."""
    out = set()

    def shared(o):
        c = type(o)
        return isinstance(o, (dict, list, set, threads.Lock)) or c.__module__.startswith(world.PKG) and own_code(c)

    def walk(code, inside):
        line, obj = None, None
        for x in dis.get_instructions(code):
            if x.positions and x.positions.lineno:
                line = x.positions.lineno
            if inside:
                out.add((code, line))
            if x.opname in ('LOAD_NAME', 'LOAD_GLOBAL'):
                obj = ns.get(x.argval)
            elif x.opname in ('LOAD_ATTR', 'LOAD_METHOD') and isinstance(obj, types.ModuleType):
                obj = vars(obj).get(x.argval)
            else:
                obj = None
            if obj is not None and shared(obj):
                out.add((code, line))
            if x.opname == 'FOR_ITER':
                out.add((code, line))
        for k in code.co_consts:
            if hasattr(k, 'co_code'):
                # class bodies run once, functions whenever they are called
                walk(k, inside or bool(k.co_flags & 1))
    walk(code, False)
    return out


def governed():
    """Names of published types with an open type field whose registry, or opening, runs code of the repository."""
    out = []
    for t in sorted(session.model().types):
        mod, _, name = t.partition('.')
        c = getattr(world.loaded().get(mod), name, None)
        try:
            for nt in c.componentType.namedTypes:
                o = nt.openType
                if o is not None and (own_code(type(o)) or own_code(type(vars(o)['_OpenType__typeMap']))):
                    out.append(t)
                    break
        except Exception:
            continue
    return out


def own_codes():
    """Code objects of the functions the repository defines itself."""
    import sys
    return frozenset(threads.live_codes([m for n, m in sorted(sys.modules.items()) if n.startswith(world.PKG + '.')]))
