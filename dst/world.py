"""Fresh in-process worlds: the repository's modules imported from /repo's
current working tree, with none of the state of a previous world."""
import importlib
import os
import sys

from . import threads

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pyasn1_modules'


def names():
    d = os.path.join(REPO, PKG)
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')


def setup_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    threads.lock_seam(REPO + os.sep)


def purge():
    for k in list(sys.modules):
        if k == PKG or k.startswith(PKG + '.'):
            del sys.modules[k]


def load(name):
    return importlib.import_module(PKG + '.' + name)


def loaded():
    """{short name: module} of repository modules completely present now."""
    p = PKG + '.'
    return {k[len(p):]: m for k, m in list(sys.modules.items())
            if k.startswith(p) and m is not None}


def check_origin():
    m = importlib.import_module(PKG)
    where = os.path.realpath(os.path.dirname(m.__file__))
    if where != os.path.realpath(os.path.join(REPO, PKG)):
        raise RuntimeError('%s imported from %s, not from %s' % (PKG, where, REPO))


def public_maps(mods=None, rank=lambda n: n):
    """{'rfcN.mapName': dict} for module-level dicts a user can reach by public name,
    each listed once, under the first module (by rank) that has it."""
    out = {}
    seen = set()
    for n, m in sorted((mods or loaded()).items(), key=lambda x: rank(x[0])):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, dict) and not k.startswith('_') and id(v) not in seen:
                seen.add(id(v))
                out[n + '.' + k] = v
    return out


def load_or_violate(name):
    """Import a repository module; a module that does not import breaks the property."""
    from .core import Violation
    try:
        return load(name)
    except Exception as e:
        raise Violation('import:%s' % name, 'module %s does not import: %s: %s' % (
            name, type(e).__name__, str(e)[-300:]))


# ------------------------------------------------------------ cached code

CODE = {}
FAULT = [None]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        p = CODE.get(name)
        if p is None:
            return None
        import importlib.util
        return importlib.util.spec_from_file_location(name, p[0], loader=_Loader(name, p[0]))


def _mkloader():
    import importlib.machinery

    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            if FAULT[0]:
                FAULT[0](fullname)      # the simulated disk may fail this read
            return CODE[fullname][1]

    return Loader


_Loader = None


def cache_code():
    """Compile the working tree's modules once; later (re)imports execute that code."""
    global _Loader
    if CODE:
        return
    setup_path()
    check_origin()
    _Loader = _mkloader()
    # pyasn1 formats whole field lists into error texts it keeps for later; a third of all import
    # time.  In these worlds such a text names no fields.
    from pyasn1.type import namedtype
    namedtype.NamedType.__repr__ = lambda self: '<NamedType>'
    for n in names():
        p = os.path.join(REPO, PKG, n + '.py')
        with open(p, 'rb') as f:
            src = f.read()
        try:
            CODE[PKG + '.' + n] = (p, compile(src, p, 'exec', dont_inherit=True))
        except SyntaxError:
            pass
    sys.meta_path.insert(0, _Finder)


DIRECT = {}                      # {module: modules it imports itself, in order}


def needs():
    """{module: modules it imports, transitively}, read off the module-level code."""
    import dis
    direct = DIRECT
    for full, (_, code) in CODE.items():
        out = {}
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname != 'IMPORT_NAME':
                continue
            if x.argval.startswith(PKG + '.'):
                out[x.argval[len(PKG) + 1:].split('.')[0]] = 1
            elif x.argval == PKG and isinstance(ins[i - 1].argval, tuple):
                out.update((n, 1) for n in ins[i - 1].argval if PKG + '.' + n in CODE)
        direct[full[len(PKG) + 1:]] = list(out)
    full = {}

    def walk(n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += direct.get(x, ())
        return seen
    for n in direct:
        full[n] = walk(n)
    return full
