"""The command line tools as simulated processes.

A tool's real source runs as __main__ in this process, with freshly imported modules,
on simulated standard streams (real io layers over raw streams the plan controls).
What the operating system would see of it comes back: output octets, status.
"""
import io
import os
import random
import sys
import traceback

from . import bridge, pemsim, session, threads, wire, world
from .core import NoProgress

TOOLS = os.path.join(world.REPO, 'tools')
CODE = {}
DIGITS = getattr(sys.int_info, 'default_max_str_digits', 0)

# name: how input is given, and which published type each kind of block holds
PEM = {
    'x509dump': [('CERTIFICATE', 'rfc2459.Certificate')],
    'x509dump-rfc5280': [('CERTIFICATE', 'rfc5280.Certificate')],
    'pkcs10dump': [('CERTIFICATE REQUEST', 'rfc2314.CertificationRequest')],
    'crldump': [('X509 CRL', 'rfc2459.CertificateList')],
    'pkcs1dump': [('RSA PRIVATE KEY', 'rfc2437.RSAPrivateKey'), ('DSA PRIVATE KEY', 'rfc2459.DSAPrivateKey')],
    'pkcs8dump': [('PRIVATE KEY', 'rfc5208.PrivateKeyInfo'),
                  ('ENCRYPTED PRIVATE KEY', 'rfc5208.EncryptedPrivateKeyInfo')],
    'pkcs7dump': [('PKCS7', 'rfc2315.ContentInfo')],
}
B64 = {
    'cmpdump': 'rfc4210.PKIMessage', 'crmfdump': 'rfc2511.CertReqMessages',
    'ocspreqdump': 'rfc2560.OCSPRequest', 'ocsprspdump': 'rfc2560.OCSPResponse',
    'cmcdump': 'rfc5652.ContentInfo',
}
DUMPS = sorted(PEM) + sorted(B64)
ONCE = ('pkcs7dump',)                    # reads a single block

PKCS7 = {(1, 2, 840, 113549, 1, 7, 1): 'rfc2315.Data', (1, 2, 840, 113549, 1, 7, 2): 'rfc2315.SignedData',
         (1, 2, 840, 113549, 1, 7, 3): 'rfc2315.EnvelopedData',
         (1, 2, 840, 113549, 1, 7, 4): 'rfc2315.SignedAndEnvelopedData',
         (1, 2, 840, 113549, 1, 7, 5): 'rfc2315.DigestedData', (1, 2, 840, 113549, 1, 7, 6): 'rfc2315.EncryptedData'}
CI, SD, PKI = (1, 2, 840, 113549, 1, 9, 16, 1, 6), (1, 2, 840, 113549, 1, 7, 2), (1, 3, 6, 1, 5, 5, 7, 12, 2)
CMC = {CI: 'rfc5652.ContentInfo', SD: 'rfc5652.SignedData', PKI: 'rfc6402.PKIData'}


def preload():
    session.preload()
    world.cache_code()
    for n in DUMPS + ['ocspclient', 'snmpget']:
        p = os.path.join(TOOLS, n + '.py')
        with open(p, 'rb') as f:
            CODE[n] = compile(f.read(), p, 'exec', dont_inherit=True)


# ------------------------------------------------------------ streams

class RawOut(io.RawIOBase):
    """Takes what it likes of each write; fails from an offset on, for good or once, where told to."""

    def __init__(self, r, frag, rec, fail=None):
        self.got = bytearray()
        self.r = r
        self.frag = frag
        self.rec = rec
        self.fail = fail             # [offset, exception, once]
        self.failed = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if self.frag and n:
            n = min(n, self.r.choice(self.frag))
            self.rec.fault('short write')
        if self.fail:
            left = self.fail[0] - len(self.got)
            if left <= 0:
                e, self.failed = self.fail[1], True
                self.rec.fault('%swrite error %s' % ('one ' if self.fail[2:] == [1] else '', type(e).__name__))
                if self.fail[2:] == [1]:
                    self.fail = None
                raise e
            n = min(n, left)
        self.got += b[:n]
        return n


class Result:
    status = None
    out = ''
    err = ''
    error = None                     # exception that ended it
    stdin_failed = False
    stdout_failed = False
    aborted = False
    steps = 0


def run(name, argv, data, rec, r, infrag=None, outfrag=None, inerr=(), outerr=None, budget=None,
        encoding='utf-8', abort=None):
    """Run one tool to its end. data: octets on standard input."""
    world.purge()
    limit = digits(DIGITS)           # as in a process just started
    raw = pemsim.Raw(data, r, infrag, rec, None, [list(e) for e in inerr])
    stdin = io.TextIOWrapper(io.BufferedReader(raw, r.choice((16, 512, 8192))), encoding='utf-8')
    rawout = RawOut(r, outfrag, rec, outerr)
    stdout = io.TextIOWrapper(io.BufferedWriter(rawout, r.choice((1, 64, 8192))), encoding=encoding,
                              line_buffering=r.random() < 0.3)
    res = Result()
    left = [budget or 3000 + 40 * data.count(b'\n') + len(data) // 4]
    start = left[0]

    def step(where=None):
        left[0] -= 1
        if abort and start - left[0] == abort[0]:
            rec.fault('abort ' + type(abort[1]).__name__)
            res.aborted = True
            raise abort[1]
        if left[0] < 0:
            raise NoProgress('%s makes no end' % name)

    codes = list(threads.nested(CODE[name])) + list(threads.nested(world.CODE['pyasn1_modules.pem'][1]))
    keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
    had = set(sys.modules)
    sys.path.insert(0, TOOLS)               # as for any script
    err = io.StringIO()
    sys.argv = ['tools/%s.py' % name] + list(argv)
    sys.stdin, sys.stdout, sys.stderr = stdin, stdout, err
    status = 0
    try:
        try:
            with threads.Watch(codes, False, step):
                exec(CODE[name], {'__name__': '__main__', '__file__': os.path.join(TOOLS, name + '.py')})
        except SystemExit as e:
            status = 0 if e.code is None else e.code & 255 if isinstance(e.code, int) else 1
        except KeyboardInterrupt as e:
            res.error, status = e, 130
        except Exception as e:
            res.error, status = e, 1
        try:
            stdout.flush()
        except Exception as e:
            if res.error is None:
                res.error = e
            status = status or 120
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = keep
        digits(limit)
        sys.path.remove(TOOLS)
        for n in set(sys.modules) - had:
            if (getattr(sys.modules[n], '__file__', None) or '').startswith(TOOLS + os.sep):
                del sys.modules[n]
        if '-d' in argv:
            from pyasn1 import debug
            debug.setLogger(0)
    res.status = status
    res.out = bytes(rawout.got)
    res.err = err.getvalue()
    res.stdin_failed = len(raw.errors) < len(inerr)
    res.stdout_failed = rawout.failed
    res.steps = start - left[0]
    # nothing may write to these later (a destructor)
    try:
        stdout.detach()
    except Exception:
        pass
    rec.ev('ran', name, status, len(res.out), type(res.error).__name__, res.steps)
    rec.count('tool runs')
    rec.reach('%s:%d' % (name, status))
    return res


# ------------------------------------------------------------ what a tool should see

def schema(name):
    mod, cls = name.split('.', 1)
    return getattr(world.load(mod), cls)()


class Item:
    """One structure a tool takes up: its rendering, whether it is sound, its value."""

    def __init__(self, name, octets, trim):
        self.name = name
        self.text = None             # rendering; None if it does not decode
        self.after = None            # ... once encoded again (pyasn1 then shows hollow and default parts)
        self.value = None
        self.good = False
        self.rest = b''
        limit = digits(0)            # what holds is judged without CPython's bound on printing integers
        try:
            self.value, self.rest = session.der_decoder.decode(octets, asn1Spec=schema(name))
            self.text = self.value.prettyPrint()
            octets = octets[:len(octets) - len(self.rest)] if trim else octets
            self.octets = octets
            # encoding writes hollow components into the value, hence another copy
            copy, _ = session.der_decoder.decode(octets, asn1Spec=schema(name))
            self.after = self.text
            self.good = session.der_encoder.encode(copy) == octets
            self.after = copy.prettyPrint()
        except (Exception, RecursionError):
            pass
        finally:
            digits(limit)


def digits(n):
    """Set how long an integer may be to be printed; -> what it was."""
    if not hasattr(sys, 'set_int_max_str_digits'):
        return 0
    old = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(n)
    return old


def layers(name, octets, follow=True):
    """The items a base64 or single-block tool takes up, in order, up to the first bad one.
    -> (items, sound to the end)."""
    out = []
    if name == 'pkcs7dump':
        it = Item('rfc2315.ContentInfo', octets, True)
        out.append(it)
        if not it.good:
            return out, False
        t = PKCS7.get(tuple(it.value['contentType']))
        if t is None or not it.value['content'].isValue:
            return out, False
        it = Item(t, bytes(it.value['content']), True)
        out.append(it)
        return out, it.text is not None
    if name == 'cmcdump':
        kind, data = CI, octets
        while True:
            t = CMC.get(kind)
            if t is None:
                return out, False
            it = Item(t, data, False)
            out.append(it)
            if not it.good or it.rest:
                return out, False
            if kind == PKI:
                return out, True
            if kind == SD:
                it = it.value['encapContentInfo']
                kind, data = tuple(it['eContentType']), it['eContent']
            else:
                kind, data = tuple(it.value['contentType']), it.value['content']
            if not data.isValue:
                return out, False
            data = bytes(data)
    it = Item(B64[name], octets, False)
    return [it], it.good and not it.rest


# ------------------------------------------------------------ valid input

def oid(t):
    return list(t)


def message(name, kind, m, seed, aim=None):
    """A valid input structure for a tool: [(type, model value, octets)...] as it will be
    printed, outermost first."""
    r = random.Random(seed)
    codec = wire.Codec(m)
    for attempt in range(40):
        g = wire.Gen(m, r, depth=r.choice((2, 3, 4, 6)), fill=r.choice((0.1, 0.5, 0.9)))
        try:
            if name == 'pkcs7dump':
                k = r.choice(sorted(PKCS7))
                v, inner = value(m, g, PKCS7[k], aim)
                ci = {'contentType': oid(k), 'content': inner.hex()}
                return [outer(m, codec, 'rfc2315.ContentInfo', ci), (PKCS7[k], v, inner)]
            if name == 'cmcdump':
                v, data = value(m, g, 'rfc6402.PKIData', aim)
                out = [('rfc6402.PKIData', v, data)]
                under = PKI
                for i in range(r.choice((1, 1, 1, 1, 2, 2, 3, 3, 5, 9))):
                    if under != PKI and r.random() < 0.3:
                        data = wrap(m, codec, out, under, data)
                        under = CI
                    else:
                        sd = g.value(m.types['rfc5652.SignedData'], 1)
                        sd['encapContentInfo'] = {'eContentType': oid(under), 'eContent': data.hex()}
                        data = codec.encode(m.types['rfc5652.SignedData'], sd)
                        out.insert(0, ('rfc5652.SignedData', sd, data))
                        under = SD
                wrap(m, codec, out, under, data)
                return out
            t = dict(PEM[name])[kind] if name in PEM else B64[name]
            v, data = value(m, g, t, aim)
            return [(t, v, data)]
        except wire.Unsatisfiable:
            aim = None
    raise RuntimeError('no message for ' + name)


def rekind(parts, m, r):
    """The same message with another content type (or none of its content) at one of its layers."""
    import copy
    codec = wire.Codec(m)
    parts = copy.deepcopy(parts)
    i = r.randrange(max(1, len(parts) - 1))
    v = parts[i][1].get('encapContentInfo', parts[i][1])
    kind, body = ('eContentType', 'eContent') if 'eContentType' in v else ('contentType', 'content')
    if kind not in v:
        return parts[0][2]
    if r.random() < 0.2 and parts[i][0] != 'rfc5652.ContentInfo':
        v.pop(body, None)
    else:
        v[kind] = oid(r.choice(([1, 2, 840, 113549, 1, 7, 1], [1, 2, 840, 113549, 1, 7, 3], [1, 3, 6, 1, 5, 5, 7, 12, 3],
                                [1, 2, 3], CI, SD, PKI, [1, 2, 840, 113549, 1, 7, 6])))
    return rewrap(parts[:i], codec.encode(m.types[parts[i][0]], parts[i][1]), m)


def rewrap(parts, data, m):
    """The outer layers put around an inner one."""
    import copy
    codec = wire.Codec(m)
    parts = copy.deepcopy(parts)
    for t, v, _ in reversed(parts):
        if 'encapContentInfo' in v:
            v['encapContentInfo']['eContent'] = data.hex()
        else:
            v['content'] = data.hex()
        data = codec.encode(m.types[t], v)
    return data


def value(m, g, t, aim):
    ref = m.types[t]
    v = g.aimed(ref, *aim) if aim else g.value(ref)
    if g.rng.random() < 0.02:
        v = enlarged(m, ref, v, g.rng, t in KEYS)
    return v, wire.Codec(m).encode(ref, v)


KEYS = ('rfc2437.RSAPrivateKey', 'rfc2459.DSAPrivateKey')


def enlarged(m, ref, v, r, ints):
    """The same with one of its long fields as long as they get."""
    import copy
    v = copy.deepcopy(v)
    spots = []

    def walk(node, x):
        k = node['k']
        if k == 'Choice':
            return walk(m.node([f for f in node['f'] if f['n'] == x[0]][0]['o']), x[1])
        if k in ('SequenceOf', 'SetOf'):
            for e in x:
                walk(m.node(node['e']), e)
        elif k in ('Sequence', 'Set'):
            for f in node['f']:
                if f['n'] in x:
                    sub = m.node(f['o'])
                    if sub['k'] in ('BitString', 'OctetString') + ('Integer',) * ints and 'open' not in f and \
                            not sub.get('c') and not sub.get('v') and 'def' not in f:
                        spots.append((x, f['n'], sub['k']))
                    walk(sub, x[f['n']])
    walk(m.node(ref), v)
    if spots:
        x, n, k = r.choice(spots)
        if k == 'Integer':
            x[n] = r.getrandbits(r.choice((1024, 4096, 8192, 14300, 16384))) | 1
        else:
            size = r.choice((300, 5000, 40000, 140000))
            x[n] = bin((1 << 8 * size) | r.getrandbits(8 * size))[3:] if k == 'BitString' else r.randbytes(size).hex()
    return v


def outer(m, codec, t, v):
    return t, v, codec.encode(m.types[t], v)


def wrap(m, codec, out, under, data):
    it = outer(m, codec, 'rfc5652.ContentInfo', {'contentType': oid(under), 'content': data.hex()})
    out.insert(0, it)
    return it[2]


# ------------------------------------------------------------ reading output

def take(out, items):
    """Find the items' renderings in order in the output, each as whole lines: (number found,
    leftover before each and after the last)."""
    pos, rest = 0, []
    for i, it in enumerate(items):
        at, size = find(out, pos, {it.text, it.after or it.text})
        if at < 0:
            return i, rest + [out[pos:]]
        rest.append(out[pos:at])
        pos = at + size
    return len(items), rest + [out[pos:]]


def find(out, pos, texts):
    best = (-1, 0)
    for t in texts:
        want = t.rstrip('\n') + '\n'
        at = out.find(want, pos)
        while at > 0 and out[at - 1] != '\n':
            at = out.find(want, at + 1)
        if at >= 0 and (best[0] < 0 or (at, -len(want)) < (best[0], -best[1])):
            best = (at, len(want))
    return best


def decoration(s):
    """Is leftover output of a tool nothing but headings and footers?"""
    for line in s.split('\n'):
        if line.strip() and not line.lstrip().startswith('*'):
            return False
    return True


def numbers(s):
    import re
    return [int(x) for x in re.findall(r'\b\d+\b', s)]
