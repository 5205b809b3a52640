"""P16: the OCSP client asks for the right certificate and reports only the answer."""
import hashlib
import io
import os
import random
import socket

from .. import pemsim, session, tools, wire
from ..core import brief
from . import p15

ID = 'P16'
LEVEL = 'exploration'
RUNS = {'quick': 1600, 'thorough': 80000}
RULE = ('One run = two invocations of ocspclient as a simulated process: a certificate and its issuer on a simulated '
        'standard input, and a responder with its own ASN.1 stack behind a simulated TCP connection on which the real '
        'urllib and http.client run. Faults: refused, reset, timed out, cut, slow and fragmented connections, HTTP '
        'errors and redirects, OCSP error statuses, damaged bodies, damaged or mismatched certificates. '
        'Non-trivial: at least one tool run; distinct: trace hash.')
COMPONENTS = {'real': ['tools/ocspclient.py', 'pyasn1_modules.pem, rfc2459, rfc2560', 'urllib.request', 'http.client',
                       'pyasn1 codecs'],
              'stub': ['TCP connection (socket.create_connection)', 'responder', 'standard streams',
                       'peer (dst/wire.py)']}
ASSUMPTIONS = ['an answer damaged on the way into another well-formed answer is what the responder answered, as far '
               'as an unsigned transport can tell (the client does not check signatures)']
LISTS = ('ops',)

CONNECT = {'refused': lambda: ConnectionRefusedError(111, 'Connection refused'),
           'nohost': lambda: socket.gaierror(-2, 'Name or service not known'),
           'timeout': lambda: TimeoutError('timed out'), 'unreach': lambda: OSError(101, 'Network is unreachable'),
           'emfile': lambda: OSError(24, 'Too many open files')}
STREAM = {'reset': lambda: ConnectionResetError(104, 'Connection reset by peer'),
          'timeout': lambda: TimeoutError('timed out'), 'int': lambda: KeyboardInterrupt()}
OIDS = {'basic': [1, 3, 6, 1, 5, 5, 7, 48, 1, 1], 'sha1': [1, 3, 14, 3, 2, 26]}
STATUS = [1, 2, 3, 5, 6]


def preload():
    tools.preload()
    import urllib.request   # noqa
    import http.client      # noqa
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]


def plan(rng, tier, idx, total):
    ops = []
    for j in range(2):
        op = {'s': rng.getrandbits(32), 'in': rng.choice((None, (1, 2, 3, 7), (400,))),
              'net': rng.choice((None, (1, 2, 5), (100, 1000))), 'eol': rng.choice(('lf', 'crlf', 'mixed')),
              'url': rng.choice(('http://ocsp.example/', 'http://ocsp.example:8080/a/b?c=d', 'http://10.0.0.1')),
              'frame': rng.choice(('length', 'length', 'chunked', 'close')), 'faults': []}
        for _ in range(rng.choice((0, 1, 1, 1, 2))):
            op['faults'].append([rng.choice((
                'connect', 'send', 'stream', 'cut', 'cut', 'http', 'redirect', 'status', 'type', 'nobytes', 'noresp',
                'outer', 'inner', 'inner', 'html', 'empty', 'issuer', 'cert', 'nocert', 'swap', 'outerr', 'args',
                'trail', 'more', 'large', 'large', 'promised')), rng.random(), rng.getrandbits(30)])
        ops.append(op)
    return {'ops': ops}


def shrink(plan):
    for i, op in enumerate(plan['ops']):
        for j in range(len(op['faults'])):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, faults=op['faults'][:j] + op['faults'][j + 1:])]
                       + plan['ops'][i + 1:])
        for k in ('in', 'net'):
            if op[k] is not None:
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, **{k: None})] + plan['ops'][i + 1:])


def flip(o, s):
    r = random.Random(s)
    for _ in range(r.choice((1, 1, 3))):
        i = r.randrange(len(o))
        o = o[:i] + bytes([o[i] ^ (1 << r.randrange(8))]) + o[i + 1:]
    return o


def certs(m, r):
    """(issuer, user) certificates that belong together, as model values."""
    ref = m.types['rfc2459.Certificate']
    while True:
        g = wire.Gen(m, r, depth=r.choice((3, 4, 6)), fill=r.choice((0.2, 0.8)))
        try:
            a, b = g.value(ref), g.value(ref)
        except wire.Unsatisfiable:
            continue
        b['tbsCertificate']['issuer'] = a['tbsCertificate']['subject']
        b['tbsCertificate']['serialNumber'] = r.choice((0, 1, 127, 128, 255, 65536, r.getrandbits(63),
                                                        r.getrandbits(159), -5))
        n = r.choice((0, 1, 8, 20, 70))
        k = a['tbsCertificate']['subjectPublicKeyInfo']
        zero = r.choice((0, 0, 1, 3))       # keys may well begin with zero octets
        k['subjectPublicKey'] = ''.join('{:08b}'.format(r.getrandbits(8) if i >= zero else 0) for i in range(n))
        return a, b


def request(m, user, issuer, null):
    """The octets the responder expects."""
    c = wire.Codec(m)
    t = user['tbsCertificate']
    name = c.encode(m.types['rfc2459.Name'], t['issuer'])
    bits = issuer['tbsCertificate']['subjectPublicKeyInfo']['subjectPublicKey']
    key = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    alg = {'algorithm': OIDS['sha1']}
    if null:
        alg['parameters'] = '0500'
    return c.encode(m.types['rfc2560.OCSPRequest'], {'tbsRequest': {'requestList': [{'reqCert': {
        'hashAlgorithm': alg, 'issuerNameHash': hashlib.sha1(name).hexdigest(),
        'issuerKeyHash': hashlib.sha1(key).hexdigest(), 'serialNumber': t['serialNumber']}}]}})


def answer(m, r, user, faults, rec):
    """The responder's answer: (body, what it says or None)."""
    c = wire.Codec(m)
    names = dict((f[0], f) for f in faults)
    while True:
        g = wire.Gen(m, r, depth=r.choice((3, 4)), fill=r.choice((0.1, 0.6)))
        try:
            b = g.value(m.types['rfc2560.BasicOCSPResponse'])
            n = r.choice((1, 1, 1, 2, 3))
            single = [g.value(m.types['rfc2560.SingleResponse']) for _ in range(n)]
            break
        except wire.Unsatisfiable:
            continue
    if 'large' in names:                        # responders send their certificates along
        rec.fault('answer: large')
        n = (2000, 5000, 9000, 17000, 40000, 66000, 140000)[names['large'][2] % 7]
        b['signature'] = '01' * (4 * n)
    single[0]['certID']['serialNumber'] = user['tbsCertificate']['serialNumber']
    single[0]['certStatus'] = g.value(m.types['rfc2560.CertStatus'], 2, r.choice(('good', 'revoked', 'unknown')))
    b['tbsResponseData']['responses'] = single
    says = (str(single[0]['certID']['serialNumber']), single[0]['certStatus'][0],
            b['tbsResponseData']['producedAt'], single[0]['thisUpdate'])
    if 'noresp' in names:
        rec.fault('answer: no single response')
        b['tbsResponseData']['responses'] = []
        says = None
    inner = c.encode(m.types['rfc2560.BasicOCSPResponse'], b)
    if 'inner' in names:
        rec.fault('answer: damaged inside')
        inner, says = flip(inner, names['inner'][2]), 'ask'
    v = {'responseStatus': 0, 'responseBytes': {'responseType': OIDS['basic'], 'response': inner.hex()}}
    if 'type' in names:
        rec.fault('answer: other response type')
        v['responseBytes']['responseType'] = r.choice(([1, 3, 6, 1, 5, 5, 7, 48, 1, 2], [1, 2, 3], [1, 3, 6, 1, 5, 5, 7, 48, 1]))
        says = None
    if 'nobytes' in names:
        rec.fault('answer: no response bytes')
        del v['responseBytes']
        says = None
    if 'status' in names:
        rec.fault('answer: error status')
        v['responseStatus'] = STATUS[names['status'][2] % len(STATUS)]
        if names['status'][1] < 0.7:
            v.pop('responseBytes', None)
        says = None
    body = c.encode(m.types['rfc2560.OCSPResponse'], v)
    if 'outer' in names:
        rec.fault('answer: damaged')
        body, says = flip(body, names['outer'][2]), 'ask'
    if 'html' in names:
        rec.fault('answer: not OCSP')
        body, says = b'<html><body>Sign in to the hotel network</body></html>', 'ask'
    if 'empty' in names:
        rec.fault('answer: empty')
        body, says = b'', None
    if 'trail' in names:
        rec.fault('answer: followed by more')
        body += bytes(r.getrandbits(8) for _ in range(5))
    return body, says


def understand(body):
    """What a damaged answer still says, by the published types."""
    try:
        o, _ = session.der_decoder.decode(body, asn1Spec=tools.schema('rfc2560.OCSPResponse'))
        if int(o['responseStatus']) != 0 or tuple(o['responseBytes']['responseType']) != tuple(OIDS['basic']):
            return None
        b, _ = session.der_decoder.decode(bytes(o['responseBytes']['response']),
                                          asn1Spec=tools.schema('rfc2560.BasicOCSPResponse'))
        d = b['tbsResponseData']
        s = d['responses'][0]
        return (str(s['certID']['serialNumber']), s['certStatus'].getName(), str(d['producedAt']),
                str(s['thisUpdate']))
    except (Exception, RecursionError):
        return None


class Conn:
    """The client's end of one simulated TCP connection."""

    def __init__(self, web, host):
        self.web = web
        self.host = host
        self.sent = b''

    def sendall(self, data, flags=0):
        data = bytes(data)
        if self.web.senderr:
            k = min(len(data), self.web.senderr[0])
            self.sent += data[:k]
            self.web.senderr[0] -= k
            if self.web.senderr[0] <= 0:
                e, self.web.senderr = self.web.senderr[1], None
                self.web.rec.fault('connection: send failed')
                raise e
            return
        self.sent += data

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def makefile(self, mode='r', buffering=-1, **k):
        return io.BufferedReader(Reply(self), 8192)

    def recv(self, n, flags=0):
        if not hasattr(self, 'reply'):
            self.reply = Reply(self)
        b = bytearray(n)
        return bytes(b[:self.reply.readinto(b)])

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ('10.0.0.1', 80)

    def shutdown(self, how):
        pass

    def close(self):
        self.web.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Reply(io.RawIOBase):
    """What comes back on a connection; written once the first read asks for it."""

    def __init__(self, conn):
        self.conn = conn
        self.raw = None

    def readable(self):
        return True

    def readinto(self, b):
        w = self.conn.web
        if self.raw is None:
            data = w.serve(self.conn.sent, self.conn.host)
            err = []
            if w.streamerr:
                err = [[int(w.streamerr[0] * len(data)), w.streamerr[1]]]
                w.streamerr = None
            self.raw = pemsim.Raw(data, w.r, w.frag, w.rec, None, err)
        return self.raw.readinto(b)


class Web:
    """The simulated network and the responder on it."""

    def __init__(self, op, body, r, rec):
        self.op = op
        self.body = body
        self.r = r
        self.rec = rec
        self.frag = op['net']
        self.asked = []              # (host, method, path, headers, body)
        self.delivered = None        # body of the last complete 2xx answer
        self.closed = 0
        self.f = {f[0]: f for f in op['faults']}
        self.connecterr = self.senderr = self.streamerr = None
        if 'connect' in self.f:
            self.connecterr = CONNECT[sorted(CONNECT)[self.f['connect'][2] % len(CONNECT)]]()
        if 'send' in self.f:
            self.senderr = [1 + int(self.f['send'][1] * 300), BrokenPipeError(32, 'Broken pipe')]
        if 'stream' in self.f:
            k = sorted(STREAM)[self.f['stream'][2] % len(STREAM)]
            self.streamerr = [self.f['stream'][1], STREAM[k]()]
        self.redirects = 1 if 'redirect' in self.f else 0

    def connect(self, address, timeout=None, source_address=None, **k):
        self.rec.ev('connect', address[0], address[1])
        if self.connecterr:
            e, self.connecterr = self.connecterr, None
            self.rec.fault('connection: ' + type(e).__name__)
            raise e
        return Conn(self, address)

    def serve(self, sent, host):
        head, _, body = sent.partition(b'\r\n\r\n')
        lines = head.decode('latin-1').split('\r\n')
        method, path = (lines[0].split(' ') + ['', ''])[:2]
        headers = {}
        for x in lines[1:]:
            k, _, v = x.partition(':')
            headers[k.strip().lower()] = v.strip()
        self.asked.append((host, method, path, headers, body))
        self.rec.ev('request', host, method, path, body.hex())
        if self.redirects:
            self.redirects -= 1
            self.rec.fault('answer: redirect')
            code = (301, 302, 303, 307, 308)[self.f['redirect'][2] % 5]
            return ('HTTP/1.1 %d Moved\r\nLocation: http://other.example/x\r\nContent-Length: 0\r\n\r\n' % code).encode()
        code = 200
        if 'http' in self.f:
            code = (400, 403, 404, 500, 503, 204, 304)[self.f['http'][2] % 7]
            self.rec.fault('answer: HTTP %d' % code)
        out = 'HTTP/1.1 %d X\r\nContent-Type: application/ocsp-response\r\n' % code
        b = self.body
        if code in (204, 304):
            return (out + '\r\n').encode()
        promised = 'promised' in self.f         # the answer, whole, in a transfer that is not
        if promised:
            self.rec.fault('connection: closed before the transfer is complete')
        if self.op['frame'] == 'length' or promised and self.op['frame'] == 'close':
            more = promised and 1 + self.f['promised'][2] % 5000
            data = (out + 'Content-Length: %d\r\n\r\n' % (len(b) + more)).encode() + b
        elif self.op['frame'] == 'chunked':
            data = (out + 'Transfer-Encoding: chunked\r\n\r\n').encode()
            i = 0
            while i < len(b):
                n = self.r.choice((1, 10, 1000))
                data += b'%x\r\n' % len(b[i:i + n]) + b[i:i + n] + b'\r\n'
                i += n
            data += b'' if promised else b'0\r\n\r\n'
        else:
            data = (out + 'Connection: close\r\n\r\n').encode() + b
        if 'cut' in self.f:
            at = int(self.f['cut'][1] * len(data))
            if self.f['cut'][2] % 3:            # inside the body
                start = data.index(b'\r\n\r\n') + 4
                at = start + int(self.f['cut'][1] * (len(data) - start))
            self.rec.fault('connection: cut')
            data = data[:at]
        return data


def nearly(r, name, other):
    """A name that differs little from this one."""
    rdns = [[dict(a) for a in rdn] for rdn in name[1]]
    w = r.randrange(5)
    if w == 0 and rdns:
        rdns.pop(r.choice((0, -1)))
    elif w == 1 and rdns:
        a = r.choice(r.choice(rdns) or [{'type': [], 'value': ''}])
        v = bytearray.fromhex(a['value'])
        if len(v) > 2:
            v[-1] ^= 32
        a['value'] = v.hex()
    elif w == 2 and rdns:
        rdns[-1] = rdns[-1] + rdns[-1] if r.random() < 0.5 else rdns[-1][:-1]
    elif w == 3 and len(rdns) > 1:
        rdns.reverse()
    else:
        i = r.choice((0, len(rdns)))
        rdns[i:i] = [x for x in other[1][:1]] or [[]]
    return [name[0], rdns]


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    for n, op in enumerate(plan['ops']):
        r = random.Random(op['s'])
        names = {f[0]: f for f in op['faults']}
        issuer, user = certs(m, r)
        body, says = answer(m, r, user, op['faults'], rec)
        ref = m.types['rfc2459.Certificate']
        a, b = codec.encode(ref, issuer), codec.encode(ref, user)
        asks = True
        if 'issuer' in names:
            rec.fault('input: not the issuer')
            other = certs(m, r)[1]
            if r.random() < 0.6:
                other = dict(issuer, tbsCertificate=dict(issuer['tbsCertificate'], subject=nearly(
                    r, issuer['tbsCertificate']['subject'], other['tbsCertificate']['subject'])))
            if other['tbsCertificate']['subject'] != user['tbsCertificate']['issuer']:
                a, asks = codec.encode(ref, other), False
        if 'swap' in names and issuer['tbsCertificate']['issuer'] != user['tbsCertificate']['subject']:
            rec.fault('input: certificates swapped')
            a, b, asks = b, a, False
        if 'cert' in names:
            rec.fault('input: damaged certificate')
            i = names['cert'][2]
            o = p15.hurt(a if i & 1 else b, [[('cut', 'rand', 'deep', 'drop')[(i >> 1) % 4], i >> 3]], None, m, rec)
            if session_decodes(o):
                continue
            a, b, asks = (o, b, False) if i & 1 else (a, o, False)
        blocks = [a] if 'nocert' in names else [a, b]
        if 'nocert' in names:
            asks = False
            rec.fault('input: one certificate')
        if 'more' in names:
            blocks.append(codec.encode(ref, certs(m, r)[0]))
        lines = []
        for o in blocks:
            lines += [pemsim.spam_line(r, ['CERTIFICATE']) for _ in range(r.choice((0, 0, 2)))]
            lines += pemsim.block_lines('CERTIFICATE', o, 64)
        data = ''.join(pemsim.render(lines, op['eol'], 0, r)).encode()
        argv = [op['url']]
        if 'args' in names:
            argv = [[], [op['url'], 'x']][names['args'][2] % 2]
            asks = False
        web = Web(op, body, r, rec)
        keep = socket.create_connection
        socket.create_connection = web.connect
        try:
            outerr = [0, OSError(28, 'No space left on device')] if 'outerr' in names else None
            res = tools.run('ocspclient', argv, data, rec, r, op['in'], None, (), outerr)
        finally:
            socket.create_connection = keep
        judge(op, names, m, issuer, user, body, says, asks, web, res, rec, 'run %d' % n)


def session_decodes(o):
    try:
        session.der_decoder.decode(o, asn1Spec=tools.schema('rfc2459.Certificate'))
        return True
    except (Exception, RecursionError):
        return False


def judge(op, names, m, issuer, user, body, says, asks, web, res, rec, where):
    out = res.out.decode('utf-8')
    ctx = '%s, faults %s' % (where, sorted(names))
    if not asks:
        rec.check(not web.asked, 'asks:nothing', lambda: '%s: asks the responder though the certificates given are no '
                  'pair: %s' % (ctx, brief(web.asked, 300)))
    posts = [x for x in web.asked if x[1] == 'POST' and x[4]]
    if asks and web.asked:
        rec.check(len(posts) == 1, 'asks:post', lambda: '%s: %d POST requests in %s' % (
            ctx, len(posts), [x[:3] for x in web.asked]))
    want = [request(m, user, issuer, null) for null in (0, 1)]
    for host, method, path, headers, sent in posts:
        rec.check(sent in want, 'asks:other', lambda: '%s: request is %s, for this certificate and issuer it is %s' % (
            ctx, brief(sent.hex(), 300), brief(want[0].hex(), 300)))
        rec.check(headers.get('content-type') == 'application/ocsp-request', 'asks:content-type',
                  '%s: content type %r' % (ctx, headers.get('content-type')))
        rec.check(headers.get('content-length') == str(len(sent)), 'asks:length', '%s: length %r of %d' % (
            ctx, headers.get('content-length'), len(sent)))
        rest = op['url'].split('//')[1]
        hostport, slash, p = rest.partition('/')
        h, _, port = hostport.partition(':')
        rec.check((h, int(port or 80)) == tuple(host) and path == '/' + p, 'asks:where',
                  '%s: asked %s %s, told %s' % (ctx, host, path, op['url']))
        rec.count('requests compared')
    broken = {'connect', 'send', 'stream', 'cut', 'http', 'promised'} & set(names)
    if says == 'ask':
        says = understand(body)
    # an interrupted transfer may have come to its end before it was noticed
    may = says if asks and set(names) & broken <= {'stream', 'cut', 'send'} else None
    must = says if asks and not broken and 'outerr' not in names and not (
        'redirect' in names and names['redirect'][2] % 5 > 2) else None
    if may and ('cut' in names or 'stream' in names or 'send' in names):
        may = complete(op, names, web, may)
    text = ' '.join(out.split())
    if 'args' in names:
        rec.check(res.status != 0, 'usage', '%s: accepted' % ctx)
        for s in ('good', 'revoked'):
            rec.check(s not in text, 'reports', '%s: usage prints %s' % (ctx, brief(text)))
        return
    if text:
        rec.check(may is not None, 'reports:nothing', lambda: '%s: prints %s though there is no sound answer' % (
            ctx, brief(text)))
        pos = 0
        for s in may:
            at = find_word(text, s, pos)
            rec.check(at >= 0, 'reports:other', lambda: '%s: prints %s, the answer says %s' % (ctx, brief(text), may))
            pos = at + len(s)
        rec.count('answers reported')
    else:
        rec.check(res.status != 0, 'silent', '%s: success without an answer' % ctx)
        rec.count('no answer reported')
    if must is not None:
        rec.check(bool(text) and res.status == 0, 'refuses', lambda: '%s: status %d, %s, for the answer %s' % (
            ctx, res.status, session.errtext(res.error) if res.error else '', must))
    rec.reach('%s %d %s' % (sorted(names), res.status, bool(text)))


def find_word(text, s, pos):
    while True:
        at = text.find(s, pos)
        if at < 0:
            return -1
        if (not at or text[at - 1] == ' ') and (at + len(s) == len(text) or text[at + len(s)] == ' '):
            return at
        pos = at + 1


def complete(op, names, web, may):
    """Could the whole body have been taken in before the transport failed?"""
    if 'cut' in names and op['frame'] != 'close':
        return None
    if 'cut' in names:
        return None if 'trail' not in names else may
    if 'stream' in names and web.streamerr is None and op['frame'] != 'close':
        return may               # past the body, nothing left to wait for
    if 'stream' in names and web.streamerr is None:
        return None
    return may
