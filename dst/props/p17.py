"""P17: snmpget asks exactly once for what it was told and prints only a sound answer."""
import random
import socket

from pyasn1.codec.ber import decoder

from .. import bridge, session, tools, wire
from ..core import brief
from . import p15

ID = 'P17'
LEVEL = 'exploration'
RUNS = {'quick': 1600, 'thorough': 80000}
RULE = ('One run = three invocations of snmpget as a simulated process against an agent with its own ASN.1 stack behind '
        'a simulated datagram socket. Faults: no socket, unresolvable or unreachable host, refused, lost (the user '
        'gives up), damaged, truncated, oversized, doubled, empty datagrams, failing output. Non-trivial: at least one '
        'tool run; distinct: trace hash.')
COMPONENTS = {'real': ['tools/snmpget.py', 'pyasn1_modules.rfc1157, rfc1155', 'pyasn1 BER codec'],
              'stub': ['socket.socket', 'agent', 'standard output', 'peer (dst/wire.py)']}
ASSUMPTIONS = ['an answer damaged into another well-formed message cannot be told from one the agent sent']
LISTS = ('ops',)

FAULTS = ('socket', 'send', 'recv', 'lost', 'flip', 'cut', 'empty', 'rand', 'big', 'dup', 'outerr', 'args', 'pdu',
          'trail', 'deep', 'wrongtype', 'long', 'long')
SENDERR = (lambda: socket.gaierror(-2, 'Name or service not known'), lambda: OSError(113, 'No route to host'),
           lambda: PermissionError(1, 'Operation not permitted'), lambda: OSError(105, 'No buffer space available'))
RECVERR = (lambda: ConnectionRefusedError(111, 'Connection refused'), lambda: TimeoutError('timed out'),
           lambda: InterruptedError(4, 'Interrupted system call'), lambda: OSError(12, 'Cannot allocate memory'))


def preload():
    tools.preload()


def plan(rng, tier, idx, total):
    ops = []
    for j in range(3):
        n = rng.randint(0, 12)
        oid = [rng.randrange(3), rng.randrange(40)] + [rng.choice((0, 1, 127, 128, 16383, 16384, 2 ** 32 - 1, rng.getrandbits(28)))
                                                       for _ in range(n)]
        ops.append({'s': rng.getrandbits(32), 'oid': oid,
                    'community': rng.choice(('public', 'private', '', 'x' * 200, 'a b', 'caf\u00e9', 'p@ss\\w0rd', 'A' * 127, 'A' * 128,
                                              'A' * 300, ' public', 'public ', '\tx\t', '0', 'Public', 'PUBLIC', '#%s%d')),
                    'host': rng.choice(('127.0.0.1', 'router.example', '10.1.2.3')),
                    'out': rng.choice((None, (1, 5, 50))), 'ber': rng.random() < 0.3,
                    'faults': [[rng.choice(FAULTS), rng.random(), rng.getrandbits(30)]
                               for _ in range(rng.choice((0, 0, 1, 1, 2)))]})
    return {'ops': ops}


def shrink(plan):
    for i, op in enumerate(plan['ops']):
        for j in range(len(op['faults'])):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, faults=op['faults'][:j] + op['faults'][j + 1:])]
                       + plan['ops'][i + 1:])
        for k, v in (('out', None), ('ber', False), ('community', 'public')):
            if op[k] != v:
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, **{k: v})] + plan['ops'][i + 1:])


class Sock:
    """A datagram socket on the simulated network."""

    def __init__(self, net, family, kind):
        self.net = net
        self.kind = kind
        self.peer = None

    def sendto(self, data, *a):
        self.net.send(bytes(data), a[-1], self.kind)
        return len(data)

    def connect(self, addr):
        self.peer = addr

    def send(self, data, flags=0):
        self.net.send(bytes(data), self.peer, self.kind)
        return len(data)

    sendall = send

    def recvfrom(self, n=65535, flags=0):
        return self.net.receive(n), (self.net.op['host'], 161)

    def recv(self, n=65535, flags=0):
        return self.net.receive(n)

    def settimeout(self, t):
        pass

    def setblocking(self, f):
        pass

    def setsockopt(self, *a):
        pass

    def bind(self, addr):
        pass

    def fileno(self):
        return -1

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Net:
    def __init__(self, op, names, reply, rec, r):
        self.op = op
        self.names = names
        self.rec = rec
        self.r = r
        self.reply = reply
        self.sent = []
        self.queue = []
        self.delivered = 0
        self.read = None

    def make(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        if 'socket' in self.names:
            self.rec.fault('socket: not to be had')
            raise OSError(24, 'Too many open files')
        return Sock(self, family, type)

    def send(self, data, addr, kind):
        self.rec.ev('datagram', data.hex(), addr[0], addr[1])
        f = self.names.get('send')
        if f:
            self.rec.fault('socket: send failed')
            raise SENDERR[f[2] % len(SENDERR)]()
        self.sent.append((data, tuple(addr), kind))
        self.queue += self.reply(data)

    def receive(self, n):
        f = self.names.get('recv')
        if f:
            self.rec.fault('socket: receive failed')
            raise RECVERR[f[2] % len(RECVERR)]()
        if not self.queue:
            self.rec.fault('answer: lost, user gives up')
            raise KeyboardInterrupt()
        self.delivered += 1
        self.rec.simtime += self.r.choice((0.001, 0.02, 0.4, 30.0))
        self.read = self.queue.pop(0)[:n]
        return self.read


def respond(m, op, names, r, rec):
    """The agent: [datagrams] it answers with, a model value if undamaged."""
    while True:
        g = wire.Gen(m, r, depth=r.choice((3, 4, 5)), fill=0.5)
        try:
            v = g.value(m.types['rfc1157.Message'])
            pdu = g.value(m.types['rfc1157.GetResponse-PDU' if 'rfc1157.GetResponse-PDU' in m.types
                                  else 'rfc1157.GetResponsePDU'])
            one = [g.value(m.types['rfc1157.VarBind']) for _ in range(r.choice((1, 1, 1, 2, 5)))]
            if 'long' in names:
                rec.fault('answer: long')
                one.append({'name': [1, 3, 6, 1], 'value': ['simple', ['string', '41' * (100 + names['long'][2] % 1900)]]})
            break
        except wire.Unsatisfiable:
            continue
    if 'pdu' not in names:
        pdu['request-id'] = 123
        one[0]['name'] = op['oid']
        pdu['variable-bindings'] = one
        v = {'version': 0, 'community': op['community'].encode('latin-1').hex(), 'data': ['get-response', pdu]}
    return v


def damage(data, names, m, r, rec, v):
    out = []
    if 'flip' in names:
        i = names['flip'][2] % len(data)
        data = data[:i] + bytes([data[i] ^ (1 << (names['flip'][2] >> 20) % 8)]) + data[i + 1:]
        rec.fault('answer: damaged')
    if 'cut' in names:
        data = data[:int(names['cut'][1] * len(data))]
        rec.fault('answer: cut')
    if 'big' in names:
        rec.fault('answer: larger than the buffer')
        v = dict(v)
        v['data'] = ['get-response', dict(v['data'][1] if v['data'][0] == 'get-response' else {
            'request-id': 1, 'error-status': 0, 'error-index': 0}, **{'variable-bindings': [
                {'name': [1, 3, 6], 'value': ['simple', ['string', '41' * (2000 + names['big'][2] % 100)]]}]})]
        data = wire.Codec(m).encode(m.types['rfc1157.Message'], v)
    if 'empty' in names:
        rec.fault('answer: empty')
        data = b''
    if 'rand' in names:
        rec.fault('answer: noise')
        data = bytes(r.getrandbits(8) for _ in range(r.choice((1, 5, 60))))
    if 'deep' in names:
        rec.fault('answer: deeply nested')
        data = bytes.fromhex(r.choice(('3080', '30', 'a280'))) * r.choice((5, 500))
    if 'wrongtype' in names:
        rec.fault('answer: not SNMP')
        data = tools.message('ocsprspdump', None, m, names['wrongtype'][2])[0][2]
    if 'trail' in names:
        rec.fault('answer: followed by more')
        data += bytes(r.getrandbits(8) for _ in range(4))
    if 'lost' in names:
        return []
    if 'dup' in names:
        rec.fault('answer: doubled')
        return [data, data]
    return [data]


def execute(plan, rec):
    m = session.model()
    codec = wire.Codec(m)
    ref = m.types['rfc1157.Message']
    for n, op in enumerate(plan['ops']):
        r = random.Random(op['s'])
        names = {f[0]: f for f in op['faults']}
        v = respond(m, op, names, r, rec)
        data = wire.Codec(m, 'ber', r).encode(ref, v) if op['ber'] else codec.encode(ref, v)
        clean = not set(names) - {'dup', 'pdu', 'outerr', 'args', 'trail', 'long'} and len(data) <= 2048
        net = Net(op, names, lambda d: damage(data, names, m, r, rec, v), rec, random.Random(op['s'] + 1))
        argv = [op['community'], op['host'], '.'.join(map(str, op['oid']))]
        if 'args' in names:
            argv = [argv[:2], argv + ['x'], []][names['args'][2] % 3]
        keep = socket.socket
        socket.socket = net.make
        try:
            outerr = [int(names['outerr'][1] * 400), OSError(28, 'No space left on device')] if 'outerr' in names else None
            res = tools.run('snmpget', argv, b'', rec, r, None, op['out'], (), outerr)
        finally:
            socket.socket = keep
        judge(op, names, m, codec, ref, v, clean, net, res, rec, 'run %d, faults %s' % (n, sorted(names)))


def judge(op, names, m, codec, ref, v, clean, net, res, rec, ctx):
    out = res.out.decode('utf-8', 'replace')
    if 'args' in names:
        rec.check(res.status != 0 and not net.sent, 'usage', '%s: sent %d, status %d' % (ctx, len(net.sent), res.status))
        return
    if 'socket' in names or 'send' in names:
        rec.check(not net.sent, 'asks:count', '%s: sent %d' % (ctx, len(net.sent)))
    else:
        rec.check(len(net.sent) == 1 or (not net.sent and res.stdout_failed), 'asks:count',
                  lambda: '%s: %d datagrams sent' % (ctx, len(net.sent)))
    for data, addr, kind in net.sent:
        rec.check(addr == (op['host'], 161) and kind == socket.SOCK_DGRAM, 'asks:where', '%s: sent to %s' % (ctx, addr))
        try:
            x, rest = decoder.decode(data, asn1Spec=tools.schema('rfc1157.Message'))
            rid = int(x['data'].getComponent()['request-id'])
        except Exception as e:
            rec.bad('asks:other', '%s: what is sent is no message: %s' % (ctx, brief(data.hex(), 300)))
            continue
        want = codec.encode(ref, {'version': 0, 'community': op['community'].encode('latin-1').hex(), 'data': [
            'get-request', {'request-id': rid, 'error-status': 0, 'error-index': 0, 'variable-bindings': [
                {'name': op['oid'], 'value': ['simple', ['empty', 0]]}]}]})
        rec.check(data == want, 'asks:other', lambda: '%s: sends %s, a GET of what was asked is %s' % (
            ctx, brief(data.hex(), 400), brief(want.hex(), 400)))
        rec.count('requests compared')
    text = None
    if net.read is not None:
        try:
            x, _ = decoder.decode(net.read, asn1Spec=tools.schema('rfc1157.Message'))
            text = x.prettyPrint()
        except (Exception, RecursionError):
            pass
        if clean and text is not None:
            got, sent = session.canon(m, codec, ref, bridge.extract(m, ref, x)), session.canon(m, codec, ref, v)
            rec.check(got == sent, 'value', lambda: '%s: %s' % (ctx, session.diff(sent, got)))
    head, sep, got = out.partition('received:')
    if 'outerr' in names and res.stdout_failed:
        rec.check(not sep or text is not None, 'reports:nothing', '%s: reports %s' % (ctx, brief(got)))
        rec.check(res.status != 0, 'success', '%s: claims success with its output lost' % ctx)
        return
    if text is None:
        rec.check(not sep and res.status != 0, 'reports:nothing', lambda: '%s: status %d, reports %s with no sound answer' % (
            ctx, res.status, brief(got, 200)))
        rec.check(not clean or 'outerr' in names, 'refuses', '%s: refuses %s' % (ctx, brief((net.read or b'').hex(), 300)))
        rec.count('nothing reported')
    else:
        rec.check(sep and got.strip() == text.strip(), 'reports:other', lambda: '%s: reports %s where the agent sent %s' % (
            ctx, brief(got, 300), brief(text, 300)))
        rec.check(res.status == 0, 'status', '%s: status %d after %s' % (ctx, res.status, type(res.error).__name__))
        rec.count('answers reported')
    rec.reach('%s %d' % (sorted(names), res.status))
