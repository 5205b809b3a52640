"""The simulated deployment: a peer with an ASN.1 stack of its own (wire.py) and a
node that runs the real modules over the real pyasn1 codecs, over a bad network.

The peer offers the script's messages in order on a byte stream; the node frames and
decodes them as bytes arrive, checks and answers; the connection is reset, and the node
crashes and re-imports, in the middle of a message where the plan says so; the peer
reconnects and offers again whatever was not answered.
"""
import random
import sys

from pyasn1 import error
from pyasn1.codec.ber import decoder as ber_decoder
from pyasn1.codec.der import decoder as der_decoder
from pyasn1.codec.der import encoder as der_encoder
from pyasn1.type import base

from . import bridge, net, wire, world
from .core import brief

MODEL = None


def model():
    global MODEL
    if MODEL is None:
        MODEL = wire.Model()
    return MODEL


def preload():
    """Everything a run needs, imported once before runs are forked off."""
    world.setup_path()
    world.check_origin()
    m = model()
    for n in m.modules:
        world.load_or_violate(n)
    import pyasn1.type.useful   # noqa


def canon(m, codec, ref, v):
    """Comparable form of a model value: SET OF order is immaterial."""
    node = m.node(ref)
    k = node['k']
    if k == 'Choice':
        for f in node['f']:
            if f['n'] == v[0]:
                return [v[0], canon(m, codec, f['o'], v[1])]
    if k == 'SequenceOf':
        return [canon(m, codec, node['e'], x) for x in v]
    if k == 'SetOf':
        return sorted((canon(m, codec, node['e'], x) for x in v),
                      key=lambda x: codec.encode(node['e'], x))
    if k in ('Sequence', 'Set'):
        return {f['n']: canon(m, codec, f['o'], v[f['n']]) for f in node['f'] if f['n'] in v}
    return v


def diff(a, b, path=''):
    """First place where two model values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s.%s only %s' % (path, k, 'received' if k in b else 'sent')
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return ''
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return ''
    return '' if a == b else '%s sent %s received %s' % (path, brief(a, 80), brief(b, 80))


def errtext(e):
    """Exception class and a short tail (pyasn1 errors quote whole schemas)."""
    try:
        s = str(e)
    except Exception:
        s = '?'
    return '%s ...%s' % (type(e).__name__, s[-120:].replace('\n', ' '))


class Node:
    """The process under simulation."""

    def __init__(self, rec):
        self.rec = rec
        self.mods = dict(world.loaded())

    def restart(self, need, rng):
        """Crash, and come back with the needed modules imported in another order."""
        world.purge()
        need = list(need)
        rng.shuffle(need)
        extra = rng.sample(model().modules, rng.choice((0, 0, 1, 2)))
        for n in extra + need if rng.random() < 0.5 else need + extra:
            world.load_or_violate(n)
        self.mods = dict(world.loaded())
        self.rec.ev('restart', need, extra)

    def schema(self, name):
        """A fresh schema object for a published name ('rfcN.Name')."""
        mod, cls = name.split('.', 1)
        m = self.mods.get(mod)
        if m is None:
            self.mods[mod] = m = world.load_or_violate(mod)
        x = getattr(m, cls)
        return x() if isinstance(x, type) else x

    def has(self, name):
        mod, cls = name.split('.', 1)
        return hasattr(self.mods.get(mod) or world.load_or_violate(mod), cls)


def modules_of(names):
    return sorted(set(n.split('.', 1)[0] for n in names))


class Session:
    """Runs plan['ops'] as messages of one conversation.

    process(node, op, i, spec, buf) -> (reply, used) is the node's program: raise
    error.SubstrateUnderrunError when the message is not complete yet.
    answered(op, i, reply) is the peer's check of the reply.
    """

    def __init__(self, rec, ops, payloads, process, answered, seed):
        self.rec = rec
        self.ops = ops
        self.payloads = payloads
        self.process = process
        self.answered = answered
        self.rng = random.Random(seed)
        self.net = net.Net(rec)
        self.node = Node(rec)
        self.need = modules_of(op['t'] for op in ops)
        self.done = 0
        self.fired = set()
        self.gen = 0

    def restart(self, node):
        node.restart(self.need, self.rng)

    def run(self):
        self.net.after(0, self.connect)
        self.net.run()
        if self.done < len(self.ops):
            self.rec.bad('stalled', 'message %d of %d (%s) never answered although faults had stopped'
                         % (self.done, len(self.ops), self.ops[self.done]['t']))

    def connect(self):
        if self.done >= len(self.ops):
            return
        self.gen += 1
        i0 = self.done
        self.buf = b''
        self.cur = i0
        self.arrived = 0
        self.used = 0
        self.ends = []
        self.pend = b''
        self.conn = net.Stream(self.net, self.rng, {'b': self.node_rx, 'a': self.peer_rx}, self.lost)
        off = 0
        for i in range(i0, len(self.ops)):
            p = self.payloads[i]
            f = self.ops[i].get('f') or {}
            self.conn.write('b', p)
            if i not in self.fired and ('cut' in f or 'crash' in f):
                self.fired.add(i)
                self.conn.cutat = off + int((f.get('cut') or f.get('crash') or 0) * len(p))
                self.crash = 'crash' in f
                self.rec.fault('node crash' if self.crash else 'connection cut')
                off += len(p)
                self.ends.append(off)
                break
            off += len(p)
            self.ends.append(off)
        self.i0 = i0
        self.conn.flush('b')

    def node_rx(self, data):
        self.buf += data
        self.arrived += len(data)
        while self.cur < len(self.ops) and self.buf:
            i = self.cur
            op = self.ops[i]
            complete = i - self.i0 < len(self.ends) and self.arrived >= self.ends[i - self.i0]
            try:
                reply, used = self.process(self.node, op, i, self.buf, complete)
            except error.SubstrateUnderrunError:
                if complete:
                    self.rec.bad('incomplete:%s' % op['t'], 'complete %s message taken for incomplete: %s'
                                 % (op['t'], brief(self.payloads[i].hex())))
                    used, reply = len(self.payloads[i]), b''
                else:
                    self.rec.count('incomplete prefixes held back')
                    return
            if not complete:
                self.rec.bad('early:%s' % op['t'], '%s accepted %d octets before the message was complete'
                             % (op['t'], self.ends[i - self.i0] - self.arrived if i - self.i0 < len(self.ends) else -1))
            want = len(self.payloads[i])
            if used != want:
                self.rec.bad('frame:%s' % op['t'], '%s message of %d octets consumed %d' % (op['t'], want, used))
            self.buf = self.buf[want:]
            self.used += want
            self.cur += 1
            self.conn.write('a', len(reply).to_bytes(4, 'big') + reply)

    def peer_rx(self, data):
        self.pend += data
        while len(self.pend) >= 4:
            n = int.from_bytes(self.pend[:4], 'big')
            if len(self.pend) < 4 + n:
                return
            reply, self.pend = self.pend[4:4 + n], self.pend[4 + n:]
            self.answered(self.ops[self.done], self.done, reply)
            self.done += 1
            self.rec.ev('ok', self.done)

    def lost(self):
        if getattr(self, 'crash', False):
            self.crash = False
            self.restart(self.node)
        self.net.after(0.5, self.connect)
