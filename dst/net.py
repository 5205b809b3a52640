"""Simulated time and a simulated network: one event heap, nothing real."""
import heapq

from .core import NoProgress


class Net:
    def __init__(self, rec, budget=200000):
        self.rec = rec
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.left = budget

    def after(self, dt, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (round(self.now + dt, 6), self.seq, fn, args))

    def run(self, until=None):
        while self.heap:
            if until is not None and until():
                break
            t, _, fn, args = heapq.heappop(self.heap)
            if t > self.now:
                self.rec.simtime += t - self.now
                self.now = t
            self.left -= 1
            if self.left < 0:
                raise NoProgress('network events')
            fn(*args)


class Stream:
    """One TCP-like connection.  Bytes arrive in order, in fragments of any size,
    after any delay; a reset loses everything not yet delivered, both ways."""

    def __init__(self, net, rng, recv, closed, frag=1.5, lat=0.05):
        self.net = net
        self.rng = rng
        self.recv = recv              # {'a': fn(bytes), 'b': fn(bytes)}
        self.closed = closed          # fn() at both ends' notice of the reset
        self.frag = frag
        self.lat = lat
        self.dead = False
        self.last = {'a': 0.0, 'b': 0.0}
        self.buf = {'a': b'', 'b': b''}      # written, not yet put on the wire
        self.cutat = None                    # absolute offset towards 'b' at which it resets
        self.sent = {'a': 0, 'b': 0}

    def write(self, to, data):
        if self.dead:
            return
        self.buf[to] += data

    def flush(self, to):
        """Put what was written on the wire, as fragments."""
        data, self.buf[to] = self.buf[to], b''
        if self.dead or not data:
            return
        rng = self.rng
        n = 0
        while rng.random() < 1 - 1 / (1 + self.frag) and n < 12:
            n += 1
        cuts = sorted(set([0, len(data)] + [rng.randrange(len(data) + 1) for _ in range(n)]))
        if to == 'b' and self.cutat is not None and self.sent[to] + len(data) >= self.cutat:
            keep = max(0, self.cutat - self.sent[to])
            cuts = sorted(set([c for c in cuts if c < keep] + [0, keep]))
            reset = True
        else:
            reset = False
        if len(cuts) > 2:
            self.net.rec.fault('fragmented', len(cuts) - 2)
        t = max(self.net.now, self.last[to])
        for i, j in zip(cuts, cuts[1:]):
            d = self.lat * rng.random()
            if rng.random() < 0.05:
                d += rng.choice((1.0, 30.0))
                self.net.rec.fault('stall')
            t += d
            self.net.after(t - self.net.now, self._deliver, to, data[i:j])
        self.last[to] = t
        self.sent[to] += len(data)
        if reset:
            self.net.after(t - self.net.now, self.reset)

    def _deliver(self, to, frag):
        if self.dead or not frag:
            return
        self.net.rec.ev('rx', to, len(frag))
        self.recv[to](frag)
        self.flush('a')
        self.flush('b')

    def reset(self):
        if not self.dead:
            self.dead = True
            self.net.rec.ev('reset')
            self.closed()


class Datagrams:
    """A UDP-like link: datagrams are lost, duplicated, reordered, delayed."""

    def __init__(self, net, rng, rates):
        self.net = net
        self.rng = rng
        self.rates = rates            # {'loss':, 'dup':, 'late':}

    def send(self, recv, data, faulty=True):
        r, rates = self.rng, self.rates if faulty else {}
        if r.random() < rates.get('loss', 0):
            self.net.rec.fault('lost')
            return
        copies = 1
        if r.random() < rates.get('dup', 0):
            self.net.rec.fault('duplicated')
            copies = 2
        for i in range(copies):
            d = 0.001 + 0.05 * r.random()
            if r.random() < rates.get('late', 0):
                self.net.rec.fault('reordered')
                d += 0.5 * r.random()
            self.net.after(d, recv, data)
