"""Simulated text sources carrying PEM, and the reference reader.

Real: pyasn1_modules.pem, io.BufferedReader, io.TextIOWrapper, base64.
Simulated: the raw byte source (fragment sizes, delays, faults, end of input).
"""
import base64
import io
import random

from .core import NoProgress

KINDS = ['CERTIFICATE', 'PKCS7', 'RSA PRIVATE KEY', 'DSA PRIVATE KEY', 'CERTIFICATE REQUEST',
         'X509 CRL', 'CMS', 'PUBLIC KEY', 'NEW CERTIFICATE REQUEST']


def marker(kind):
    """A (start, stop) pair."""
    return ('-----BEGIN %s-----' % kind, '-----END %s-----' % kind)


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def spam_line(r, kinds):
    """A line that is no marker of these kinds, often nearly one."""
    w = r.randrange(14)
    k = r.choice(kinds)
    b, e = marker(k)
    if w == 0:
        return ''
    if w == 1:
        return b[:-1]
    if w == 2:
        return 'x' + b
    if w == 3:
        return b.lower()
    if w == 4:
        return b.replace(' ', '  ', 1)
    if w == 5:
        return e
    if w == 6:
        return ''.join(r.choice(B64) for _ in range(r.choice((4, 16, 64))))
    if w == 7:
        return b + ' #'
    if w == 8:
        return 'subject=/C=XX/CN=' + ''.join(r.choice('abc /=') for _ in range(r.randrange(20)))
    if w == 9:
        return '-----BEGIN SOMETHING ELSE-----'
    if w == 10:
        return '-----END SOMETHING ELSE-----'
    if w == 11:
        return '    ' + ''.join(r.choice('0123456789abcdef:') for _ in range(r.randrange(48)))
    if w == 12:
        return '-' * r.randrange(70)
    return ' '.join(''.join(r.choice('etaoinshrdlu') for _ in range(r.randrange(1, 9)))
                    for _ in range(r.randrange(1, 8)))


def block_lines(kind, payload, width, end=None):
    b, e = marker(kind)[0], marker(end or kind)[1]
    t = base64.b64encode(payload).decode()
    return [b] + [t[i:i + width] for i in range(0, len(t), width)] + [e]


def render(lines, eol, deco, r):
    """Lines to text: per-line decoration with blanks, line ends, maybe none at the end."""
    out = []
    for s in lines:
        if deco and r.random() < deco:
            s = r.choice(('', ' ', '\t', '  ')) + s + r.choice(('', ' ', '\t', '   '))
        out.append(s)
    ends = {'lf': ['\n'], 'crlf': ['\r\n'], 'mixed': ['\n', '\r\n']}[eol]
    return [s + r.choice(ends) for s in out]


def ref_decode(lines):
    return b''.join(base64.b64decode(x.encode()) for x in lines)


def ref_read(lines, pos, markers):
    """The reference reader over a list of stripped lines: (index, bytes, new position).

    (-1 or index, None, len) when no complete block is left.
    """
    starts = {m[0]: i for i, m in enumerate(markers)}
    stops = {m[1]: i for i, m in enumerate(markers)}
    idx, body, inside = -1, [], False
    while pos < len(lines):
        s = lines[pos]
        pos += 1
        if s in starts:
            idx, body, inside = starts[s], [], True
        elif inside and s in stops:
            if idx == stops[s]:
                return idx, body, pos
            inside, body = False, []
        elif inside:
            body.append(s)
    return idx, None, pos


class Raw(io.RawIOBase):
    """Byte source delivering seeded fragments; `pause` may switch threads; faults by offset."""

    def __init__(self, data, r, frag, rec, pause=None, errors=()):
        self.data = data
        self.pos = 0
        self.r = r
        self.frag = frag
        self.rec = rec
        self.pause = pause
        self.errors = sorted(errors, key=lambda e: e[0])   # [offset, exception]
        self.eof = 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.pause:
            self.pause()
        if self.errors and self.pos >= self.errors[0][0]:
            e = self.errors.pop(0)[1]
            self.rec.fault('read error ' + type(e).__name__)
            raise e
        left = len(self.data) - self.pos
        if not left:
            self.eof += 1
            if self.eof > 5000:
                raise NoProgress('reading at end of input over and over')
            return 0
        n = min(left, len(b))
        if self.frag:
            n = min(n, self.r.choice(self.frag))
            self.rec.fault('short read')
        if self.errors:
            n = min(n, max(1, self.errors[0][0] - self.pos))
        self.rec.simtime += self.r.choice((0.0, 0.001, 0.05, 2.0))
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Lines:
    """The least a caller may hand over: an object with readline() (and what follows from it)."""

    def __init__(self, lines, rec, pause=None, errors=()):
        self.lines = list(lines)
        self.pos = 0
        self.rec = rec
        self.pause = pause
        self.errors = dict(errors)    # line number -> exception, raised once, nothing consumed
        self.eof = 0

    def readline(self, *a):
        if self.pause:
            self.pause()
        if self.pos in self.errors:
            e = self.errors.pop(self.pos)
            self.rec.fault('read error ' + type(e).__name__)
            raise e
        if self.pos >= len(self.lines):
            self.eof += 1
            if self.eof > 5000:
                raise NoProgress('reading at end of input over and over')
            return ''
        s = self.lines[self.pos]
        self.pos += 1
        return s

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def read(self, *a):
        s = ''.join(self.lines[self.pos:])
        self.pos = len(self.lines)
        return s


def open_source(how, texts, r, rec, pause=None, errors=(), frag=(1, 2, 3, 7, 64, 500)):
    """texts: rendered lines. errors: [[line number, exception]]."""
    if how == 'lines':
        return Lines(texts, rec, pause, errors)
    if how == 'stringio':
        return io.StringIO(''.join(texts), newline='')
    data = ''.join(texts).encode('utf-8', 'surrogateescape')
    offs = []
    for n, e in errors:
        offs.append([sum(len(t.encode('utf-8', 'surrogateescape')) for t in texts[:n]), e])
    raw = Raw(data, r, frag, rec, pause, offs)
    buf = io.BufferedReader(raw, buffer_size=r.choice((1, 7, 16, 64, 512, 8192)))
    return io.TextIOWrapper(buf, encoding='utf-8', errors='surrogateescape' if how == 'bytes' else 'strict')
