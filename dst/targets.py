"""Enumerates, from the wire model, the places of every message type a plan aims at.

A target is [type, path, what, arg]:
  path   component names from the top ('*' steps into the element of an OF type)
  what   'has'  the component at path is present in the message
         'leaf' the leaf at path has value arg (a boundary the format allows)
         'miss' the mandatory component at path is absent          (malformed)
  'bare' the same, with every omissible sibling absent, too  (malformed: one too few)
         'tag'  the component at path carries a tag never seen      (malformed)
         'out'  the leaf at path has value arg, outside the format  (malformed)
         'size' the OF type at path has arg elements, too many/few  (must not be emitted)
Inline structures are entered; a component whose node is itself a named type is not
(it is a target of its own).
"""
from .wire import CONSTRUCTED, STRINGS, holds, numbers, quirk, alphabet, weight

MAXLEN = 33000

# Types whose components cannot be told apart on the wire: fixed values only.
SPECIAL = {'rfc6402.ChangeSubjectName': [
    ['subject', {'subject': ['rdnSequence', [[{'type': [2, 5, 4, 3], 'value': '0c0178'}]]]}],
    ['subjectAlt', {'subjectAlt': [['dNSName', 'a.example']]}],
    ['both', {'subject': ['rdnSequence', [[{'type': [2, 5, 4, 3], 'value': '0c0178'}]]],
              'subjectAlt': [['dNSName', 'a.example']]}]]}

# A structured DEFAULT met by a value that differs from it in an OPTIONAL part only.
NEAR_DEFAULT = [
    ['rfc5697.SCVPCertID#default algorithm, parameters present',
     {'certHash': '0102', 'issuerSerial': {'issuer': [['dNSName', 'a']], 'serialNumber': 5},
      'hashAlgorithm': {'algorithm': [1, 3, 14, 3, 2, 26], 'parameters': '0500'}}],
    ['rfc5035.ESSCertIDv2#default algorithm, parameters absent',
     {'certHash': '0102', 'hashAlgorithm': {'algorithm': [2, 16, 840, 1, 101, 3, 4, 2, 1]}}],
    ['rfc5275.GLKeyAttributes#default algorithm, parameters present',
     {'requestedAlgorithm': {'capabilityID': [2, 16, 840, 1, 101, 3, 4, 1, 5], 'parameters': '0500'}}],
    ['rfc8018.PBKDF2_params#default algorithm, parameters absent',
     {'salt': ['specified', '0102'], 'iterationCount': 5,
      'prf': {'algorithm': [1, 2, 840, 113549, 2, 7]}}]]


def leaf_bounds(node):
    """(allowed boundary values, disallowed values next to them) of a leaf node."""
    k, c = node['k'], node.get('c')
    good, bad = [], []

    def put(v):
        if k in ('Integer', 'Enumerated') and (quirk(v) or isinstance(v, bool)):
            return
        (good if holds(node, c, v) else bad).append(v)

    if k in ('Integer', 'Enumerated'):
        for v in node.get('v', {}).values():
            put(v)
        for b in numbers(c, 'ValueRangeConstraint', []) + [
                x for x in numbers(c, 'SingleValueConstraint', []) if isinstance(x, int)]:
            for v in (b - 1, b, b + 1):
                put(v)
    elif k in STRINGS and k not in ('GeneralizedTime', 'UTCTime'):
        ch = (alphabet(c) or ['1' if k == 'NumericString' else 'a'])[0]
        for b in numbers(c, 'ValueSizeConstraint', []):
            for n in (b - 1, b, b + 1):
                if 0 <= n <= MAXLEN:
                    put(ch * n)
        for s in numbers(c, 'SingleValueConstraint', []):
            if isinstance(s, str):
                put(s)
                put(s + ch)
        al = alphabet(c)
        if al:
            lens = [n for n in numbers(c, 'ValueSizeConstraint', []) if 0 < n < 200] or [1]
            for x in al:
                put(x * lens[0])
            for x in '~@aA0 ':
                if x not in al:
                    put(x * lens[0])
    elif k in ('OctetString', 'BitString'):
        for b in numbers(c, 'ValueSizeConstraint', []):
            for n in (b - 1, b, b + 1):
                if 0 <= n <= MAXLEN:
                    put('5a' * n if k == 'OctetString' else ('10' * n)[:n])
        if k == 'BitString':
            for v in node.get('v', {}).values():
                put('0' * v + '1')
        else:
            for s in numbers(c, 'SingleValueConstraint', []):
                if isinstance(s, str):
                    put(s)
                    put(s + '00')
    elif k == 'ObjectIdentifier':
        for s in numbers(c, 'SingleValueConstraint', []):
            if isinstance(s, list):
                put(s)
                put(s + [99])
    elif k == 'Boolean':
        put(True)
        put(False)
    for v in huge(node):
        if holds(node, c, v) and not (k in ('Integer', 'Enumerated') and quirk(v)):
            good.append(v)      # nothing in the format stops it
    uniq = lambda xs: [x for i, x in enumerate(xs) if x not in xs[:i]]
    return uniq(good), uniq(bad)


def huge(node):
    """Values outside ordinary use, fine where the format sets no bound."""
    k = node['k']
    if k == 'Integer':
        return [1 << 170 | 12345, -(1 << 90) - 77]
    if k == 'GeneralizedTime':
        return ['20391231235959.123Z']
    if k == 'UTCTime':
        return []
    if k in STRINGS:
        return [((alphabet(node.get('c')) or ['1' if k == 'NumericString' else 'a'])[0]) * HUGE]
    if k == 'OctetString':
        return ['5a' * HUGE]
    if k == 'BitString':
        return ['10' * HUGE]
    if k == 'ObjectIdentifier':
        return [[2, 1 << 40, 0, 1 << 64 | 9] + [3] * 40]
    return []


HUGE = 1030


def many(model, node):
    """An unusual number of elements, within reason."""
    w = 99 if node['e'] is None else weight(model, node['e'])
    return HUGE if w == 1 else 130 if w <= 5 else 40


def of_bounds(model, node):
    c = node.get('c')
    b = numbers(c, 'ValueSizeConstraint', [])
    good, bad = [], []
    for x in b:
        for n in (x - 1, x, x + 1):
            if 0 <= n <= 300:
                lst = good if holds(node, c, [0] * n) else bad
                if n not in lst:
                    lst.append(n)
    if node['e'] is not None and holds(node, c, [0] * many(model, node)):
        if many(model, node) not in good:
            good.append(many(model, node))
    return good, bad


def enumerate_targets(model):
    """All targets, in a fixed order: (well-formed, malformed)."""
    named = {}
    for t, ref in model.types.items():
        named.setdefault(ref, t)
    good, bad = [], []

    def visit(t, ref, path, depth, top):
        node = model.node(ref)
        k = node['k']
        if not top and ref in named and k in CONSTRUCTED:
            return
        if k not in CONSTRUCTED:
            g, b = leaf_bounds(node)
            for v in g:
                good.append([t, path, 'leaf', v])
            for v in b:
                bad.append([t, path, 'out', v])
            if not any(v not in huge(node) for v in g):
                good.append([t, path, 'has', None])
            return
        if k in ('SequenceOf', 'SetOf'):
            g, b = of_bounds(model, node)
            for n in g:
                good.append([t, path, 'len', n])
            if not any(n != many(model, node) for n in g):
                good.append([t, path, 'has', None])
            for n in b:
                bad.append([t, path, 'size', n])
            if node['e'] is not None and depth < 5:
                visit(t, node['e'], path + ['*'], depth + 1, False)
            return
        good.append([t, path, 'has', None])
        if top and k != 'Choice':
            good.append([t, path, 'lean', None])
            good.append([t, path, 'full', None])
        for f in node['f']:
            p = path + [f['n']]
            good.append([t, p, 'has', None])
            if 'def' in f:
                good.append([t, p, 'value', f['def']] + (
                    ['DEFAULT %s set explicitly' % f['n']] if isinstance(f['def'], dict) else []))
            if k != 'Choice':
                if not ('opt' in f or 'def' in f):
                    bad.append([t, p, 'miss', None])
                    bad.append([t, p, 'bare', None])
            bad.append([t, p, 'tag', None])
            if depth < 5:
                visit(t, f['o'], p, depth + 1, False)

    for t in sorted(model.types):
        if t not in SPECIAL:
            visit(t, model.types[t], [], 0, True)
    for t, vs in sorted(SPECIAL.items()):
        for name, v in vs:
            good.append([t, [], 'value', v, name])
    for name, v in NEAR_DEFAULT:
        good.append([name.split('#')[0], [], 'value', v, name.split('#')[1]])
    return good, bad


ANYTAG = (None, None)


def outer_tags(model, ref):
    """Every outermost (class, number) a value of this node may have on the wire."""
    node = model.node(ref)
    if node['k'] == 'Any':
        return {ANYTAG}     # the pyasn1 release in use takes any tag for a tagged ANY, too
    if node['t']:
        c, _, n = node['t'][-1]
        return {(c, n)}
    if node['k'] == 'Choice':
        out = set()
        for f in node['f']:
            out |= outer_tags(model, f['o'])
        return out
    return set()


def clash(a, b):
    return bool(a & b) or ANYTAG in a or ANYTAG in b


def decisive(model, target):
    """Is the malformed message of this target unmistakable?  Leaving out a component
    is not when another one of the same tag can stand in for it; an unknown element is
    not where the format says ANY."""
    t, path, what, arg = target
    if what == 'bare':          # one too few, whichever it is; worth it only where 'miss' is not
        return not decisive(model, [t, path, 'miss', None])
    if what not in ('miss', 'tag'):
        return True
    ref = model.types[t]
    for i, h in enumerate(path):
        node = model.node(ref)
        if h == '*':
            ref = node['e']
            continue
        f = [f for f in node['f'] if f['n'] == h][0]
        if i == len(path) - 1:
            mine = outer_tags(model, f['o'])
            if what == 'tag':
                if node['k'] == 'Choice':
                    return not any(ANYTAG in outer_tags(model, g['o']) for g in node['f'])
                return ANYTAG not in mine and not any(
                    ANYTAG in outer_tags(model, g['o']) for g in node['f'])
            return not any(clash(mine, outer_tags(model, g['o'])) for g in node['f'] if g is not f)
        ref = f['o']
    return True
