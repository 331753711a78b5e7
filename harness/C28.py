"""Encoding a query dictionary and parsing the result gives the same dictionary."""
import hlib
from request_parser.http.request import QueryDict

BOUNDS = ('1..3 pairs with names and values of 0..2 (thorough 3) arbitrary characters below U+0100 in utf-8 and iso-8859-1, ASCII in ascii, bytes or text; extra safe characters none, '
          'slash, slash and colon, space; repeated names, empty names and values; the limit on fields at the number of pairs; encoded again with other safe characters and after a change; names and values of up to 8 and 25 (thorough 32 and 80) symbolic unreserved characters, 8 (40) pairs at once')
REACH = ['again', 'roundtrip', 'safe', 'repeat', 'empty', 'bytes', 'charset', 'alphabet', 'ascii-out', 'wide']
OPTS = {}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for cs in ['utf-8', 'iso-8859-1', 'ascii']:
        for n, v in ([(1, 1), (0, 1), (1, 0), (0, 2)] if quick else [(1, 1), (2, 1), (1, 2), (0, 2), (2, 0), (0, 3)]):
            out.append({'cs': cs, 'pairs': [[n, v]]})
    out.append({'cs': 'utf-8', 'pairs': [[0, 0]]})
    out.append({'cs': 'utf-8', 'pairs': [[1, 0], [1, 1]], 'alpha': 'a&=;+% /~'})
    out.append({'cs': 'iso-8859-1', 'pairs': [[1, 1], [1, 0], [1, 0]], 'alpha': 'a&%'})
    for n, v, c in ([(6, 9, 1), (5, 25, 1), (0, 5, 8)] if quick else [(6, 9, 1), (12, 16, 1), (5, 25, 1), (30, 80, 1), (0, 5, 8), (0, 4, 40)]):
        for cs in ('utf-8', 'ascii'):
            out.append({'cs': cs, 'pairs': [[n, v]] * c, 'wide': 1})
    return out


def run(S, case):
    cs = case['cs']
    hi = 127 if cs == 'ascii' else 255
    pairs = []
    bytesgiven = S.bool('bytes') if len(case['pairs']) == 1 else False
    for i, (n, v) in enumerate(case['pairs']):
        alpha = WIDE if case.get('wide') else case.get('alpha')
        a, b = S.text('n%d' % i, n, 0, hi, alpha), S.text('v%d' % i, v, 0, hi, alpha)
        if case.get('wide'):
            a = u'p%d' % i + a
            S.reach('wide')
        pairs.append((a, b))
    safe = S.choice('safe', [None, '', '/', '/:~@', ' ']) if len(pairs) == 1 else S.choice('safe', [None, '/'])
    st = hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=len(pairs))
    q = QueryDict(st, mutable=True, encoding=cs)
    want = {}
    for a, b in pairs:
        if bytesgiven:
            q.appendlist(a.encode(cs), b.encode(cs))
            S.reach('bytes')
        else:
            q.appendlist(a, b)
        if a in want:
            S.reach('repeat')
        want.setdefault(a, []).append(b)
        if not len(a) or not len(b):
            S.reach('empty')
    S.equal(dict(list(q.lists())), want, 'the dictionary is filled')
    r = S.call(q.urlencode, safe) if safe is not None else S.call(q.urlencode)
    if len(pairs) == 1:
        S.observe('r', r)
    S.require(r[0] == 'ok', 'a query dictionary can always be encoded')
    s = r[1]
    S.require(S.allin(s, ASCII), 'the encoded form is printable ASCII (and the safe characters)')
    S.reach('ascii-out')
    back = S.call(QueryDict, st, s, False, cs)
    S.require(back[0] == 'ok', 'the encoded form can be parsed')
    S.equal(dict(list(back[1].lists())), want, 'parsing the encoded form gives the same dictionary')
    S.reach('roundtrip')
    if not case.get('wide') and len(pairs) == 1:
        # every call encodes what the dictionary then holds, by its own arguments
        plain = S.call(q.urlencode)
        for other in ('/', None):
            r = S.call(q.urlencode, other)
            if other is None:
                S.equal(r, plain, 'the encoded form does not depend on the calls before')
            elif safe == other:
                S.equal(r, ('ok', s), 'the encoded form does not depend on the calls before')
        q.appendlist(pairs[0][0], u'more')
        more = S.call(QueryDict, hlib.settings(), q.urlencode(), False, cs)
        want[pairs[0][0]].append(u'more')
        S.equal(dict(list(more[1].lists())), want, 'a dictionary changed is encoded as it is')
        S.reach('again')
    if safe:
        S.reach('safe')
    if cs != 'utf-8':
        S.reach('charset')
    if case.get('alpha'):
        S.reach('alphabet')


WIDE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-'
ASCII = ''.join(chr(c) for c in range(32, 127))
