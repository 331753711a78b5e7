"""Copies are independent and complete."""
import copy
import hlib
from request_parser.utils.datastructures import MultiValueDict, ImmutableMultiValueDict
from request_parser.http.request import QueryDict

BOUNDS = ('multi-value, immutable and query dictionaries (mutable and not, two encodings) with keys of 0..2 arbitrary one-byte values and nested lists, 5 (thorough 30) further keys of 1..5 (30) four-byte values; copy(), copy.copy, copy.deepcopy, '
          'saved and restored state, copies of copies; followed by every mutation of the copy or of the original')
REACH = ['mv', 'im', 'qd', 'copy', 'shallow', 'deep', 'state', 'mutable', 'nested', 'twice', 'fromkeys', 'memo']
OPTS = {}
MUT = ['last', 'other', 'set', 'append', 'setlist', 'del', 'pop', 'clear', 'update', 'setdefault', 'inner']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for cls in ('mv', 'im', 'qd', 'qi', 'q8'):
        for how in ('copy', 'shallow', 'deep', 'state', 'twice', 'reparse'):
            out.append({'kind': 'copy', 'cls': cls, 'how': how, 'n': 2 if not quick else 1})
    for cls in ('mv', 'im', 'qd', 'qi'):
        for how in ('copy', 'shallow', 'deep'):
            out.append({'kind': 'copy', 'cls': cls, 'how': how, 'n': 9, 'many': 5 if quick else 30})
    out.append({'kind': 'nested'})
    out.append({'kind': 'fromkeys'})
    out.append({'kind': 'memo'})
    return out


def make(S, cls, content):
    if cls == 'mv':
        return MultiValueDict(dict([(k, list(v)) for k, v in content]))
    if cls == 'im':
        return ImmutableMultiValueDict(dict([(k, list(v)) for k, v in content]))
    d = QueryDict(hlib.settings(), mutable=True, encoding='utf-8' if cls == 'q8' else None)
    for k, v in content:
        d.setlist(k, list(v))
    if cls == 'qi':
        d._mutable = False
    return d


def duplicate(S, d, how, cls):
    if how == 'copy':
        return d.copy()
    if how == 'shallow':
        return copy.copy(d)
    if how == 'deep':
        return copy.deepcopy(d)
    if how == 'twice':
        S.reach('twice')
        return copy.deepcopy(d.copy())
    if how == 'reparse':
        if cls in ('mv', 'im'):
            return d.__class__(dict([(k, list(v)) for k, v in d.lists()]))
        return d.copy().copy()
    state = d.__getstate__()
    new = {'mv': MultiValueDict, 'im': ImmutableMultiValueDict}.get(cls, QueryDict)
    new = new.__new__(new)
    dict.__init__(new)
    new.__setstate__(state)
    S.reach('state')
    return new


def mutate(S, d, op, x):
    """the content afterwards is a change of the dictionary `d` alone"""
    d._mutable = True
    if op == 'set':
        d['a'] = x
    elif op == 'last':
        d.appendlist(max(d.keys()), x)
    elif op == 'other':
        d.setlistdefault(sorted(d.keys())[-2]).append(x)
    elif op == 'append':
        d.appendlist('b', x)
    elif op == 'setlist':
        d.setlist('a', [x, x])
    elif op == 'del':
        del d['a']
    elif op == 'pop':
        d.pop('b')
    elif op == 'clear':
        d.clear()
    elif op == 'update':
        d.update({'a': x, 'z': x})
    elif op == 'setdefault':
        d.setdefault('y', x)
    else:
        d.setlistdefault('a').append(x)


def content(d):
    return dict([(k, list(v)) for k, v in d.lists()])


def run(S, case):
    k = case['kind']
    if k == 'copy':
        cls, how = case['cls'], case['how']
        vals = [S.bytes('v%d' % i, case['n'], None if cls != 'q8' else 'ab') for i in range(3)]
        more = [('k%d' % i, [S.bytes('m%d' % i, 4)] * (i + 1)) for i in range(case.get('many', 0))]
        d = make(S, cls, [('a', vals[:2]), ('b', [vals[2]]), ('e', [])] + more)
        before = content(d)
        c = duplicate(S, d, how, cls)
        S.equal(content(c), before, 'the copy is equal')
        S.equal(content(d), before, 'copying does not change the original')
        S.require(c is not d, 'the copy is another object')
        S.require(c.__class__ is d.__class__, 'the copy is of the same kind')
        S.observe('c', content(c))
        if cls in ('qd', 'qi', 'q8'):
            S.equal(c.encoding, d.encoding, 'the copy has the same encoding')
            S.require(c._mutable is True or how == 'state', 'a copy of a query dictionary is mutable')
            if how == 'state':
                S.require(c._mutable == d._mutable, 'restored state is as mutable as the original')
            else:
                S.equal(S.call(c.__setitem__, 'q', 'q')[0], 'ok', 'a copy of a query dictionary is mutable')
                del c['q']
                S.reach('mutable')
            if cls == 'qi':
                S.require(S.call(d.__setitem__, 'q', 'q') == ('exc', 'AttributeError'), 'the original stays immutable')
        if cls == 'im':
            S.require(S.call(c.__setitem__, 'q', 'q') == ('exc', 'AttributeError'), 'a copy of an immutable dictionary is immutable')
        op = S.choice('op', MUT)
        which = S.choice('which', ['copy', 'original'])
        x = S.bytes('x', 3, 'xyz')
        a, b = (c, d) if which == 'copy' else (d, c)
        mutate(S, a, op, x)
        S.equal(content(b), before, 'changing one leaves the other as it was')
        S.require(S.neg(S.same(content(a), before)), 'the change took place')
        S.reach({'qi': 'qd', 'q8': 'qd'}.get(cls, cls))
        S.reach({'twice': 'copy', 'state': 'copy', 'reparse': 'copy'}.get(how, how))
        return
    v = S.bytes('v', 1)
    if k == 'nested':
        d = MultiValueDict({'a': [[v], {'k': [v]}]})
        c = copy.deepcopy(d)
        S.equal(content(c), content(d), 'a deep copy is equal')
        c.getlist('a')[0].append('x')
        c.getlist('a')[1]['k'].append('x')
        S.equal(content(d), {'a': [[v], {'k': [v]}]}, 'a deep copy shares nothing')
        d.getlist('a')[0].append('y')
        S.equal(content(c), {'a': [[v, 'x'], {'k': [v, 'x']}]}, 'a deep copy shares nothing')
        q = QueryDict(hlib.settings(), mutable=True)
        q.appendlist('a', {'data': v, 'l': [v]})
        if S.bool('immutable'):
            q._mutable = False
        how = S.choice('how', ['copy', 'deep', 'copycopy'])
        c = q.copy() if how == 'copy' else copy.deepcopy(q) if how == 'deep' else q.copy().copy()
        S.equal(content(c), content(q), 'a copy of form fields is equal')
        c['a']['data'] = 'x'
        c['a']['l'].append('x')
        S.equal(content(q), {'a': [{'data': v, 'l': [v]}]}, 'a copy of form fields shares nothing')
        q['a']['data'] = 'y'
        S.equal(content(c), {'a': [{'data': 'x', 'l': [v, 'x']}]}, 'a copy of form fields shares nothing')
        S.reach('nested')
    elif k == 'memo':
        d = MultiValueDict({'a': [v]})
        pair = copy.deepcopy([d, d])
        S.require(pair[0] is pair[1], 'a dictionary met twice is copied once')
        S.require(pair[0] is not d, 'a dictionary met twice is copied')
        q = QueryDict(hlib.settings(), 'a=b')
        pair = copy.deepcopy([q, q])
        S.require(pair[0] is pair[1], 'a query dictionary met twice is copied once')
        # an object met twice inside a dictionary, and the dictionary itself
        for d in (MultiValueDict(), QueryDict(hlib.settings(), mutable=True)):
            x = [v]
            d.setlist('a', [x, x, v])
            d.appendlist('b', x)
            if S.bool('self'):
                d.appendlist('c', d)
            c = copy.deepcopy(d) if S.bool('deep') or isinstance(d, MultiValueDict) and not isinstance(d, QueryDict) else d.copy()
            S.equal(c.getlist('a'), [[v], [v], v], 'a deep copy is equal')
            S.require(c.getlist('a')[0] is c.getlist('a')[1] and c.getlist('a')[0] is c['b'], 'an object met twice is copied once')
            S.require(c['b'] is not x, 'a deep copy shares nothing')
            if 'c' in d:
                S.require(c['c'] is c, 'a dictionary inside itself is copied once')
        S.reach('memo')
    else:
        names = [S.bytes('n%d' % i, 1, 'ab') for i in range(3)]
        mutable = S.bool('mutable')
        d = QueryDict.fromkeys(names, v, mutable, None, hlib.settings())
        want = {}
        for n in names:
            want.setdefault(n, []).append(v)
        S.equal(content(d), want, 'fromkeys() gives every key its values')
        S.require((S.call(d.__setitem__, 'q', 'q')[0] == 'ok') == mutable, 'fromkeys() is mutable if asked for')
        d = QueryDict.fromkeys(names, settings=hlib.settings())
        S.equal(content(d), dict([(n, [''] * len(want[n])) for n in want]), 'fromkeys() without value')
        S.reach('fromkeys')
