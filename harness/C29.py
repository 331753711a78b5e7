"""An immutable list never changes."""
import hlib
from request_parser.utils.datastructures import ImmutableList

BOUNDS = ('immutable lists of 0..3 arbitrary one-byte symbolic items with the default, a text and an exception warning; all 13 mutating operations with symbolic positions and items, two in a row (quick: for lists of 1 and 3); '
          'reading by every position in -4..4, slices, iteration, membership, concatenation')
REACH = ['refused', 'text', 'exception', 'default', 'read', 'slice', 'index-error']
OPTS = {}
ALPHA = 'ab\x00'
OPS = ['set', 'del', 'setslice', 'delslice', 'iadd', 'imul', 'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse']


def cases(tier):
    out = []
    for n in ([0, 2] if tier == 'quick' else [0, 1, 2, 3]):
        out.append({'n': n, 'w': 'default', 'ops': 0, 'read': 1})
        for w in ('default', 'text', 'exception'):
            out.append({'n': n, 'w': w, 'ops': 1 if tier == 'quick' else 2})
    if tier == 'quick':
        for w in ('text', 'exception'):
            out.append({'n': 1, 'w': w, 'ops': 2})
    out.append({'n': 3, 'w': 'default', 'ops': 2 if tier == 'quick' else 3})
    return out


class Refused(Exception):
    pass


def imul(l):
    l *= 2


def iadd(l, x):
    l += [x]


def setitem(l, i, x):
    l[i] = x


def delitem(l, i):
    del l[i]


def operation(S, l, op, i, x):
    if op == 'set':
        return S.calle(setitem, l, i, x)
    if op == 'del':
        return S.calle(delitem, l, i)
    if op == 'setslice':
        return S.calle(l.__setslice__, 0, i, [x])
    if op == 'delslice':
        return S.calle(l.__delslice__, 0, i)
    if op == 'iadd':
        return S.calle(iadd, l, x)
    if op == 'imul':
        return S.calle(imul, l)
    if op == 'append':
        return S.calle(l.append, x)
    if op == 'extend':
        return S.calle(l.extend, [x])
    if op == 'insert':
        return S.calle(l.insert, i, x)
    if op == 'pop':
        return S.calle(l.pop, i) if S.bool('popi') else S.calle(l.pop)
    if op == 'remove':
        return S.calle(l.remove, x)
    if op == 'sort':
        return S.calle(l.sort)
    return S.calle(l.reverse)


def run(S, case):
    items = [S.bytes('i%d' % i, 1, ALPHA) for i in range(case['n'])]
    x = S.bytes('x', 1, ALPHA)
    if case['w'] == 'default':
        l = ImmutableList(items)
        cls, msg = 'AttributeError', 'ImmutableList object is immutable.'
    elif case['w'] == 'text':
        l = ImmutableList(items, warning='no ' + x)
        cls, msg = 'AttributeError', 'no ' + x
    else:
        l = ImmutableList(items, warning=Refused('never'))
        cls, msg = 'Refused', 'never'
    for j in range(case['ops']):
        op = S.choice('op%d' % j, OPS)
        i = S.choice('pos%d' % j, [0, 1, -1]) if j == 0 and op in ('set', 'del', 'setslice', 'delslice', 'insert', 'pop') else 0
        r = operation(S, l, op, i, x)
        S.require(r[0] == 'exc', 'an immutable list refuses every change')
        S.equal(r[1].__class__.__name__, cls, 'the error configured')
        S.equal(r[1].args[0], msg, 'the message configured')
        S.require(len(l) == len(items), 'the list keeps its length')
        S.equal(list(l), items, 'the list keeps its items')
        S.reach('refused')
        S.reach(case['w'])
    if not case.get('read'):
        return
    k = S.choice('k', list(range(-4, 5)))
    r = S.call(l.__getitem__, k)
    if -len(items) <= k < len(items):
        S.equal(r, ('ok', items[k]), 'items are read as from a tuple')
    else:
        S.require(r == ('exc', 'IndexError'), 'a position outside the list is an IndexError')
        S.reach('index-error')
    S.equal(list(l[1:]), items[1:], 'slices are read as from a tuple')
    S.reach('slice')
    S.equal([i for i in l], items, 'iteration is that of a tuple')
    S.require((x in l) == (x in items), 'membership is that of a tuple')
    S.equal(l.count(x), items.count(x), 'count is that of a tuple')
    S.equal(list(l + tuple(items)), items + items, 'concatenation is that of a tuple')
    S.require(l == tuple(items), 'the list equals the tuple of its items')
    S.reach('read')
