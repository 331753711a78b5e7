"""A multi-value dictionary is a mapping from keys to value lists."""
import hlib
from request_parser.utils.datastructures import MultiValueDict
from request_parser.http.request import QueryDict

BOUNDS = ('dictionaries of 0..3 keys with 0..2 values, keys out of two symbolic and two fixed names, arbitrary one-byte symbolic values, or values that are no strings; every sequence of up to 3 (quick: 2) out of 15 '
          'operations, after each one every reading method is compared with a dictionary of lists; MultiValueDict and mutable QueryDict, keys given as bytes or text')
REACH = ['set', 'append', 'setlist', 'setlist1', 'setnone', 'setdefault', 'setlistdefault', 'update', 'updatemv', 'updatekw', 'updateself', 'del', 'pop', 'popitem', 'clear', 'missing', 'empty', 'last',
         'alias', 'errors', 'odd']
OPTS = {'replays_quick': 900, 'budget_thorough': 700}

OPS = ['set', 'append', 'setlist', 'setlist1', 'setnone', 'setdefault', 'setlistdefault', 'update', 'updatemv', 'updatekw', 'updateself', 'del', 'pop', 'popd', 'popitem', 'clear']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for cls in ('mv', 'qd'):
        for first in OPS:
            out.append({'kind': 'ops', 'cls': cls, 'init': 'abe', 'first': first, 'ops': 1 if quick else 2})
        out.append({'kind': 'ops', 'cls': cls, 'init': '', 'first': None, 'ops': 1 if quick else 2})
    for cls in ('mv', 'qd'):
        out.append({'kind': 'alias', 'cls': cls})
        out.append({'kind': 'odd', 'cls': cls})
        out.append({'kind': 'errors', 'cls': cls})
        out.append({'kind': 'text', 'cls': cls})
    return out


def make(cls, content):
    if cls == 'mv':
        return MultiValueDict([(k, list(v)) for k, v in content])
    d = QueryDict(hlib.settings(), mutable=True)
    for k, v in content:
        d.setlist(k, list(v))
    return d


def check(S, d, model, what):
    S.require(len(d) == len(model), what + ': the number of keys')
    S.equal(dict(list(d.lists())), model, what + ': lists() gives every key with all its values')
    single = {}
    S.reach('last')
    if what == 'new' and [k for k in model if not model[k]]:
        S.reach('empty')
    for k in model:
        vals = model[k]
        S.require(k in d, what + ': the key is there')
        S.equal(d.getlist(k), vals, what + ': getlist() gives all values in order')
        if vals:
            S.equal(d[k], vals[-1], what + ': item access gives the last value')
            S.equal(d.get(k), vals[-1], what + ': get() gives the last value')
            S.equal(d.get(k, 'dflt'), vals[-1], what + ': get() gives the last value')
            single[k] = vals[-1]
        else:
            S.equal(d[k], [], what + ': item access of an empty list')
            S.equal(d.get(k), None, what + ': get() of an empty list')
            S.equal(d.get(k, 'dflt'), 'dflt', what + ': get() of an empty list gives the default')
            single[k] = []
    S.equal(dict(list(d.items())), single, what + ': items() gives the last values')
    S.equal(dict(zip(list(d.keys()), list(d.values()))), single, what + ': values() gives the last values')
    S.equal(d.dict(), single, what + ': dict() gives the last values')
    S.equal(S.call(d.__getitem__, 'zz'), ('exc', 'MultiValueDictKeyError'), what + ': a missing key')
    S.equal(d.get('zz'), None, what + ': a missing key')
    S.equal(d.getlist('zz'), [], what + ': a missing key')
    S.equal(d.getlist('zz', ['x']), ['x'], what + ': a missing key')
    S.require('zz' not in d, what + ': a missing key')
    S.reach('missing')


def apply(S, i, op, d, model, cls):
    k = S.bytes('k%d' % i, 1, 'ac')
    v, w = S.bytes('v%d' % i, S.choice('len%d' % i, [0, 1])), S.bytes('w%d' % i, 1)
    S.reach('pop' if op == 'popd' else op)
    if op == 'set':
        d[k] = v
        model[k] = [v]
    elif op == 'append':
        d.appendlist(k, v)
        model[k] = model.get(k, []) + [v]
    elif op == 'setlist':
        d.setlist(k, [v, w])
        model[k] = [v, w]
    elif op == 'setlist1':
        if cls == 'qd':
            d.setlist(k, [v])
        else:
            d.setlist(k, v)
        model[k] = [v]
    elif op == 'setnone':
        if cls == 'qd':
            d.setlist(k, [])
        else:
            d.setlist(k, None)
        model[k] = []
    elif op == 'setdefault':
        if k not in model:
            model[k] = [v]
        S.equal(d.setdefault(k, v), model[k][-1] if model[k] else [], 'setdefault() gives the value now stored')
    elif op == 'setlistdefault':
        how = S.choice('how%d' % i, ['list', 'none'])
        if k not in model:
            model[k] = [v, w] if how == 'list' else []
        got = d.setlistdefault(k, [v, w]) if how == 'list' else d.setlistdefault(k)
        S.equal(got, model[k], 'setlistdefault() gives the list now stored')
    elif op == 'update':
        d.update({k: v, 'n': w})
        model[k] = model.get(k, []) + [v]
        model['n'] = model.get('n', []) + [w]
    elif op == 'updatemv':
        d.update(MultiValueDict({k: [v, w], 'b': []}))
        model[k] = model.get(k, []) + [v, w]
        model.setdefault('b', [])
    elif op == 'updatekw':
        d.update({'a': v}, a=w, n=v)
        model['a'] = model.get('a', []) + [v, w]
        model['n'] = model.get('n', []) + [v]
    elif op == 'updateself':
        d.update(make(cls, list(d.lists())))
        for x in list(model):
            model[x] = model[x] + model[x]
    elif op == 'del':
        r = S.call(d.__delitem__, k)
        if k in model:
            S.require(r[0] == 'ok', 'a key can be deleted')
            del model[k]
        else:
            S.require(r[0] == 'exc' and r[1] in ('KeyError', 'MultiValueDictKeyError'), 'deleting a missing key is a KeyError')
    elif op == 'pop':
        r = S.call(d.pop, k)
        if k in model:
            S.equal(r, ('ok', model.pop(k)), 'pop() gives the list of values')
        else:
            S.require(r[0] == 'exc' and r[1] in ('KeyError', 'MultiValueDictKeyError'), 'popping a missing key is a KeyError')
    elif op == 'popd':
        S.equal(d.pop(k, 'd'), model.pop(k, 'd'), 'pop() gives the list of values or the default')
    elif op == 'popitem':
        r = S.call(d.popitem)
        if model:
            S.require(r[0] == 'ok' and r[1][0] in model, 'popitem() gives a key')
            S.equal(r[1][1], model.pop(r[1][0]), 'popitem() gives the values of the key')
        else:
            S.require(r == ('exc', 'KeyError'), 'popitem() of an empty dictionary is a KeyError')
    else:
        d.clear()
        model.clear()


def run(S, case):
    cls = case['cls']
    k = case['kind']
    if k == 'ops':
        content = []
        for c in case['init']:
            n = {'a': 2, 'b': 1, 'e': 0}[c]
            content.append((c, [S.bytes(c + str(i), 1) for i in range(n)]))
        d = make(cls, content)
        model = dict([(a, list(b)) for a, b in content])
        check(S, d, model, 'new')
        if case['first']:
            apply(S, 0, case['first'], d, model, cls)
            check(S, d, model, 'after ' + case['first'])
        for i in range(case['ops']):
            op = S.choice('op%d' % i, OPS)
            apply(S, i + 1, op, d, model, cls)
            check(S, d, model, 'after ' + op)
        return
    v, w = S.bytes('v', 1), S.bytes('w', 1)
    if k == 'alias':
        mine = [v, w]
        d = make(cls, [])
        d.setlist('a', mine)
        mine.append('x')
        check(S, d, {'a': [v, w]}, 'after changing the list given')
        d.getlist('a').append('x')
        check(S, d, {'a': [v, w]}, 'after changing the list taken')
        for n in range(4):
            mine = [v, w, v][:n]
            e = make(cls, [('a', mine)])
            mine.append('x')
            check(S, e, {'a': [v, w, v][:n]}, 'after changing the list given')
            e.getlist('a').append('x')
            e.getlist('a', ['y']).append('x')
            check(S, e, {'a': [v, w, v][:n]}, 'after changing the list taken')
            dflt = ['y']
            got = e.getlist('b', dflt)
            got.append('z')
            e.appendlist('b', v)
            check(S, e, {'a': [v, w, v][:n], 'b': [v]}, 'after changing a default that was given back')
        other = make(cls, [('a', [w]), ('b', [v])])
        d.update(other)
        other.appendlist('b', 'x')
        check(S, d, {'a': [v, w, w], 'b': [v]}, 'after changing the dictionary it was updated from')
        d.appendlist('b', 'y')
        check(S, other, {'a': [w], 'b': [v, 'x']}, 'after changing the dictionary updated')
        S.reach('alias')
    elif k == 'odd':
        # values that are no strings are kept as they are
        odd = S.choice('odd', [None, 0, 1, '', u'', False, True, (), (1,), {}, {'a': 1}, 0.5])
        d = make(cls, [('a', [v, odd]), ('b', [odd]), ('c', [odd, v])])
        check(S, d, {'a': [v, odd], 'b': [odd], 'c': [odd, v]}, 'new')
        d.appendlist('a', odd)
        d['d'] = odd
        check(S, d, {'a': [v, odd, odd], 'b': [odd], 'c': [odd, v], 'd': [odd]}, 'after adding')
        S.equal(d.setdefault('d', v), odd, 'setdefault() gives the value stored')
        S.equal(d.setdefault('e', odd), odd, 'setdefault() stores a value that is not there')
        S.equal(d.pop('b'), [odd], 'pop() gives the values')
        check(S, d, {'a': [v, odd, odd], 'c': [odd, v], 'd': [odd], 'e': [odd]}, 'after pop')
        S.reach('odd')
    elif k == 'errors':
        d = make(cls, [('a', [v])])
        S.require(S.call(d.update, {}, {}) == ('exc', 'TypeError'), 'update() takes at most one mapping')
        check(S, d, {'a': [v]}, 'after a refused update')
        S.reach('errors')
    else:
        key = S.choice('key', ['a', u'a'])
        d = make(cls, [('a', [v])])
        d.appendlist(key, w)
        check(S, d, {'a': [v, w]}, 'a key as bytes or text is the same key')
        d[key] = v
        check(S, d, {'a': [v]}, 'a key as bytes or text is the same key')
        del d[key]
        check(S, d, {}, 'a key as bytes or text is the same key')
