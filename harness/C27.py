"""Immutable dictionaries refuse every change."""
import hlib
from request_parser.utils.datastructures import MultiValueDict, ImmutableMultiValueDict
from request_parser.files.uploadhandler import FileUploadHandler, StopUpload
from request_parser.http.request import QueryDict, HttpRequest
from request_parser.http.constants import MetaDict

BOUNDS = ('immutable query dictionaries (from a string, from keys, GET of a request) and immutable multi-value dictionaries with symbolic keys and values; all 15 mutating operations with '
          'present and missing keys, up to 3 in a row; query, form and headers of parsed requests of twelve kinds, among them truncated, empty and aborted uploads; the same operations once made mutable, compared with a multi-value dictionary')
REACH = ['refused', 'mutable', 'get', 'qd', 'im', 'keys', 'read', 'parsed']
OPTS = {}
OPS = ['set', 'append', 'setlist', 'setdefault', 'setlistdefault', 'setlistdefault0', 'update', 'updatemv', 'updatekw', 'del', 'pop', 'popd', 'popitem', 'clear']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for cls in ('im', 'qd', 'get', 'keys'):
        out.append({'kind': 'refuse', 'cls': cls, 'ops': 2 if quick else 3})
    for t in ('form', 'multi', 'files', 'text', 'none', 'empty', 'both', 'cutfile', 'cutfield', 'abort', 'stop', 'length0'):
        out.append({'kind': 'parsed', 'type': t})
    for cls in ('im', 'qd'):
        out.append({'kind': 'mutable', 'cls': cls, 'ops': 1 if quick else 2})
    return out


class Stopping(FileUploadHandler):
    def __init__(self, reset):
        FileUploadHandler.__init__(self)
        self.reset = reset

    def new_file(self, *args, **kwargs):
        FileUploadHandler.new_file(self, *args, **kwargs)

    def receive_data_chunk(self, data, start):
        raise StopUpload(connection_reset=self.reset)

    def file_complete(self, size):
        return None


def make(cls, v, w):
    if cls == 'im':
        return ImmutableMultiValueDict({'a': [v, w], 'b': [v]})
    if cls == 'keys':
        return QueryDict.fromkeys(['a', 'b', 'a'], v, settings=hlib.settings())
    q = 'a=' + v + '&a=' + w + '&b=' + v
    if cls == 'qd':
        return QueryDict(hlib.settings(), q)
    req = HttpRequest(hlib.BytesIO('GET /?' + q + ' HTTP/1.1\r\nHost: h\r\n\r\n'), hlib.settings())
    req.parse()
    return req.GET


def operation(S, d, op, k, x):
    if op == 'set':
        return S.call(d.__setitem__, k, x)
    if op == 'append':
        return S.call(d.appendlist, k, x)
    if op == 'setlist':
        return S.call(d.setlist, k, [x])
    if op == 'setdefault':
        return S.call(d.setdefault, k, x)
    if op == 'setlistdefault':
        return S.call(d.setlistdefault, k, [x])
    if op == 'setlistdefault0':
        return S.call(d.setlistdefault, k)
    if op == 'update':
        return S.call(d.update, {k: x})
    if op == 'updatemv':
        return S.call(d.update, MultiValueDict({k: [x, x]}))
    if op == 'updatekw':
        return S.call(d.update, a=x)
    if op == 'del':
        return S.call(d.__delitem__, k)
    if op == 'pop':
        return S.call(d.pop, k)
    if op == 'popd':
        return S.call(d.pop, k, 'd')
    if op == 'popitem':
        return S.call(d.popitem)
    return S.call(d.clear)


def content(d):
    return dict([(k, list(v)) for k, v in d.lists()])


def run(S, case):
    v, w, x = S.bytes('v', 1, 'xyz09'), S.bytes('w', 1, 'xyz09'), S.bytes('x', 1, 'xyz')
    if case['kind'] == 'parsed':
        # what a parsed request reports
        t = case['type']
        field, upload = hlib.part('f', 'a', v), hlib.part('F', 'u', v)
        body = {'form': 'a=' + v, 'multi': hlib.body_of([field]), 'files': hlib.body_of([upload]), 'text': v, 'none': v, 'empty': '',
                'both': hlib.body_of([field, upload]), 'cutfile': '--B\r\n' + field + '\r\n--B\r\n' + upload + '\r\n--', 'cutfield': '--B\r\n' + field,
                'abort': hlib.body_of([field, upload, hlib.part('f', 'a', w)]), 'stop': hlib.body_of([field, upload]), 'length0': hlib.body_of([field])}[t]
        ctype = {'form': 'application/x-www-form-urlencoded', 'text': 'text/plain', 'none': None, 'empty': None}.get(t, 'multipart/form-data; boundary=B')
        req = HttpRequest(hlib.BytesIO('POST /?a=' + v + ' HTTP/1.1\r\nHost: h\r\n' + ('Content-Type: ' + ctype + '\r\n' if ctype else '') + 'a: ' + v + '\r\nContent-Length: ' + str(0 if t == 'length0' else len(body)) + '\r\n\r\n' + body),
                          hlib.settings(S))
        if t in ('abort', 'stop'):
            req.upload_handlers = [Stopping(t == 'abort')]
        S.require(S.call(req.parse)[0] == 'ok', 'the request is parsed')
        S.require(sorted(req.GET.keys()) == ['a'], 'the request is parsed')
        if t not in ('cutfield', 'length0', 'cutfile', 'abort', 'stop'):
            S.require(sorted(req.POST.keys()) == (['a'] if t in ('form', 'multi', 'both') else []), 'the request is parsed')
        which = S.choice('which', ['GET', 'POST', 'headers'])
        d = {'GET': req.GET, 'POST': req.POST, 'headers': req.META[MetaDict.Info.REQ_HEADERS]}[which]
        before = content(d)
        op = S.choice('op', OPS)
        r = operation(S, d, op, S.choice('k', ['a', 'z']), x)
        S.require(r == ('exc', 'AttributeError'), 'what a parsed request reports refuses every change with an AttributeError')
        S.equal(content(d), before, 'what a parsed request reports stays as it was')
        S.reach('parsed')
        return
    cls = case['cls']
    d = make(cls, v, w)
    before = content(d)
    S.equal(before, {'a': [v, w] if cls != 'keys' else [v, v], 'b': [v]}, 'the dictionary is filled')
    if case['kind'] == 'refuse':
        for i in range(case['ops']):
            op = S.choice('op%d' % i, OPS)
            r = operation(S, d, op, S.choice('k%d' % i, ['a', 'z']), x)
            S.observe('r', r)
            S.require(r == ('exc', 'AttributeError'), 'an immutable dictionary refuses every change with an AttributeError')
            S.equal(content(d), before, 'an immutable dictionary stays as it was')
            S.reach('refused')
        S.equal(d['a'], before['a'][-1], 'an immutable dictionary can be read')
        S.equal(d.getlist('b'), [v], 'an immutable dictionary can be read')
        l = d.getlist('a')
        l.append('x')
        S.equal(content(d), before, 'the lists handed out are copies')
        S.reach('read')
        S.reach(cls)
        return
    d._mutable = True
    m = MultiValueDict(before)
    m = MultiValueDict(dict([(a, list(b)) for a, b in before.items()]))
    for i in range(case['ops']):
        op = S.choice('op%d' % i, OPS)
        k = S.choice('k%d' % i, ['a', 'z'])
        r = operation(S, d, op, k, x)
        if op == 'popitem':
            S.require(r[0] == 'ok' or not len(m), 'popitem() works when mutable')
            if r[0] == 'ok':
                S.equal(r[1][1], m.pop(r[1][0]), 'popitem() works when mutable')
        else:
            q = operation(S, m, op, k, x)
            S.observe('r', r)
            S.equal(r, q, 'a dictionary made mutable works like a multi-value dictionary')
        S.equal(content(d), content(m), 'a dictionary made mutable changes like a multi-value dictionary')
    S.reach('mutable')
