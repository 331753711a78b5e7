"""File objects answer for the file they stand for."""
from io import BytesIO
import hlib
from request_parser.files.base import File, ContentFile
from request_parser.files.uploadedfile import InMemoryUploadedFile, SimpleUploadedFile, TemporaryUploadedFile, UploadedFile
from request_parser.http.request import HttpRequest

BOUNDS = ('File over a memory file, a file on disk and nothing, ContentFile, SimpleUploadedFile (made directly and from a dictionary), InMemoryUploadedFile, TemporaryUploadedFile and the files of a parsed '
          'request; file objects that only tell a mode, or answer for themselves; contents of 0..2 arbitrary bytes, content types of 0 or 3 arbitrary bytes, names of 0..2 arbitrary bytes or none or that of an existing file; every sequence of up to 3 (thorough 4) of read, seek, write, open, close, leaving a with block '
          'normally or with an error')
REACH = ['open', 'reopened', 'not-reopened', 'closed', 'with', 'error', 'name', 'no-name', 'dict', 'request', 'existing', 'modes']
OPTS = {}
KINDS = ['memory', 'disk', 'content', 'simple', 'dict', 'inmemory', 'temp', 'request', 'requesttemp']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for kind in KINDS:
        out.append({'kind': kind, 'ops': 3 if quick else 4, 'n': 2, 'name': 'n'})
        out.append({'kind': kind, 'ops': 2, 'n': 1, 'name': 'existing'})
        out.append({'kind': kind, 'ops': 1, 'n': 0, 'name': 'any'})
    out.append({'kind': 'modes'})
    out.append({'kind': 'none', 'ops': 1, 'n': 0, 'name': 'any'})
    return out


def make(S, kind, data, name, base, ctype='t/x'):
    """(the file object, the bytes it is expected to hold)"""
    if kind == 'memory':
        return File(BytesIO(data), name)
    if kind == 'none':
        return File(None, name)
    if kind == 'disk':
        S.mkfile(base + '/f', data)
        return File(open(base + '/f', 'r+b'))
    if kind == 'content':
        return ContentFile(data, name)
    if kind == 'simple':
        return SimpleUploadedFile(name, data, ctype)
    if kind == 'dict':
        S.reach('dict')
        return SimpleUploadedFile.from_dict({'filename': name, 'content': data, 'content-type': ctype})
    if kind == 'inmemory':
        return InMemoryUploadedFile(BytesIO(data), 'f', name, ctype, len(data), None)
    st = hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=0 if kind == 'requesttemp' else 1000)
    st.FILE_UPLOAD_TEMP_DIR = base + '/up'
    if kind == 'temp':
        f = TemporaryUploadedFile(name, ctype, len(data), None, st)
        f.write(data)
        f.seek(0)
        return f
    body = hlib.body_of([hlib.part('F', 'f', data, 't/x', filename=name)])
    req = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: ' + str(len(body)) + '\r\n\r\n' + body), st)
    req.parse()
    S.reach('request')
    return req.FILES['f']


def state(S, f, kind, closed):
    S.require(f.closed is closed or f.closed == closed, 'closed says whether the file is closed')
    if closed:
        S.require(not f.readable() and not f.writable() and not f.seekable(), 'a closed file can do nothing')
    elif kind == 'disk':
        S.require(f.readable() and f.seekable(), 'an open file can be read and positioned')
    else:
        S.require(f.readable() and f.seekable() and f.writable(), 'an open file can be read, written and positioned')


class Plain(object):
    """an old file object, that only tells its mode"""
    closed = False


def modes(S):
    p = Plain()
    mode = S.choice('mode', [None, '', 'r', 'rb', 'rU', 'w', 'wb', 'w+', 'w+b'])
    if mode is not None:
        p.mode = mode
    how = S.choice('how', ['file', 'uploaded'])
    f = File(p, 'n') if how == 'file' else UploadedFile(p, 'n')
    S.require(f.readable() and f.seekable(), 'an open file can be read and positioned')
    S.require(f.writable() == (mode is not None and mode.startswith('w')), 'a file opened for writing can be written')
    p.closed = True
    S.require(not f.readable() and not f.writable() and not f.seekable() and f.closed, 'a closed file can do nothing')
    for r in (True, False):
        a = S.bool('w%d' % r)
        q2 = Answers(a, r)
        f = File(q2, 'n')
        S.require(bool(f.writable()) == a and bool(f.readable()) == r and bool(f.seekable()) == (not a), 'a file answers for the one it stands for')
    S.reach('modes')


class Answers(object):
    closed = False
    mode = 'r'

    def __init__(self, w, r):
        self.w, self.r = w, r

    def writable(self):
        return self.w

    def readable(self):
        return self.r

    def seekable(self):
        return not self.w


def run(S, case):
    kind = case['kind']
    if kind == 'modes':
        return modes(S)
    base = S.tmpdir()
    S.mkfile(base + '/here', 'another file')
    S.cd(base)
    data = S.bytes('d', case['n'])
    named = kind not in ('disk',)
    if case['name'] == 'n':
        name = 'n.txt'
    elif case['name'] == 'existing':
        name = 'here'
        S.reach('existing')
    elif kind in ('request', 'requesttemp'):
        name = 'z' + S.bytes('nm', S.choice('nl', [0, 1]), 'ab. -')
        S.assume(name[-1] != ' ')
    else:
        name = S.choice('nm0', [None, '', 'x']) if kind not in ('temp', 'simple', 'dict') else 'x'
        if name == 'x' and kind != 'none':
            name = S.bytes('nm', S.choice('nl', [1, 2]))
            S.assume('/' not in name)
    ctype = 't/x' if kind.startswith('request') else S.bytes('ct', S.choice('ctl', [0, 3]))
    f = make(S, kind, data, name, base, ctype)
    if kind == 'disk':
        name = base + '/f'
    # names
    S.equal(f.name, name, 'the name is the one given')
    S.require(bool(f) == (kind == 'content' or bool(name) or isinstance(f, UploadedFile) and len(data) == 0 and bool(name)), 'a file is true exactly if it has a name')
    if kind == 'content':
        S.equal(str(f), 'Raw content', 'the text form is the documented one')
    else:
        S.equal(str(f), name or '', 'the text form is the name')
    S.reach('name' if name else 'no-name')
    r = S.call(repr, f)
    S.require(r[0] == 'ok' and f.__class__.__name__ in r[1], 'the representation names the class')
    shown = 'Raw content' if kind == 'content' else name
    if kind == 'content' or kind in ('memory', 'disk', 'none'):
        S.equal(r[1], '<' + f.__class__.__name__ + ': ' + (shown if shown else 'None') + '>', 'and the text form of the file')
    if name and kind != 'content':
        S.require(name in r[1], 'and the file')
    if kind == 'none':
        S.require(f.closed and not f.readable() and not f.writable() and not f.seekable(), 'no file is a closed file')
        S.require(S.call(f.open) == ('exc', 'ValueError'), 'and cannot be opened')
        return
    if kind in ('simple', 'dict', 'inmemory', 'request', 'temp', 'requesttemp'):
        S.equal(f.content_type, ctype, 'the content type is the one given')
    S.require(len(f) == len(data), 'the length is that of the content')
    S.require(not f.multiple_chunks() and not f.multiple_chunks(0), 'a small file is one chunk of the usual size')
    f.seek(len(data) + 3)
    S.require(len(f) == len(data) and f.tell() == len(data) + 3, 'asking for the length leaves the position, wherever it is')
    f.seek(0)
    closed = False
    pos = 0
    ops = ['read', 'read1', 'seek', 'write', 'open', 'close', 'with', 'withexc']
    if case['ops'] == 1:
        ops = ['open', 'close', 'with', 'withexc']
    for i in range(case['ops']):
        op = S.choice('op%d' % i, ops)
        if op == 'close':
            S.require(S.call(f.close)[0] == 'ok', 'a file can be closed, more than once')
            closed = closed or kind != 'content'
            S.reach('closed')
        elif op in ('with', 'withexc'):
            err = None
            try:
                with f as g:
                    S.require(g is f, 'a with block is about the file itself')
                    if op == 'withexc':
                        raise KeyError('inside')
            except KeyError as e:
                err = e
                S.reach('error')
            S.require((err is not None) == (op == 'withexc'), 'errors inside a with block are passed on')
            closed = closed or kind != 'content'
            S.reach('with')
        elif op == 'open':
            r = S.call(f.open) if kind not in ('disk', 'memory') else S.call(f.open, 'r+b')
            if not closed:
                S.require(r[0] == 'ok' and r[1] is f, 'opening gives the file itself')
                pos = 0
                S.reach('open')
            elif kind == 'disk':
                S.require(r[0] == 'ok' and r[1] is f, 'a named file can be opened again')
                closed = False
                pos = 0
                S.reach('reopened')
            elif kind == 'memory' and name == 'here':
                # a plain file with the name of a file that exists
                S.require(r[0] == 'ok', 'a named file can be opened again')
                return
            else:
                S.require(r == ('exc', 'ValueError'), 'a file that is gone cannot be opened again')
                S.reach('not-reopened')
        elif closed:
            r = S.call(f.read) if op.startswith('read') else S.call(f.seek, 0) if op == 'seek' else S.call(f.write, 'x')
            S.require(r == ('exc', 'ValueError'), 'a closed file can do nothing')
        elif op == 'seek':
            f.seek(1)
            pos = 1
        elif op == 'write':
            f.seek(0)
            f.write('w')
            data = 'w' + data[1:]
            pos = 1
        else:
            got = f.read(1) if op == 'read1' else f.read()
            want = data[pos:pos + 1] if op == 'read1' else data[pos:]
            S.equal(got, want, 'reading gives the content from the position on')
            pos += len(want)
        state(S, f, kind, closed)
    S.require(S.exists(base + '/here'), 'other files are left alone')
    g = open(base + '/here', 'rb')
    S.equal(g.read(), 'another file', 'other files are left alone')
    g.close()
    f.close()
