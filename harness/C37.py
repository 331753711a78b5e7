"""Settings given override the defaults, the rest keep theirs."""
from io import BytesIO
import hlib
from request_parser.conf.settings import Settings
from request_parser.http.request import HttpRequest

BOUNDS = ('every subset of the six keys with symbolic integers up to 2**40, seven charsets and existing, new, relative, nested and unusable upload directories; settings changed after they were made, with 1..4 handlers; the settings applied to '
          'requests with 0..3 parameters, 0..3 bytes of form data, uploaded files of 0..3 bytes and every limit 0..4')
REACH = ['subset', 'empty', 'default', 'fields', 'memory', 'file', 'charset', 'header', 'newdir', 'baddir', 'shared', 'nolimit']
OPTS = {}
CHARSETS = ['utf-8', 'ISO-8859-1', 'ascii', 'UTF-8', 'cp1252', '', 'latin1']
K = Settings.Key
NAMES = [('dir', K.FILE_UPLOAD_DIR, 'FILE_UPLOAD_TEMP_DIR'), ('header', K.MAX_HEADER_SIZE, 'MAX_HEADER_SIZE'), ('file', K.FILE_UPLOAD_MAX_MEMORY, 'FILE_UPLOAD_MAX_MEMORY_SIZE'),
         ('data', K.DATA_UPLOAD_MAX_MEMORY, 'DATA_UPLOAD_MAX_MEMORY_SIZE'), ('fields', K.DATA_UPLOAD_MAX_FIELDS, 'DATA_UPLOAD_MAX_NUMBER_FIELDS'), ('charset', K.DEFAULT_CHARSET, 'DEFAULT_CHARSET')]
MB = 1024 * 1024


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'subset'}, {'kind': 'empty'}, {'kind': 'dir'}, {'kind': 'shared'}, {'kind': 'nolimit'}]
    for n in range(0, 4):
        out.append({'kind': 'fields', 'n': n})
        out.append({'kind': 'memory', 'n': n})
        out.append({'kind': 'file', 'n': n})
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'charset', 'n': n})
        out.append({'kind': 'header', 'n': n})
    return out


def defaults(S, s, skip=()):
    want = {'header': 16, 'file': 30 * MB, 'data': 5 * MB, 'fields': 4096, 'charset': 'ISO-8859-1'}
    for short, key, attr in NAMES:
        if short not in skip and short in want:
            S.equal(getattr(s, attr), want[short], 'a setting that is not given has its default')
    if 'dir' not in skip:
        d = s.FILE_UPLOAD_TEMP_DIR
        S.require(d.endswith('/request_parser/files/file_uploads') and d.startswith('/'), 'the default upload directory')
    S.equal(list(s.FILE_UPLOAD_HANDLERS), ['request_parser.files.uploadhandler.ConvenientFileUploadHandler'], 'the default handler')


def get(S, st, query):
    req = HttpRequest(BytesIO('GET /?' + query + ' HTTP/1.1\r\nHost: h\r\n\r\n'), st)
    return S.call(req.parse), req


def post(S, st, body, ctype='application/x-www-form-urlencoded'):
    req = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + ctype + '\r\nContent-Length: ' + str(len(body)) + '\r\n\r\n' + body), st)
    return S.call(req.parse), req


def run(S, case):
    k = case['kind']
    base = S.tmpdir()
    n = case.get('n')
    if k == 'subset':
        given, d = {}, {}
        for short, key, attr in NAMES:
            if not S.bool('has_' + short):
                continue
            if short == 'dir':
                v = base
            elif short == 'charset':
                v = S.choice('charset', CHARSETS)
            elif short == 'header':
                v = S.int('header', 1, 1 << 40)
            else:
                v = None if S.bool('none_' + short) else S.int(short, 0, 1 << 40)
            given[short] = v
            d[key] = v
        S.assume(len(d))
        s = Settings(dict(d))
        for short, key, attr in NAMES:
            if short in given:
                S.equal(getattr(s, attr), given[short], 'a setting given has the value given')
        defaults(S, s, given)
        S.reach('subset')
    elif k == 'empty':
        defaults(S, Settings({}))
        S.reach('empty')
        defaults(S, Settings.default())
        defaults(S, Settings({'UNKNOWN': S.int('i', 0, 9)}))
        S.reach('default')
    elif k == 'dir':
        how = S.choice('how', ['existing', 'slash', 'dots', 'new', 'nested', 'file', 'infile'])
        path = {'existing': base, 'slash': base + '/', 'dots': base + '/../' + base[1:].split('/')[-1] + '/.', 'new': base + '/sub', 'nested': base + '/no/sub', 'file': base + '/f', 'infile': base + '/f/sub'}[how]
        S.mkfile(base + '/f', 'x')
        r = S.call(Settings, {K.FILE_UPLOAD_DIR: path})
        if how in ('nested', 'file', 'infile'):
            S.require(r == ('exc', 'InvalidDirectory'), 'an unusable upload directory is an InvalidDirectory')
            S.reach('baddir')
        else:
            S.require(r[0] == 'ok', 'the directory can be used')
            S.equal(r[1].FILE_UPLOAD_TEMP_DIR, base + '/sub' if how == 'new' else base, 'the upload directory is the one given')
            S.equal(S.listdir(base), ['f', 'sub'] if how == 'new' else ['f'], 'the directory is created if missing, and nothing is left in it')
            if how == 'new':
                S.equal(S.listdir(base + '/sub'), [], 'nothing is left in the new directory')
                S.reach('newdir')
    elif k == 'shared':
        a = Settings({K.DATA_UPLOAD_MAX_FIELDS: S.int('a', 0, 99)})
        b = Settings({K.DATA_UPLOAD_MAX_MEMORY: S.int('b', 0, 99)})
        c = Settings.default()
        defaults(S, a, ['fields'])
        defaults(S, b, ['data'])
        defaults(S, c)
        # changing one changes no other, not even of those made later
        size, cs = S.int('size', 1, 9), S.choice('cs', ['utf-8', 'koi8-r'])
        for s in (c, a, Settings({})):
            s.MAX_HEADER_SIZE = size
            s.FILE_UPLOAD_MAX_MEMORY_SIZE = size
            s.DATA_UPLOAD_MAX_MEMORY_SIZE = size
            s.DATA_UPLOAD_MAX_NUMBER_FIELDS = size
            s.DEFAULT_CHARSET = cs
            s.FILE_UPLOAD_TEMP_DIR = base
            s.FILE_UPLOAD_HANDLERS = list(s.FILE_UPLOAD_HANDLERS)
            s.FILE_UPLOAD_HANDLERS.append('x.Y')
            defaults(S, Settings.default())
            defaults(S, Settings({}))
            defaults(S, Settings({K.MAX_HEADER_SIZE: size + 1}), ['header'])
        defaults(S, b, ['data'])
        st = {K.DEFAULT_CHARSET: cs, K.DATA_UPLOAD_MAX_FIELDS: size}
        s = Settings(st)
        st[K.DEFAULT_CHARSET] = 'cp1252'
        st[K.MAX_HEADER_SIZE] = 3
        names = ['request_parser.files.uploadhandler.' + x for x in S.choice('handlers', [['MemoryFileUploadHandler'], ['TemporaryFileUploadHandler', 'MemoryFileUploadHandler'],
                                                                                         ['MemoryFileUploadHandler', 'TemporaryFileUploadHandler', 'ConvenientFileUploadHandler', 'MemoryFileUploadHandler']])]
        a.FILE_UPLOAD_HANDLERS = names
        req = HttpRequest(BytesIO(''), a)
        S.equal([h.__class__.__module__ + '.' + h.__class__.__name__ for h in req.upload_handlers], names, 'the handlers are those of the settings, in order')
        S.require(req.upload_handlers[0].request is req, 'and know their request')
        S.equal([s.DEFAULT_CHARSET, s.DATA_UPLOAD_MAX_NUMBER_FIELDS, s.MAX_HEADER_SIZE], [cs, size, 16], 'the settings keep what they were given')
        S.reach('shared')
    elif k == 'fields':
        limit = S.int('limit', 1, 4)
        st = Settings({K.DATA_UPLOAD_MAX_FIELDS: limit, K.FILE_UPLOAD_DIR: base})
        q = '&'.join(['%s=%s' % ('abc'[i], S.bytes('v%d' % i, 1, 'xyz')) for i in range(n)])
        for r, req in (get(S, st, q), post(S, st, q)):
            S.require(r == (('ok', None) if n <= limit else ('exc', 'TooManyFieldsSent')), 'the limit on fields is the one given')
        b = hlib.body_of([hlib.part('P', 'abc'[i], 'v') for i in range(max(n, 1))], 'XX')
        r, req = post(S, st, b, 'multipart/form-data; boundary=XX')
        S.require(r == (('ok', None) if max(n, 1) <= limit else ('exc', 'TooManyFieldsSent')), 'the limit on fields is the one given')
        S.reach('fields')
    elif k == 'memory':
        limit = S.int('limit', 0, 4)
        st = Settings({K.DATA_UPLOAD_MAX_MEMORY: limit, K.FILE_UPLOAD_DIR: base})
        r, req = post(S, st, S.bytes('v', n, 'xyz'))
        S.require(r == (('ok', None) if n <= limit else ('exc', 'RequestDataTooBig')), 'the limit on data is the one given')
        S.reach('memory')
    elif k == 'file':
        limit = S.int('limit', 0, 4)
        st = Settings({K.FILE_UPLOAD_MAX_MEMORY: limit, K.FILE_UPLOAD_DIR: base})
        data = S.bytes('v', n)
        S.assume(S.allin(data, 'xyz\x00\xff'))
        r, req = post(S, st, hlib.body_of([hlib.part('F', 'f', data, filename='n')], 'XX'), 'multipart/form-data; boundary=XX')
        S.require(r == ('ok', None), 'the file is accepted')
        f = req.FILES['f']
        S.equal(f.read(), data, 'the file is what was sent')
        S.require(hasattr(f, 'temporary_file_path') == (n > limit), 'the limit on memory is the one given')
        if n > limit:
            S.require(f.temporary_file_path().startswith(base + '/'), 'temporary files are in the directory given')
        f.close()
        S.reach('file')
    elif k == 'charset':
        cs = S.choice('cs', ['utf-8', 'iso-8859-1', 'cp1252', 'ascii'])
        st = Settings({K.DEFAULT_CHARSET: cs, K.FILE_UPLOAD_DIR: base})
        t = S.text('t', n, 0, 127 if cs == 'ascii' else 255)
        if cs == 'cp1252':
            S.assume(S.allin(t, ''.join([chr(i) for i in range(128)]) + u'\xe9\xfc\xa0'))
        raw = t.encode(cs)
        q = 'a='
        for c in raw:
            o = ord(c)
            q += '%' + '0123456789ABCDEF'[o // 16] + '0123456789ABCDEF'[o % 16]
        for (r, req), what in ((get(S, st, q), 'GET'), (post(S, st, q), 'POST')):
            S.require(r == ('ok', None), 'the request is parsed')
            S.equal(getattr(req, what)['a'], t, 'the charset is the one given')
            S.equal(req.encoding, cs, 'the charset is the one given')
        S.reach('charset')
    elif k == 'header':
        st = Settings({K.MAX_HEADER_SIZE: S.int('size', 1, 24), K.FILE_UPLOAD_DIR: base})
        v = S.bytes('v', n, 'xyz')
        r, req = post(S, st, v, 'text/plain')
        S.require(r == ('ok', None), 'the header is found whatever the read size')
        S.equal(req.body(), v, 'the body is found whatever the read size')
        S.reach('header')
    else:
        st = Settings({K.DATA_UPLOAD_MAX_MEMORY: None, K.DATA_UPLOAD_MAX_FIELDS: None, K.FILE_UPLOAD_DIR: base})
        q = 'a=1&b=2&c=' + S.bytes('v', 1, 'xyz')
        for r, req in (get(S, st, q), post(S, st, q)):
            S.require(r == ('ok', None), 'without a limit nothing is refused')
        r, req = post(S, st, hlib.body_of([hlib.part('P', 'a', 'v'), hlib.part('P', 'b', 'v')], 'XX'), 'multipart/form-data; boundary=XX')
        S.require(r == ('ok', None), 'without a limit nothing is refused')
        S.reach('nolimit')
