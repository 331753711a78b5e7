"""Names of uploaded files."""
import hlib
from request_parser.files.uploadedfile import UploadedFile, TemporaryUploadedFile, SimpleUploadedFile, InMemoryUploadedFile
from request_parser.files.uploadhandler import ConvenientFileUploadHandler, TemporaryFileUploadHandler, MemoryFileUploadHandler

ALPHA = 'a./\\&;# :~\x00\x7f\xc3'
SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_~+!$^()[]{}=,@#%\x80\xe9'
BOUNDS = ('names of 0..5 characters over a . / \\ & ; # space : ~ NUL DEL 0xC3 anywhere in the file name, with every entity of a list of path characters between, before and after, and every pair of them; of 5 (thorough 6) characters over a \\ / space; '
          'names of 250..520 characters with the dot at every position of a list; temporary files, memory files and uploaded file objects built directly; names of up to 39 (thorough 123) symbolic ordinary characters, with an extension, in a directory or not')
REACH = ['plain', 'stripped', 'entity', 'none', 'long', 'cut', 'tmp', 'direct', 'nul', 'wide']
OPTS = {}
ENT = ['', '&#47;', '&#x2f;', '&#x2F;', '&#92;', '&#X5c;', '&#0;', '&quot;', '&amp;#47;', '&#46;&#46;&#47;', '&#32;', '&#00047;']
VAL = ['', '/', '/', '/', '\\', '\\', '\x00', '"', '&#47;', '../', ' ', '/']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([1, 3] if quick else [0, 1, 2, 3, 4]):
        out.append({'kind': 'name', 'n': n})
    out.append({'kind': 'back', 'n': 5 if quick else 6})
    out.append({'kind': 'ent2', 'n': 1 if quick else 2})
    for a, b in ([(1, 1)] if quick else [(0, 2), (1, 1), (2, 1), (1, 2), (2, 0)]):
        out.append({'kind': 'ent', 'a': a, 'b': b})
    for n in ([1, 3] if quick else [0, 1, 2, 3, 4, 5]):
        out.append({'kind': 'direct', 'n': n})
    out.append({'kind': 'long', 'lens': [254, 255, 256, 300] if quick else [250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 520]})
    for n in ([3] if quick else [1, 2, 3, 4]):
        out.append({'kind': 'tmp', 'n': n})
    for n, e in ([(8, 3), (30, 6)] if quick else [(5, 0), (8, 3), (14, 4), (30, 6), (100, 20)]):
        for k in ('all', 'tmp', 'direct'):
            out.append({'kind': 'wide', 'k': k, 'n': n, 'e': e})
    out.append({'kind': 'tmplong'})
    out.append({'kind': 'tmpbyte'})
    return out


def last(s, sep):
    return s[s.rfind(sep) + 1:]


def one(S, case, fname, handler, st):
    body = hlib.body_of([hlib.part('F', 'up', 'data', 'text/x', filename=fname), hlib.part('f', 'after', 'v')], 'BoUnD')
    r = S.call(hlib.multipart, body, 'BoUnD', [handler], st)
    S.observe('r', r[0])
    S.require(r[0] == 'ok', 'any file name is accepted')
    S.require(r[1][0].getlist('after')[0]['data'] == 'v', 'what follows is parsed')
    fs = r[1][1].getlist('up')
    S.require(len(fs) <= 1, 'one file')
    return fs[0] if fs else None


def expected(raw):
    """the last component of a name sent, None when nothing is left"""
    v = raw.replace('\\\\', '\\').replace('\\"', '"')
    return v


def run(S, case):
    k = case['kind']
    base = S.tmpdir()
    st = hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=1000)
    if k in ('name', 'ent', 'back', 'ent2'):
        if k in ('name', 'back'):
            raw = S.bytes('n', case['n'], ALPHA if k == 'name' else 'a\\/ ')
            # entities are the other kind's business
            S.assume('&' not in raw)
            sent = raw
            k = 'name'
        elif k == 'ent2':
            i, j = S.choice('e', list(range(1, len(ENT)))), S.choice('f', list(range(1, len(ENT))))
            p = S.bytes('p', case['n'], 'a./')
            raw = p + ENT[i] + p + ENT[j] + 'z'
            sent = p + VAL[i] + p + VAL[j] + 'z'
            S.reach('entity')
        else:
            i = S.choice('e', list(range(len(ENT))))
            p = S.bytes('p', case['a'], 'a./\\ ')
            q = S.bytes('q', case['b'], 'a./\\ ;')
            S.assume(not (p.endswith('\\') and i in (7, 4, 5)))
            raw = p + ENT[i] + q
            if i:
                S.reach('entity')
            sent = p + VAL[i] + q
            S.assume('\\\\' not in raw)
        S.assume(not raw.endswith('\\'))  # would escape the closing quote
        f = one(S, case, raw, ConvenientFileUploadHandler(), st)
        want = last(last(sent.replace('\\\\', '\\') if k == 'name' else sent, '\\').strip(), '/')
        if f is None:
            S.require(len(want) == 0, 'a file with a name is reported')
            S.reach('none')
            return
        S.equal(f.name, want, 'the name is the last component of what was sent')
        S.require('/' not in f.name and '\\' not in f.name, 'no path separator in the name')
        S.require(f.read() == 'data', 'content')
        S.reach('plain' if len(want) == len(raw) else 'stripped')
        return
    if k == 'direct':
        raw = S.bytes('n', case['n'], ALPHA)
        c = S.choice('class', ['UploadedFile', 'SimpleUploadedFile', 'InMemoryUploadedFile', 'set'])
        if c == 'UploadedFile':
            f = UploadedFile(None, raw)
        elif c == 'SimpleUploadedFile':
            f = SimpleUploadedFile(raw, 'c')
        elif c == 'InMemoryUploadedFile':
            f = InMemoryUploadedFile(hlib.BytesIO('c'), 'up', raw, 't', 1, None)
        else:
            f = UploadedFile(None, 'x')
            f.name = raw
        S.equal(f.name, last(raw, '/'), 'the name is the last component of the one given')
        S.require('/' not in f.name, 'no path separator in the name')
        f.name = None
        S.require(f.name is None, 'a file may be without a name')
        S.reach('direct')
        return
    if k == 'wide':
        name = 'f' + S.bytes('n', case['n'], SAFE) + ('.' + S.bytes('e', case['e'], SAFE) if case['e'] else '') + 'f'
        sent = S.choice('dir', ['', 'C:\\\\d ir\\\\', '/a/b.c/', '..\\\\../']) + name
        if case['k'] == 'direct':
            f = UploadedFile(None, '/x.y/' + name)
        else:
            f = one(S, case, sent, ConvenientFileUploadHandler() if case['k'] == 'all' else TemporaryFileUploadHandler(), st)
            S.require(f is not None, 'a file with a name is reported')
        S.equal(f.name, name, 'a long name is reported as sent, without its directories')
        if case['k'] == 'tmp':
            S.require(f.temporary_file_path().startswith(base + '/'), 'the temporary file is inside the upload directory')
            f.close()
        S.reach('wide')
        return
    if k == 'long':
        n = S.choice('len', case['lens'])
        ext = S.choice('ext', [None, 0, 1, 4, 100, 249, 254, 255, 256, 299])
        if ext is not None and ext >= n:
            return
        c = S.bytes('c', 2, 'a .')
        if ext is None:
            S.assume('.' not in c)
            name = c + 'n' * (n - 2)
        else:
            S.assume(n - ext - 1 != 1)
            name = c + 'n' * (n - ext - 3) + '.' + 'e' * ext
            name = name[len(name) - n:] if len(name) > n else name
            S.assume(len(name) == n)
        if S.bool('parsed'):
            f = one(S, case, name, MemoryFileUploadHandler(), st)
            name = name.strip()
        else:
            f = UploadedFile(None, name)
        S.require(f is not None, 'reported')
        got = f.name
        S.require(len(got) <= 255, 'a name has at most 255 characters')
        if len(name) <= 255:
            S.equal(got, name, 'shorter names are unchanged')
        else:
            S.reach('long')
            S.require(len(got) == 255, 'a long name is cut to 255 characters')
            if ext is not None and ext < 255 and len(name[:len(name) - ext - 1].lstrip('.')) > 0:
                S.require(got.endswith('.' + 'e' * ext), 'the extension is kept')
                S.reach('cut')
            S.require(got[0] in 'a .n', 'the start is kept')
        return
    if k == 'tmp':
        raw = S.bytes('n', case['n'], ALPHA)
        S.assume('&' not in raw and '\\' not in raw)
        if S.bool('direct'):
            r = S.call(TemporaryUploadedFile, raw, 't', 0, None, st)
            S.require(r[0] == 'ok', 'a temporary file is created for any name')
            f = r[1]
            S.equal(f.name, last(raw, '/'), 'the name is the last component')
        else:
            f = one(S, case, raw, TemporaryFileUploadHandler(), st)
            if f is None:
                S.require(len(last(raw.strip(), '/')) == 0, 'a file with a name is reported')
                return
            S.equal(f.name, last(raw.strip(), '/'), 'the name is the last component')
    elif k == 'tmpbyte':
        raw = 'n.' + S.bytes('b', 1) + 'x'
        S.assume(raw[2] not in '\r\n"\\')
        f = one(S, case, raw, TemporaryFileUploadHandler(), st)
        S.require(f is not None or raw[2] == '/', 'reported')
        if f is None:
            return
    else:
        ext = S.choice('ext', [10, 200, 230, 240, 250, 255, 300])
        raw = S.bytes('a', 2, 'a.\x00') + '.' + 'e' * ext
        f = one(S, case, raw, TemporaryFileUploadHandler(), st)
        S.require(f is not None, 'reported')
    if '\x00' in raw:
        S.reach('nul')
    p = f.temporary_file_path()
    S.require(p.startswith(base + '/'), 'the temporary file is inside the upload directory')
    S.require('/' not in p[len(base) + 1:], 'directly inside')
    S.require('\x00' not in p, 'its path can be used')
    S.require(len(p[len(base) + 1:]) <= 255, 'its name fits the file system')
    S.require(len(S.listdir(base)) == 1, 'one file is created')
    f.close()
    S.require(len(S.listdir(base)) == 0, 'and removed when closed')
    S.reach('tmp')
