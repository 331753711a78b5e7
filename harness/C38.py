"""File objects read back completely."""
from io import BytesIO, StringIO
import hlib
from request_parser.files.base import File, ContentFile
from request_parser.files.uploadedfile import InMemoryUploadedFile, SimpleUploadedFile, TemporaryUploadedFile

BOUNDS = ('contents of up to 4 (thorough 6) bytes over two letters, carriage return and line feed, of up to 2 arbitrary bytes, and text of up to 3 characters; every chunk size 1..5 and the default; File over a '
          'memory and over a temporary file, ContentFile of bytes and text, SimpleUploadedFile, InMemoryUploadedFile and TemporaryUploadedFile; reading from every starting position, repeatedly, after writing up to 3 bytes at every position')
REACH = ['chunks', 'lines', 'size', 'again', 'multiple', 'text', 'memory', 'disk', 'append', 'open', 'crlf']
OPTS = {}
KINDS = ['file', 'content', 'simple', 'inmemory', 'temp', 'filetemp']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for kind in KINDS:
        for n in range(0, (4 if kind in ('file', 'temp') else 3) if quick else 6):
            out.append({'kind': kind, 'n': n, 'alpha': 'a\r\n'})
        out.append({'kind': kind, 'n': 2, 'alpha': None})
    for n in (1, 3) if quick else (1, 2, 3, 4):
        out.append({'kind': 'text', 'n': n, 'alpha': u'a\r\n\xe9'})
    out.append({'kind': 'append', 'n': 2, 'alpha': None})
    return out


def lines(S, data):
    """lines end after a line feed, or after a carriage return that no line feed follows"""
    out, cur, i = [], data[:0], 0
    while i < len(data):
        c = data[i]
        i += 1
        cur += c
        if S.isin(c, '\n'):
            out.append(cur)
            cur = data[:0]
        elif S.isin(c, '\r'):
            if i < len(data) and S.isin(data[i], '\n'):
                S.reach('crlf')
                continue
            out.append(cur)
            cur = data[:0]
    if len(cur):
        out.append(cur)
    return out


def make(S, kind, data):
    if kind == 'file':
        return File(BytesIO(data), 'n')
    if kind in ('content', 'text', 'append'):
        return ContentFile(data, 'n')
    if kind == 'simple':
        return SimpleUploadedFile('n', data)
    if kind == 'inmemory':
        return InMemoryUploadedFile(BytesIO(data), 'f', 'n', 'text/plain', len(data), None)
    f = TemporaryUploadedFile('n', 'text/plain', len(data), None, hlib.settings(S))
    f.write(data)
    f.flush()
    f.seek(0)
    S.reach('disk')
    if kind == 'filetemp':
        return File(f.file)
    return f


def run(S, case):
    kind = case['kind']
    n = case['n']
    if kind == 'text':
        data = S.text('data', n, 0, 255, case['alpha'])
        S.reach('text')
    else:
        data = S.bytes('data', n, case['alpha'])
    f = make(S, kind, data)
    size = S.choice('chunk', [None, 1, 2, 3, 5])
    if kind == 'append':
        at = S.choice('at', list(range(n + 1)))
        k = S.choice('more', [1, 2, 3])
        more = S.bytes('more%d' % k, k)
        if S.bool('sized'):
            S.require(f.size == n, 'the size is the length of the content')
        f.seek(at)
        f.write(more)
        data = data[:at] + more + data[at + k:]
        n = len(data)
        S.require(f.size == n, 'the size is the length of the content, also after writing')
        f.seek(0)
        S.reach('append')
    if S.bool('part'):
        # reading starts over wherever the file stands
        S.equal(f.read(1), data[:1], 'a read gives the beginning')
    memory = kind in ('simple', 'inmemory')
    got = list(f.chunks(size)) if size else list(f.chunks())
    S.equal(data[:0].join(got), data, 'the chunks are the content')
    if not memory:
        for c in got:
            S.require(0 < len(c) <= (size or File.DEFAULT_CHUNK_SIZE), 'no chunk is empty or longer than asked for')
        for c in got[:-1]:
            S.require(len(c) == (size or File.DEFAULT_CHUNK_SIZE), 'only the last chunk may be short')
    else:
        S.require(len(got) <= 1, 'a file in memory is one chunk')
        S.reach('memory')
    S.reach('chunks')
    S.equal(data[:0].join(list(f.chunks(size))), data, 'reading again gives the same')
    S.require(f.size == n, 'the size is the length of the content')
    S.require(len(f) == n, 'the length is the size')
    S.reach('size')
    if kind != 'append':
        at = S.choice('sat', [0, n // 2, n]) if kind != 'text' else 0
        f.seek(at)
        S.require(f.size == n, 'the size does not depend on the position')
        S.require(f.tell() == at, 'asking for the size does not move the position')
        S.equal(f.read(), data[at:], 'asking for the size does not move the position')
    S.require(f.multiple_chunks(size) == (not memory and n > (size or File.DEFAULT_CHUNK_SIZE)), 'there are several chunks exactly if the content is longer than one')
    S.reach('multiple')
    f.DEFAULT_CHUNK_SIZE = size or 4
    S.require(f.multiple_chunks() == (not memory and n > f.DEFAULT_CHUNK_SIZE), 'there are several chunks exactly if the content is longer than the chunk size of the file')
    if not memory:
        S.require([len(c) for c in f.chunks()] == [f.DEFAULT_CHUNK_SIZE] * (n // f.DEFAULT_CHUNK_SIZE) + ([n % f.DEFAULT_CHUNK_SIZE] if n % f.DEFAULT_CHUNK_SIZE else []), 'the chunks have the chunk size of the file')
    want = lines(S, data)
    got = list(f)
    S.observe('lines', got)
    S.require(len(got) == len(want), 'the lines of the content, whatever the chunk size')
    S.equal(got, want, 'the lines of the content, whatever the chunk size')
    S.equal(list(f), want, 'reading again gives the same')
    S.reach('lines')
    S.equal(f.open().read(), data, 'after opening the file again it is read from the beginning')
    S.reach('open')
    f.seek(0)
    S.equal(f.read(), data, 'a read gives the content')
    S.equal(f.read(), data[:0], 'at the end nothing is left')
    S.reach('again')
    f.close()
    if kind not in ('content', 'text', 'append'):
        S.require(f.closed, 'a closed file is closed')
