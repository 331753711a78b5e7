"""Uploads with the default handler, around the limit on upload data held in memory."""
import hlib
from request_parser.files.uploadhandler import ConvenientFileUploadHandler, MemoryFileUploadHandler, TemporaryFileUploadHandler, StopFutureHandlers
from request_parser.http.request import HttpRequest

BOUNDS = ('every limit 0..max; sequences of 1..3 files of 0..6 symbolic bytes (and of 1500..1900 bytes read in units of 300..700), read sizes 1..64K, through the multipart parser, through '
          'HttpRequest with its default handlers, with the memory and temporary handlers side by side, and through the handler with every way of cutting up to 5 bytes into chunks; existing and missing upload directory')
REACH = ['memory', 'disk', 'switch', 'two-disk', 'direct', 'request', 'new-dir', 'closed']
OPTS = {'loop_limit': 20000}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for files in ([[3], [2, 3], [0, 2], [1, 2, 1]] if quick else [[3], [6], [2, 3], [0, 2], [4, 0], [1, 2, 1], [2, 2, 2], [0, 0, 3]]):
        for ch in ([None] if quick else [None, 1, 4]):
            out.append({'kind': 'mp', 'files': files, 'chunk': ch})
    out.append({'kind': 'long', 'files': [1500, 3], 'chunk': 700})
    out.append({'kind': 'long', 'files': [3, 1900], 'chunk': 300})
    if not quick:
        out.append({'kind': 'long', 'files': [1500, 1501, 2], 'chunk': 500})
    for n in ([3] if quick else [3, 4, 5]):
        out.append({'kind': 'direct', 'n': n, 'two': 2})
    out.append({'kind': 'request', 'files': [2, 2]})
    out.append({'kind': 'pair', 'files': [2, 3]})
    return out


def check(S, st, limit, sent, files, base, memory=None):
    """the files reported against what was sent: [(field, file name, type, data)]"""
    S.require(sorted(files.keys()) == sorted(set([x[0] for x in sent])), 'every file is reported')
    held = 0
    paths = []
    total = 0
    for x in sent:
        total += len(x[3])
    for field in set([x[0] for x in sent]):
        want = [x for x in sent if x[0] == field]
        got = files.getlist(field)
        S.require(len(got) == len(want), 'every file is reported once')
        for w, g in zip(want, got):
            S.equal(g.read(), w[3], 'the content is what was sent')
            g.seek(0)
            S.equal(''.join(list(g.chunks())), w[3], 'the chunks are the content')
            S.require(g.size == len(w[3]), 'the size is the length of the content')
            S.equal(g.name, w[1], 'the name is the one sent')
            S.equal(g.content_type, w[2], 'the content type is the one sent')
            S.equal(g.charset, w[4], 'the charset is the one sent')
            S.equal(g.content_type_extra, w[5], 'the content type parameters are the ones sent')
            S.equal(g.transfer_encoding, w[6], 'the transfer encoding is the one sent')
            S.equal(getattr(g, 'field_name', field), field, 'the field name is the one sent')
            S.require(not g.closed, 'the file is open')
            if hasattr(g, 'temporary_file_path'):
                p = g.temporary_file_path()
                paths.append(p)
                S.require(p.startswith(base + '/'), 'a temporary file is inside the upload directory')
                S.require('/' not in p[len(base) + 1:], 'directly')
                S.require(S.exists(p), 'and exists')
            else:
                held += g.size
    S.require(held <= limit, 'no more than the limit is held in memory')
    S.require(len(set(paths)) == len(paths), 'temporary files are distinct')
    if memory is None:
        memory = total <= limit
    if memory:
        S.require(len(paths) == 0, 'uploads within the limit stay in memory')
        S.reach('memory')
    else:
        S.reach('disk')
        if held:
            S.reach('switch')
        if len(paths) > 1:
            S.reach('two-disk')
    if S.exists(base):
        S.require(len(S.listdir(base)) == len(paths), 'no other files are left in the upload directory')
    else:
        S.require(len(paths) == 0, 'the directory exists when needed')
    for k in files.keys():
        for g in files.getlist(k):
            g.close()
            S.require(g.closed, 'files can be closed')
    for p in paths:
        S.require(not S.exists(p), 'a closed temporary file is gone')
        S.reach('closed')


def run(S, case):
    k = case['kind']
    base = S.tmpdir()
    if k in ('mp', 'request', 'pair') and S.bool('newdir'):
        base = base + '/new'
        S.reach('new-dir')
    if k == 'direct':
        limit = S.choice('limit', list(range(2 * case['n'] + 2)))
        st = hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=limit)
        h = ConvenientFileUploadHandler()
        h.handle_raw_input(None, {}, 100, 'B', st, None)
        files = {}
        held = 0
        for fi in range(case['two']):
            n = case['n'] if fi == 0 else 1
            data = S.bytes('d%d' % fi, n)
            r = S.call(h.new_file, 'up', 'n%d' % fi, 't/x', None, None, {}, None)
            S.require(r[0] == 'ok' or r[1] == 'StopFutureHandlers', 'a new file is accepted')
            pos = 0
            while pos < n:
                step = S.choice('s%d_%d' % (fi, pos), list(range(1, n - pos + 1)))
                h.receive_data_chunk(data[pos:pos + step], pos)
                pos += step
            f = h.file_complete(n)
            S.equal(f.read(), data, 'the content is what was sent')
            S.require(f.size == n, 'the size is the length of the content')
            S.equal(f.name, 'n%d' % fi, 'the name is the one sent')
            if not hasattr(f, 'temporary_file_path'):
                held += n
            files[fi] = f
        S.require(held <= limit, 'no more than the limit is held in memory')
        for fi in files:
            S.require(not files[fi].closed, 'files stay open')
            files[fi].close()
        S.reach('direct')
        return
    sizes = case['files']
    limits = list(range(sum(sizes) + 2))
    if k == 'long':
        limits = [0, 2, 3, 299, 300, 301, 1000, sum(sizes) - 1, sum(sizes), 5000]
    sent = []
    for i, n in enumerate(sizes):
        d = S.bytes('d%d' % i, min(n, 2), '\x00\x0d\x0aA\xff' if n > 3 else None) + 'z' * max(0, n - 3) + ('e' if n > 2 else '')
        c = [None, 'utf-8', 'x' + S.bytes('cs%d' % i, 1, 'ab-')][(i + len(sizes)) % 3]
        extra = {}
        if c is not None:
            extra['charset'] = c
        if i != 1:
            extra['p'] = 'q;r'
        sent.append((['a', 'b', 'a'][i], 'f%d.bin' % i, 'text/x%d' % i, d, c, extra, [None, 'binary', '8bit'][(i + len(sizes)) % 3]))
    body = hlib.body_of([hlib.part('F', x[0], x[3], x[2] + ''.join(['; ' + a + '="' + x[5][a] + '"' for a in sorted(x[5])]), filename=x[1], tenc=x[6]) for x in sent], 'BoUnD')
    if k == 'pair':
        limits = [0, 5, len(body) - 1, len(body), len(body) + 1, 1000]
    limit = S.choice('limit', limits)
    st = hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=limit)
    st.FILE_UPLOAD_TEMP_DIR = base
    if k == 'request':
        r = HttpRequest(hlib.BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=BoUnD\r\nContent-Length: %d\r\n\r\n' % len(body) + body), st)
        r.parse()
        files = r.FILES
        S.reach('request')
    else:
        hs = [ConvenientFileUploadHandler()]
        if k == 'pair':
            hs = [MemoryFileUploadHandler(), TemporaryFileUploadHandler()]
        elif case['chunk'] is not None:
            hs[0].chunk_size = case['chunk']
        res = S.call(hlib.multipart, body, 'BoUnD', hs, st)
        S.require(res[0] == 'ok', 'parsed')
        files = res[1][1]
    check(S, st, limit, sent, files, base, len(body) <= limit if k == 'pair' else None)
