"""No temporary upload file outlives its request."""
import hlib
from request_parser.files.uploadhandler import (ConvenientFileUploadHandler, FileUploadHandler, MemoryFileUploadHandler,
                                                SkipFile, StopUpload, TemporaryFileUploadHandler)
from request_parser.http.request import HttpRequest

BOUNDS = ('multipart requests with 1..3 parts out of file, base64 file (decodable or not), field, of 0..4 symbolic bytes; the convenient, the temporary, and the memory and temporary handler, with every memory '
          'limit around the sizes; a handler before them that skips, aborts with or without reset or raises another error at any one of its calls; a source failing or ending at any read of the body; '
          'limits on fields and form data that are exceeded at any part')
REACH = ['ok', 'error', 'disk', 'skip', 'stop', 'reset', 'raised', 'source', 'cut', 'limit', 'base64', 'mixed']
OPTS = {'loop_limit': 20000}


class Control(FileUploadHandler, object):
    """passes everything on; does something else at one of its calls"""

    def __init__(self, at, what, chunk):
        super(Control, self).__init__(None)
        self.at = at
        self.what = what
        self.calls = 0
        self.chunk_size = chunk
        self.done = False

    def step(self):
        self.calls += 1
        if self.calls - 1 == self.at:
            self.done = True
            if self.what == 'skip':
                raise SkipFile()
            if self.what == 'raised':
                raise KeyError('refused')
            raise StopUpload(connection_reset=self.what == 'reset')

    def new_file(self, *args, **kwargs):
        super(Control, self).new_file(*args, **kwargs)
        self.step()

    def receive_data_chunk(self, raw_data, start):
        self.step()
        return raw_data

    def file_complete(self, file_size):
        return None


class Source(object):
    """gives the head, then the body in pieces; fails or ends in place of piece number `at`"""

    def __init__(self, head, body, step, at, fail):
        self.chunks = [head] + [body[i:i + step] for i in range(0, len(body), step)]
        self.pos = 0
        self.at = at
        self.fail = fail
        self.hit = False

    def __iter__(self):
        return self

    def next(self):
        if self.at is not None and self.pos == self.at + 1:
            self.hit = True
            if self.fail:
                raise IOError('read failed')
            raise StopIteration()
        if self.pos >= len(self.chunks):
            raise StopIteration()
        self.pos += 1
        return self.chunks[self.pos - 1]

    __next__ = next


def cases(tier):
    quick = tier == 'quick'
    out = []
    for h in ('conv', 'temp', 'pair'):
        for parts in (['F2', 'F3'], ['F2', 'f1', 'F1']) if quick else (['F2', 'F3'], ['F4', 'F1', 'F2'], ['F2', 'f1', 'F1'], ['b3', 'F2', 'b2']):
            out.append({'kind': 'control', 'h': h, 'parts': parts})
        for parts in (['F2', 'b2', 'F2'], ['F3', 'f1']) if quick else (['F2', 'b2', 'F2'], ['F3', 'f1', 'F0'], ['b4', 'b1']):
            out.append({'kind': 'source', 'h': h, 'parts': parts, 'step': 17 if quick else 7})
        out.append({'kind': 'limit', 'h': h, 'parts': ['F2', 'f1', 'F1', 'f2', 'F1']})
        for parts in (['F2', 'x3', 'F1'], ['x4']) if quick else (['F2', 'x3', 'F1'], ['x5'], ['F1', 'x2', 'x4']):
            out.append({'kind': 'base64', 'h': h, 'parts': parts})
    return out


def run(S, case):
    k = case['kind']
    base = S.tmpdir()
    parts = []
    sent = []
    for i, p in enumerate(case['parts']):
        n = int(p[1])
        d = S.bytes('d%d' % i, n, 'aZ9/\n=\xff' if p[0] == 'x' else '\x00A\xff')
        name, field = 'p%d' % i, 'q%d' % (i % 2)
        if p[0] == 'f':
            parts.append(hlib.part('f', field, d))
        elif p[0] == 'F':
            parts.append(hlib.part('F', field, d, filename=name + '.bin'))
            sent.append((name, field, d))
        elif p[0] == 'x':
            parts.append(hlib.part('F', field, d, filename=name + '.bin', tenc='base64'))
            sent.append((name, field, None))
        else:
            parts.append(hlib.part('F', field, {1: 'QQ==', 2: 'QUI=', 3: 'QUJD', 4: 'QUJDRA=='}[n], filename=name + '.bin', tenc='base64'))
            sent.append((name, field, 'ABCD'[:n]))
    body = hlib.body_of(parts, 'BoUnD')
    kw = {}
    if case['h'] == 'conv':
        kw['FILE_UPLOAD_MAX_MEMORY_SIZE'] = S.choice('limit', [0, 1, 2, 3, 100])
    elif case['h'] == 'pair':
        kw['FILE_UPLOAD_MAX_MEMORY_SIZE'] = S.choice('limit', [10, 100000])
    if k == 'limit':
        if S.bool('which'):
            kw['DATA_UPLOAD_MAX_NUMBER_FIELDS'] = S.choice('fields', [0, 1, 2])
        else:
            kw['DATA_UPLOAD_MAX_MEMORY_SIZE'] = S.choice('data', [0, 4, 5, 8, 9, 100])
    st = hlib.settings(S, **kw)
    st.FILE_UPLOAD_TEMP_DIR = base
    hs = {'conv': [ConvenientFileUploadHandler()], 'temp': [TemporaryFileUploadHandler()], 'pair': [MemoryFileUploadHandler(), TemporaryFileUploadHandler()]}[case['h']]
    if case['h'] == 'conv':
        hs[0].chunk_size = S.choice('chunk', [1, 64])
    ctl = None
    if k == 'control':
        ctl = Control(S.choice('at', list(range(8))), S.choice('what', ['skip', 'stop', 'reset', 'raised']), S.choice('cchunk', [2, 64]))
        hs.insert(0, ctl)
    head = 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=BoUnD\r\nContent-Length: %d\r\n\r\n' % len(body)
    if k == 'source':
        src = Source(head, body, case['step'], S.choice('at', list(range(len(body) // case['step'] + 2))), S.bool('fail'))
    else:
        src = hlib.BytesIO(head + body)
    req = HttpRequest(src, st)
    req.upload_handlers = hs
    r = S.call(req.parse)
    S.observe('r', r)
    if r[0] == 'exc':
        S.reach('error')
        if k == 'control':
            S.require(r[1] == 'KeyError' and ctl.what == 'raised' and ctl.done, 'only what the handler raised')
        elif k == 'source':
            S.require(r[1] == 'UnreadablePostError' or src.at is not None, 'only a failing source')
        elif k == 'limit':
            S.require(r[1] in ('TooManyFieldsSent', 'RequestDataTooBig'), 'only the limits')
        else:
            S.require(r[1] == 'MultiPartParserError', 'only undecodable data')
        S.require(S.listdir(base) == [], 'a failed upload leaves no temporary file behind')
        S.require(S.call(req.close)[0] == 'ok', 'the request can be closed')
        S.require(S.listdir(base) == [], 'and there is still none')
    else:
        S.reach('ok')
        files = []
        for name in req.FILES.keys():
            for f in req.FILES.getlist(name):
                files.append((name, f))
        want = dict([(q[0] + '.bin', q) for q in sent])
        S.require(len(set([f.name for name, f in files])) == len(files), 'no file is reported twice')
        paths = []
        for name, f in files:
            S.require(f.name in want and want[f.name][1] == name, 'only files that were sent')
            S.require(not f.closed, 'a completed file is open')
            if want[f.name][2] is not None:
                S.equal(f.read(), want[f.name][2], 'a completed file has its content')
            if hasattr(f, 'temporary_file_path'):
                paths.append(f.temporary_file_path())
                S.require(S.exists(paths[-1]), 'a completed file exists')
                S.reach('disk')
        if paths and len(paths) < len(files):
            S.reach('mixed')
        S.require(sorted(S.listdir(base)) == sorted([p[len(base) + 1:] for p in paths]), 'there are no temporary files but those of completed uploads')
        if k in ('limit', 'base64') or (k == 'control' and not ctl.done) or (k == 'source' and not src.hit):
            S.require(len(files) == len(sent), 'every file is reported')
        S.require(S.call(req.close)[0] == 'ok', 'the request can be closed')
        for name, f in files:
            S.require(f.closed, 'closing the request closes its files')
        S.require(S.listdir(base) == [], 'closing the request removes its temporary files')
        S.require(S.call(req.close)[0] == 'ok', 'the request can be closed again')
    if k == 'control' and ctl.done:
        S.reach(ctl.what)
    if k == 'source' and src.hit:
        S.reach('source' if src.fail else 'cut')
    if k in ('limit', 'base64') and r[0] == 'exc':
        S.reach(k)
