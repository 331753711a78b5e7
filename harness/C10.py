"""The protocol between the multipart parser and upload handlers."""
import hlib
from request_parser.files.uploadhandler import FileUploadHandler, StopFutureHandlers, SkipFile, StopUpload, MemoryFileUploadHandler, TemporaryFileUploadHandler

BOUNDS = ('1..3 handlers whose reaction to every call is free: new file -> go on / stop later handlers / skip / abort; data -> keep / pass on / pass on changed / skip / abort with or '
          'without reset; completion -> object or nothing; bodies of up to 2 files and 2 fields, files of 0..5 symbolic bytes plus padding, read sizes 1..64K; '
          'raw-input handlers; the memory handler before the temporary one with limits around the length of the body; the built-in memory and temporary handlers behind a skipping handler')
REACH = ['pass', 'changed', 'keep', 'skip-new', 'skip-data', 'abort-new', 'abort-data', 'reset', 'future', 'complete', 'raw', 'kept-open', 'two-chunks', 'unread', 'within', 'beyond', 'end-done']
OPTS = {}


def cases(tier):
    quick = tier == 'quick'
    out = []
    out.append({'kind': 'script', 'handlers': 1, 'files': [3, 2], 'chunk': None, 'pad': 0, 'changes': 2})
    out.append({'kind': 'script', 'handlers': 2, 'files': [2, 1], 'chunk': None, 'pad': 0, 'changes': 1 if quick else 2})
    out.append({'kind': 'script', 'handlers': 2, 'files': [0, 1], 'chunk': None, 'pad': 0, 'changes': 1 if quick else 2})
    out.append({'kind': 'script', 'handlers': 3, 'files': [2, 2], 'chunk': None, 'pad': 0, 'changes': 1})
    out.append({'kind': 'script', 'handlers': 2, 'files': [3, 2], 'chunk': 700, 'pad': 1700, 'changes': 1 if quick else 2})
    if not quick:
        out.append({'kind': 'script', 'handlers': 3, 'files': [2, 3], 'chunk': None, 'pad': 0, 'changes': 2})
        out.append({'kind': 'script', 'handlers': 2, 'files': [3, 2], 'chunk': 400, 'pad': 1500, 'changes': 1})
        out.append({'kind': 'script', 'handlers': 1, 'files': [5, 5, 1], 'chunk': 1, 'pad': 0, 'changes': 2})
    out.append({'kind': 'raw', 'handlers': 2})
    out.append({'kind': 'script', 'handlers': 1, 'files': [1, 3], 'chunk': 100, 'pad': 1500, 'changes': 2})
    for n in ([0, 2] if quick else [0, 1, 2, 5]):
        out.append({'kind': 'limit', 'n': n})
    for h in ('mem', 'tmp'):
        out.append({'kind': 'builtin', 'h': h})
    return out


class Obj(object):
    def __init__(self):
        self.closed = False

    def close(self):
        self.closed = True


class Scripted(FileUploadHandler, object):
    """asks S what to do at every call; at most `changes` deviations from the plain behaviour in one run"""

    def __init__(self, S, i, log, budget, chunk):
        super(Scripted, self).__init__(None)
        self.S, self.i, self.log, self.budget = S, i, log, budget
        self.n = 0
        self.exclusive = False  # a handler that stops later handlers keeps the file to itself
        self.claimed = False
        self.stream = None
        self.stopped_at = []
        if chunk is not None:
            self.chunk_size = chunk

    def act(self, what, choices):
        self.n += 1
        if self.claimed and what not in ('new', 'end'):
            return choices[1]
        if self.budget[0] == 0:
            return choices[0]
        c = self.S.choice('h%d_%d_%s' % (self.i, self.n, what), choices)
        if c != choices[0]:
            self.budget[0] -= 1
        return c

    def new_file(self, *args, **kwargs):
        super(Scripted, self).new_file(*args, **kwargs)
        a = self.act('new', ['ok', 'future', 'skip', 'abort', 'reset'])
        self.log.append((self.i, 'new', args, a))
        self.claimed = False
        if a == 'future':
            self.claimed = self.exclusive
            raise StopFutureHandlers()
        if a == 'skip':
            raise SkipFile()
        if a in ('abort', 'reset'):
            self.stop(a)
        self.file = Obj()

    def receive_data_chunk(self, raw, start):
        a = self.act('data', ['pass', 'keep', 'change', 'skip', 'abort', 'reset'])
        self.log.append((self.i, 'data', raw, start, a))
        if a == 'pass':
            return raw
        if a == 'change':
            return '<' + raw + '>'
        if a == 'skip':
            raise SkipFile()
        if a in ('abort', 'reset'):
            self.stop(a)
        return None

    def stop(self, a):
        if self.stream is not None:
            self.stopped_at.append(self.stream.pos)
        raise StopUpload(connection_reset=(a == 'reset'))

    def file_complete(self, size):
        a = self.act('complete', ['none', 'obj'])
        f = None
        if a == 'obj':
            f = self.file if hasattr(self, 'file') else Obj()
        self.log.append((self.i, 'complete', size, f))
        return f

    def upload_complete(self):
        a = self.act('end', ['none', 'false', 'done'])
        self.log.append((self.i, 'end', a))
        return {'none': None, 'false': False, 'done': True}[a]


class Raw(FileUploadHandler, object):
    def __init__(self, answer, log):
        super(Raw, self).__init__(None)
        self.answer, self.log = answer, log

    def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
        self.log.append((content_length, boundary, encoding))
        return self.answer

    def receive_data_chunk(self, raw, start):
        return raw

    def file_complete(self, size):
        return None


def run(S, case):
    k = case['kind']
    if k == 'raw':
        log = []
        who = S.choice('who', [0, 1, None])
        a = [Raw(('P', 'F') if who == i else None, log) for i in range(2)]
        body = hlib.body_of([hlib.part('f', 'a', S.bytes('c', 2))], 'BoUnD')
        r = S.call(hlib.multipart, body, 'BoUnD', a, hlib.settings())
        S.require(r[0] == 'ok', 'parsed')
        if who is not None:
            S.require(tuple(r[1]) == ('P', 'F'), 'a handler that takes the raw input gives the result')
            S.require(len(log) == who + 1, 'later handlers are not asked')
        else:
            S.require(len(log) == 2, 'every handler is asked for the raw input once')
            S.require(len(hlib.fields(r[1][0])) == 1, 'otherwise the body is parsed')
        for l in log:
            S.require(l[0] == len(body) and l[1] == 'BoUnD', 'raw input comes with its length and boundary')
        S.reach('raw')
        return
    if k == 'builtin':
        d = [S.bytes('d%d' % i, 2) for i in range(2)]
        log = []
        sk = Scripted(S, 0, log, [1], None)
        sk.exclusive = True
        h = MemoryFileUploadHandler() if case['h'] == 'mem' else TemporaryFileUploadHandler()
        body = hlib.body_of([hlib.part('F', 'a%d' % i, d[i]) for i in range(2)], 'BoUnD')
        r = S.call(hlib.multipart, body, 'BoUnD', [sk, h], hlib.settings(S))
        S.require(r[0] == 'ok', 'parsed')
        files = r[1][1]
        for i in range(2):
            f = files.get('a%d' % i)
            if f is not None and not any([l[1] == 'complete' and l[3] is not None for l in log]):
                S.require(not f.closed, 'a delivered file stays open')
                got = f.read()
                ch = [l for l in log if l[1] == 'data' and l[4] == 'change']
                keep = [l for l in log if l[1] == 'data' and l[4] == 'keep']
                if len(ch) == 0 and len(keep) == 0:
                    S.equal(got, d[i], 'a delivered file has its content')
                S.reach('kept-open')
                f.close()
        return
    if k == 'limit':
        # the memory handler takes an upload exactly if its content length is within the limit
        d = S.bytes('d', case['n'])
        body = hlib.body_of([hlib.part('F', 'a', d), hlib.part('F', 'b', 'x')], 'BoUnD')
        limit = len(body) + S.choice('more', [-1, 0, 1, 1000, -len(body), 1 - len(body)])
        r = S.call(hlib.multipart, body, 'BoUnD', [MemoryFileUploadHandler(), TemporaryFileUploadHandler()], hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=limit))
        S.require(r[0] == 'ok', 'parsed')
        for name, want in (('a', d), ('b', 'x')):
            f = r[1][1][name]
            S.require(f.__class__.__name__ == ('InMemoryUploadedFile' if len(body) <= limit else 'TemporaryUploadedFile'), 'the memory handler takes uploads within the limit')
            S.equal(f.read(), want, 'a delivered file has its content')
            f.close()
        S.reach('within' if len(body) <= limit else 'beyond')
        return
    log = []
    budget = [case['changes']]
    # the handlers' own chunk sizes; the smallest of them is the one to read in
    big = S.choice('big', range(case['handlers'])) if case['chunk'] else 0
    hs = [Scripted(S, i, log, budget, case['chunk'] + (0 if i == big else 300) if case['chunk'] else None) for i in range(case['handlers'])]
    data = [S.bytes('d%d' % i, min(n, 3)) + '0' * (n - 3) for i, n in enumerate(case['files'])]
    data = [d + 'p' * case['pad'] if len(d) else d for d in data]
    lens = [S.choice('len', [0, 7]), 8, 90]
    parts = [hlib.part('F', 'up%d' % i, d, 'text/x%d; charset=c%d' % (i, i), filename='n%d' % i, extra='Content-Length: %d\r\n' % lens[i]) for i, d in enumerate(data)]
    parts.insert(1, hlib.part('f', 'mid', 'm'))
    parts.append(hlib.part('f', 'tail', 't'))
    body = hlib.body_of(parts, 'BoUnD')
    stream = hlib.Dribble(body, 100000)
    for h in hs:
        h.stream = stream
    r = S.call(hlib.multipart, body, 'BoUnD', hs, hlib.settings(), stream)
    S.observe('log', [[x for x in l if not isinstance(x, Obj)] for l in log])
    S.require(r[0] == 'ok', 'signals of handlers are no errors')
    S.require(0 < stream.asked[0] <= min([h.chunk_size for h in hs]), 'the body is read in chunks no larger than any handler asks for')
    post, files = r[1]

    # replay the log against the protocol
    n = len(hs)
    pos = [0]

    def nxt(i, what):
        if pos[0] < len(log) and log[pos[0]][0] == i and log[pos[0]][1] == what:
            pos[0] += 1
            return log[pos[0] - 1]
        S.require(False, 'handler %d gets its %s call next' % (i, what))

    want_files = []
    aborted = None
    for fi, d in enumerate(data):
        skipped = False
        for i in range(n):
            e = nxt(i, 'new')
            S.equal(list(e[2]), ['up%d' % fi, 'n%d' % fi, 'text/x%d' % fi, lens[fi], 'c%d' % fi, {'charset': 'c%d' % fi}, None], 'a new file is announced with what was sent')
            if e[3] == 'future':
                S.reach('future')
                break
            if e[3] == 'skip':
                skipped = True
                S.reach('skip-new')
                break
            if e[3] in ('abort', 'reset'):
                aborted = e[3]
                S.reach('abort-new')
                break
        if aborted:
            break
        if skipped:
            continue
        counts = [0] * n
        seen = ''
        chunks = 0
        while not skipped and not aborted and len(seen) < len(d):
            val = None
            for i in range(n):
                e = nxt(i, 'data')
                if i == 0:
                    S.require(len(e[2]) > 0, 'no empty data')
                    seen = seen + e[2]
                    chunks += 1
                else:
                    S.equal(e[2], val, 'a handler gets what the one before it returned')
                S.require(e[3] == counts[i], 'the start of the data is the amount the handler has received')
                counts[i] += len(e[2])
                S.reach(e[4] if e[4] in ('pass', 'keep') else 'changed' if e[4] == 'change' else 'skip-data' if e[4] == 'skip' else 'abort-data')
                if e[4] == 'pass':
                    val = e[2]
                elif e[4] == 'change':
                    val = '<' + e[2] + '>'
                elif e[4] == 'skip':
                    skipped = True
                    break
                elif e[4] == 'keep':
                    break
                else:
                    aborted = e[4]
                    break
        if chunks > 1:
            S.reach('two-chunks')
        S.equal(seen, d[:len(seen)], 'the first handler gets the content in order')
        if aborted:
            break
        if skipped:
            continue
        S.require(len(seen) == len(d), 'the first handler gets the whole content')
        for i in range(n):
            e = nxt(i, 'complete')
            S.require(e[2] == counts[i], 'completion comes with the amount the handler has received')
            if e[3] is not None:
                want_files.append((fi, e[3]))
                S.reach('complete')
                break
    for i in range(n):
        if nxt(i, 'end')[2] == 'done':
            S.reach('end-done')
            break
    S.require(pos[0] == len(log), 'no further calls')
    S.require(sorted(files.keys()) == sorted(['up%d' % fi for fi, f in want_files]), 'FILES has the completed files')
    for fi, f in want_files:
        S.require(files['up%d' % fi] is f, 'FILES has the object the handler returned')
        S.require(not f.closed, 'a delivered file stays open')
    names = sorted(post.keys())
    if aborted:
        S.require(all([x in ('mid', 'tail') for x in names]), 'only fields sent')
        if aborted == 'reset':
            S.require([h.stopped_at for h in hs if h.stopped_at] == [[stream.pos]], 'after a connection reset nothing more is read')
            S.reach('reset')
            if stream.pos < len(body):
                S.reach('unread')
        else:
            S.require(stream.pos == len(body), 'the rest of an aborted upload is consumed')
    else:
        S.require(names == ['mid', 'tail'], 'the fields around the files are parsed')
        S.require(stream.pos == len(body), 'the body is consumed')
