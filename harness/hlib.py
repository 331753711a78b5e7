"""Shared pieces of the harnesses (Python 2; run both symbolically and on the real code)."""
from io import BytesIO
from request_parser.conf.settings import Settings
from request_parser.files.uploadhandler import FileUploadHandler, StopFutureHandlers, SkipFile, StopUpload
from request_parser.http.multipartparser import MultiPartParser
from request_parser.http.request import HttpRequest

DOCUMENTED_MULTIPART = ('MultiPartParserError', 'TooManyFieldsSent', 'RequestDataTooBig', 'SuspiciousMultipartForm')
DOCUMENTED_REQUEST = DOCUMENTED_MULTIPART + ('InvalidHttpRequest', 'NoHostFoundException', 'RequestHeaderParseException', 'RawPostDataException',
                                             'UnreadablePostError')


def settings(S=None, **kw):
    s = Settings.default()
    if S is not None:
        s.FILE_UPLOAD_TEMP_DIR = S.tmpdir()
    for k in kw:
        setattr(s, k, kw[k])
    return s


class Recorder(FileUploadHandler, object):
    """keeps every file it is given: (field, name, content type, charset, extra, transfer encoding, chunks, size)"""

    def __init__(self, chunk_size=None, keep=True):
        super(Recorder, self).__init__(None)
        if chunk_size is not None:
            self.chunk_size = chunk_size
        self.files = []
        self.cur = None
        self.completed = 0
        self.keep = keep
        self.starts = []

    def new_file(self, *args, **kwargs):
        super(Recorder, self).new_file(*args, **kwargs)
        self.cur = []
        self.starts = []

    def receive_data_chunk(self, raw_data, start):
        self.cur.append(raw_data)
        self.starts.append(start)
        return None if self.keep else raw_data

    def file_complete(self, file_size):
        f = {'field': self.field_name, 'name': self.file_name, 'type': self.content_type, 'charset': self.charset,
             'extra': self.content_type_extra, 'tenc': self.transfer_encoding, 'clen': self.content_length,
             'data': ''.join(self.cur), 'size': file_size, 'starts': self.starts, 'lens': [len(c) for c in self.cur]}
        self.files.append(f)
        return f

    def upload_complete(self):
        self.completed += 1


class Dribble(object):
    """a file-like object that hands out at most `step` bytes per read; with a list of steps, each read has its own and the last goes on"""

    def __init__(self, data, step):
        self.data = data
        self.step = step
        self.pos = 0
        self.reads = 0
        self.asked = []

    def read(self, n=None):
        step = self.step
        if isinstance(step, list):
            step = step[min(self.reads, len(step) - 1)]
        k = step if n is None or n < 0 or n > step else n
        r = self.data[self.pos:self.pos + k]
        self.pos += len(r)
        self.reads += 1
        self.asked.append(n)
        return r


def multipart(body, boundary='B', handlers=None, st=None, stream=None, ctype=None, length=None, encoding=None):
    ctype = ctype if ctype is not None else 'multipart/form-data; boundary=' + boundary
    meta = {'Content-Type': ctype, 'Content-Length': str(len(body) if length is None else length)}
    if stream is None:
        stream = BytesIO(body)
    p = MultiPartParser(meta, stream, handlers, st, encoding)
    return p.parse()


def fields(post):
    """POST as [(name, [data])]"""
    return sorted([(k, [v['data'] for v in post.getlist(k)]) for k in list(post.keys())])


def plain(post):
    return dict([(k, [dict(v) if isinstance(v, dict) else v for v in post.getlist(k)]) for k in list(post.keys())])


def part(kind, name, content, ctype=None, filename=None, tenc=None, extra=''):
    h = 'Content-Disposition: form-data; name="' + name + '"'
    if kind == 'F':
        h += '; filename="' + (filename if filename is not None else 'x.bin') + '"'
    h += '\r\n'
    if ctype is not None:
        h += 'Content-Type: ' + ctype + '\r\n'
    if tenc is not None:
        h += 'Content-Transfer-Encoding: ' + tenc + '\r\n'
    return h + extra + '\r\n' + content


def body_of(parts, boundary='B', preamble='', epilogue='\r\n'):
    out = preamble
    for p in parts:
        out += '--' + boundary + '\r\n' + p + '\r\n'
    return out + '--' + boundary + '--' + epilogue
