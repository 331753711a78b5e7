"""Library models used by the repository's modules (every path that uses them is replayed on real Jython)."""
import collections as _collections
import errno as _errno
import functools as _functools
import itertools as _it
import operator as _operator
import os as _os
import sys as _sys
import types as _types
import unicodedata as _ud
import html.entities as _ent

import terms
from terms import SymInt, SymBool, Unsupported, X, and_, or_, not_, cmp_, ite, map_u, Tab, apply_tab
import strings
from strings import BaseStr, Str, Uni, S, str2, ch_eq, ch_in, ch_rng, repr2s
import rt
from rt import PDict, IOError2, OSError2, lt, le, gt, ge
import regex

MODULES = {}
ASK = [lambda name: ()]          # name -> names the real module defines, None when there is no such module, () when not known


class Opaque(object):
    """something of a library that the engine has no model of: a path that uses it is not covered"""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def _no(self, *a, **k):
        raise Unsupported('no model of ' + self.__dict__['_name'])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(self.__dict__['_name'] + '.' + n)

    __call__ = __iter__ = __getitem__ = __len__ = __bool__ = __contains__ = __setattr__ = __enter__ = __exit__ = _no
    __add__ = __radd__ = __sub__ = __mul__ = __mod__ = __lt__ = __gt__ = __instancecheck__ = __subclasscheck__ = __mro_entries__ = _no


class Library(_types.ModuleType):
    """a modelled library module; what the model leaves out is opaque"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        names = self.__dict__.get('_names')
        if names is None:
            names = self.__dict__['_names'] = ASK[0](self.__name__)
        if names is None or names and n not in names:
            raise AttributeError("'module' object has no attribute '%s'" % n)
        return Opaque(self.__name__ + '.' + n)


def module(name, **kw):
    m = Library(name)
    for k, v in kw.items():
        setattr(m, k, v)
    MODULES[name] = m
    parent, _, last = name.rpartition('.')
    if parent:
        if parent not in MODULES:
            module(parent)
        setattr(MODULES[parent], last, m)
    return m


def reset():
    """called at the start of every path"""
    FS.reset()


def _cint(n):
    return n.__index__() if isinstance(n, SymInt) else n


# ------------------------------------------------------------------ file system

class _FS(object):
    def reset(self):
        self.files = {}
        self.dirs = {'/', '/tmp', '/scratch'}
        self.names = {}  # full name of a temporary file (with symbolic characters) -> its key in files
        self.keep = []
        self.cwd = None
        self.shown = {}  # key -> full name of a temporary file where that is concrete
        self.n = 0
        self.log = []


FS = _FS()
FS.reset()


def _path(p):
    p = p.settle()
    if not p.con:
        raise Unsupported('symbolic path')
    return p._c


class BytesIO(object):
    _native_repr = True

    def __init__(self, initial_bytes=None):
        if isinstance(initial_bytes, Uni):
            raise TypeError("can't set bytearray slice from unicode")
        self._b = initial_bytes if initial_bytes is not None else S('')
        self._p = 0
        self._closed = False

    def _chk(self, what='read from'):
        if self._closed:
            raise ValueError('%s closed file' % what)

    @property
    def closed(self):
        return self._closed

    def close(self):
        self._closed = True

    def read(self, n=None):
        self._chk()
        n = -1 if n is None else _cint(n)
        if isinstance(n, BaseStr):
            raise TypeError('an integer is required')
        if n < 0:
            r = self._b[self._p:]
        else:
            r = self._b[self._p:self._p + n]
        self._p += len(r)
        return r

    read1 = read

    def readinto(self, b):
        raise Unsupported('readinto')

    def readline(self, limit=None):
        self._chk()
        rest = self._b[self._p:]
        i = rest.find(S('\n'))
        r = rest if i < 0 else rest[:i + 1]
        limit = -1 if limit is None else _cint(limit)
        if limit >= 0:
            r = r[:limit]
        self._p += len(r)
        return r

    def readlines(self, hint=None):
        out = []
        n = 0
        while True:
            r = self.readline()
            if not r:
                return out
            out.append(r)
            n += len(r)
            if hint and n >= hint:
                return out

    def __iter__(self):
        self._chk('iterate over')
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    next = __next__

    def tell(self):
        self._chk('tell on')
        return self._p

    def seek(self, pos, whence=0):
        self._chk('seek on')
        pos = _cint(pos)
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value')
            self._p = pos
        elif whence == 1:
            self._p = max(0, self._p + pos)
        else:
            self._p = max(0, len(self._b) + pos)
        return self._p

    def truncate(self, size=None):
        self._chk('truncate')
        size = self._p if size is None else _cint(size)
        self._b = self._b[:size]
        return size

    def write(self, data):
        self._chk('write to')
        if isinstance(data, Uni):
            raise TypeError("can't write unicode to binary stream")
        if not isinstance(data, BaseStr):
            raise TypeError('object of type has no len()')
        n = len(data)
        if n:
            b = self._b
            if self._p > len(b):
                b = b + S('\0') * (self._p - len(b))
            self._b = b[:self._p] + data + b[self._p + n:]
            self._p += n
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        self._chk()
        return self._b

    def flush(self):
        self._chk('flush')

    def isatty(self):
        self._chk()
        return False

    def readable(self):
        self._chk()
        return True

    writable = seekable = readable

    def fileno(self):
        raise UnsupportedOperation('fileno')

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


class UnsupportedOperation(ValueError, IOError2):
    pass


class StringIO(BytesIO):
    def __init__(self, initial_value=None, newline=None):
        if initial_value is not None and not isinstance(initial_value, Uni):
            raise TypeError('initial value should be unicode or None')
        BytesIO.__init__(self)
        self._b = initial_value if initial_value is not None else Uni.mk('')

    def write(self, data):
        if not isinstance(data, Uni):
            raise TypeError('unicode argument expected')
        n = len(data)
        self._b = self._b[:self._p] + data + self._b[self._p + n:]
        self._p += n
        return n


class VFile(BytesIO):
    """A file of the modelled file system."""

    def __init__(self, path, mode='r', delete=False):
        if mode[0] == 'r':
            if path not in FS.files:
                if path in FS.dirs:
                    raise IOError2(_errno.EISDIR, S('Is a directory'), S(path))
                raise IOError2(_errno.ENOENT, S('No such file or directory'), S(path))
        else:
            if _os.path.dirname(path) not in FS.dirs:
                raise IOError2(_errno.ENOENT, S('No such file or directory'), S(path))
            if path in FS.dirs:
                raise IOError2(_errno.EISDIR, S('Is a directory'), S(path))
        BytesIO.__init__(self)
        self._path_ = path
        self._delete = delete
        if mode[0] == 'w' or path not in FS.files:
            FS.files[path] = S('')
        self._p = len(FS.files[path]) if mode[0] == 'a' else 0
        self.mode = S(mode)
        self.name = S(path)

    @property
    def _b(self):
        return FS.files.get(self._path_, self._orphan) if not self._closed else self._orphan

    _orphan = S('')
    _closed = False

    @_b.setter
    def _b(self, v):
        if hasattr(self, '_path_'):
            FS.files[self._path_] = v

    def write(self, data):
        if isinstance(data, Uni):
            data = str2(data)
        BytesIO.write(self, data)

    def close(self):
        if not self._closed:
            BytesIO.close(self)
            if self._delete:
                FS.files.pop(self._path_, None)


class TempFile(object):
    """tempfile.NamedTemporaryFile"""

    def __init__(self, mode=None, bufsize=-1, suffix=None, prefix=None, dir=None, delete=True):
        suffix = suffix if suffix is not None else S('')
        prefix = prefix if prefix is not None else S('tmp')
        d = dir if dir is not None else S('/tmp')
        d = _path(d)
        if d not in FS.dirs:
            raise OSError2(_errno.ENOENT, S('No such file or directory'), S(d))
        nm = prefix + S('%06d' % FS.n) + suffix
        FS.n += 1
        if len(nm) > 255:
            raise OSError2(_errno.ENAMETOOLONG, S('File name too long'), S(d))
        if not isinstance(nm, Str):
            nm = str2(nm)
        for c in nm.t:
            if bool(ch_eq(c, 47)):
                raise OSError2(_errno.ENOENT, S('No such file or directory'), S(d))
            if bool(ch_eq(c, 0)):
                raise OSError2(_errno.EINVAL, S('Invalid argument'))
        nm.decode(S('utf-8'))  # the name is handed to the system as text
        full = (S(d) if d != '/' else S('')) + S('/') + nm
        self.name = full
        self._key = ('temp', FS.n, full)
        key = '%s/%s%06d' % (d, str(prefix), FS.n - 1)
        self.file = VFile(key, 'w+b', delete)
        self.file.name = full
        FS.log.append((d, key))
        FS.names[tuple([c if isinstance(c, int) else ('s', id(c)) for c in full.t])] = key
        FS.keep.append(full)
        if all(isinstance(c, int) for c in full.t):
            FS.shown[key] = ''.join(map(chr, full.t))
        self.delete = delete
        self.close_called = False
        self.mode = S('w+b')

    def __getattr__(self, n):
        if n in ('file',):
            raise AttributeError(n)
        return getattr(self.file, n)

    def close(self):
        if not self.close_called:
            self.close_called = True
            self.file.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.file)


def open_(name, mode=None, buffering=-1):
    mode = _path(mode) if mode is not None else 'r'
    return VFile(_norm(name), mode)


rt.BUILTINS['open'] = open_
rt.BUILTINS['file'] = open_

module('io', BytesIO=BytesIO, StringIO=StringIO, UnsupportedOperation=UnsupportedOperation, open=open_, IOBase=BytesIO,
       SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, DEFAULT_BUFFER_SIZE=8192)


class OldStringIO(BytesIO):
    def __init__(self, buf=None):
        BytesIO.__init__(self, buf)

    def write(self, data):
        self._b = self._b[:self._p] + data + self._b[self._p + len(data):]
        self._p += len(data)


module('StringIO', StringIO=OldStringIO)
module('cStringIO', StringIO=OldStringIO)


# ------------------------------------------------------------------ os.path (posixpath over symbolic strings)

def p_basename(p):
    i = p.rfind(S('/')) + 1
    return p[i:]


def p_dirname(p):
    i = p.rfind(S('/')) + 1
    head = p[:i]
    if head and not bool(head.eqb(S('/') * len(head))):
        head = head.rstrip(S('/'))
    return head


def p_split(p):
    i = p.rfind(S('/')) + 1
    head, tail = p[:i], p[i:]
    if head and not bool(head.eqb(S('/') * len(head))):
        head = head.rstrip(S('/'))
    return head, tail


def p_splitext(p):
    sep = p.rfind(S('/'))
    dot = p.rfind(S('.'))
    if dot > sep:
        f = sep + 1
        while f < dot:
            if not bool(ch_eq(p.t[f], 46)):
                return p[:dot], p[dot:]
            f += 1
    return p, p[:0]


def p_isabs(p):
    return p.startswith(S('/'))


def p_join(a, *ps):
    path = a
    for b in ps:
        if bool(b.startswith(S('/'))):
            path = b
        elif len(path) == 0 or bool(path.endswith(S('/'))):
            path = path + b
        else:
            path = path + S('/') + b
    return path


def p_normpath(p):
    if len(p) == 0:
        return p.likec('.')
    slashes = 0
    if bool(p.startswith(S('/'))):
        slashes = 1
        if bool(p.startswith(S('//'))) and not bool(p.startswith(S('///'))):
            slashes = 2
    out = []
    for c in p.split(S('/')):
        if len(c) == 0 or bool(c.eqb(S('.'))):
            continue
        if not bool(c.eqb(S('..'))) or (not slashes and not out) or (out and bool(out[-1].eqb(S('..')))):
            out.append(c)
        elif out:
            out.pop()
    r = p.likec('/').join(out)
    if slashes:
        r = p.likec('/' * slashes) + r
    return r if len(r) else p.likec('.')


def p_abspath(p):
    if not bool(p_isabs(p)):
        p = p_join(S('/repo'), p)
    return p_normpath(p)


def _norm(p):
    if isinstance(p, Str):
        k = FS.names.get(tuple([c if isinstance(c, int) else ('s', id(c)) for c in p.t]))
        if k is not None:
            return k
    v = _path(p)
    if '\0' in v:
        raise TypeError('must be encoded string without NULL bytes, not str')
    if FS.cwd and v and v[0] != '/':
        v = FS.cwd + '/' + v
    return _os.path.normpath(v) if v else v


def p_isdir(p):
    v = _norm(p)
    return v in FS.dirs or (v.startswith('/repo') and _os.path.isdir(v))


def p_isfile(p):
    v = _norm(p)
    return v in FS.files or (v.startswith('/repo') and _os.path.isfile(v))


def p_exists(p):
    return p_isdir(p) or p_isfile(p)


def p_getsize(p):
    if not isinstance(p, BaseStr):
        raise TypeError('coercing to Unicode: need string')
    v = _norm(p)
    if v in FS.files:
        return len(FS.files[v])
    raise OSError2(_errno.ENOENT, S('No such file or directory'), p)


def p_commonprefix(m):
    raise Unsupported('commonprefix')


_ospath = module('os.path', basename=p_basename, dirname=p_dirname, split=p_split, splitext=p_splitext, isabs=p_isabs, join=p_join,
                 normpath=p_normpath, abspath=p_abspath, isdir=p_isdir, isfile=p_isfile, exists=p_exists, getsize=p_getsize,
                 realpath=p_abspath, lexists=p_exists, commonprefix=p_commonprefix, sep=S('/'), pardir=S('..'), curdir=S('.'),
                 normcase=lambda p: p)
MODULES['posixpath'] = _ospath


def os_mkdir(p, mode=None):
    v = _norm(p)
    if v in FS.dirs or v in FS.files:
        raise OSError2(_errno.EEXIST, S('File exists'), p)
    if _os.path.dirname(v) not in FS.dirs and not (v.startswith('/repo') and _os.path.isdir(_os.path.dirname(v))):
        raise OSError2(_errno.ENOENT, S('No such file or directory'), p)
    FS.dirs.add(v)


def os_makedirs(p, mode=None):
    v = _norm(p)
    while v not in FS.dirs:
        FS.dirs.add(v)
        v = _os.path.dirname(v)


def os_remove(p):
    v = _norm(p)
    if v not in FS.files:
        raise OSError2(_errno.ENOENT, S('No such file or directory'), p)
    del FS.files[v]


def os_listdir(p):
    v = _norm(p)
    if v not in FS.dirs:
        raise OSError2(_errno.ENOENT, S('No such file or directory'), p)
    return [S(_os.path.basename(FS.shown.get(f, f))) for f in list(FS.files) + list(FS.dirs) if _os.path.dirname(f) == v and f != v]


_err = module('errno', **{k: getattr(_errno, k) for k in dir(_errno) if k.startswith('E')})
_osm = MODULES['os']
for _k, _v in dict(path=_ospath, name=S('posix'), sep=S('/'), mkdir=os_mkdir, makedirs=os_makedirs, remove=os_remove, unlink=os_remove,
                   listdir=os_listdir, errno=_err, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, linesep=S('\n'), environ=PDict(),
                   getcwd=lambda: S('/repo'), getpid=lambda: 4242, error=OSError2, pardir=S('..'), curdir=S('.')).items():
    setattr(_osm, _k, _v)

module('tempfile', NamedTemporaryFile=TempFile, gettempdir=lambda: S('/tmp'), TemporaryFile=TempFile,
       SpooledTemporaryFile=TempFile)


# ------------------------------------------------------------------ copy

_ATOM = (int, float, bool, type(None), type, _types.FunctionType, _types.BuiltinFunctionType, BaseStr, SymInt, SymBool, _types.ModuleType,
         regex.Pattern)


def c_copy(x):
    if isinstance(x, _ATOM):
        return x
    m = getattr(type(x), '__copy__', None)
    if m is not None:
        return m(x)
    if isinstance(x, list) and type(x) is list:
        return list(x)
    if type(x) in (tuple, frozenset):
        return x
    if type(x) is set:
        return set(x)
    if type(x) is PDict:
        return PDict(x)
    return _reconstruct(x, None)


def c_deepcopy(x, memo=None):
    if memo is None:
        memo = PDict()
    k = id(x)
    if dict.__contains__(memo, k):
        return memo[k]
    if isinstance(x, _ATOM):
        return x
    m = getattr(type(x), '__deepcopy__', None)
    if m is not None:
        r = m(x, memo)
    elif type(x) is list:
        r = []
        memo[k] = r
        for y in x:
            r.append(c_deepcopy(y, memo))
    elif type(x) is tuple:
        r = tuple(c_deepcopy(y, memo) for y in x)
    elif type(x) in (set, frozenset):
        r = type(x)(c_deepcopy(y, memo) for y in x)
    elif type(x) is PDict:
        r = PDict()
        memo[k] = r
        for a, b in dict.items(x):
            r[c_deepcopy(a, memo)] = c_deepcopy(b, memo)
    else:
        return _reconstruct(x, memo)
    memo[k] = r
    return r


def _reconstruct(x, memo):
    T = type(x)
    if not hasattr(x, '__dict__'):
        raise Unsupported('copy of %s' % T.__name__)
    if isinstance(x, tuple):
        r = T.__new__(T, tuple(x))
    elif isinstance(x, dict):
        r = T.__new__(T)
    elif isinstance(x, (list, set)):
        r = T.__new__(T)
    else:
        r = T.__new__(T)
    if memo is not None:
        memo[id(x)] = r
    gs = None
    for K in T.__mro__:
        if '__getstate__' in K.__dict__ and K is not object:
            gs = K.__dict__['__getstate__']
            break
    st = gs(x) if gs is not None else x.__dict__
    if memo is not None:
        st = {kk: c_deepcopy(v, memo) for kk, v in dict.items(st)} if isinstance(st, dict) else c_deepcopy(st, memo)
    ss = getattr(T, '__setstate__', None)
    if ss is not None:
        pst = PDict()
        for kk, v in dict.items(st):
            pst[S(kk) if type(kk) is str else kk] = v
        ss(r, pst)
    else:
        for kk, v in dict.items(st):
            r.__dict__[rt.hs(kk)] = v
    if isinstance(x, dict):
        for a, b in dict.items(x):
            r[c_deepcopy(a, memo) if memo is not None else a] = c_deepcopy(b, memo) if memo is not None else b
    elif isinstance(x, list):
        r.extend(c_deepcopy(list(x), memo) if memo is not None else x)
    return r


module('copy', copy=c_copy, deepcopy=c_deepcopy)


# ------------------------------------------------------------------ misc small modules

class _chain(object):
    def __new__(cls, *its):
        return _it.chain(*[rt.iter_(i) for i in its])

    @staticmethod
    def from_iterable(x):
        return _it.chain.from_iterable(x)


def _islice(it, *a):
    return _it.islice(it, *[_cint(x) for x in a])


module('itertools', chain=_chain, islice=_islice, count=_it.count, repeat=_it.repeat, izip=zip, imap=map, ifilter=filter, cycle=_it.cycle,
       takewhile=_it.takewhile, dropwhile=_it.dropwhile, izip_longest=_it.zip_longest, product=_it.product, groupby=_it.groupby,
       starmap=_it.starmap, ifilterfalse=lambda f, x: _it.filterfalse(f, rt.iter_(x)), compress=lambda d, s: _it.compress(rt.iter_(d), rt.iter_(s)), tee=_it.tee, permutations=_it.permutations, combinations=_it.combinations)
module('functools', partial=_functools.partial, wraps=_functools.wraps, reduce=rt.reduce_, total_ordering=lambda c: c,
       cmp_to_key=_functools.cmp_to_key, update_wrapper=_functools.update_wrapper)
module('operator', itemgetter=_operator.itemgetter, attrgetter=lambda *n: _operator.attrgetter(*[rt.hs(x) for x in n]), add=lambda a, b: a + b,
       eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lt, le=le, gt=gt, ge=ge, not_=lambda a: not a, contains=lambda a, b: b in a,
       getitem=lambda a, b: a[b], methodcaller=lambda n, *a: (lambda o: getattr(o, rt.hs(n))(*a)))
module('warnings', warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
module('cgi', valid_boundary=lambda s, _vb=S("^[ -~]{0,200}[!-~]$"): regex.match(_vb, s))
module('locale')
module('decimal', Decimal=type('Decimal', (object,), {}))


class CodecInfo(object):
    def __init__(self, n):
        self.name = S(n)


def _lookup(n):
    if isinstance(n, strings.BaseStr) and not bool(and_(*[ch_rng(c, 0, 127) for c in n.t])):
        raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
    return CodecInfo(strings.codec_name(n))


module('codecs', lookup=_lookup, encode=lambda s, *a: s.encode(*a), decode=lambda s, *a: s.decode(*a), BOM_UTF8=S('\xef\xbb\xbf'))
module('contextlib', closing=None, contextmanager=None)


class _closing(object):
    def __init__(self, o):
        self.o = o

    def __enter__(self):
        return self.o

    def __exit__(self, *a):
        self.o.close()


import contextlib as _ctx
MODULES['contextlib'].closing = _closing
MODULES['contextlib'].contextmanager = _ctx.contextmanager


class _ABC(object):
    pass


def _mkabc(test):
    class M(type):
        def __instancecheck__(self, o):
            return test(o)
    return M('ABC', (object,), {})


def namedtuple(name, fields, **kw):
    if isinstance(fields, BaseStr):
        fields = rt.hs(fields).replace(',', ' ').split()
    else:
        fields = [rt.hs(f) for f in fields]
    return _collections.namedtuple(rt.hs(name), fields)


class DefaultDict(PDict):
    def __init__(self, factory=None, *a, **k):
        PDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = self.default_factory()
        return self[k]


class Counter(PDict):
    def __init__(self, it=()):
        PDict.__init__(self)
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0


module('collections', namedtuple=namedtuple, OrderedDict=PDict, defaultdict=DefaultDict, deque=_collections.deque, Counter=Counter,
       Iterable=_mkabc(lambda o: hasattr(o, '__iter__') and not isinstance(o, BaseStr)),
       Mapping=_mkabc(lambda o: isinstance(o, dict)), MutableMapping=_mkabc(lambda o: isinstance(o, dict)),
       Sequence=_mkabc(lambda o: isinstance(o, (list, tuple, BaseStr))), Callable=_mkabc(callable))
module('types', ListType=list, TupleType=tuple, DictType=PDict, StringType=Str, UnicodeType=Uni, StringTypes=(Str, Uni), NoneType=type(None),
       IntType=rt.Int, LongType=rt.Int, FunctionType=_types.FunctionType, GeneratorType=_types.GeneratorType)
module('string', ascii_letters=S('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'), digits=S('0123456789'),
       ascii_lowercase=S('abcdefghijklmnopqrstuvwxyz'), ascii_uppercase=S('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), hexdigits=S('0123456789abcdefABCDEF'),
       whitespace=S('\t\n\x0b\x0c\r '), letters=S('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'),
       maketrans=None, punctuation=S('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
       printable=S('0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\r\x0b\x0c'))


def _maketrans(a, b):
    t = list(range(256))
    for x, y in zip(a.t, b.t):
        t[x] = y
    return Str.mkt(t)


MODULES['string'].maketrans = _maketrans


class _StdErr(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def _exc_info():
    t, v, tb = _sys.exc_info()
    return (t, v, tb)


module('sys', exc_info=_exc_info, stderr=_StdErr(), stdout=_StdErr(), maxint=2 ** 63 - 1, maxsize=2 ** 63 - 1, version_info=(2, 7, 18),
       modules=PDict(), getdefaultencoding=lambda: S('ascii'), exc_clear=lambda: None, maxunicode=0x10ffff, platform=S('java'),
       byteorder=S('big'), getsizeof=lambda o: 0)
module('abc', abstractmethod=lambda f: f, ABCMeta=type)
module('logging', getLogger=lambda *a: _Log(), NullHandler=lambda *a: None)


class _Log(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


module('threading', Lock=lambda: _Null(), RLock=lambda: _Null(), local=type('local', (object,), {}))


class _Null(object):
    def acquire(self, *a):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


import math as _math
module('math', floor=lambda x: float(_math.floor(x)) if not isinstance(x, SymInt) else x, ceil=lambda x: float(_math.ceil(x)) if not isinstance(x, SymInt) else x,
       sqrt=_math.sqrt, log=_math.log, pow=_math.pow)


class _NoRandom(object):
    def __getattr__(self, n):
        raise Unsupported('random')


def _time():
    raise Unsupported('clock')


module('time', time=_time, sleep=lambda *a: None)
module('random', random=_time, randint=_time, choice=_time)


# inspect: only the current frame's file name
class _Frame(object):
    def __init__(self, f):
        self.f = f


def _curframe():
    return _Frame(_sys._getframe(1))


class _FI(object):
    def __init__(self, fn, line, func):
        self.filename = S(fn)
        self.lineno = line
        self.function = S(func)

    def __getitem__(self, i):
        return (self.filename, self.lineno, self.function, [], 0)[i]


def _frameinfo(f, context=1):
    return _FI(f.f.f_code.co_filename, f.f.f_lineno, f.f.f_code.co_name)


module('inspect', currentframe=_curframe, getframeinfo=_frameinfo, isclass=lambda o: isinstance(o, type),
       isfunction=lambda o: isinstance(o, _types.FunctionType), ismethod=lambda o: isinstance(o, _types.MethodType))


# six
def _reraise(tp, value, tb=None):
    # six for Python 2: exec "raise tp, value, tb"
    if tb is not None and not isinstance(tb, _types.TracebackType):
        raise TypeError('raise: arg 3 must be traceback or None')
    raise rt.mkexc(tp, value, tb)


module('six', reraise=_reraise, PY2=True, PY3=False, string_types=(BaseStr,), text_type=Uni, binary_type=Str, integer_types=(rt.Int,),
       iteritems=lambda d: iter(d.iteritems()), itervalues=lambda d: iter(d.itervalues()), iterkeys=lambda d: iter(d.iterkeys()),
       b=lambda s: s, u=lambda s: s.decode(S('unicode_escape')) if not s.con else Uni.mk(s._c), next=rt.next_, class_types=(type,), moves=None)
module('six.moves', range=rt.xrange_, zip=zip, map=map, filter=filter, input=None, reduce=rt.reduce_, xrange=rt.xrange_)


# ------------------------------------------------------------------ binascii / base64

_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
_B64VAL = Tab([_B64.find(bytes([i])) for i in range(256)])
_B64CH = [_B64[i] for i in range(64)]


class BinError(Exception):
    pass


BinError.__name__ = 'Error'


def a2b_base64(s):
    if not isinstance(s, BaseStr):
        raise TypeError('must be string')
    if isinstance(s, Uni):
        s = str2(s)
    t = s.t
    n = len(t)
    quad = 0
    leftbits = 0
    left = 0
    out = []

    def find_valid(i, num):
        """next valid base64 character or pad after position i (as a bool: is it the pad?)"""
        j = i
        while j < n:
            c = t[j]
            v = map_u(c, lambda p: 100 if p == 61 else _B64VAL.v[p])
            ok = (v >= 0)
            if bool(ok):
                if num == 0:
                    return v == 100
                num -= 1
            j += 1
        return False
    i = 0
    while i < n:
        c = t[i]
        if bool(ch_eq(c, 61)):
            if quad < 2 or (quad == 2 and not bool(find_valid(i, 1))):
                i += 1
                continue
            leftbits = 0
            break
        v = map_u(c, lambda p: _B64VAL.v[p])
        if bool(v < 0):
            i += 1
            continue
        v = X.fix(v)
        quad = (quad + 1) & 3
        if leftbits == 0:
            left = v
            leftbits = 6
        else:
            k = leftbits + 6 - 8
            out.append(left * (1 << (6 - k)) + v // (1 << k))
            left = v % (1 << k) if k else 0
            leftbits = k
        i += 1
    if leftbits != 0:
        raise BinError('Incorrect padding')
    return Str.mkt(out)


def b2a_base64(s):
    if isinstance(s, Uni):
        s = str2(s)
    t = s.t
    out = []

    def ch(v):
        if isinstance(v, int):
            return _B64CH[v]
        if v.op == 'u':
            return map_u(v, lambda p: _B64CH[p & 63])
        return apply_tab(v, _B64TAB, 64)
    for i in range(0, len(t), 3):
        g = t[i:i + 3]
        a = g[0]
        b = g[1] if len(g) > 1 else 0
        c = g[2] if len(g) > 2 else 0
        out.append(ch(a // 4))
        out.append(ch(a % 4 * 16 + b // 16))
        out.append(ch(b % 16 * 4 + c // 64) if len(g) > 1 else 61)
        out.append(ch(c % 64) if len(g) > 2 else 61)
    out.append(10)
    return Str.mkt(out)


_B64TAB = Tab([_B64CH[i & 63] for i in range(256)])


def b64decode(s, altchars=None):
    if altchars is not None:
        s = s.translate(_maketrans(altchars, S('+/')))
    try:
        return a2b_base64(s)
    except BinError as e:
        raise TypeError(e)


def b64encode(s, altchars=None):
    r = b2a_base64(s)[:-1]
    if altchars is not None:
        r = r.translate(_maketrans(S('+/'), altchars))
    return r


_U2B = Str.mkt([{45: 43, 95: 47}.get(i, i) for i in range(256)])
_B2U = Str.mkt([{43: 45, 47: 95}.get(i, i) for i in range(256)])


def urlsafe_b64decode(s):
    if isinstance(s, Uni):
        raise Unsupported('urlsafe_b64decode of unicode')
    return b64decode(s.translate(_U2B))


def urlsafe_b64encode(s):
    return b64encode(s).translate(_B2U)


def hexlify(s):
    H = [ord(c) for c in '0123456789abcdef']
    out = []
    for c in s.t:
        out += [map_u(c, lambda p: H[(p >> 4) & 15]), map_u(c, lambda p: H[p & 15])]
    return Str.mkt(out)


def unhexlify(s):
    if len(s) % 2:
        raise TypeError('Odd-length string')
    out = []
    for i in range(0, len(s), 2):
        a, b = [ch_in(c, _HEXDIGITS) for c in s.t[i:i + 2]]
        if not bool(and_(a, b)):
            raise TypeError('Non-hexadecimal digit found')
        out.append(_hexval(s.t[i]) * 16 + _hexval(s.t[i + 1]))
    return Str.mkt(out)


_HEXDIGITS = frozenset(b'0123456789abcdefABCDEF')


def _hexval(c):
    return map_u(c, lambda p: int(chr(p), 16) if p in _HEXDIGITS else 0)


strings.BYTE_CODECS.update({'hex': (hexlify, unhexlify), 'base64': (lambda s: _b64lines(s), lambda s: a2b_base64(s))})


def _b64lines(s):
    return S('').join([b2a_base64(s[i:i + 57]) for i in range(0, len(s), 57)])


module('binascii', unhexlify=unhexlify, a2b_hex=unhexlify, Error=BinError, a2b_base64=a2b_base64, b2a_base64=b2a_base64, hexlify=hexlify, b2a_hex=hexlify)
module('base64', b64decode=b64decode, b64encode=b64encode, urlsafe_b64decode=urlsafe_b64decode, urlsafe_b64encode=urlsafe_b64encode,
       standard_b64decode=b64decode, standard_b64encode=b64encode, decodestring=a2b_base64, encodestring=lambda s: _b64lines(s))


# ------------------------------------------------------------------ dates

def _leap(y):
    return or_(and_(cmp2(y % 4, 0), not_(cmp2(y % 100, 0))), cmp2(y % 400, 0))


def cmp2(a, b):
    return a == b


class DT(object):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0):
        if not bool(and_(year >= 1, year <= 9999)):
            raise ValueError('year is out of range')
        if not bool(and_(month >= 1, month <= 12)):
            raise ValueError('month must be in 1..12')
        month = _cint(month)
        dim = [31, None, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1]
        if dim is None:
            dim = 29 if bool(_leap(year)) else 28
        if not bool(and_(day >= 1, day <= dim)):
            raise ValueError('day is out of range for month')
        for v, hi, what in ((hour, 23, 'hour'), (minute, 59, 'minute'), (second, 59, 'second')):
            if not bool(and_(v >= 0, v <= hi)):
                raise ValueError(what)
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second = hour, minute, second

    def utctimetuple(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, 0, 1, 0)

    timetuple = utctimetuple


class _Date(object):
    pass


def timegm(t):
    y, mo, d, h, mi, s = t[:6]
    y1 = y - 1
    days = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][_cint(mo) - 1]
    if _cint(mo) > 2 and bool(_leap(y)):
        cum += 1
    days = days + cum + d - 719163
    return ((days * 24 + h) * 60 + mi) * 60 + s


class _utc(object):
    pass


module('datetime', datetime=DT, date=_Date, time=type('time', (object,), {}), timedelta=type('timedelta', (object,), {}))
module('calendar', timegm=timegm)


def formatdate(timeval=None, localtime=False, usegmt=False):
    if timeval is None:
        raise Unsupported('clock')
    if isinstance(timeval, float):
        timeval = _math.floor(timeval)
    t = timeval
    days = t // 86400
    sec = t % 86400
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    mp = _cint(mp)
    m = mp + 3 if mp < 10 else mp - 9
    if m <= 2:
        y = y + 1
    wd = _cint((days + 3) % 7)

    def two(v):
        return Str.mkt((v // 10 + 48, v % 10 + 48))
    if not bool(and_(y >= 1000, y <= 9999)):
        raise Unsupported('year outside 1000..9999')
    ys = Str.mkt((y // 1000 + 48, y // 100 % 10 + 48, y // 10 % 10 + 48, y % 10 + 48))
    days_ = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
    mons = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
    zone = 'GMT' if usegmt else '-0000'
    return (S(days_[wd] + ', ') + two(d) + S(' ' + mons[m - 1] + ' ') + ys + S(' ') + two(sec // 3600) + S(':') + two(sec // 60 % 60)
            + S(':') + two(sec % 60) + S(' ' + zone))


module('email.utils', formatdate=formatdate)


def category(c):
    if not isinstance(c, Uni):
        raise TypeError('category(): 1st arg can not be coerced to unicode')
    if len(c) != 1:
        raise TypeError('need a single Unicode character as parameter')
    k = c.t[0]
    if not isinstance(k, int) and k.op != 'u':
        k = k.__index__()
    return Str.mkt((map_u(k, lambda p: ord(_ud.category(chr(p))[0])), map_u(k, lambda p: ord(_ud.category(chr(p))[1]))))


module('unicodedata', category=category)
_n2c = PDict()
for _k2, _v2 in _ent.name2codepoint.items():
    dict.__setitem__(_n2c, S(_k2), _v2)
module('htmlentitydefs', name2codepoint=_n2c)

module('re', compile=regex.compile, match=regex.match, search=regex.search, split=regex.split, sub=regex.sub, subn=regex.subn,
       findall=regex.findall, finditer=regex.finditer, escape=regex.escape, error=regex.ReError,
       **{k: int(v) for k, v in regex.FLAGS.items()})


# ------------------------------------------------------------------ urllib (Python 2) and future's urllib.parse

_ALWAYS = frozenset(ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-')
_HEX = [ord(c) for c in '0123456789ABCDEF']


def _quote_bytes(chars, safe, plus=False):
    out = []
    for c in chars:
        if plus and bool(ch_eq(c, 32)):
            out.append(43)
        elif bool(ch_in(c, safe)):
            out.append(c)
        elif isinstance(c, int) or c.op == 'u':
            out += [37, map_u(c, lambda p: _HEX[(p >> 4) & 15]), map_u(c, lambda p: _HEX[p & 15])]
        else:
            out += [37, apply_tab(c // 16, _HEXT), apply_tab(c % 16, _HEXT)]
    return out


_HEXT = Tab([_HEX[i] if i < 16 else 0 for i in range(256)])


def u_quote(s, safe=None):
    safe = safe if safe is not None else S('/')
    if not isinstance(s, BaseStr):
        raise TypeError('quote: string expected')
    if len(s) == 0:
        return s
    if not safe.settle().con:
        raise Unsupported('symbolic safe set')
    if isinstance(s, Uni):
        for c in s.t:
            if not bool(ch_rng(c, 0, 255)):
                raise KeyError(s)
            if not bool(ch_rng(c, 0, 127)):
                raise KeyError(s)
        r = _quote_bytes(s.t, _ALWAYS | frozenset(safe.t))
        return Str.mkt(r)
    return Str.mkt(_quote_bytes(s.t, _ALWAYS | frozenset(safe.t)))


def u_quote_plus(s, safe=None):
    safe = safe if safe is not None else S('')
    if isinstance(s, Uni):
        if bool(s.find(S(' ')) >= 0):
            return u_quote(s, safe + S(' ')).replace(S(' '), S('+'))
        return u_quote(s, safe)
    return Str.mkt(_quote_bytes(s.t, (_ALWAYS | frozenset(safe.t)) - {32}, True))


def u_urlencode(query, doseq=0):
    items = query.items() if hasattr(query, 'items') else query
    out = []
    for k, v in items:
        if doseq and not isinstance(v, BaseStr) and hasattr(v, '__len__'):
            for e in v:
                out.append(u_quote_plus(str2(k)) + S('=') + u_quote_plus(str2(e)))
            continue
        out.append(u_quote_plus(str2(k)) + S('=') + u_quote_plus(str2(v)))
    return S('&').join(out)


def _unhex(a, b):
    def hv(c):
        if isinstance(c, int):
            return int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else -1
        if c.op != 'u':
            c = c.__index__()
            return hv(c)
        return map_u(c, lambda p: int(chr(p), 16) if chr(p) in '0123456789abcdefABCDEF' else -1)
    x, y = hv(a), hv(b)
    if not bool(x >= 0) or not bool(y >= 0):
        return None
    x, y = X.fix(x), X.fix(y)
    return x * 16 + y


def u_unquote(s):
    t = s.t
    out = []
    i = 0
    while i < len(t):
        if bool(ch_eq(t[i], 37)) and i + 2 < len(t) + 0 and i + 2 <= len(t) - 1:
            v = _unhex(t[i + 1], t[i + 2])
            if v is not None:
                out.append(v)
                i += 3
                continue
        out.append(t[i])
        i += 1
    return s.like(out)


module('urllib', quote=u_quote, quote_plus=u_quote_plus, urlencode=u_urlencode, unquote=u_unquote,
       unquote_plus=lambda s: u_unquote(s.replace(S('+'), S(' '))))


class _NewStrMeta(type(Uni)):
    def __instancecheck__(cls, o):
        return isinstance(o, Uni) if cls is NewStr else type.__instancecheck__(cls, o)


class NewStr(Uni, metaclass=_NewStrMeta):
    """future.types.newstr"""
    __slots__ = ()

    @classmethod
    def wrap(cls, s):
        o = object.__new__(cls)
        o._c, o._t = s._c, s._t
        return o

    @classmethod
    def construct(cls, obj=None, encoding=None, errors=None):
        if obj is None:
            return NewStr.wrap(Uni.mk(''))
        if type(obj) is NewStr:
            return obj
        if isinstance(obj, Uni):
            return NewStr.wrap(obj)
        if isinstance(obj, Str) and (encoding is not None or errors is not None):
            return NewStr.wrap(obj.decode(encoding, errors))
        if isinstance(obj, Str):
            return NewStr.wrap(obj.to_uni())
        return NewStr.wrap(Uni.construct(obj))

    def decode(self, *a):
        raise AttributeError('decode method has been disabled in newstr')

    def encode(self, encoding=None, errors=None):
        return NewBytes.wrap(Uni.encode(self, encoding if encoding is not None else S('utf-8'), errors))

    def __add__(self, o):
        r = BaseStr.__add__(self, o)
        return NewStr.wrap(r) if isinstance(r, Uni) else r

    def __radd__(self, o):
        return NewStr.wrap(o + Uni.mkt(self.t))

    def __mul__(self, n):
        return NewStr.wrap(BaseStr.__mul__(self, n))

    def __getitem__(self, i):
        r = BaseStr.__getitem__(self, i)
        return r if isinstance(i, slice) else NewStr.wrap(r)

    def join(self, it):
        return NewStr.wrap(BaseStr.join(self, it))

    def replace(self, *a):
        return NewStr.wrap(BaseStr.replace(self, *a))

    def _w(name):
        f = getattr(BaseStr, name)

        def g(self, *a, **k):
            r = f(self, *a, **k)
            return type(r)(NewStr.wrap(x) for x in r)
        return g
    split = _w('split')
    rsplit = _w('rsplit')
    partition = _w('partition')
    rpartition = _w('rpartition')
    splitlines = _w('splitlines')
    __hash__ = BaseStr.__hash__
    __eq__ = BaseStr.__eq__
    __ne__ = BaseStr.__ne__


class _NewBytesMeta(type(Str)):
    def __instancecheck__(cls, o):
        return isinstance(o, Str) if cls is NewBytes else type.__instancecheck__(cls, o)


class NewBytes(Str, metaclass=_NewBytesMeta):
    """future.types.newbytes"""
    __slots__ = ()

    @classmethod
    def wrap(cls, s):
        o = object.__new__(cls)
        o._c, o._t = s._c, s._t
        return o

    @classmethod
    def construct(cls, obj=None, encoding=None, errors=None):
        if isinstance(obj, Str):
            return cls.wrap(obj)
        raise Unsupported('newbytes constructor')

    def decode(self, encoding=None, errors=None):
        return NewStr.wrap(Str.decode(self, encoding if encoding is not None else S('utf-8'), errors))

    def encode(self, *a):
        raise AttributeError('encode method has been disabled in newbytes')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return NewBytes.wrap(BaseStr.__getitem__(self, i))
        return BaseStr.__getitem__(self, i).t[0]

    def __add__(self, o):
        if type(o) is NewStr:
            raise TypeError("argument can't be newstr")
        return NewBytes.wrap(BaseStr.__add__(self, o))

    def __radd__(self, o):
        return NewBytes.wrap(o + Str.mkt(self.t))
    __hash__ = BaseStr.__hash__
    __eq__ = BaseStr.__eq__
    __ne__ = BaseStr.__ne__


_nb_base = Str


def _likefix():
    # operations on the subclasses build the plain types
    NewStr.base = Uni
    NewBytes.base = Str


_likefix()


def f_quote_from_bytes(bs, safe=None):
    safe = safe if safe is not None else S('/')
    if not isinstance(bs, Str):
        raise TypeError('quote_from_bytes() expected bytes')
    if len(bs) == 0:
        return NewStr.wrap(Uni.mk(''))
    sf = safe.settle()
    if not sf.con:
        raise Unsupported('symbolic safe set')
    return NewStr.wrap(Uni.mkt(_quote_bytes(bs.t, _ALWAYS | frozenset(c for c in sf.t if c < 128))))


def f_quote(string, safe=None, encoding=None, errors=None):
    if isinstance(string, Uni):
        if len(string) == 0:
            return string
        string = Uni.encode(string, encoding if encoding is not None else S('utf-8'), errors)
    else:
        if encoding is not None:
            raise TypeError("quote() doesn't support 'encoding' for bytes")
        if errors is not None:
            raise TypeError("quote() doesn't support 'errors' for bytes")
    return f_quote_from_bytes(string, safe)


def f_quote_plus(string, safe=None, encoding=None, errors=None):
    safe = safe if safe is not None else S('')
    if isinstance(string, BaseStr) and not bool(string.find(S(' ')) >= 0):
        return f_quote(string, safe, encoding, errors)
    r = f_quote(string, safe + S(' '), encoding, errors)
    return r.replace(S(' '), S('+'))


def f_unquote_to_bytes(string):
    if len(string) == 0:
        return NewBytes.wrap(S(''))
    if isinstance(string, Uni):
        string = Uni.encode(string, S('utf-8'))
    return NewBytes.wrap(Str.mkt(u_unquote(Str.mkt(string.t)).t))


def f_unquote(string, encoding=None, errors=None):
    enc = encoding if encoding is not None else S('utf-8')
    errs = errors if errors is not None else S('replace')
    if not isinstance(string, BaseStr):
        raise TypeError("argument of type '%s' is not iterable" % strings.pytype(string))
    if isinstance(string, Str):
        string.to_uni()         # u'%' in <str> decodes it
    if bool(string.find(S('%')) < 0):
        return string
    t = string.t
    out = Uni.mk('')
    i = 0
    while i < len(t):
        j = i
        while j < len(t) and bool(ch_rng(t[j], 0, 127)):
            j += 1
        if j > i:
            out = out + Str.decode(f_unquote_to_bytes(Str.mkt(t[i:j])), enc, errs)
        k = j
        while k < len(t) and not bool(ch_rng(t[k], 0, 127)):
            k += 1
        out = out + Uni.mkt(t[j:k])
        i = k
    return Uni.mkt(out.t)


def f_unquote_plus(string, encoding=None, errors=None):
    return f_unquote(string.replace(Uni.mk('+'), Uni.mk(' ')), encoding, errors)


def _nstr(v):
    return NewStr.construct(v)


def f_urlencode(query, doseq=False, safe=None, encoding=None, errors=None):
    if hasattr(query, 'items'):
        query = query.items()
    else:
        try:
            if len(query) and not isinstance(query[0], tuple):
                raise TypeError
        except TypeError:
            raise TypeError('not a valid non-string sequence or mapping object')
    out = []

    def q(v):
        if isinstance(v, Str):
            return f_quote_plus(v, safe)
        if isinstance(v, Uni):
            return f_quote_plus(v, safe, encoding, errors)
        return f_quote_plus(Uni.construct(v), safe, encoding, errors)
    for k, v in query:
        k = q(k)
        if not doseq or isinstance(v, BaseStr):
            out.append(k + S('=') + q(v))
        else:
            try:
                len(v)
            except TypeError:
                out.append(k + S('=') + q(v))
            else:
                for e in v:
                    out.append(k + S('=') + q(e))
    return NewStr.wrap(Uni.mk('&').join(out) if out else Uni.mk(''))


def f_noop(o):
    return o


def f_encode_result(o, encoding=None, errors=None):
    return o.encode(encoding if encoding is not None else S('ascii'), errors if errors is not None else S('strict'))


def f_coerce_args(*args):
    uni = isinstance(args[0], Uni)
    for a in args[1:]:
        if a and isinstance(a, Uni) != uni:
            raise TypeError('Cannot mix str and non-str arguments')
    if uni:
        return args + (f_noop,)
    return tuple(a.decode(S('ascii'), S('strict')) if a else Uni.mk('') for a in args) + (f_encode_result,)


def f_splitnetloc(url, start=0):
    delim = len(url)
    for c in '/?#':
        w = url.find(S(c), start)
        if w >= 0:
            delim = min(delim, w)
    return url[start:delim], url[delim:]


def f_splitparams(url):
    if bool(url.find(S('/')) >= 0):
        i = url.find(S(';'), url.rfind(S('/')))
        if i < 0:
            return url, Uni.mk('')
    else:
        i = url.find(S(';'))
    return url[:i], url[i + 1:]


def _mkresult(name, fields):
    nt = _collections.namedtuple(name, fields)

    class R(nt):
        __slots__ = ()

        def encode(self, encoding=None, errors=None):
            return self._other(*[x.encode(encoding if encoding is not None else S('ascii'), errors if errors is not None else S('strict')) for x in self])

        def decode(self, encoding=None, errors=None):
            return self._other(*[x.decode(encoding if encoding is not None else S('ascii'), errors if errors is not None else S('strict')) for x in self])

        def _hostinfo(self):
            n = self.netloc
            _, _, h = n.rpartition(S('@'))
            _, br, b = h.partition(S('['))
            if len(br):
                host, _, port = b.partition(S(']'))
                _, _, port = port.partition(S(':'))
            else:
                host, _, port = h.partition(S(':'))
            return host, port

        @property
        def hostname(self):
            h = self._hostinfo()[0]
            return h.lower() if len(h) else None

        @property
        def port(self):
            p = self._hostinfo()[1]
            return rt.int_parse(p) if len(p) else None

        def geturl(self):
            raise Unsupported('geturl')
    R.__name__ = name
    return R


SplitResult = _mkresult('SplitResult', 'scheme netloc path query fragment')
SplitResultBytes = _mkresult('SplitResultBytes', 'scheme netloc path query fragment')
ParseResult = _mkresult('ParseResult', 'scheme netloc path params query fragment')
ParseResultBytes = _mkresult('ParseResultBytes', 'scheme netloc path params query fragment')
SplitResult._other, SplitResultBytes._other = SplitResultBytes, SplitResult
ParseResult._other, ParseResultBytes._other = ParseResultBytes, ParseResult


def f_urlsplit(*a):
    raise Unsupported('urlsplit')


module('future.backports.urllib.parse', quote=f_quote, quote_plus=f_quote_plus, unquote=f_unquote, unquote_plus=f_unquote_plus,
       urlencode=f_urlencode, _coerce_args=f_coerce_args, _splitnetloc=f_splitnetloc, _splitparams=f_splitparams,
       ParseResult=ParseResult, SplitResult=SplitResult, unquote_to_bytes=f_unquote_to_bytes, quote_from_bytes=f_quote_from_bytes,
       scheme_chars=Uni.mk('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.'),
       uses_params=[Uni.mk(x) for x in ['ftp', 'hdl', 'prospero', 'http', 'imap', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', '',
                                        'sftp', 'tel']], urlsplit=f_urlsplit, urlparse=f_urlsplit)


# ------------------------------------------------------------------ importlib / imp (bound by the importer)

def bind(importer):
    def import_module(name, package=None):
        return importer.load(rt.hs(name))

    def find_module(name, path=None):
        n = rt.hs(name)
        for p in (path or []):
            q = _os.path.join(_path(p), n.replace('.', '\0'))
            if '\0' not in q and (_os.path.exists(q + '.py') or _os.path.isdir(q)):
                return (None, S(q), (S(''), S(''), 5))
        raise ImportError('No module named ' + n)
    module('importlib', import_module=import_module)
    module('imp', find_module=find_module)
