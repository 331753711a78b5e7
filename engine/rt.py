"""Runtime for translated Python 2 code: builtins with Python 2 (Jython) semantics over symbolic values."""
import builtins as _b
import sys
import types as _types
import unicodedata as _ud

import terms
from terms import SymInt, SymBool, Unsupported, DepthLimit, PathAbort, X, and_, or_, not_, cmp_, ite, map_u
import strings
from strings import BaseStr, Str, Uni, S, str2, repr2, repr2s, pytype, ch_eq, ch_in, ch_rng

ENGINE_EXC = (PathAbort, Unsupported, DepthLimit, GeneratorExit)


# ------------------------------------------------------------------ exceptions (Python 2 hierarchy)

class StandardError(Exception):
    pass


class EnvironmentError2(Exception):
    def __init__(self, *args):
        Exception.__init__(self, *args)
        self.errno = self.strerror = self.filename = None
        if len(args) in (2, 3):
            self.errno, self.strerror = args[0], args[1]
            if len(args) == 3:
                self.filename = args[2]
                self.args = args[:2]

    def __str__(self):
        if self.errno is not None:
            return '[Errno %s] %s' % (self.errno, self.strerror)
        return str(str2(self.args[0])) if len(self.args) == 1 else ''


class IOError2(EnvironmentError2):
    pass


class OSError2(EnvironmentError2):
    pass


EnvironmentError2.__name__ = 'EnvironmentError'
IOError2.__name__ = 'IOError'
OSError2.__name__ = 'OSError'


# ------------------------------------------------------------------ loops

class Tick(object):
    n = 0
    limit = 200000


TICK = Tick()


def tick():
    TICK.n += 1
    if X.dead is not None:
        raise X.dead
    if TICK.n > TICK.limit:
        raise DepthLimit('loop')
    if TICK.n % 4096 == 0 and X.deadline is not None:
        import time
        if time.time() > X.deadline:
            raise DepthLimit('time budget')
    return True


# ------------------------------------------------------------------ containers

class PDict(dict):
    """Python 2 dict."""
    __slots__ = ('__dict__', '__weakref__')

    def __init__(self, *args, **kw):
        dict.__init__(self)
        PDict._upd(self, args, kw)

    def _upd(self, args, kw):
        if len(args) > 1:
            raise TypeError('dict expected at most 1 arguments, got %d' % len(args))
        if args:
            a = args[0]
            if isinstance(a, dict):
                for k, v in dict.items(a):
                    dict.__setitem__(self, k, v)
            elif hasattr_(a, 'keys'):
                for k in a.keys():
                    dict.__setitem__(self, k, a[k])
            else:
                for kv in a:
                    kv = list(kv)
                    if len(kv) != 2:
                        raise ValueError('dictionary update sequence element has wrong length')
                    dict.__setitem__(self, kv[0], kv[1])
        for k, v in kw.items():
            dict.__setitem__(self, S(k) if type(k) is str else k, v)

    def update(self, *args, **kw):
        PDict._upd(self, args, kw)

    def items(self):
        return list(dict.items(self))

    def keys(self):
        return list(dict.keys(self))

    def values(self):
        return list(dict.values(self))

    def iteritems(self):
        return iter(list(dict.items(self)))

    def iterkeys(self):
        return iter(list(dict.keys(self)))

    def itervalues(self):
        return iter(list(dict.values(self)))

    viewitems = items
    viewkeys = keys
    viewvalues = values

    def has_key(self, k):
        return dict.__contains__(self, k)

    def copy(self):
        return PDict(self)

    def __repr__(self):
        return '{' + ', '.join(repr2(k) + ': ' + repr2(v) for k, v in dict.items(self)) + '}'

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d


PDict.__name__ = 'dict'


class DictView(PDict):
    """x.__dict__ with Str keys, writes through."""
    __slots__ = ('_o',)

    def __init__(self, o):
        dict.__init__(self)
        for k, v in o.__dict__.items():
            dict.__setitem__(self, S(k), v)
        self._o = o

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self._o.__dict__[hs(k)] = v

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        del self._o.__dict__[hs(k)]

    def update(self, *a, **kw):
        for k, v in dict.items(PDict(*a, **kw)):
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        return dict.pop(self, k, *d)

    def clear(self):
        for k in list(self.keys()):
            del self[k]


def getdict(o):
    d = o.__dict__
    if isinstance(o, type) or isinstance(o, _types.ModuleType):
        r = PDict()
        for k, v in d.items():
            dict.__setitem__(r, S(k), v)
        return r
    return DictView(o)


def hs(name):
    """A Str used as an identifier -> host str."""
    if isinstance(name, BaseStr):
        s = name.settle()
        if not s.con:
            s = s.like([c if isinstance(c, int) else X.concretize(c) for c in s.t]).settle()
            if not s.con:
                raise Unsupported('symbolic attribute name')
        return s._c
    if type(name) is str:
        return name
    raise TypeError('attribute name must be string')


def kw(d):
    """**d at a call site."""
    return {hs(k): v for k, v in dict.items(d)} if isinstance(d, dict) else {hs(k): d[k] for k in d.keys()}


def kwin(d):
    """**kwargs received by a function."""
    r = PDict()
    for k, v in d.items():
        dict.__setitem__(r, S(k), v)
    return r


def mkdict(pairs):
    d = PDict()
    for k, v in pairs:
        dict.__setitem__(d, k, v)
    return d


# ------------------------------------------------------------------ operators

def _rank(x):
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, SymInt, SymBool)):
        return (1, '')
    return (2, pytype(x))


def _native(a, b):
    num = (int, float, SymInt, SymBool)
    if isinstance(a, num) and isinstance(b, num):
        return True
    if isinstance(a, BaseStr) and isinstance(b, BaseStr):
        return True
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return True
    return False


def _order(a, b):
    ra, rb = _rank(a), _rank(b)
    return -1 if ra < rb else 1 if ra > rb else 0


def _num(x):
    return terms.b2i(x) if isinstance(x, SymBool) else x


def _mk(name, op, test):
    def f(a, b):
        a, b = _num(a), _num(b)
        if _native(a, b):
            if isinstance(a, (list, tuple)) and not isinstance(a, BaseStr):
                return test(seqcmp(a, b))
            return op(a, b)
        for p, q, nm in ((a, b, name), (b, a, _SWAP[name])):
            m = getattr(type(p), nm, None)
            if m is not None and not isinstance(m, _types.WrapperDescriptorType) and not isinstance(p, (BaseStr, SymInt)):
                r = m(p, q)
                if r is not NotImplemented:
                    return r
        return test(_order(a, b))
    return f


_SWAP = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}


def seqcmp(a, b):
    for x, y in zip(a, b):
        if x == y:
            continue
        return -1 if lt(x, y) else 1
    return (len(a) > len(b)) - (len(a) < len(b))


lt = _mk('__lt__', lambda a, b: a < b, lambda c: c < 0)
le = _mk('__le__', lambda a, b: a <= b, lambda c: c <= 0)
gt = _mk('__gt__', lambda a, b: a > b, lambda c: c > 0)
ge = _mk('__ge__', lambda a, b: a >= b, lambda c: c >= 0)


def cmp2(a, b):
    if a == b:
        return 0
    return -1 if lt(a, b) else 1


def div(a, b):
    if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
        return a // b
    m = getattr(type(a), '__div__', None)
    if m is not None:
        return m(a, b)
    return a / b


def eq(a, b):
    """== as an expression (bool or SymBool)."""
    return a == b


# ------------------------------------------------------------------ attributes

_missing = object()


def get_next(o):
    n = getattr(o, 'next', _missing)
    if n is not _missing:
        return n
    return o.__next__


def getname(o):
    if isinstance(o, type):
        n = _NAMES.get(o) or o.__name__
        return S(n)
    n = o.__name__
    return S(n) if type(n) is str else n


def getmessage(o):
    if isinstance(o, BaseException) and 'message' not in o.__dict__:
        if len(o.args) == 1:
            a = o.args[0]
            return S(a) if type(a) is str else a
        return S('')
    return o.message


def getargs(o):
    a = o.args
    if isinstance(o, BaseException) and any(type(x) in (str, bytes) for x in a):
        return tuple(S(x) if type(x) is str else S(x.decode('latin-1')) if type(x) is bytes else x for x in a)
    return a


def getattr_(o, name, *d):
    n = hs(name)
    if n == 'next':
        try:
            return get_next(o)
        except AttributeError:
            if d:
                return d[0]
            raise
    if n == '__dict__':
        return getdict(o)
    if n == '__name__':
        try:
            return getname(o)
        except AttributeError:
            if d:
                return d[0]
            raise
    if n == '__file__' or n == '__doc__' or n == '__module__':
        r = getattr(o, n, *d)
        return S(r) if type(r) is str else r
    if isinstance(o, _types.ModuleType) and type(getattr(o, n, None)) is str:
        return S(getattr(o, n))
    return getattr(o, n, *d)


def hasattr_(o, name):
    try:
        getattr_(o, name)
        return True
    except Exception:
        return False


def setattr_(o, name, v):
    setattr(o, hs(name), v)


def delattr_(o, name):
    delattr(o, hs(name))


def vars_(*a):
    if not a:
        raise Unsupported('vars()')
    return getdict(a[0])


def dir_(*a):
    return [S(x) for x in dir(*a)]


class Super2(object):
    def __new__(cls, *args):
        if not args:
            raise TypeError('super() takes at least 1 argument (0 given)')
        if isinstance(args[0], type) and getattr(args[0], '_old_style', False) and args[0].__dict__.get('_old_style'):
            raise TypeError('super() argument 1 must be type, not classobj')
        return super(*args)


# ------------------------------------------------------------------ classes

_NAMES = {}


def cls(C):
    d = C.__dict__
    bases = [b for b in C.__bases__ if b is not object]
    explicit_object = getattr(C, '_explicit_new', False)
    if 'next' in d and '__next__' not in d:
        C.__next__ = d['next']
    if '__nonzero__' in d:
        C.__bool__ = _wrapbool(d['__nonzero__'])
    elif '__bool__' in d:
        try:
            delattr(C, '__bool__')
        except AttributeError:
            pass
    if '__eq__' in d and d.get('__hash__', 0) is None:
        h = None
        for b in C.__mro__[1:]:
            if b.__dict__.get('__hash__') is not None:
                h = b.__dict__['__hash__']
                break
        C.__hash__ = h
    if '__div__' in d:
        C.__truediv__ = d['__div__']
    if '__cmp__' in d and '__eq__' not in d:
        c = d['__cmp__']
        C.__eq__ = lambda a, b: c(a, b) == 0
        C.__ne__ = lambda a, b: c(a, b) != 0
        C.__lt__ = lambda a, b: c(a, b) < 0
        C.__gt__ = lambda a, b: c(a, b) > 0
        C.__le__ = lambda a, b: c(a, b) <= 0
        C.__ge__ = lambda a, b: c(a, b) >= 0
    if '__eq__' in d and '__ne__' not in d:
        pass
    return C


def oldstyle(C):
    C._old_style = True
    return C


def _wrapbool(f):
    def __bool__(self):
        return bool(f(self))
    return __bool__


def mkexc(t, v=None, tb=None):
    """raise T, v, tb"""
    if isinstance(t, tuple) and t:
        t = t[0]
    if isinstance(t, type) and issubclass(t, BaseException):
        if v is None:
            return t()
        if isinstance(v, t):
            return v
        if isinstance(v, tuple):
            return t(*v)
        return t(v)
    if isinstance(t, BaseException):
        if v is not None:
            raise TypeError('instance exception may not have a separate value')
        return t
    if isinstance(t, type):
        return TypeError('exceptions must be derived from BaseException')
    raise TypeError('exceptions must be old-style classes or derived from BaseException, not %s' % pytype(t))


def exccls(t):
    """the class expression of an except clause"""
    return t


# ------------------------------------------------------------------ numbers

def _strip_int(s):
    if isinstance(s, Uni):
        ws = s.WS
    else:
        ws = frozenset(list(s.WS) + [28, 29, 30, 31])
    t = s.t
    a, b = 0, len(t)
    while a < b and bool(ch_in(t[a], ws)):
        a += 1
    while b > a and bool(ch_in(t[b - 1], ws)):
        b -= 1
    return t[a:b], ws


def int_parse(s, base=10):
    if isinstance(base, SymInt):
        base = base.__index__()
    if base != 0 and not 2 <= base <= 36:
        raise ValueError('int() base must be >= 2 and <= 36')
    t, ws = _strip_int(s)

    def bad():
        raise ValueError('invalid literal for int() with base %d' % base)
    sign = 1
    if t:
        if bool(ch_eq(t[0], 45)):
            sign = -1
            t = t[1:]
            while t and bool(ch_in(t[0], ws)):
                t = t[1:]
        elif bool(ch_eq(t[0], 43)):
            t = t[1:]
            while t and bool(ch_in(t[0], ws)):
                t = t[1:]
            if t and bool(ch_eq(t[0], 45)):
                sign = -1
                t = t[1:]
            elif t and bool(ch_eq(t[0], 43)):
                t = t[1:]
    if base in (0, 16, 2, 8) and len(t) >= 2 and bool(ch_eq(t[0], 48)):
        pre = {16: 'xX', 2: 'bB', 8: 'oO'}
        hit = False
        for b_, cs in pre.items():
            if base in (0, b_) and bool(ch_in(t[1], frozenset(map(ord, cs)))):
                t = t[2:]
                base = b_
                hit = True
                break
        if not hit and base == 0:
            base = 8
            t = t[1:]
    if base == 0:
        base = 10
    if not t:
        bad()
    uni = isinstance(s, Uni)

    def val(p):
        if p < 128:
            c = chr(p)
            if c.isdigit():
                v = p - 48
            elif c.isalpha():
                v = ord(c.lower()) - 87
            else:
                return -1
        elif uni:
            v = _ud.decimal(chr(p), -1)
        else:
            return -1
        return v if v < base else -1
    n = 0
    digs = []
    for c in t:
        if isinstance(c, int):
            v = val(c)
            if v < 0:
                bad()
        elif c.op == 'u':
            v = c.b.map(val, ('digit', base, uni))
            v = terms.mku(c.a, v)
            if bool(v < 0):
                bad()
            v = X.fix(v)
        else:
            if bool(ch_rng(c, 48, 57)):
                v = c - 48
            elif base > 10 and bool(ch_rng(c, 97, 86 + base)):
                v = c - 87
            elif base > 10 and bool(ch_rng(c, 65, 54 + base)):
                v = c - 55
            else:
                if uni and bool(c > 127):
                    raise Unsupported('int() of symbolic non-ASCII text')
                bad()
        digs.append(v)
    for v in digs:
        n = n * base + v
    return sign * n


class _IntMeta(type):
    def __instancecheck__(self, o):
        return isinstance(o, (int, SymInt, SymBool))

    def __subclasscheck__(self, c):
        return c in (Int, int, bool, SymInt) or type.__subclasscheck__(self, c)

    def __call__(self, x=0, *base):
        if isinstance(x, BaseStr):
            return int_parse(x, *base)
        if base:
            raise TypeError("int() can't convert non-string with explicit base")
        if isinstance(x, (SymInt, int)):
            return x if not isinstance(x, bool) else int(x)
        if isinstance(x, SymBool):
            return terms.b2i(x)
        if isinstance(x, float):
            return int(x)
        m = getattr(type(x), '__int__', None)
        if m is None:
            m = getattr(type(x), '__trunc__', None)
        if m is None:
            raise TypeError("int() argument must be a string or a number, not '%s'" % pytype(x))
        return m(x)

    def __eq__(self, o):
        return o is Int or o is int

    def __hash__(self):
        return hash(int)


class Int(metaclass=_IntMeta):
    @staticmethod
    def bit_length(x):
        return x.bit_length()


class _FloatMeta(type):
    def __instancecheck__(self, o):
        return isinstance(o, float)

    def __call__(self, x=0.0):
        if isinstance(x, BaseStr):
            x = x.settle()
            if not x.con:
                raise Unsupported('float() of symbolic text')
            return float(x._c)
        return float(x)


class Float(metaclass=_FloatMeta):
    pass


def type_(o, *rest):
    if rest:
        name, bases, d = o, rest[0], rest[1]
        return cls(type(hs(name), bases, kw(d)))
    if isinstance(o, (SymInt,)) or type(o) is int:
        return Int
    if isinstance(o, SymBool):
        return bool
    if type(o) is float:
        return Float
    if type(o) is dict:
        return PDict
    if isinstance(o, DictView):
        return PDict
    return type(o)


def isinstance_(o, c):
    if isinstance(c, tuple):
        return any(isinstance_(o, x) for x in c)
    if c is bool and isinstance(o, SymBool):
        return True
    if c is object:
        return True
    return isinstance(o, c)


def issubclass_(a, c):
    if isinstance(c, tuple):
        return any(issubclass_(a, x) for x in c)
    return issubclass(a, c)


def len_(o):
    m = getattr(type(o), '__len__', None)
    if m is None:
        raise TypeError("object of type '%s' has no len()" % pytype(o))
    r = m(o)
    if isinstance(r, SymInt):
        return r
    return len(o)


def chr_(i):
    if isinstance(i, BaseStr) or i is None or isinstance(i, float):
        raise TypeError("chr(): 1st arg can't be coerced to int")
    if isinstance(i, SymInt):
        if bool(i >= 2 ** 31) or bool(i < -2 ** 31):
            raise TypeError("chr(): 1st arg can't be coerced to int")
        if bool(i < 0) or bool(i > 255):
            raise ValueError('chr() arg not in range(256)')
        return Str.mkt((X.fix(i),))
    if not isinstance(i, int):
        raise TypeError("chr(): 1st arg can't be coerced to int")
    if not -2 ** 31 <= i < 2 ** 31:
        raise TypeError("chr(): 1st arg can't be coerced to int")
    if not 0 <= i <= 255:
        raise ValueError('chr() arg not in range(256)')
    return Str.mk(chr(i))


def unichr_(i):
    if isinstance(i, SymInt):
        if bool(i >= 2 ** 31) or bool(i < -2 ** 31):
            raise OverflowError('signed integer is greater than maximum')
        if bool(i < 0) or bool(i > 0x10ffff):
            raise ValueError('unichr() arg not in range(0x110000)')
        i = X.fix(i)
        return Uni.mkt((i,))
    if not isinstance(i, int):
        raise TypeError('an integer is required')
    if not -2 ** 31 <= i < 2 ** 31:
        raise OverflowError('signed integer is greater than maximum')
    if not 0 <= i <= 0x10ffff:
        raise ValueError('unichr() arg not in range(0x110000)')
    return Uni.mkt((i,))


def ord_(s):
    if not isinstance(s, BaseStr):
        raise TypeError('ord() expected string of length 1')
    if len(s) != 1:
        raise TypeError('ord() expected a character, but string of length %d found' % len(s))
    return s.t[0]


def range_(*a):
    return list(range(*[x.__index__() if isinstance(x, SymInt) else x for x in a]))


class xrange_(object):
    def __new__(cls_, *a):
        return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])


def map_(f, *its):
    if f is None:
        f = lambda *a: a if len(a) > 1 else a[0]
    if len(its) == 1:
        return [f(x) for x in iter_(its[0])]
    import itertools
    return [f(*t) for t in itertools.zip_longest(*[iter_(i) for i in its])]


def filter_(f, it):
    out = [x for x in iter_(it) if (bool(x) if f is None else bool(f(x)))]
    if isinstance(it, BaseStr):
        return it.likec('').join(out)
    if isinstance(it, tuple):
        return tuple(out)
    return out


def zip_(*its):
    return list(zip(*[iter_(i) for i in its]))


def reduce_(f, it, *init):
    import functools
    return functools.reduce(f, it, *init)


def iter_(o, *sentinel):
    if sentinel:
        return _sentinel(o, sentinel[0])
    return iter(o)


def _sentinel(f, s):
    while tick():
        x = f()
        if x == s:
            return
        yield x


def next_(it, *d):
    n = getattr(it, 'next', None)
    if n is None or isinstance(it, BaseStr):
        if not hasattr(it, '__next__'):
            raise TypeError("'%s' object is not an iterator" % pytype(it))
        n = it.__next__
    try:
        return n()
    except StopIteration:
        if d:
            return d[0]
        raise


def sorted_(it, cmp=None, key=None, reverse=False):
    import functools
    items = list(it)
    kf = key or (lambda x: x)
    c = cmp or cmp2
    return sorted(items, key=functools.cmp_to_key(lambda a, b: c(kf(a), kf(b))), reverse=bool(reverse))


def repr_(o):
    return repr2s(o)


def hash_(o):
    return hash(o)


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


def minmax(want):
    def f(*a, **k):
        key = k.get('key')
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            raise ValueError('arg is an empty sequence')
        best = items[0]
        for x in items[1:]:
            p, q = (key(x), key(best)) if key else (x, best)
            if bool(want(p, q)):
                best = x
        return best
    return f


min_ = minmax(lambda p, q: lt(p, q))
max_ = minmax(lambda p, q: gt(p, q))


def any_(it):
    for x in it:
        if bool(x):
            return True
    return False


def all_(it):
    for x in it:
        if not bool(x):
            return False
    return True


def abs_(x):
    return abs(x)


def divmod_(a, b):
    return (a // b, a % b)


def callable_(o):
    return callable(o)


def round_(x, n=0):
    return float(round(x, n))


def hex_(x):
    return S(hex(x.__index__()))


def oct_(x):
    return S('0' + oct(x.__index__())[2:]) if x else S('0')


def bin_(x):
    return S(bin(x.__index__()))


def pow_(a, b, *m):
    return pow(a, b, *m)


def id_(o):
    return id(o)


def _octets(x):
    """the bytes of something a bytearray can be made from or extended with"""
    if isinstance(x, bytearray_):
        return list(x.v)
    if isinstance(x, (buffer_, memoryview_)):
        return list(x.s.t)
    if isinstance(x, Uni):
        raise TypeError('unicode argument without an encoding')
    if isinstance(x, BaseStr):
        return list(x.t)
    return [_octet(c) for c in x]


def _octet(c):
    if isinstance(c, BaseStr):
        return ord_(c)
    if not isinstance(c, (int, SymInt)):
        raise TypeError('an integer or string of size 1 is required')
    if not bool(c >= 0) or not bool(c < 256):
        raise ValueError('byte must be in range(0, 256)')
    return c


class bytearray_(object):
    """a mutable string: the methods of str on its content, the mutators of a list"""

    def __init__(self, x=0, encoding=None, *a):
        if isinstance(x, Uni) and encoding is not None:
            x = x.encode(encoding, *a)
        if isinstance(x, SymInt):
            x = X.concretize(x)
        self.v = [0] * x if isinstance(x, int) else _octets(x)

    def _s(self):
        return Str.mkt(self.v)

    @staticmethod
    def _arg(x):
        return x._s() if isinstance(x, bytearray_) else x.s if isinstance(x, (buffer_, memoryview_)) else x

    def __getattr__(self, n):
        if n.startswith('_') or not hasattr(Str, n) or n in ('format', 'encode'):
            raise AttributeError("'bytearray' object has no attribute '%s'" % n)
        f = getattr(self._s(), n)

        def call(*a, **k):
            return self._wrap(f(*[self._arg(x) for x in a], **k))
        return call

    def _wrap(self, r):
        if isinstance(r, Str):
            return bytearray_(r)
        if isinstance(r, (list, tuple)):
            return type(r)(self._wrap(x) for x in r)
        return r

    def join(self, it):
        return bytearray_(self._s().join([self._arg(x) for x in it]))

    def decode(self, *a):
        return self._s().decode(*a)

    def __str__(self):
        return self._s()

    def _str2(self):
        return self._s()

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(list(self.v))

    def __reversed__(self):
        return iter(self.v[::-1])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return bytearray_(self._s()[i])
        return self.v[X.concretize(i) if isinstance(i, SymInt) else i]

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            n = len(self.v)
            i = slice(*[X.concretize(q) if isinstance(q, SymInt) else q for q in (i.start, i.stop, i.step)])
            self.v[i] = _octets(x)
        else:
            self.v[X.concretize(i) if isinstance(i, SymInt) else i] = _octet(x)

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[X.concretize(q) if isinstance(q, SymInt) else q for q in (i.start, i.stop, i.step)])
        del self.v[X.concretize(i) if isinstance(i, SymInt) else i]

    def append(self, x):
        self.v.append(_octet(x))

    def extend(self, x):
        self.v.extend(_octets(x))

    def insert(self, i, x):
        self.v.insert(i, _octet(x))

    def pop(self, *i):
        return self.v.pop(*i)

    def reverse(self):
        self.v.reverse()

    def remove(self, x):
        for i, c in enumerate(self.v):
            if bool(c == x):
                del self.v[i]
                return
        raise ValueError('value not found in bytearray')

    def __iadd__(self, x):
        self.v.extend(_octets(x))
        return self

    def __add__(self, x):
        return bytearray_(self.v + _octets(x))

    def __radd__(self, x):
        return bytearray_(_octets(x) + self.v)

    def __mul__(self, n):
        return bytearray_(self.v * n)

    __rmul__ = __mul__

    def __contains__(self, x):
        return self._arg(x) in self._s() if not isinstance(x, (int, SymInt)) else any(bool(c == x) for c in self.v)

    def __eq__(self, o):
        return self._s() == self._arg(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return lt(self._s(), self._arg(o))

    def __gt__(self, o):
        return gt(self._s(), self._arg(o))

    def __le__(self, o):
        return le(self._s(), self._arg(o))

    def __ge__(self, o):
        return ge(self._s(), self._arg(o))

    __hash__ = None


class buffer_(object):
    def __init__(self, s, offset=0, size=-1):
        s = bytearray_._arg(s)
        if not isinstance(s, Str):
            raise Unsupported('buffer of ' + type(s).__name__)
        self.s = s[offset:] if size < 0 else s[offset:offset + size]

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return self.s[i]

    def __iter__(self):
        return iter(self.s)

    def __str__(self):
        return self.s

    def _str2(self):
        return self.s

    def __add__(self, o):
        return self.s + bytearray_._arg(o)

    def __eq__(self, o):
        return self.s == bytearray_._arg(o)


class memoryview_(object):
    """of a string or a bytearray that does not change while it is used"""

    def __init__(self, s):
        s = bytearray_._arg(s)
        if not isinstance(s, Str):
            raise TypeError('cannot make memory view because object does not have the buffer interface')
        self.s = s

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return memoryview_(self.s[i]) if isinstance(i, slice) else self.s[i]

    def __setitem__(self, i, x):
        raise Unsupported('memoryview assignment')

    def tobytes(self):
        return self.s

    def tolist(self):
        return list(self.s.t)

    def _str2(self):
        raise Unsupported('str of memoryview')

    def __eq__(self, o):
        return self.s == bytearray_._arg(o)


def print_(*a):
    for x in a:
        if not isinstance(x, BaseStr):
            try:
                str2(x)
            except Unsupported:
                X.dead = None


def getslice(o, a, b):
    return o[a:b]


def gen_stop(exc):
    return exc


def format_(o, spec=None):
    return strings.format2(o, hs(spec) if spec is not None else '', S(''))


def unsupported(what):
    raise Unsupported(what)


def module_str(v):
    return v


BUILTINS = {
    'str': Str, 'bytes': Str, 'unicode': Uni, 'basestring': BaseStr, 'int': Int, 'long': Int, 'float': Float, 'bool': bool,
    'dict': PDict, 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'object': object, 'type': type_,
    'len': len_, 'isinstance': isinstance_, 'issubclass': issubclass_, 'getattr': getattr_, 'hasattr': hasattr_,
    'setattr': setattr_, 'delattr': delattr_, 'iter': iter_, 'next': next_, 'repr': repr_, 'chr': chr_, 'unichr': unichr_,
    'ord': ord_, 'range': range_, 'xrange': xrange_, 'map': map_, 'filter': filter_, 'zip': zip_, 'reduce': reduce_,
    'sorted': sorted_, 'reversed': reversed, 'enumerate': enumerate, 'min': min_, 'max': max_, 'sum': sum_, 'any': any_,
    'all': all_, 'abs': abs_, 'divmod': divmod_, 'callable': callable_, 'round': round_, 'hex': hex_, 'oct': oct_, 'bin': bin_,
    'pow': pow_, 'id': id_, 'hash': hash_, 'cmp': cmp2, 'vars': vars_, 'dir': dir_, 'super': Super2, 'property': property,
    'staticmethod': staticmethod, 'classmethod': classmethod, 'slice': slice, 'format': format_, 'bytearray': bytearray_,
    'buffer': buffer_, 'memoryview': memoryview_, 'complex': complex,
    'intern': lambda s: s, 'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis, 'None': None, 'True': True, 'False': False,
    '__debug__': True,
    'StandardError': Exception, 'EnvironmentError': EnvironmentError2, 'IOError': IOError2, 'OSError': OSError2,
}
for _n in ('BaseException Exception SystemExit KeyboardInterrupt GeneratorExit StopIteration ArithmeticError OverflowError '
           'ZeroDivisionError FloatingPointError AssertionError AttributeError EOFError ImportError LookupError IndexError KeyError '
           'MemoryError NameError UnboundLocalError RuntimeError NotImplementedError SyntaxError SystemError TypeError ValueError '
           'UnicodeError UnicodeDecodeError UnicodeEncodeError UnicodeTranslateError Warning UserWarning DeprecationWarning '
           'PendingDeprecationWarning RuntimeWarning FutureWarning ImportWarning UnicodeWarning BytesWarning SyntaxWarning').split():
    BUILTINS[_n] = getattr(_b, _n)


class UDE(UnicodeDecodeError):
    """base of classes derived from UnicodeDecodeError: takes strings of the analysed program"""

    def __init__(self, *a):
        if len(a) == 5:
            a = [hs(x) if isinstance(x, BaseStr) else x for x in a]
            a[1] = a[1].encode('latin-1') if isinstance(a[1], str) else a[1]
        UnicodeDecodeError.__init__(self, *a)


def build_class(f, name, *bases, **kw):
    return _b.__build_class__(f, name, *[UDE if b is UnicodeDecodeError else b for b in bases], **kw)


BUILTINS['__build_class__'] = build_class

for _k, _v in (('str', Str), ('unicode', Uni), ('int', Int), ('float', Float), ('dict', PDict), ('basestring', BaseStr)):
    _NAMES[_v] = _k
_NAMES[IOError2] = 'IOError'
_NAMES[OSError2] = 'OSError'
_NAMES[EnvironmentError2] = 'EnvironmentError'


class _Bare(object):
    pass


BARE = (Exception,)


def oldcls(C):
    cls(C)
    C._old_style = True
    return C


def cls2(C):
    cls(C)
    bs = [b for b in C.__bases__]
    C._old_style = bool(bs) and all(b.__dict__.get('_old_style') for b in bs)
    return C


star = None
