"""Python 2 `str` (Str) and `unicode` (Uni) over symbolic characters.  Lengths are concrete."""
import codecs as _codecs

import terms
from terms import SymInt, SymBool, Unsupported, and_, or_, not_, cmp_, ite, map_u, Tab, X

WS_STR = frozenset([9, 10, 11, 12, 13, 32])
WS_UNI = frozenset(list(WS_STR) + [28, 29, 30, 31, 133, 160, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
                   + list(range(0x2000, 0x200b)))


def ch_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return cmp_('==', b, a)
    return cmp_('==', a, b)


def ch_in(c, values):
    """c in a set of ints -> bool | SymBool (a single mask when c is unary)."""
    if isinstance(c, int):
        return c in values
    if c.op == 'u':
        return terms.mkbu(c.a, c.b.mask(lambda p: p in values))
    return or_(*[cmp_('==', c, v) for v in sorted(values)])


def ch_rng(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    if c.op == 'u':
        return terms.mkbu(c.a, c.b.mask(lambda p: lo <= p <= hi))
    return and_(c >= lo, c <= hi)


def slice_bound(x, n):
    if isinstance(x, SymInt):
        x = X.fix(x)
        if isinstance(x, int):
            return x
        if bool(x >= n):
            return n
        if bool(x <= -n):
            return -n if n else 0
        return x.__index__()
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, BaseStr) or not hasattr(x, '__index__'):
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    return x.__index__()


class BaseStr(object):
    __slots__ = ('_c', '_t')

    def __new__(cls, *args, **kw):
        raise TypeError('The basestring type cannot be instantiated')

    # -- construction
    @classmethod
    def mk(cls, pystr):
        o = object.__new__(cls)
        o._c = pystr
        o._t = None
        return o

    @classmethod
    def mkt(cls, chars):
        chars = tuple(chars)
        o = object.__new__(cls)
        for c in chars:
            if not isinstance(c, int):
                o._c = None
                o._t = chars
                return o
        o._c = ''.join(map(chr, chars))
        o._t = chars
        return o

    def like(self, chars):
        return self.base.mkt(chars)

    def likec(self, pystr):
        return self.base.mk(pystr)

    @property
    def t(self):
        if self._t is None:
            self._t = tuple(map(ord, self._c))
        return self._t

    @property
    def con(self):
        return self._c is not None

    def settle(self):
        """Replace characters the path has already pinned down by constants."""
        if self._c is None:
            t = tuple(X.fix(c) if not isinstance(c, int) else c for c in self._t)
            return self.like(t)
        return self

    # -- coercion of the other operand
    def co(self, o, what='operand'):
        """(self', other') of one common type; TypeError when o is not a string."""
        if not isinstance(o, BaseStr):
            raise TypeError('expected a character buffer object')
        if self.base is o.base:
            return self, o
        if isinstance(self, Str):
            return self.to_uni(), o
        return self, o.to_uni()

    # -- basics
    def __len__(self):
        return len(self._c) if self._c is not None else len(self._t)

    def __hash__(self):
        return 7919 + len(self)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if self.con:
            for c in self._c:
                yield self.likec(c)
        else:
            for c in self._t:
                yield self.like((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = i.start, i.stop, i.step
            if not isinstance(a, int) and a is not None:
                a = slice_bound(a, len(self))
            if not isinstance(b, int) and b is not None:
                b = slice_bound(b, len(self))
            s = s.__index__() if isinstance(s, SymInt) else s
            if self.con:
                return self.likec(self._c[a:b:s])
            return self.like(self._t[a:b:s])
        if isinstance(i, SymInt):
            i = X.fix(i)
        if isinstance(i, SymInt):
            n = len(self)
            if bool(i < 0):
                i = i + n
                if bool(i < 0):
                    raise IndexError('string index out of range')
            if bool(i >= n):
                raise IndexError('string index out of range')
            if self.settle().con and n <= 256:
                codes = [ord(c) for c in self.settle()._c]
                return self.like((terms.apply_tab(i, Tab(codes + [codes[-1]] * (256 - n))),))
            i = i.__index__()
        if isinstance(i, BaseStr) or not hasattr(i, '__index__'):
            raise TypeError('string indices must be integers')
        try:
            if self.con:
                return self.likec(self._c[i])
            return self.like((self._t[i],))
        except IndexError:
            raise IndexError('string index out of range')

    def eqb(self, o):
        """== as bool | SymBool."""
        if not isinstance(o, BaseStr):
            return False
        if len(self) != len(o):
            return False
        if self.con and o.con:
            if self._c != o._c:
                return False
            if self.base is not o.base:
                return all(ord(c) < 128 for c in self._c)
            return True
        cs = []
        mixed = self.base is not o.base
        for a, b in zip(self.t, o.t):
            e = ch_eq(a, b)
            if e is False:
                return False
            if e is not True:
                cs.append(e)
            if mixed:
                e = ch_rng(a, 0, 127)
                if e is False:
                    return False
                if e is not True:
                    cs.append(e)
        return and_(*cs)

    def __eq__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return self.eqb(o)

    def __ne__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return not_(self.eqb(o))

    def _cmp(self, o):
        a, b = self.co(o)
        if a.con and b.con:
            return -1 if a._c < b._c else 1 if a._c > b._c else 0
        for x, y in zip(a.t, b.t):
            if bool(ch_eq(x, y)):
                continue
            lt = x < y if not isinstance(x, int) else (y > x)
            return -1 if bool(lt) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if not isinstance(o, BaseStr):
            return NotImplemented
        return self._cmp(o) >= 0

    def __add__(self, o):
        if not isinstance(o, BaseStr):
            if isinstance(o, (int, SymInt, SymBool, list, tuple, dict, set, float)) or o is None:
                raise TypeError('cannot concatenate %r and %r objects' % (self.base.pyname, pytype(o)))
            return NotImplemented
        a, b = self.co(o)
        if a.con and b.con:
            return a.likec(a._c + b._c)
        return a.like(a.t + b.t)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        if not isinstance(n, int):
            raise TypeError("can't multiply sequence by non-int")
        if self.con:
            return self.likec(self._c * n)
        return self.like(self._t * n)

    __rmul__ = __mul__

    def __contains__(self, o):
        if not isinstance(o, BaseStr):
            raise TypeError("'in <string>' requires string as left operand")
        a, b = self.co(o)
        if a.con and b.con:
            return b._c in a._c
        if len(b) == 0:
            return True
        if len(b) == 1 and a.con:
            return bool(ch_in(b._t[0], frozenset(a.t)))
        return a._find(b, 0, len(a)) >= 0

    # -- searching
    def _match_at(self, sub, i):
        cs = []
        t = self.t
        st = sub.t
        for k in range(len(st)):
            e = ch_eq(t[i + k], st[k])
            if e is False:
                return False
            if e is not True:
                cs.append(e)
        if not cs:
            return True
        return and_(*cs)

    def _find(self, sub, a, b):
        """first match fully inside [a, b)"""
        n = len(sub)
        if self.con and sub.con:
            return self._c.find(sub._c, a, b)
        if n == 0:
            return a if a <= b and a <= len(self) else -1
        if n == 1 and not isinstance(sub.t[0], int) and all(isinstance(c, int) for c in self.t[a:b]) is False:
            pass
        for i in range(a, b - n + 1):
            e = self._match_at(sub, i)
            if e is False:
                continue
            if e is True or bool(e):
                return i
        return -1

    def _rfind(self, sub, a, b):
        n = len(sub)
        if self.con and sub.con:
            return self._c.rfind(sub._c, a, b)
        if n == 0:
            return b if a <= b else -1
        for i in range(b - n, a - 1, -1):
            e = self._match_at(sub, i)
            if e is False:
                continue
            if e is True or bool(e):
                return i
        return -1

    def _bounds(self, start, end):
        n = len(self)
        start = 0 if start is None else start.__index__()
        end = n if end is None else end.__index__()
        big = start > n
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        end = min(end, n)
        return start, end, big

    def find(self, sub, start=None, end=None):
        s, sub = self.co(sub)
        a, b, big = s._bounds(start, end)
        if big:
            return -1
        return s._find(sub, a, b)

    def rfind(self, sub, start=None, end=None):
        s, sub = self.co(sub)
        a, b, big = s._bounds(start, end)
        if big:
            return -1
        return s._rfind(sub, a, b)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, sub = self.co(sub)
        a, b, big = s._bounds(start, end)
        if big:
            return 0
        if s.con and sub.con:
            return s._c.count(sub._c, a, b)
        if len(sub) == 0:
            return max(0, b - a + 1)
        n = 0
        while True:
            i = s._find(sub, a, b)
            if i < 0:
                return n
            n += 1
            a = i + len(sub)

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return any(bool(self.startswith(p, start, end)) for p in prefix)
        s, p = self.co(prefix)
        a, b, big = s._bounds(start, end)
        if big or b - a < len(p):
            return False
        if s.con and p.con:
            return s._c[a:b].startswith(p._c)
        return s._match_at(p, a)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return any(bool(self.endswith(p, start, end)) for p in suffix)
        s, p = self.co(suffix)
        a, b, big = s._bounds(start, end)
        if big or b - a < len(p):
            return False
        if s.con and p.con:
            return s._c[a:b].endswith(p._c)
        return s._match_at(p, b - len(p))

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if isinstance(maxsplit, SymInt):
            maxsplit = maxsplit.__index__()
        if sep is None:
            return self._split_ws(maxsplit)
        s, sep = self.co(sep)
        if len(sep) == 0:
            raise ValueError('empty separator')
        if s.con and sep.con:
            return [s.likec(x) for x in s._c.split(sep._c, maxsplit)]
        out = []
        a = 0
        n = len(s)
        while maxsplit < 0 or len(out) < maxsplit:
            i = s._find(sep, a, n)
            if i < 0:
                break
            out.append(s[a:i])
            a = i + len(sep)
        out.append(s[a:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if isinstance(maxsplit, SymInt):
            maxsplit = maxsplit.__index__()
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            out = []
            e = len(self)
            t = self.t
            while True:
                while e > 0 and bool(ch_in(t[e - 1], self.WS)):
                    e -= 1
                if e == 0:
                    break
                if len(out) == maxsplit:
                    out.append(self[:e])
                    break
                b = e
                while b > 0 and not bool(ch_in(t[b - 1], self.WS)):
                    b -= 1
                out.append(self[b:e])
                e = b
            return out[::-1]
        s, sep = self.co(sep)
        if len(sep) == 0:
            raise ValueError('empty separator')
        if s.con and sep.con:
            return [s.likec(x) for x in s._c.rsplit(sep._c, maxsplit)]
        out = []
        e = len(s)
        while maxsplit < 0 or len(out) < maxsplit:
            i = s._rfind(sep, 0, e)
            if i < 0:
                break
            out.append(s[i + len(sep):e])
            e = i
        out.append(s[:e])
        return out[::-1]

    def _split_ws(self, maxsplit):
        out = []
        i = 0
        t = self.t
        n = len(t)
        while True:
            while i < n and bool(ch_in(t[i], self.WS)):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) == maxsplit:
                # the rest, trailing whitespace is kept except in CPython 2 where it is kept as well
                out.append(self[i:])
                break
            j = i
            while j < n and not bool(ch_in(t[j], self.WS)):
                j += 1
            out.append(self[i:j])
            i = j
        return out

    def splitlines(self, keepends=False):
        out = []
        t = self.t
        n = len(t)
        a = i = 0
        while i < n:
            if bool(ch_eq(t[i], 10)):
                e = i + 1
            elif bool(ch_eq(t[i], 13)):
                e = i + 2 if i + 1 < n and bool(ch_eq(t[i + 1], 10)) else i + 1
            else:
                i += 1
                continue
            out.append(self[a:e] if keepends else self[a:i])
            a = i = e
        if a < n:
            out.append(self[a:])
        return out

    def partition(self, sep):
        s, sep = self.co(sep)
        if len(sep) == 0:
            raise ValueError('empty separator')
        i = s._find(sep, 0, len(s))
        if i < 0:
            return (s, s.likec(''), s.likec(''))
        return (s[:i], sep, s[i + len(sep):])

    def rpartition(self, sep):
        s, sep = self.co(sep)
        if len(sep) == 0:
            raise ValueError('empty separator')
        i = s._rfind(sep, 0, len(s))
        if i < 0:
            return (s.likec(''), s.likec(''), s)
        return (s[:i], sep, s[i + len(sep):])

    def _strip(self, chars, l, r):
        s = self
        if chars is None:
            vals = self.WS
        else:
            s, chars = self.co(chars)
            if not chars.con:
                chars = chars.settle()
                if not chars.con:
                    raise Unsupported('strip with symbolic characters')
            vals = frozenset(chars.t)
        t = s.t
        a, b = 0, len(t)
        if l:
            while a < b and bool(ch_in(t[a], vals)):
                a += 1
        if r:
            while b > a and bool(ch_in(t[b - 1], vals)):
                b -= 1
        return s[a:b]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    # -- mapping
    def _mapc(self, f, key):
        if self.con:
            return self.like([f(c) for c in self.t])
        out = []
        for c in self._t:
            if isinstance(c, int):
                out.append(f(c))
            elif c.op == 'u':
                out.append(terms.mku(c.a, c.b.map(f, key)))
            else:
                out.append(self._mapslow(c, key))
        return self.like(out)

    def _mapslow(self, c, key):
        if key[1] == 'lower':
            return ite(ch_rng(c, 65, 90), c + 32, c)
        if key[1] == 'upper':
            return ite(ch_rng(c, 97, 122), c - 32, c)
        return key[2](c.__index__())

    def lower(self):
        return self._mapc(self.LOWER, (self.pyname, 'lower'))

    def upper(self):
        return self._mapc(self.UPPER, (self.pyname, 'upper'))

    def swapcase(self):
        f = lambda c: self.UPPER(c) if self.LOWER(c) == c else self.LOWER(c)
        return self._mapc(f, (self.pyname, 'swapcase', f))

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        out = []
        prev = False
        for c in self:
            out.append(c.lower() if prev else c.upper())
            prev = bool(c.isalpha())
        return self.likec('').join(out)

    def _all(self, pred):
        if len(self) == 0:
            return False
        cs = []
        for c in self.t:
            if isinstance(c, int):
                if not pred(c):
                    return False
            elif c.op == 'u':
                e = terms.mkbu(c.a, c.b.mask(pred))
                if e is False:
                    return False
                if e is not True:
                    cs.append(e)
            else:
                if not pred(c.__index__()):
                    return False
        return and_(*cs)

    def isdigit(self):
        return self._all(lambda c: 48 <= c <= 57 if c < 256 else chr(c).isdigit())

    def isspace(self):
        return self._all(lambda c: c in self.WS)

    def isalpha(self):
        return self._all(self.ALPHA)

    def isalnum(self):
        return self._all(lambda c: 48 <= c <= 57 or self.ALPHA(c))

    def isupper(self):
        return self._case(lambda c: self.LOWER(c) != c, lambda c: self.UPPER(c) != c)

    def islower(self):
        return self._case(lambda c: self.UPPER(c) != c, lambda c: self.LOWER(c) != c)

    def _case(self, good, bad):
        some = False
        for c in self.t:
            v = c if isinstance(c, int) else None
            if v is None:
                if c.op != 'u':
                    v = c.__index__()
                else:
                    if bool(terms.mkbu(c.a, c.b.mask(bad))):
                        return False
                    if not some and bool(terms.mkbu(c.a, c.b.mask(good))):
                        some = True
                    continue
            if bad(v):
                return False
            if good(v):
                some = True
        return some

    def replace(self, old, new, count=-1):
        s, old = self.co(old)
        s, new = s.co(new)
        s, old = s.co(old)
        if isinstance(count, SymInt):
            count = count.__index__()
        if s.con and old.con and new.con:
            return s.likec(s._c.replace(old._c, new._c, count))
        if len(old) == 0:
            out = ()
            k = 0
            for c in s.t:
                if count < 0 or k < count:
                    out += new.t
                    k += 1
                out += (c,)
            if count < 0 or k < count:
                out += new.t
            return s.like(out)
        if len(old) == 1 and len(new) == 1 and count < 0 and isinstance(old.t[0], int):
            o, n = old.t[0], new.t[0]
            out = []
            for c in s.t:
                if isinstance(c, int):
                    out.append(n if c == o else c)
                elif c.op == 'u' and isinstance(n, int):
                    out.append(terms.mku(c.a, c.b.map(lambda p: n if p == o else p, ('repl', o, n))))
                else:
                    out.append(ite(cmp_('==', c, o), n, c))
            return s.like(out)
        out = ()
        a = 0
        n = len(s)
        while count != 0:
            i = s._find(old, a, n)
            if i < 0:
                break
            out += s.t[a:i] + new.t
            a = i + len(old)
            count -= 1
        return s.like(out + s.t[a:])

    def join(self, it):
        items = list(it)
        s = self
        for k, x in enumerate(items):
            if not isinstance(x, BaseStr):
                raise TypeError('sequence item %d: expected string, %s found' % (k, pytype(x)))
        if any(isinstance(x, Uni) for x in items) and not isinstance(s, Uni):
            if len(items) == 1:
                return items[0]
            s = s.to_uni()
        if isinstance(s, Uni):
            items = [x.to_uni() if isinstance(x, Str) else x for x in items]
        if len(items) == 1 and type(items[0]) is s.base:
            return items[0]
        if s.con and all(x.con for x in items):
            return s.likec(s._c.join([x._c for x in items]))
        out = ()
        for k, x in enumerate(items):
            if k:
                out += s.t
            out += x.t
        return s.like(out)

    def _pad(self, width, fill, l, r):
        if fill is None:
            fill = self.likec(' ')
        s, fill = self.co(fill)
        if len(fill) != 1:
            raise TypeError('fill must be a single character')
        width = width.__index__()
        n = width - len(s)
        if n <= 0:
            return s
        if l and r:
            left = n // 2 + (n & width & 1)
            return fill * left + s + fill * (n - left)
        return fill * n + s if l else s + fill * n

    def ljust(self, w, fill=None):
        return self._pad(w, fill, False, True)

    def rjust(self, w, fill=None):
        return self._pad(w, fill, True, False)

    def center(self, w, fill=None):
        return self._pad(w, fill, True, True)

    def zfill(self, w):
        w = w.__index__()
        if self[:1].con and self[:1]._c in ('+', '-'):
            return self[:1] + self[1:].rjust(w - 1, self.likec('0'))
        return self.rjust(w, self.likec('0'))

    def expandtabs(self, n=8):
        if not self.con:
            raise Unsupported('expandtabs')
        return self.likec(self._c.expandtabs(n))

    def translate(self, table, deletechars=None):
        if isinstance(self, Str):
            dels = frozenset(deletechars.t) if deletechars is not None else frozenset()
            out = []
            tt = table.t if table is not None else None
            for c in self.t:
                if dels and bool(ch_in(c, dels)):
                    continue
                if tt is not None:
                    if isinstance(c, int):
                        c = tt[c]
                    elif c.op == 'u' and all(isinstance(x, int) for x in tt):
                        c = terms.mku(c.a, c.b.map(lambda p: tt[p]))
                    elif all(isinstance(x, int) for x in tt):
                        c = terms.apply_tab(c, terms.Tab(tt))
                    else:
                        raise Unsupported('translate')
                out.append(c)
            return self.like(out)
        out = ()
        for c in self.t:
            k = c if isinstance(c, int) else c.__index__()
            if k in table:
                r = table[k]
                if r is None:
                    continue
                out += (r,) if isinstance(r, int) else r.t
            else:
                out += (c,)
        return self.like(out)

    # -- codecs
    def encode(self, encoding=None, errors=None):
        if encoding is not None and isinstance(encoding, BaseStr) and encoding.con and encoding._c in BYTE_CODECS:
            return BYTE_CODECS[encoding._c][0](str2(self))
        return Str.mkt(encode_chars(self, encoding, errors))

    def decode(self, encoding=None, errors=None):
        if encoding is not None and isinstance(encoding, BaseStr) and encoding.con and encoding._c in BYTE_CODECS:
            return BYTE_CODECS[encoding._c][1](str2(self))
        return decode_any(self, encoding, errors)

    # -- formatting
    def __mod__(self, args):
        return percent_format(self, args)

    def format(self, *args, **kw):
        return brace_format(self, args, kw)

    def __repr__(self):
        if self.con:
            return repr2(self)
        return '<%s[%d]>' % (self.pyname, len(self))

    def __str__(self):
        if self.con:
            return self._c
        return '<%s[%d]>' % (self.pyname, len(self))

    def __format__(self, spec):
        return format(str(self), spec)

    def __index__(self):
        raise TypeError('str object cannot be interpreted as an index')

    def __getnewargs__(self):
        return (self,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class _StrMeta(type):
    def __call__(cls, *args, **kw):
        return cls.construct(*args, **kw)


def _ascii_lower(c):
    return c + 32 if 65 <= c <= 90 else c


def _ascii_upper(c):
    return c - 32 if 97 <= c <= 122 else c


def _uni_lower(c):
    r = chr(c).lower()
    return ord(r) if len(r) == 1 else c


def _uni_upper(c):
    r = chr(c).upper()
    return ord(r) if len(r) == 1 else c


class Str(BaseStr, metaclass=_StrMeta):
    __slots__ = ()
    pyname = 'str'
    WS = WS_STR
    LOWER = staticmethod(_ascii_lower)
    UPPER = staticmethod(_ascii_upper)
    ALPHA = staticmethod(lambda c: 65 <= c <= 90 or 97 <= c <= 122)

    @classmethod
    def construct(cls, obj=None, *rest):
        if rest:
            raise TypeError('str() takes at most 1 argument (%d given)' % (1 + len(rest)))
        if obj is None and not rest:
            return Str.mk('') if obj is None and rest == () and cls._noarg(obj) else Str.mk('None')
        return str2(obj)

    @staticmethod
    def _noarg(o):
        return False

    def to_uni(self):
        """implicit ASCII decoding"""
        if self.con:
            for i, c in enumerate(self._c):
                if ord(c) > 127:
                    raise UnicodeDecodeError('ascii', self._c.encode('latin-1'), i, i + 1, 'ordinal not in range(128)')
            return Uni.mk(self._c)
        ok = and_(*[ch_rng(c, 0, 127) for c in self._t])
        if not bool(ok):
            raise UnicodeDecodeError('ascii', b'?' * len(self), 0, 1, 'ordinal not in range(128)')
        return Uni.mkt(self._t)


class Uni(BaseStr, metaclass=_StrMeta):
    __slots__ = ()
    pyname = 'unicode'
    WS = WS_UNI
    LOWER = staticmethod(_uni_lower)
    UPPER = staticmethod(_uni_upper)
    ALPHA = staticmethod(lambda c: chr(c).isalpha())

    @classmethod
    def construct(cls, obj=None, encoding=None, errors=None):
        if obj is None:
            return Uni.mk('')
        if isinstance(obj, Uni):
            return Uni.mkt(obj.t)
        if isinstance(obj, Str):
            if encoding is None and errors is None:
                return obj.to_uni()
            return decode_any(obj, encoding, errors)
        m = getattr(type(obj), '__unicode__', None)
        if m is not None:
            return m(obj)
        return str2(obj).to_uni()

    def to_uni(self):
        return self


Str.base = Str
Uni.base = Uni

_NOARG = object()


def _str_construct(cls, obj=_NOARG, *rest):
    if rest:
        raise TypeError('str() takes at most 1 argument (%d given)' % (1 + len(rest)))
    if obj is _NOARG:
        return Str.mk('')
    return str2(obj)


Str.construct = classmethod(_str_construct)


def pytype(o):
    if isinstance(o, BaseStr):
        return o.pyname
    if isinstance(o, SymInt):
        return 'int'
    if isinstance(o, SymBool):
        return 'bool'
    n = type(o).__name__
    return {'PDict': 'dict'}.get(n, n)


def S(x):
    return Str.mk(x)


BYTE_CODECS = {}          # name -> (encode, decode) on byte strings


def str2(o):
    """Python 2 str(o)."""
    if hasattr(o, '_str2'):
        return o._str2()
    if type(o) is Str:
        return o
    if isinstance(o, Str):
        return Str.mkt(o.t)
    if isinstance(o, Uni):
        if o.con:
            for i, c in enumerate(o._c):
                if ord(c) > 127:
                    raise UnicodeEncodeError('ascii', o._c, i, i + 1, 'ordinal not in range(128)')
            return Str.mk(o._c)
        if not bool(and_(*[ch_rng(c, 0, 127) for c in o._t])):
            raise UnicodeEncodeError('ascii', '?' * len(o), 0, 1, 'ordinal not in range(128)')
        return Str.mkt(o._t)
    if isinstance(o, SymBool):
        o = bool(o)
    if isinstance(o, SymInt):
        return int_to_str(o)
    if o is None or isinstance(o, (bool, int)):
        return S(str(o))
    if isinstance(o, float):
        return S(repr(o) if o != int(o) or abs(o) > 1e15 else '%.1f' % o)
    if isinstance(o, BaseException):
        u = _user_str(o)
        if u is not None:
            return u
        if len(o.args) == 0:
            return S('')
        if len(o.args) == 1:
            return str2(o.args[0]) if not isinstance(o.args[0], str) else S(o.args[0])
        return repr2s(o.args)
    if isinstance(o, str):
        return S(o)
    u = _user_str(o)
    if u is not None:
        return u
    return repr2s(o)


def _user_str(o):
    m = None
    for k in type(o).__mro__:
        if '__str__' in k.__dict__:
            m = k.__dict__['__str__']
            break
    if m is None or k in (object, BaseException, Exception, dict, list, tuple) or k.__module__ == 'builtins':
        return None
    r = m(o)
    if isinstance(r, str):
        return S(r)
    if not isinstance(r, BaseStr):
        raise TypeError('__str__ returned non-string')
    return str2(r)


def int_to_str(t):
    """decimal text of a symbolic int: forks over the value (bounded by the caller's ranges)"""
    t = X.fix(t)
    if isinstance(t, int):
        return S(str(t))
    neg = bool(t < 0)
    if neg:
        t = -t
    nd = 1
    while bool(t >= 10 ** nd):
        nd += 1
        if nd > 40:
            raise Unsupported('decimal text of an unbounded int')
    digs = []
    for k in range(nd - 1, -1, -1):
        d = (t // (10 ** k)) % 10 if not (isinstance(t, SymInt) and t.op == 'u') else map_u(t, lambda p: (p // 10 ** k) % 10)
        digs.append(d + 48)
    return Str.mkt(([45] if neg else []) + digs)


def repr_chars(s):
    """repr of a concrete string, Python 2 style"""
    out = "u" if isinstance(s, Uni) else ""
    v = s._c
    q = '"' if "'" in v and '"' not in v else "'"
    b = []
    for c in v:
        o = ord(c)
        if c == q or c == '\\':
            b.append('\\' + c)
        elif c == '\t':
            b.append('\\t')
        elif c == '\n':
            b.append('\\n')
        elif c == '\r':
            b.append('\\r')
        elif 32 <= o < 127:
            b.append(c)
        elif o < 256:
            b.append('\\x%02x' % o)
        elif o < 0x10000:
            b.append('\\u%04x' % o)
        else:
            b.append('\\U%08x' % o)
    return out + q + ''.join(b) + q


def repr2(o):
    """Python 2 repr(o) as a host string (opaque for symbolic content)."""
    if isinstance(o, BaseStr):
        s = o.settle()
        if not s.con:
            return "'<symbolic>'"
        return repr_chars(s)
    if isinstance(o, (SymInt, SymBool)):
        return '<symbolic>'
    if isinstance(o, bool) or o is None or isinstance(o, (int, float)):
        return repr(o)
    m = None
    for k in type(o).__mro__:
        if '__repr__' in k.__dict__:
            m = k
            break
    if m is not None and m.__module__ != 'builtins' and not getattr(m, '_native_repr', False):
        r = m.__dict__['__repr__'](o)
        return r if isinstance(r, str) else str(r)
    if isinstance(o, tuple):
        return '(' + ', '.join(repr2(x) for x in o) + (',)' if len(o) == 1 else ')')
    if isinstance(o, list):
        return '[' + ', '.join(repr2(x) for x in o) + ']'
    if isinstance(o, dict):
        return '{' + ', '.join(repr2(k) + ': ' + repr2(v) for k, v in dict.items(o)) + '}'
    if isinstance(o, (set, frozenset)):
        return type(o).__name__ + '([' + ', '.join(repr2(x) for x in o) + '])'
    if isinstance(o, BaseException):
        return type(o).__name__ + (repr2(o.args) if len(o.args) != 1 else '(' + repr2(o.args[0]) + ',)')
    if isinstance(o, str):
        return repr(o)
    return '<%s object>' % type(o).__name__


def repr2s(o):
    if isinstance(o, SymInt):
        return int_to_str(o)
    if isinstance(o, BaseStr) and not o.con:
        s = o.settle()
        if not s.con:
            raise_opaque()
            return S("'<symbolic>'")
    if not isinstance(o, (BaseStr, SymBool, int, float, type)) and o is not None:
        for k in type(o).__mro__:
            if '__repr__' in k.__dict__:
                if k.__module__ != 'builtins' and not getattr(k, '_native_repr', False):
                    r = k.__dict__['__repr__'](o)
                    return r if isinstance(r, BaseStr) else S(r if isinstance(r, str) else str(r))
                break
    return S(repr2(o))


def raise_opaque():
    X.opaque = getattr(X, 'opaque', 0) + 1


# ------------------------------------------------------------------ codecs

_ALIAS = {}
for _n in ('ascii', 'us-ascii', '646', 'ansi_x3.4_1968', 'iso646-us', 'us', 'cp367', 'ibm367'):
    _ALIAS[_n] = 'ascii'
for _n in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1', 'iso_8859_1', 'latin_1', 'latin', '8859', 'cp819'):
    _ALIAS[_n.replace('_', '-')] = 'latin-1'
for _n in ('utf-8', 'utf8', 'u8', 'utf'):
    _ALIAS[_n] = 'utf-8'


_NAMES = None


def _names():
    """the codec names of the real interpreter (jython_codecs.json, made by gen_codecs.py)"""
    global _NAMES
    if _NAMES is None:
        import json, os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'jython_codecs.json')) as f:
            _NAMES = json.load(f)
    return _NAMES


def _canonical(key, java):
    """canonical name of a known codec"""
    if java:
        return 'java:' + key
    n = key.replace('_', '-')
    if n in _ALIAS:
        return _ALIAS[n]
    py, text = _names()['python'][key]
    if text is None or py in ('rot-13', 'rot13', 'punycode', 'unicode-escape', 'raw-unicode-escape', 'utf-7'):
        for base in ('base64', 'hex', 'zlib', 'zip', 'bz2', 'quopri', 'quoted', 'uu', 'string', 'idna', 'undefined'):
            if key.startswith(base) or py.startswith(base):
                return {'zip': 'zlib', 'quoted': 'quopri', 'string': 'string-escape'}.get(base, base)
        return {'base-64': 'base64'}.get(n, py)
    try:
        r = _codecs.lookup(key).name
    except LookupError:
        return 'java:' + key
    return _ALIAS.get(r, r)


def codec_name(enc, default='ascii'):
    if enc is None:
        return default
    if not isinstance(enc, BaseStr):
        raise TypeError('expected a string')
    e = enc.settle()
    tab = _names()
    if e.con:
        low = ''.join(c.lower() if c < '\x80' else c for c in e._c)
        key = '_'.join(''.join(c if c < '\x80' and c.isalnum() or c == '.' else ' ' for c in low).split())
        if key in tab['python']:
            return _canonical(key, False)
        low = low.replace(' ', '-')
        if low in tab['java']:
            return _canonical(low, True)
        raise LookupError("unknown encoding '%s'" % e._c)
    t = e.lower().t
    word = frozenset(b'abcdefghijklmnopqrstuvwxyz0123456789.')
    norm = []
    for c in t:
        norm.append(c if bool(ch_in(c, word)) else ord('_'))
    if 0 in [bool(ch_in(c, word)) for c in t]:
        out = []
        for c in norm:
            if c == 95 and (not out or out[-1] == 95):
                continue
            out.append(c)
        while out and out[-1] == 95:
            out.pop()
        norm = out
    for key in sorted(tab['python']):
        if len(key) == len(norm):
            if bool(and_(*[(a == ord(b)) if isinstance(a, int) else False if b == '_' else ch_eq(a, ord(b)) for a, b in zip(norm, key)])):
                return _canonical(key, False)
    for key in sorted(tab['java']):
        if len(key) == len(t):
            if bool(and_(*[ch_in(a, frozenset(b'- ')) if b == '-' else ch_eq(a, ord(b)) for a, b in zip(t, key)])):
                return _canonical(key, True)
    raise LookupError("unknown encoding")


def err_name(errors):
    if errors is None:
        return 'strict'
    e = errors.settle()
    if not e.con:
        raise Unsupported('symbolic error handler')
    return e._c


_charmap = {}


def charmap(name):
    """decode table (None where undefined) of a single-byte codec, or None."""
    if name.startswith('java:'):
        return None
    if name not in _charmap:
        t = []
        try:
            for i in range(256):
                try:
                    r = bytes([i]).decode(name)
                    if len(r) != 1:
                        t = None
                        break
                    t.append(ord(r))
                except UnicodeDecodeError:
                    t.append(None)
        except Exception:
            t = None
        if name.startswith(('utf', 'gb', 'big5', 'shift', 'euc', 'iso2022', 'cp93', 'cp94', 'cp95', 'johab', 'hz')):
            t = None
        _charmap[name] = t
    return _charmap[name]


def bad_handler(errs):
    raise LookupError("unknown error handler name '%s'" % errs)


def decode_any(s, encoding, errors):
    name = codec_name(encoding)
    errs = err_name(errors)
    if isinstance(s, Uni) and not all(not isinstance(c, int) or c < 256 for c in s.t):
        raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')

    def fail(i, j, why='ordinal not in range(128)'):
        if errs == 'strict':
            raise UnicodeDecodeError(name, b'?' * max(len(s), 1), i, j, why)
        if errs == 'replace':
            return [0xfffd]
        if errs == 'ignore':
            return []
        bad_handler(errs)

    t = s.t
    if name in ('hex', 'base64', 'zlib', 'bz2', 'uu', 'quopri') and errs != 'strict':
        raise AssertionError()      # these codecs of Python 2 assert errors == 'strict'
    if name == 'undefined':
        raise UnicodeError('undefined encoding')
    if name == 'idna' and errs != 'strict':
        raise UnicodeError('Unsupported error handling')
    if name == 'latin-1':
        return Uni.mkt(t)
    if name == 'ascii':
        if s.con and all(c < 128 for c in t):
            return Uni.mk(s._c)
        if errs == 'strict' and not s.con:
            if bool(and_(*[ch_rng(c, 0, 127) for c in t])):
                return Uni.mkt(t)
            raise UnicodeDecodeError('ascii', b'?' * len(s), 0, 1, 'ordinal not in range(128)')
        out = []
        for i, c in enumerate(t):
            if errs == 'replace' and not isinstance(c, int) and c.op == 'u':
                out.append(map_u(c, lambda p: p if p < 128 else 0xfffd))
            elif bool(ch_rng(c, 0, 127)):
                out.append(c)
            else:
                out += fail(i, i + 1)
        return Uni.mkt(out)
    if name == 'utf-8':
        return utf8_decode(s, fail)
    if name.startswith('java:') and len(t) == 1 and t[0] == 97:
        return Uni.mk(''.join(chr(x) for x in _names()['java' if name[5:] in _names()['java'] else 'python'][name[5:]][1]))
    if s.con and all(c < 256 for c in t):
        try:
            if name.startswith('java:') or name in ('hex', 'base64', 'rot13', 'rot-13', 'zlib', 'bz2', 'uu', 'quopri', 'string-escape', 'idna', 'punycode'):
                raise Unsupported('codec ' + name)
            return Uni.mk(bytes(t).decode(name, errs))
        except LookupError:
            raise
    cm = charmap(name)
    if cm is None:
        raise Unsupported('decoding symbolic bytes as ' + name)
    out = []
    undef = frozenset(i for i in range(256) if cm[i] is None)
    for i, c in enumerate(t):
        if undef and bool(ch_in(c, undef)):
            out += fail(i, i + 1, 'character maps to <undefined>')
        else:
            out.append(map_u(c, lambda p: cm[p] if p < 256 and cm[p] is not None else 0xfffd))
    return Uni.mkt(out)


def utf8_decode(s, fail):
    t = s.t
    n = len(t)
    if s.con and all(c < 128 for c in t):
        return Uni.mk(s._c)
    out = []
    i = 0

    # Jython: the lead byte says how many bytes are consumed, valid or not; a sequence cut off by the end is one bad byte
    while i < n:
        c = t[i]
        if bool(ch_rng(c, 0, 0x7f)):
            out.append(c)
            i += 1
            continue
        k = 1
        if bool(ch_rng(c, 0xc0, 0xfd)):
            for lo, hi, w in ((0xc0, 0xdf, 2), (0xe0, 0xef, 3), (0xf0, 0xf7, 4), (0xf8, 0xfb, 5), (0xfc, 0xfd, 6)):
                if hi == 0xfd or bool(ch_rng(c, lo, hi)):
                    k = w
                    break
        if k == 1:
            out += fail(i, i + 1, 'unexpected code byte')
            i += 1
            continue
        if i + k > n:
            out += fail(i, i + 1, 'unexpected end of data')
            i += 1
            continue
        g = t[i:i + k]
        ok = and_(*[ch_rng(x, 0x80, 0xbf) for x in g[1:]])
        if k == 2:
            ok = and_(ok, ch_rng(c, 0xc2, 0xdf))
        elif k == 3:
            ok = and_(ok, or_(not_(ch_eq(c, 0xe0)), ch_rng(g[1], 0xa0, 0xff)), or_(not_(ch_eq(c, 0xed)), ch_rng(g[1], 0, 0x9f)))
        elif k == 4:
            ok = and_(ok, ch_rng(c, 0xf0, 0xf4), or_(not_(ch_eq(c, 0xf0)), ch_rng(g[1], 0x90, 0xff)), or_(not_(ch_eq(c, 0xf4)), ch_rng(g[1], 0, 0x8f)))
        else:
            ok = False
        if bool(ok):
            if k == 2:
                out.append((c - 0xc0) * 64 + (g[1] - 0x80))
            elif k == 3:
                out.append((c - 0xe0) * 4096 + (g[1] - 0x80) * 64 + (g[2] - 0x80))
            else:
                out.append((c - 0xf0) * 262144 + (g[1] - 0x80) * 4096 + (g[2] - 0x80) * 64 + (g[3] - 0x80))
        else:
            out += fail(i, i + k, 'invalid data')
        i += k
    return Uni.mkt(out)


def encode_chars(s, encoding, errors):
    """Jython: str.encode treats the bytes as code points 0..255."""
    name = codec_name(encoding)
    errs = err_name(errors)
    t = s.t

    def fail(i, c):
        if errs == 'strict':
            raise UnicodeEncodeError(name, '?' * len(s), i, i + 1, 'ordinal not in range')
        if errs == 'replace':
            return [63]
        if errs == 'ignore':
            return []
        if errs == 'xmlcharrefreplace':
            return [38, 35] + [ord(x) for x in str(c if isinstance(c, int) else c.__index__())] + [59]
        if errs == 'backslashreplace':
            k = c if isinstance(c, int) else c.__index__()
            return [ord(x) for x in ('\\x%02x' % k if k < 256 else '\\u%04x' % k if k < 0x10000 else '\\U%08x' % k)]
        bad_handler(errs)

    if name in ('ascii', 'latin-1'):
        hi = 127 if name == 'ascii' else 255
        if s.con and all(c <= hi for c in t):
            return t
        if errs in ('strict',) and not s.con:
            if bool(and_(*[ch_rng(c, 0, hi) for c in t])):
                return t
            raise UnicodeEncodeError(name, '?' * len(s), 0, 1, 'ordinal not in range')
        out = []
        for i, c in enumerate(t):
            if errs == 'replace' and not isinstance(c, int) and c.op == 'u':
                out.append(map_u(c, lambda p: p if p <= hi else 63))
            elif bool(ch_rng(c, 0, hi)):
                out.append(c)
            else:
                out += fail(i, c)
        return tuple(out)
    if name == 'utf-8':
        out = []
        for i, c in enumerate(t):
            if bool(ch_rng(c, 0, 0x7f)):
                out.append(c)
            elif bool(ch_rng(c, 0x80, 0x7ff)):
                out += [c // 64 + 0xc0, c % 64 + 0x80]
            elif bool(ch_rng(c, 0xd800, 0xdfff)):
                out += [c // 4096 + 0xe0, c // 64 % 64 + 0x80, c % 64 + 0x80]
            elif bool(ch_rng(c, 0x800, 0xffff)):
                out += [c // 4096 + 0xe0, c // 64 % 64 + 0x80, c % 64 + 0x80]
            else:
                out += [c // 262144 + 0xf0, c // 4096 % 64 + 0x80, c // 64 % 64 + 0x80, c % 64 + 0x80]
        return tuple(out)
    if s.con:
        if name.startswith('java:') or name in ('hex', 'base64', 'rot13', 'rot-13', 'zlib', 'bz2', 'uu', 'quopri', 'string-escape', 'idna', 'punycode'):
            raise Unsupported('codec ' + name)
        return tuple(s._c.encode(name, errs))
    cm = charmap(name)
    if cm is None:
        raise Unsupported('encoding symbolic text as ' + name)
    inv = {}
    for i, v in enumerate(cm):
        if v is not None and v not in inv:
            inv[v] = i
    out = []
    dom = frozenset(inv)
    for i, c in enumerate(t):
        if bool(ch_in(c, dom)):
            out.append(map_u(c, lambda p: inv.get(p, 63)))
        else:
            out += fail(i, c)
    return tuple(out)


# ------------------------------------------------------------------ formatting

def fmt_num(o, what):
    if isinstance(o, SymBool):
        o = bool(o)
    if isinstance(o, (SymInt, int, float)):
        return o
    raise TypeError('%%%s format: a number is required, not %s' % (what, pytype(o)))


def percent_format(f, args):
    out = f.base.mk('')
    t = f.t
    n = len(t)
    f = f.settle()
    if not f.con:
        raise Unsupported('symbolic format string')
    v = f._c
    mapping = args if isinstance(args, dict) else None
    if not isinstance(args, tuple):
        args = (args,)
        single = True
    else:
        single = False
    used = 0
    i = 0
    parts = []
    uni = isinstance(f, Uni)
    while i < n:
        j = v.find('%', i)
        if j < 0:
            parts.append(f[i:])
            break
        if j > i:
            parts.append(f[i:j])
        j += 1
        key = None
        if j < n and v[j] == '(':
            k = v.index(')', j)
            key = f[j + 1:k]
            j = k + 1
        flags = ''
        while j < n and v[j] in '#0- +':
            flags += v[j]
            j += 1
        if j < n and v[j] == '*':
            width = args[used]
            used += 1
            j += 1
            width = width.__index__()
        else:
            k = j
            while j < n and v[j].isdigit():
                j += 1
            width = int(v[k:j]) if j > k else None
        prec = None
        if j < n and v[j] == '.':
            j += 1
            k = j
            while j < n and v[j].isdigit():
                j += 1
            prec = int(v[k:j]) if j > k else 0
        while j < n and v[j] in 'hlL':
            j += 1
        if j >= n:
            raise ValueError('incomplete format')
        conv = v[j]
        i = j + 1
        if conv == '%':
            parts.append(f.likec('%'))
            continue
        if key is not None:
            if mapping is None:
                raise TypeError('format requires a mapping')
            a = mapping[key]
            used = 1
        else:
            if used >= len(args):
                raise TypeError('not enough arguments for format string')
            a = args[used]
            used += 1
        if conv == 's':
            if isinstance(a, Uni):
                r = a
                uni = True
            else:
                m = None
                r = str2(a)
            if prec is not None:
                r = r[:prec]
        elif conv == 'r':
            r = repr2s(a)
            if prec is not None:
                r = r[:prec]
        elif conv == 'c':
            if isinstance(a, BaseStr):
                r = a
            else:
                r = Str.mkt((a,))
        elif conv in 'dixXou':
            a = fmt_num(a, conv)
            if isinstance(a, float):
                a = int(a)
            if isinstance(a, SymInt):
                r = sym_int_format(a, conv, flags, width, prec)
            else:
                spec = '%' + flags + (str(width) if width is not None else '') + ('.%d' % prec if prec is not None else '') + conv
                r = S(spec % a)
            width = None
        elif conv in 'eEfFgG':
            a = fmt_num(a, conv)
            if isinstance(a, SymInt):
                a = a.__index__()
            spec = '%' + flags + (str(width) if width is not None else '') + ('.%d' % prec if prec is not None else '') + conv
            r = S(spec % a)
            width = None
        else:
            raise ValueError('unsupported format character %r' % conv)
        if width is not None and len(r) < width:
            r = r.ljust(width) if '-' in flags else r.rjust(width)
        parts.append(r)
    if mapping is None and used < len(args) and not (single and used == 0 and isinstance(args[0], dict)):
        raise TypeError('not all arguments converted during string formatting')
    if uni or isinstance(f, Uni):
        return Uni.mk('').join(parts) if parts else Uni.mk('')
    return Str.mk('').join(parts) if parts else Str.mk('')


_HEXU = [ord(c) for c in '0123456789ABCDEF']
_HEXL = [ord(c) for c in '0123456789abcdef']


def sym_int_format(a, conv, flags, width, prec):
    if conv in 'xX' and width == 2 and '0' in flags and a.op == 'u' and min(a.b.byval) >= 0 and max(a.b.byval) <= 255:
        h = _HEXU if conv == 'X' else _HEXL
        return Str.mkt((map_u(a, lambda p: h[p >> 4]), map_u(a, lambda p: h[p & 15])))
    if conv in 'diu':
        r = int_to_str(a)
        if width is not None and len(r) < width:
            if '0' in flags:
                return r.zfill(width)
            return r.ljust(width) if '-' in flags else r.rjust(width)
        return r
    spec = '%' + flags + (str(width) if width is not None else '') + ('.%d' % prec if prec is not None else '') + conv
    return S(spec % a.__index__())


def brace_format(f, args, kw):
    f = f.settle()
    if not f.con:
        raise Unsupported('symbolic format string')
    import _string
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.formatter_parser(f._c):
        if lit:
            parts.append(f.likec(lit))
        if field is None:
            continue
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                raise IndexError('tuple index out of range')
            o = args[first]
        else:
            if first not in kw:
                raise KeyError(S(first))
            o = kw[first]
        for is_attr, name in rest:
            o = getattr(o, name) if is_attr else o[S(name) if isinstance(name, str) else name]
        if conv == 'r':
            o = repr2s(o)
        elif conv == 's':
            o = str2(o)
        parts.append(format2(o, spec, f))
    return f.base.mk('').join(parts) if parts else f.base.mk('')


def format2(o, spec, f):
    if spec == '':
        if isinstance(o, Uni):
            return o if isinstance(f, Uni) else str2(o)
        if isinstance(o, Str):
            return o.to_uni_lenient() if isinstance(f, Uni) else o
        return str2(o)
    if isinstance(o, BaseStr):
        import re
        m = re.match(r'^(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?$', spec)
        if not m:
            raise ValueError('Invalid conversion specification')
        if m.group(4):
            o = o[:int(m.group(4))]
        if m.group(3):
            w = int(m.group(3))
            fill = o.likec(m.group(1) or ' ')
            o = o.rjust(w, fill) if m.group(2) == '>' else o.center(w, fill) if m.group(2) == '^' else o.ljust(w, fill)
        return o
    if isinstance(o, SymInt):
        if spec in ('02X', '02x'):
            return sym_int_format(o, spec[-1], '0', 2, None)
        if spec == 'd':
            return int_to_str(o)
        o = o.__index__()
    return S(format(o, spec))


def _lenient(self):
    # Jython: u'{}'.format('\xe9') yields u'\xe9'
    return Uni.mkt(self.t)


Str.to_uni_lenient = _lenient
