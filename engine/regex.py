"""Python 2 `re` over symbolic strings: a backtracking matcher on the host's parsed pattern trees."""
import re as _re
import re._parser as _sp
import re._constants as _c

import terms
from terms import Unsupported, and_, or_, not_
from strings import BaseStr, Str, Uni, ch_eq, ch_in, ch_rng, WS_STR

FLAGS = {'I': _re.I, 'IGNORECASE': _re.I, 'M': _re.M, 'MULTILINE': _re.M, 'S': _re.S, 'DOTALL': _re.S,
         'X': _re.X, 'VERBOSE': _re.X, 'U': _re.U, 'UNICODE': _re.U, 'L': 4, 'LOCALE': 4}

DIGIT = frozenset(range(48, 58))
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95])
SPACE = WS_STR


def is_word(c, uni):
    if isinstance(c, int):
        return c in WORD or (uni and c > 127 and chr(c).isalnum())
    return ch_in(c, WORD)


def cat_test(cat, c, flags):
    neg = False
    name = str(cat)
    if 'NOT_' in name:
        neg = True
        name = name.replace('NOT_', '')
    vals = DIGIT if name.endswith('DIGIT') else WORD if name.endswith('WORD') else SPACE if name.endswith('SPACE') else None
    if vals is None:
        raise Unsupported('regex category ' + name)
    if flags & _re.U and not (isinstance(c, int) and c < 128):
        if isinstance(c, int):
            s = chr(c)
            r = s.isdigit() if vals is DIGIT else (s.isalnum() or s == '_') if vals is WORD else s.isspace()
        else:
            raise Unsupported('re.U on a symbolic character')
    else:
        r = ch_in(c, vals)
    return not_(r) if neg else r


def lit_test(v, c, flags):
    if flags & _re.I:
        s = chr(v)
        alts = {v, ord(s.lower()) if len(s.lower()) == 1 else v, ord(s.upper()) if len(s.upper()) == 1 else v}
        alts = {a for a in alts if (a < 128) == (v < 128)}
        return ch_in(c, frozenset(alts))
    return ch_eq(c, v)


def in_test(items, c, flags):
    neg = False
    alts = []
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            alts.append(lit_test(av, c, flags))
        elif op is _c.RANGE:
            lo, hi = av
            e = ch_rng(c, lo, hi)
            if flags & _re.I:
                vals = set()
                for v in range(lo, min(hi, 255) + 1):
                    for s in (chr(v).lower(), chr(v).upper()):
                        if len(s) == 1 and (ord(s) < 128) == (v < 128):
                            vals.add(ord(s))
                e = or_(e, ch_in(c, frozenset(vals)))
            alts.append(e)
        elif op is _c.CATEGORY:
            alts.append(cat_test(av, c, flags))
        else:
            raise Unsupported('regex set item %s' % op)
    r = or_(*alts)
    return not_(r) if neg else r


class Pattern(object):
    def __init__(self, pat, flags=0):
        if not isinstance(pat, BaseStr):
            raise TypeError('first argument must be string or compiled pattern')
        pat = pat.settle()
        if not pat.con:
            raise Unsupported('symbolic pattern')
        self.pattern = pat
        self.flags = int(flags)
        hf = self.flags & (_re.I | _re.M | _re.S | _re.X)
        try:
            self.tree = _sp.parse(pat._c, hf)
        except _re.error as e:
            raise ReError(str(e))
        inline = self.tree.state.flags
        self.fl = (inline & (_re.I | _re.M | _re.S | _re.X)) | (self.flags & _re.U) | (_re.U if '(?u)' in pat._c else 0)
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self._lit = None
        if all(op is _c.LITERAL for op, _ in self.tree) and not self.fl & _re.I:
            self._lit = [av for _, av in self.tree]
        self._host = None
        self._need = self._required()

    def _required(self):
        """(literal, least, greatest offset of it in a match): text every match contains, where the pattern has some of two characters or more."""
        if self.fl & _re.I:
            return None
        nodes = list(self.tree)
        best = None
        a = 0
        while a < len(nodes):
            b = a
            while b < len(nodes) and nodes[b][0] is _c.LITERAL:
                b += 1
            if b - a >= 2 and (best is None or b - a > best[1] - best[0]):
                best = (a, b)
            a = b + 1
        if best is None:
            return None
        lo, hi = self.tree[:best[0]].getwidth() if best[0] else (0, 0)
        return ''.join(chr(av) for _, av in nodes[best[0]:best[1]]), int(lo), int(hi) if hi < 1000 else None

    # The matcher: node list -> function(i, groups, k) -> result of k or None
    def run(self, t, i, end):
        out = self._seq(list(self.tree), 0, t, i, end, {}, lambda j, g: (j, g))
        return out

    def _seq(self, nodes, n, t, i, end, g, k):
        while True:
            if n == len(nodes):
                return k(i, g)
            op, av = nodes[n]
            fl = self.fl
            if op is _c.LITERAL or op is _c.NOT_LITERAL or op is _c.ANY or op is _c.IN:
                # a run of single characters is one decision
                test = True
                while op is _c.LITERAL or op is _c.NOT_LITERAL or op is _c.ANY or op is _c.IN:
                    if i >= end:
                        return None
                    test = and_(test, self._ctest(op, av, t[i]))
                    if test is False:
                        return None
                    i += 1
                    n += 1
                    if n == len(nodes):
                        break
                    op, av = nodes[n]
                if not bool(test):
                    return None
                continue
            if op is _c.AT:
                if not self._at(av, t, i, end):
                    return None
                n += 1
                continue
            break
        rest = lambda j, gg: self._seq(nodes, n + 1, t, j, end, gg, k)
        if op is _c.SUBPATTERN:
            group, add, dele, sub = av
            if add or dele:
                raise Unsupported('regex inline flags')

            def done(j, gg):
                if group is not None:
                    gg = dict(gg)
                    gg[group] = (i, j)
                    gg['last'] = group
                return rest(j, gg)
            return self._seq(list(sub), 0, t, i, end, g, done)
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, t, i, end, g, rest)
                if r is not None:
                    return r
            return None
        if op is _c.MAX_REPEAT or op is _c.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            hi = end + 1 if hi is _c.MAXREPEAT else hi
            if len(sub) == 1 and sub[0][0] in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                so, sa = sub[0]
                if op is _c.MAX_REPEAT:
                    j = i
                    cnt = 0
                    while cnt < hi and j < end and bool(self._ctest(so, sa, t[j])):
                        j += 1
                        cnt += 1
                    while cnt >= lo:
                        r = rest(j, g)
                        if r is not None:
                            return r
                        j -= 1
                        cnt -= 1
                    return None
                j = i
                cnt = 0
                while True:
                    if cnt >= lo:
                        r = rest(j, g)
                        if r is not None:
                            return r
                    if cnt >= hi or j >= end or not bool(self._ctest(so, sa, t[j])):
                        return None
                    j += 1
                    cnt += 1

            def rep(cnt, j, gg):
                if op is _c.MIN_REPEAT:
                    if cnt >= lo:
                        r = rest(j, gg)
                        if r is not None:
                            return r
                    if cnt >= hi:
                        return None
                    return self._seq(sub, 0, t, j, end, gg, lambda q, g2: rep(cnt + 1, q, g2) if q > j or cnt < lo else None)
                if cnt < hi:
                    r = self._seq(sub, 0, t, j, end, gg, lambda q, g2: rep(cnt + 1, q, g2) if q > j or cnt < lo else None)
                    if r is not None:
                        return r
                if cnt >= lo:
                    return rest(j, gg)
                return None
            return rep(0, i, g)
        if op is _c.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for q in range(b - a):
                if i + q >= end or not bool(ch_eq(t[a + q], t[i + q])):
                    return None
            return rest(i + b - a, g)
        if op is _c.ASSERT or op is _c.ASSERT_NOT:
            d, sub = av
            if d >= 0:
                r = self._seq(list(sub), 0, t, i, end, g, lambda j, gg: (j, gg))
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('lookbehind')
                r = self._seq(list(sub), 0, t, i - lo, i, g, lambda j, gg: (j, gg)) if i >= lo else None
            if (r is None) == (op is _c.ASSERT):
                return None
            return rest(i, r[1] if r is not None else g)
        raise Unsupported('regex op %s' % op)

    def _ctest(self, op, av, c):
        if op is _c.LITERAL:
            return lit_test(av, c, self.fl)
        if op is _c.NOT_LITERAL:
            return not_(lit_test(av, c, self.fl))
        if op is _c.ANY:
            return True if self.fl & _re.S else not_(ch_eq(c, 10))
        return in_test(av, c, self.fl)

    def _at(self, av, t, i, end):
        n = str(av)
        if n == 'AT_BEGINNING':
            return i == 0 or bool(self.fl & _re.M) and bool(ch_eq(t[i - 1], 10))
        if n == 'AT_BEGINNING_STRING':
            return i == 0
        if n == 'AT_END_STRING':
            return i == end
        if n == 'AT_END':
            if i == end:
                return True
            if self.fl & _re.M or i == end - 1:
                return bool(ch_eq(t[i], 10))
            return False
        if n in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            a = i > 0 and bool(is_word(t[i - 1], False))
            b = i < end and bool(is_word(t[i], False))
            return (a != b) == (n == 'AT_BOUNDARY')
        raise Unsupported(n)

    def _prep(self, s):
        if not isinstance(s, BaseStr):
            raise TypeError('expected string or buffer')
        return s

    def _clip(self, s, pos, endpos):
        n = len(s)
        pos = 0 if pos is None else min(max(pos.__index__(), 0), n)
        endpos = n if endpos is None else min(max(endpos.__index__(), 0), n)
        return pos, endpos

    def match(self, s, pos=None, endpos=None):
        s = self._prep(s)
        pos, end = self._clip(s, pos, endpos)
        r = self.run(s.t, pos, end)
        return None if r is None else Match(self, s, pos, r[0], r[1], pos, end)

    def search(self, s, pos=None, endpos=None):
        s = self._prep(s)
        pos, end = self._clip(s, pos, endpos)
        return self._search(s, pos, end)

    def _search(self, s, pos, end):
        t = s.t
        need = self._need
        at, first = -1, pos
        if need is not None:
            at = s._find(s.likec(need[0]), min(pos + need[1], end), end)
            if at < 0:
                return None
            if need[2] is not None:
                first = max(pos, at - need[2])
        for i in range(first, end + 1):
            if need is not None and i + need[1] > at:
                # every match from here on has a later occurrence of the literal
                at = s._find(s.likec(need[0]), min(i + need[1], end), end)
                if at < 0:
                    return None
            if need is not None and need[2] is not None and i + need[2] < at:
                continue
            r = self.run(t, i, end)
            if r is not None:
                return Match(self, s, i, r[0], r[1], pos, end)
        return None

    def finditer(self, s, pos=None, endpos=None):
        s = self._prep(s)
        pos, end = self._clip(s, pos, endpos)
        i = pos
        while i <= end:
            m = self._search(s, i, end)
            if m is None:
                return
            yield m
            i = m._e if m._e > m._s else m._e + 1

    def findall(self, s, pos=None, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else s.likec(''))
            else:
                out.append(m.groups(s.likec('')))
        return out

    def split(self, s, maxsplit=0):
        s = self._prep(s)
        out = []
        last = 0
        n = 0
        i = 0
        while i <= len(s) and (not maxsplit or n < maxsplit):
            m = self._search(s, i, len(s))
            if m is None:
                break
            if m._e == m._s:
                if m._s >= len(s):
                    break
                i = m._e + 1
                continue
            out.append(s[last:m._s])
            out.extend(m.groups())
            last = i = m._e
            n += 1
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        s = self._prep(s)
        parts = []
        last = 0
        n = 0
        i = 0
        while i <= len(s) and (not count or n < count):
            m = self._search(s, i, len(s))
            if m is None:
                break
            if m._e == m._s and m._s == last and n > 0 and last > 0:
                i = m._e + 1
                continue
            parts.append(s[last:m._s])
            if isinstance(repl, BaseStr):
                parts.append(m.expand(repl))
            else:
                parts.append(repl(m))
            last = m._e
            i = m._e if m._e > m._s else m._e + 1
            n += 1
        parts.append(s[last:])
        return s.likec('').join([p for p in parts if p is not None]), n


class ReError(Exception):
    pass


ReError.__name__ = 'error'


class Match(object):
    def __init__(self, p, s, a, b, g, pos, endpos):
        self.re = p
        self.string = s
        self._s = a
        self._e = b
        self._g = g
        self.pos = pos
        self.endpos = endpos
        self.lastindex = g.get('last')

    def _idx(self, k):
        if isinstance(k, BaseStr):
            k = k.settle()._c
            if k not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[k]
        k = k.__index__()
        if k < 0 or k > self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        k = self._idx(k)
        if k == 0:
            return (self._s, self._e)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        import rt
        d = rt.PDict()
        for n, k in self.re.groupindex.items():
            d[Str.mk(n)] = self._one(k, default)
        return d

    def expand(self, template):
        t = template.settle()
        if not t.con:
            raise Unsupported('symbolic template')
        if '\\' not in t._c:
            return t
        out = []
        for kind, v in _tmpl(t._c):
            if kind == 'l':
                out.append(t.likec(v))
            else:
                r = self._one(v if isinstance(v, int) else Str.mk(v))
                if r is not None:
                    out.append(r)
        return t.likec('').join(out)


def _tmpl(s):
    i = 0
    lit = ''
    while i < len(s):
        if s[i] != '\\':
            lit += s[i]
            i += 1
            continue
        if lit:
            yield 'l', lit
            lit = ''
        m = _re.match(r'\\g<(\w+)>', s[i:])
        if m:
            v = m.group(1)
            yield 'g', int(v) if v.isdigit() else v
            i += m.end()
            continue
        m = _re.match(r'\\(\d{1,2})', s[i:])
        if m:
            yield 'g', int(m.group(1))
            i += m.end()
            continue
        e = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(s[i + 1:i + 2])
        lit += e if e is not None else s[i:i + 2]
        i += 2
    if lit:
        yield 'l', lit


_cache = {}


def compile(pat, flags=0):
    if isinstance(pat, Pattern):
        return pat
    key = (pat._c, type(pat), int(flags)) if isinstance(pat, BaseStr) and pat.con else None
    if key is not None and key in _cache:
        return _cache[key]
    p = Pattern(pat, flags)
    if key is not None:
        _cache[key] = p
    return p


def match(pat, s, flags=0):
    return compile(pat, flags).match(s)


def search(pat, s, flags=0):
    return compile(pat, flags).search(s)


def split(pat, s, maxsplit=0, flags=0):
    return compile(pat, flags).split(s, maxsplit)


def sub(pat, repl, s, count=0, flags=0):
    return compile(pat, flags).sub(repl, s, count)


def subn(pat, repl, s, count=0, flags=0):
    return compile(pat, flags).subn(repl, s, count)


def findall(pat, s, flags=0):
    return compile(pat, flags).findall(s)


def finditer(pat, s, flags=0):
    return compile(pat, flags).finditer(s)


def escape(s):
    out = []
    for c in s:
        out.append(c if bool(c.isalnum()) else s.likec('\\') + c)
    return s.likec('').join(out)
