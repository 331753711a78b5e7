"""Symbolic integers / booleans and the path explorer.

Every symbolic byte (or small choice) is a variable v with value 0..255; a term over a single such
variable is kept as a table of 256 outputs ("unary"), anything else as an expression tree.  Conditions
over one variable are 256-bit masks.  Branch feasibility is decided by the domains when every constraint
on the variables involved is unary (the solution set is then a product, so this is exact) and by z3
otherwise.  Property obligations always go to z3.
"""
import itertools
import random
import time

import z3

FULL = (1 << 256) - 1


class Tab(object):
    """An interned table 0..255 -> int."""
    _pool = {}
    __slots__ = ('v', 'byval', 'const', '_z', 'maps')

    def __new__(cls, values):
        values = tuple(values)
        t = cls._pool.get(values)
        if t is None:
            t = object.__new__(cls)
            t.v = values
            d = {}
            for i, x in enumerate(values):
                d[x] = d.get(x, 0) | (1 << i)
            t.byval = d
            t.const = len(d) == 1
            t.maps = {}
            cls._pool[values] = t
        return t

    def mask(self, pred):
        m = 0
        for x, bits in self.byval.items():
            if pred(x):
                m |= bits
        return m

    def map(self, f, key=None):
        if key is not None:
            r = self.maps.get(key)
            if r is not None:
                return r
        r = Tab(f(x) for x in self.v)
        if key is not None:
            self.maps[key] = r
        return r


IDENT = Tab(range(256))


class Var(object):
    __slots__ = ('id', 'name', 'z', 'dom0', 'lo', 'hi', 'small')

    def __init__(self, id, name, dom0=FULL, lo=0, hi=255, small=True):
        self.id = id
        self.name = name
        self.z = z3.Int('v%d' % id)
        self.dom0 = dom0
        self.lo = lo
        self.hi = hi
        self.small = small

    def __repr__(self):
        return self.name


_runs_cache = {}


def mask_runs(mask):
    r = _runs_cache.get(mask)
    if r is None:
        r = []
        i = 0
        while i < 256:
            if mask >> i & 1:
                j = i
                while j < 255 and mask >> (j + 1) & 1:
                    j += 1
                r.append((i, j))
                i = j + 1
            else:
                i += 1
        _runs_cache[mask] = r
    return r


def mask_z3(var, mask):
    if mask == 0:
        return z3.BoolVal(False)
    parts = []
    for lo, hi in mask_runs(mask):
        if lo == hi:
            parts.append(var.z == lo)
        elif lo == 0 and hi == 255:
            parts.append(z3.BoolVal(True))
        elif lo == 0:
            parts.append(var.z <= hi)
        elif hi == 255:
            parts.append(var.z >= lo)
        else:
            parts.append(z3.And(var.z >= lo, var.z <= hi))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


# ------------------------------------------------------------------ integers

class SymInt(object):
    """op: 'u' (var, Tab) | 'v' var | '+','-','*','//','%' (a, b) | 'ite' (cond, a, b) | 'tab' (a, Tab)"""
    __slots__ = ('op', 'a', 'b', 'c', '_z', '_vs')

    def __init__(self, op, a, b=None, c=None):
        self.op = op
        self.a = a
        self.b = b
        self.c = c
        self._z = None
        self._vs = None

    # -- structure
    def vars(self):
        if self._vs is None:
            if self.op in ('u', 'v'):
                self._vs = frozenset([self.a])
            elif self.op == 'tab':
                self._vs = self.a.vars()
            else:
                s = set()
                for x in (self.a, self.b, self.c):
                    if isinstance(x, (SymInt, SymBool)):
                        s |= x.vars()
                self._vs = frozenset(s)
        return self._vs

    def z(self):
        if self._z is None:
            op = self.op
            if op == 'v':
                r = self.a.z
            elif op == 'u':
                tab = self.b
                if tab is IDENT:
                    r = self.a.z
                else:
                    v = tab.v
                    # maximal affine runs
                    runs = []
                    i = 0
                    while i < 256:
                        j = i
                        d = v[i] - i
                        while j < 255 and v[j + 1] - (j + 1) == d:
                            j += 1
                        if j == i:
                            while j < 255 and v[j + 1] == v[i]:
                                j += 1
                            runs.append((i, j, None, v[i]))
                        else:
                            runs.append((i, j, d, None))
                        i = j + 1
                    r = None
                    for lo, hi, d, k in reversed(runs):
                        e = z3.IntVal(k) if d is None else self.a.z + d
                        r = e if r is None else z3.If(self.a.z <= hi, e, r)
            elif op == 'tab':
                az = self.a.z()
                r = None
                for i in range((self.c or 256) - 1, -1, -1):
                    k = self.b.v[i]
                    r = z3.IntVal(k) if r is None else z3.If(az == i, z3.IntVal(k), r)
            elif op == 'ite':
                r = z3.If(self.a.z(), toz(self.b), toz(self.c))
            else:
                x, y = toz(self.a), toz(self.b)
                if op == '+':
                    r = x + y
                elif op == '-':
                    r = x - y
                elif op == '*':
                    r = x * y
                elif op == '//':
                    r = x / y      # z3 Int division; b is a positive constant
                elif op == '%':
                    r = x % y
                else:
                    raise Unsupported('int op ' + op)
            self._z = r
        return self._z

    def ev(self, m):
        op = self.op
        if op == 'v':
            return m[self.a.id]
        if op == 'u':
            return self.b.v[m[self.a.id]]
        if op == 'tab':
            return self.b.v[self.a.ev(m)]
        if op == 'ite':
            return evi(self.b, m) if self.a.ev(m) else evi(self.c, m)
        x, y = evi(self.a, m), evi(self.b, m)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '//':
            return x // y
        return x % y

    # -- arithmetic
    def _bin(self, op, f, o, rev=False):
        if isinstance(o, SymBool):
            o = b2i(o)
        if isinstance(o, bool):
            o = int(o)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        x, y = (o, self) if rev else (self, o)
        return mkbin(op, f, x, y)

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._bin('+', lambda p, q: p + q, o)

    def __radd__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._bin('+', lambda p, q: p + q, o, True)

    def __sub__(self, o):
        return self._bin('-', lambda p, q: p - q, o)

    def __rsub__(self, o):
        return self._bin('-', lambda p, q: p - q, o, True)

    def __mul__(self, o):
        if not isinstance(o, (int, SymInt)):
            if hasattr(o, '__len__'):
                return o * self.__index__()
            return NotImplemented
        return self._bin('*', lambda p, q: p * q, o)

    def __rmul__(self, o):
        if not isinstance(o, (int, SymInt)):
            if hasattr(o, '__len__'):
                return o * self.__index__()
            return NotImplemented
        return self._bin('*', lambda p, q: p * q, o, True)

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        return self._bin('//', lambda p, q: p // q, o)

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return self - (self // o) * o
        return self._bin('%', lambda p, q: p % q, o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Unsupported('float division of a symbolic int')

    def __neg__(self):
        return 0 - self

    def __invert__(self):
        return -1 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if self.op == 'u' and isinstance(o, int):
            return mkbin('&', lambda p, q: p & q, self, o)
        if self.op == 'u' and isinstance(o, SymInt) and o.op == 'u' and o.a is self.a:
            return mkbin('&', lambda p, q: p & q, self, o)
        return self.__index__() & (o.__index__() if isinstance(o, SymInt) else o)

    __rand__ = __and__

    def __or__(self, o):
        if self.op == 'u' and isinstance(o, int):
            return mkbin('|', lambda p, q: p | q, self, o)
        return self.__index__() | (o.__index__() if isinstance(o, SymInt) else o)

    __ror__ = __or__

    def __xor__(self, o):
        if self.op == 'u' and isinstance(o, int):
            return mkbin('^', lambda p, q: p ^ q, self, o)
        return self.__index__() ^ (o.__index__() if isinstance(o, SymInt) else o)

    __rxor__ = __xor__

    def __pow__(self, o):
        return self.__index__() ** (o.__index__() if isinstance(o, SymInt) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    # -- comparison
    def __eq__(self, o):
        return cmp_('==', self, o)

    def __ne__(self, o):
        r = cmp_('==', self, o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __lt__(self, o):
        return cmp_('<', self, o)

    def __le__(self, o):
        return cmp_('<=', self, o)

    def __gt__(self, o):
        r = cmp_('<=', self, o)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = cmp_('<', self, o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        r = cmp_('==', self, 0)
        return not bool(r)

    def __index__(self):
        return X.concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return 'SymInt(%s)' % self.op

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)


def toz(x):
    if isinstance(x, (SymInt, SymBool)):
        return x.z()
    return z3.IntVal(int(x))


def evi(x, m):
    if isinstance(x, (SymInt, SymBool)):
        return x.ev(m)
    return x


def mku(var, tab):
    if tab.const:
        return tab.v[0]
    return SymInt('u', var, tab)


def mkbin(op, f, x, y):
    xu = isinstance(x, SymInt) and x.op == 'u'
    yu = isinstance(y, SymInt) and y.op == 'u'
    if xu and isinstance(y, int):
        return mku(x.a, x.b.map(lambda p: f(p, y), (op, 0, y)))
    if yu and isinstance(x, int):
        return mku(y.a, y.b.map(lambda p: f(x, p), (op, 1, x)))
    if xu and yu and x.a is y.a:
        return mku(x.a, Tab(f(p, q) for p, q in zip(x.b.v, y.b.v)))
    if op not in ('+', '-', '*', '//', '%'):
        return f(x.__index__(), y.__index__())
    if op == '*' and isinstance(x, SymInt) and isinstance(y, SymInt):
        y = y.__index__()
        return mkbin(op, f, x, y)
    if op in ('//', '%') and isinstance(y, SymInt):
        return mkbin(op, f, x, y.__index__())
    if op in ('//', '%'):
        if isinstance(x, int):
            return f(x, y)
        if y == 1:
            return x if op == '//' else 0
        r = split_mul(x, y)
        if r is not None:
            return r[0] if op == '//' else r[1]
        q, r = X.quotrem(x, y)
        return q if op == '//' else r
    return SymInt(op, x, y)


def rng(t):
    """(lo, hi) containing every value of a term, or None"""
    if isinstance(t, int):
        return t, t
    op = t.op
    if op == 'u':
        return min(t.b.byval), max(t.b.byval)
    if op == 'v':
        return None if t.a.lo is None or t.a.hi is None else (t.a.lo, t.a.hi)
    if op == 'tab':
        vs = t.b.v[:t.c or 256]
        return min(vs), max(vs)
    if op in ('+', '-', '*', 'ite'):
        x, y = (rng(t.b), rng(t.c)) if op == 'ite' else (rng(t.a), rng(t.b))
        if x is None or y is None:
            return None
        if op == '+':
            return x[0] + y[0], x[1] + y[1]
        if op == '-':
            return x[0] - y[1], x[1] - y[0]
        if op == 'ite':
            return min(x[0], y[0]), max(x[1], y[1])
        p = [a * b for a in x for b in y]
        return min(p), max(p)
    return None


def exact(t, c):
    """t // c if t is a multiple of c whatever its variables, else None"""
    if isinstance(t, int):
        return t // c if t % c == 0 else None
    if t.op == 'u':
        return mku(t.a, t.b.map(lambda p: p // c)) if all(k % c == 0 for k in t.b.byval) else None
    if t.op == '*':
        for x, y in ((t.a, t.b), (t.b, t.a)):
            if isinstance(y, int) and y % c == 0:
                return x * (y // c)
    if t.op == '+':
        x, y = exact(t.a, c), exact(t.b, c)
        return x + y if x is not None and y is not None else None
    return None


def split_mul(t, c):
    """(t // c, t % c) for a sum of a multiple of c and something in 0..c-1"""
    r = rng(t)
    if r is not None and 0 <= r[0] and r[1] < c:
        return 0, t
    if t.op == '+':
        for x, y in ((t.a, t.b), (t.b, t.a)):
            q = exact(x, c)
            if q is not None:
                r = rng(y)
                if r is not None and 0 <= r[0] and r[1] < c:
                    return q, y
    q = exact(t, c)
    return None if q is None else (q, 0)


def apply_tab(x, tab, bound=None):
    """tab[x] for a term x known to lie in 0..255 (0..bound-1)."""
    if isinstance(x, int):
        return tab.v[x]
    if x.op == 'u':
        return mku(x.a, x.b.map(lambda p: tab.v[p] if 0 <= p < 256 else 0))
    if x.op == 'tab':
        n = x.c or 256
        return apply_tab(x.a, Tab([tab.v[i] if 0 <= i < 256 else 0 for i in x.b.v]), n)
    if bound is None:
        r = rng(x)
        if r is not None and 0 <= r[0] and r[1] < 256:
            bound = r[1] + 1
    n = bound or 256
    if len(set(tab.v[:n])) == 1:
        return tab.v[0]
    if all(tab.v[i] == i for i in range(n)):
        return x
    return SymInt('tab', x, tab, n)


def map_u(x, f):
    """f applied to a unary term (or constant); f is an arbitrary function of the value."""
    if isinstance(x, int):
        return f(x)
    if x.op == 'u':
        return mku(x.a, x.b.map(f))
    if x.op == 'tab':
        n = x.c or 256
        return apply_tab(x.a, Tab([f(v) if i < n else 0 for i, v in enumerate(x.b.v)]), n)
    r = rng(x)
    if r is not None and 0 <= r[0] and r[1] < 256:
        return apply_tab(x, Tab([f(i) if i <= r[1] else 0 for i in range(256)]), r[1] + 1)
    return f(X.concretize(x))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    if c.op == 'u':
        av = isinstance(a, int) or (a.op == 'u' and a.a is c.a)
        bv = isinstance(b, int) or (b.op == 'u' and b.a is c.a)
        if av and bv:
            ta = a.b.v if not isinstance(a, int) else None
            tb = b.b.v if not isinstance(b, int) else None
            m = c.b
            return mku(c.a, Tab((ta[i] if ta else a) if m >> i & 1 else (tb[i] if tb else b) for i in range(256)))
    return SymInt('ite', c, a, b)


def cmp_(op, x, y):
    if isinstance(y, SymBool):
        y = b2i(y)
    if isinstance(y, bool):
        y = int(y)
    if isinstance(y, float) and y == int(y):
        y = int(y)
    if not isinstance(y, (int, SymInt)):
        if op == '==':
            return False
        return NotImplemented
    xu = isinstance(x, SymInt) and x.op == 'u'
    yu = isinstance(y, SymInt) and y.op == 'u'
    if xu and isinstance(y, int):
        if op == '==':
            return mkbu(x.a, x.b.byval.get(y, 0))
        if op == '<':
            return mkbu(x.a, x.b.mask(lambda p: p < y))
        return mkbu(x.a, x.b.mask(lambda p: p <= y))
    if xu and yu and x.a is y.a:
        m = 0
        for i, (p, q) in enumerate(zip(x.b.v, y.b.v)):
            if (p == q) if op == '==' else (p < q) if op == '<' else (p <= q):
                m |= 1 << i
        return mkbu(x.a, m)
    if x is y:
        return op != '<'
    if isinstance(x, SymInt) and x.op == 'tab' and isinstance(y, int):
        n = x.c or 256
        hit = [i for i in range(n) if ((x.b.v[i] == y) if op == '==' else (x.b.v[i] < y) if op == '<' else (x.b.v[i] <= y))]
        if not hit:
            return False
        if len(hit) == n:
            return True
    return SymBool(op, x, y)


# ------------------------------------------------------------------ booleans

class SymBool(object):
    """op: 'u' (var, mask) | 'and'/'or' (list) | 'not' (x) | '==','<','<=' (a, b)"""
    __slots__ = ('op', 'a', 'b', '_z', '_vs')

    def __init__(self, op, a, b=None):
        self.op = op
        self.a = a
        self.b = b
        self._z = None
        self._vs = None

    def vars(self):
        if self._vs is None:
            s = set()
            if self.op == 'u':
                s.add(self.a)
            elif self.op in ('and', 'or'):
                for x in self.a:
                    s |= x.vars()
            elif self.op == 'not':
                s |= self.a.vars()
            else:
                for x in (self.a, self.b):
                    if isinstance(x, SymInt):
                        s |= x.vars()
            self._vs = frozenset(s)
        return self._vs

    def z(self):
        if self._z is None:
            if self.op == 'u':
                r = mask_z3(self.a, self.b)
            elif self.op == 'and':
                r = z3.And(*[x.z() for x in self.a])
            elif self.op == 'or':
                r = z3.Or(*[x.z() for x in self.a])
            elif self.op == 'not':
                r = z3.Not(self.a.z())
            else:
                x, y = toz(self.a), toz(self.b)
                r = x == y if self.op == '==' else x < y if self.op == '<' else x <= y
            self._z = r
        return self._z

    def ev(self, m):
        op = self.op
        if op == 'u':
            return bool(self.b >> m[self.a.id] & 1)
        if op == 'and':
            return all(x.ev(m) for x in self.a)
        if op == 'or':
            return any(x.ev(m) for x in self.a)
        if op == 'not':
            return not self.a.ev(m)
        x, y = evi(self.a, m), evi(self.b, m)
        return x == y if op == '==' else x < y if op == '<' else x <= y

    def __bool__(self):
        return X.decide(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            o = bool(o)
            return self if o else not_(self)
        return b2i(self) == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return b2i(self) + o

    __radd__ = __add__


def mkbu(var, mask):
    mask &= FULL
    d = var.dom0
    if mask & d == 0:
        return False
    if d & ~mask == 0:
        return True
    return SymBool('u', var, mask)


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return ite(b, 1, 0)


def not_(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == 'u':
        return mkbu(b.a, FULL & ~b.b)
    if b.op == 'not':
        return b.a
    if b.op == 'and':
        return or_(*[not_(x) for x in b.a])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.a])
    return SymBool('not', b)


def _junct(kind, xs):
    flat = []
    un = {}
    for x in xs:
        if isinstance(x, bool):
            if kind == 'and':
                if not x:
                    return False
            elif x:
                return True
            continue
        items = x.a if x.op == kind else (x,)
        for y in items:
            if y.op == 'u':
                if y.a in un:
                    un[y.a] = (un[y.a] & y.b) if kind == 'and' else (un[y.a] | y.b)
                else:
                    un[y.a] = y.b
            else:
                flat.append(y)
    for v, m in un.items():
        r = mkbu(v, m)
        if r is True:
            if kind == 'or':
                return True
        elif r is False:
            if kind == 'and':
                return False
        else:
            flat.append(r)
    if not flat:
        return kind == 'and'
    if len(flat) == 1:
        return flat[0]
    return SymBool(kind, flat)


def and_(*xs):
    return _junct('and', xs)


def or_(*xs):
    return _junct('or', xs)


# ------------------------------------------------------------------ control

class Stop(BaseException):
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        X.dead = self


class PathAbort(Stop):
    """The current path ends (infeasible assumption, or finished early)."""


class Unsupported(Stop):
    """The encoder has no symbolic semantics for this operation."""


class DepthLimit(Stop):
    pass


class NeedSolver(Exception):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.decisions = 0
        self.domain_decisions = 0


class Explorer(object):
    """One object per process; run one path at a time by re-execution of a decision prefix."""

    def __init__(self):
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.check_domains = False      # cross-check domain decisions with z3
        self.max_decisions = 4000
        self.active = False
        self.dead = None
        self.deadline = None

    # -- path life cycle
    def begin(self, prefix):
        self.prefix = prefix
        self.dead = None
        self.divs = {}
        self.trace = []
        self.pending = []
        self.dom = {}
        self.vars = []
        self.byname = {}
        self.nonu = []
        self.nonu_vars = set()
        self.solver.reset()
        self.model = None            # last z3 model (dict id->value) satisfying nonu constraints
        self.concretized = []
        self.active = True
        self.ticks = 0

    def end(self):
        self.active = False

    def newvar(self, name, dom0=FULL, small=True, lo=None, hi=None):
        v = Var(len(self.vars), name, dom0, lo, hi, small)
        self.vars.append(v)
        self.byname[name] = v
        if small:
            self.dom[v.id] = dom0
        else:
            self.nonu_vars.add(v)
            if lo is not None:
                self.solver.add(v.z >= lo)
            if hi is not None:
                self.solver.add(v.z <= hi)
        return v

    def quotrem(self, x, c):
        """x = c*q + r, 0 <= r < c, with fresh q and r (the same ones whenever the same term is divided)"""
        key = (id(x), c)
        hit = self.divs.get(key)
        if hit is None:
            n = len(self.vars)
            vq = self.newvar('q%d' % n, small=False)
            q = SymInt('v', vq)
            if c <= 256:
                vr = self.newvar('r%d' % n, (1 << c) - 1)
                r = SymInt('u', vr, IDENT)
            else:
                vr = self.newvar('r%d' % n, small=False, lo=0, hi=c - 1)
                r = SymInt('v', vr)
            hit = (q, r, x)
            self.divs[key] = hit
            self.assert_(SymBool('==', x, q * c + r))
        return hit[0], hit[1]

    # -- simplification of a condition by the current domains
    def simp(self, b):
        if isinstance(b, bool):
            return b
        op = b.op
        if op == 'u':
            d = self.dom[b.a.id]
            if d & b.b == 0:
                return False
            if d & ~b.b == 0:
                return True
            return b
        if op in ('and', 'or'):
            out = []
            changed = False
            for x in b.a:
                y = self.simp(x)
                if y is not x:
                    changed = True
                if isinstance(y, bool):
                    if op == 'and' and not y:
                        return False
                    if op == 'or' and y:
                        return True
                    continue
                out.append(y)
            if not changed:
                return b
            return _junct(op, out)
        if op == 'not':
            y = self.simp(b.a)
            if y is b.a:
                return b
            return not_(y)
        # comparison: substitute variables whose domain is a single value
        x, y = self.fix(b.a), self.fix(b.b)
        if x is b.a and y is b.b:
            return b
        if isinstance(x, int) and isinstance(y, int):
            return x == y if op == '==' else x < y if op == '<' else x <= y
        if isinstance(x, int):
            if op == '==':
                return self.simp(cmp_('==', y, x))
            if op == '<':
                return self.simp(not_(cmp_('<=', y, x)))
            return self.simp(not_(cmp_('<', y, x)))
        return self.simp(cmp_(op, x, y)) if (x.op == 'u' and (isinstance(y, int) or y.op == 'u' and y.a is x.a)) else SymBool(op, x, y)

    def fix(self, t):
        if isinstance(t, int):
            return t
        if t.op == 'u':
            d = self.dom[t.a.id]
            if d & (d - 1) == 0:
                return t.b.v[d.bit_length() - 1]
            # constant on the domain?
            vals = set()
            for x, bits in t.b.byval.items():
                if bits & d:
                    vals.add(x)
                    if len(vals) > 1:
                        return t
            return vals.pop()
        if t.op == 'v':
            return t
        if t.op == 'tab':
            x = self.fix(t.a)
            return t if x is t.a else apply_tab(x, t.b, t.c)
        if t.op == 'ite':
            c = self.simp(t.a)
            if c is True:
                return self.fix(t.b)
            if c is False:
                return self.fix(t.c)
            return t
        x, y = self.fix(t.a), self.fix(t.b)
        if x is t.a and y is t.b:
            return t
        op = t.op
        return x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x // y if op == '//' else x % y

    # -- constraints
    def assert_(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort('infeasible')
        if b.op == 'u':
            self.dom[b.a.id] &= b.b
            return
        if b.op == 'and':
            for x in b.a:
                self.assert_(x)
            return
        self.nonu.append(b)
        self.nonu_vars |= b.vars()
        self.solver.add(b.z())

    def check(self, extra=None, allvars=False):
        """Satisfiability of path condition (+ extra).  Returns 'sat'/'unsat'/'unknown' and a model dict."""
        vs = set(self.nonu_vars)
        if extra is not None and not isinstance(extra, bool):
            vs |= extra.vars()
        s = self.solver
        s.push()
        try:
            for v in vs:
                if v.small:
                    d = self.dom[v.id]
                    s.add(v.z >= 0, v.z <= 255)
                    if d != FULL:
                        s.add(mask_z3(v, d))
            if extra is not None:
                s.add(extra.z() if not isinstance(extra, bool) else z3.BoolVal(extra))
            t = time.time()
            r = str(s.check())
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            m = None
            if r == 'sat':
                self.stats.sat += 1
                zm = s.model()
                m = {}
                for v in vs:
                    val = zm.eval(v.z, model_completion=True)
                    m[v.id] = val.as_long()
            elif r == 'unsat':
                self.stats.unsat += 1
            else:
                self.stats.unknown += 1
            return r, m
        finally:
            s.pop()

    def decide(self, b):
        if not self.active:
            raise Unsupported('symbolic decision outside a path')
        if self.dead is not None:
            raise self.dead
        b = self.simp(b)
        if isinstance(b, bool):
            return b
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append(c)
            self.assert_(b if c else not_(b))
            return c
        if i >= self.max_decisions:
            raise DepthLimit('more than %d decisions on a path' % self.max_decisions)
        if self.deadline is not None and time.time() > self.deadline:
            raise DepthLimit('time budget')
        self.stats.decisions += 1
        if b.op == 'u' and b.a not in self.nonu_vars:
            self.stats.domain_decisions += 1
            if self.check_domains:
                for e in (b, not_(b)):
                    r, _ = self.check(e)
                    if r == 'unsat':
                        raise AssertionError('domain pre-filter disagrees with z3')
            t = f = True
        else:
            t = f = None
            m = self.model
            if m is not None and all(v.id in m for v in b.vars()) and self.model_ok(m):
                if b.ev(m):
                    t = True
                else:
                    f = True
            if t is None:
                r, mm = self.check(b)
                t = r != 'unsat'
                if mm is not None:
                    self.model = mm
            if f is None:
                if not t:
                    f = True      # the path itself is feasible
                else:
                    r, mm = self.check(not_(b))
                    f = r != 'unsat'
                    if mm is not None and not t:
                        self.model = mm
        if t and f:
            self.pending.append(self.trace + [False])
            c = True
        else:
            c = bool(t)
        self.trace.append(c)
        self.assert_(b if c else not_(b))
        return c

    def model_ok(self, m):
        for vid, val in m.items():
            v = self.vars[vid]
            if v.small and not (self.dom[vid] >> val & 1):
                return False
        for c in self.nonu:
            for v in c.vars():
                if v.id not in m:
                    return False
            if not c.ev(m):
                return False
        return True

    def concretize(self, t):
        """Fork over all feasible values of an integer term."""
        t = self.fix(t)
        if isinstance(t, int):
            return t
        if t.op == 'u':
            d = self.dom[t.a.id]
            vals = sorted(x for x, bits in t.b.byval.items() if bits & d)
            for x in vals[:-1]:
                if self.decide(cmp_('==', t, x)):
                    return x
            if not self.decide(cmp_('==', t, vals[-1])):
                raise PathAbort('infeasible')
            return vals[-1]
        n = 0
        while True:
            r, m = self.check(None if t.vars() <= self.nonu_vars else SymBool('==', t, t))
            if r != 'sat':
                if r == 'unsat':
                    raise PathAbort('infeasible')
                raise Unsupported('cannot concretize: solver unknown')
            mm = dict(m)
            for v in t.vars():
                if v.id not in mm:
                    mm[v.id] = (self.dom[v.id] & -self.dom[v.id]).bit_length() - 1
            x = t.ev(mm)
            # on re-execution the value tried must be the same one: record it
            x = self.pick(x)
            if self.decide(cmp_('==', t, x)):
                return x
            n += 1
            if n > 300:
                raise Unsupported('too many values to enumerate')

    def pick(self, x):
        """A solver-chosen value, recorded in the trace so that re-execution is deterministic."""
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append(c)
            return c[1]
        self.trace.append(('pick', x))
        return x

    # -- models
    def witness(self, rng):
        """A full assignment id->value of the path condition (random inside the domains)."""
        m = {}
        if self.nonu:
            r, zm = self.check()
            if r != 'sat':
                return None
            # try to randomise: keep solver values for constrained vars
            m.update(zm)
        for v in self.vars:
            if v.id not in m:
                if v.small:
                    d = self.dom[v.id]
                    runs = mask_runs(d)
                    lo, hi = runs[rng.randrange(len(runs))]
                    m[v.id] = rng.randint(lo, hi)
                else:
                    m[v.id] = v.lo if v.lo is not None else 0
        return m


X = Explorer()
