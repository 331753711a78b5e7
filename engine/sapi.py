"""The symbolic side of the harness interface (jython_server.Api is the native side)."""
import terms
from terms import SymInt, SymBool, X, PathAbort, and_, or_, not_, ite, mkbu, mku, Tab, IDENT, FULL
import rt
import strings
from strings import BaseStr, Str, Uni, S, ch_eq, ch_in
import models


class Candidate(object):
    def __init__(self, msg, values, how):
        self.msg, self.values, self.how = msg, values, how


class SApi(object):
    def __init__(self):
        self.inputs = []         # (name, kind, payload)
        self.obs = []
        self.reached = []
        self.candidates = []
        self.stat = {'obligations': 0, 'discharged': 0, 'structural': 0, 'unknown': 0, 'equalities': 0, 'eqqueries': 0}
        self._n = 0
        self.pairs = []          # equalities of characters already implied by the path: confirmed by the solver at its end

    # -- inputs
    def _mask(self, alphabet, n=None):
        m = 0
        for c in alphabet:
            m |= 1 << c
        return m

    def _char(self, name, codes):
        """a variable ranging over a list of character codes"""
        if len(codes) == 1:
            return codes[0]
        if all(c < 256 for c in codes):
            m = self._mask(codes)
            v = X.newvar(name, m)
            return SymInt('u', v, IDENT)
        assert len(codes) <= 256
        v = X.newvar(name, (1 << len(codes)) - 1)
        return mku(v, Tab(list(codes) + [codes[-1]] * (256 - len(codes))))

    def bytes(self, name, n, alphabet=None):
        name = rt.hs(name)
        codes = list(range(256)) if alphabet is None else sorted(set(alphabet.t))
        t = [self._char('%s[%d]' % (name, i), codes) for i in range(n)]
        self.inputs.append((name, 's', t))
        return Str.mkt(t)

    def text(self, name, n, lo=0, hi=255, alphabet=None):
        name = rt.hs(name)
        codes = list(range(lo, hi + 1)) if alphabet is None else sorted(set(alphabet.t))
        t = [self._char('%s[%d]' % (name, i), codes) for i in range(n)]
        self.inputs.append((name, 's', t))
        return Uni.mkt(t)

    def int(self, name, lo, hi):
        name = rt.hs(name)
        if lo == hi:
            t = lo
        elif hi - lo <= 255:
            v = X.newvar(name, (1 << (hi - lo + 1)) - 1)
            t = mku(v, Tab([min(lo + i, hi) for i in range(256)]))
        else:
            v = X.newvar(name, small=False, lo=lo, hi=hi)
            t = SymInt('v', v)
        self.inputs.append((name, 'i', t))
        return t

    def choice(self, name, items):
        items = list(items)
        i = self.int(name, 0, len(items) - 1)
        i = i.__index__() if isinstance(i, SymInt) else i
        return items[i]

    def bool(self, name):
        i = self.int(name, 0, 1)
        return terms.cmp_('==', i, 1)

    def export(self, m):
        out = {}
        for name, k, t in self.inputs:
            if k == 's':
                out[name] = [terms.evi(c, m) for c in t]
            else:
                out[name] = int(terms.evi(t, m))
        return out

    # -- conditions
    def _cond(self, c):
        if isinstance(c, (bool, SymBool)):
            return X.simp(c) if isinstance(c, SymBool) else c
        return bool(c)

    def assume(self, c):
        c = self._cond(c)
        if c is True:
            return
        if c is False:
            raise Assumed()
        if not X.decide(c):
            raise Assumed()

    def complete(self, m):
        full = dict(m)
        for v in X.vars:
            if v.id not in full:
                full[v.id] = ((X.dom[v.id] & -X.dom[v.id]).bit_length() - 1) if v.small else (v.lo if v.lo is not None else 0)
        return full

    def require(self, c, msg):
        c = self._cond(c)
        msg = rt.hs(msg)
        self.stat['obligations'] += 1
        if c is True:
            self.stat['structural'] += 1
            return
        if c is False:
            r, m = X.check()
            if r == 'sat':
                self.candidates.append(Candidate(msg, self.export(self.complete(m)), 'concrete'))
                raise PathAbort('violated')
            if r == 'unknown':
                self.stat['unknown'] += 1
            raise PathAbort('infeasible')
        r, m = X.check(not_(c))
        if r == 'unsat':
            self.stat['discharged'] += 1
        elif r == 'sat':
            self.candidates.append(Candidate(msg, self.export(self.complete(m)), 'solver'))
        else:
            self.stat['unknown'] += 1
        if r != 'unsat':
            r2, _ = X.check(c)
            if r2 != 'sat':
                raise PathAbort('violated')
            X.assert_(c)

    def confirm(self):
        """one query at the end of a path: no values of the inputs on this path make any of the compared characters differ"""
        if not self.pairs:
            return True
        r, m = X.check(AnyDiffer(self.pairs))
        self.stat['equalities'] += len(self.pairs)
        self.stat['eqqueries'] += 1
        return r == 'unsat'

    def equal(self, a, b, msg):
        self.require(self.same(a, b), msg)

    def same(self, a, b):
        if isinstance(a, BaseStr) or isinstance(b, BaseStr):
            if not (isinstance(a, BaseStr) and isinstance(b, BaseStr)):
                return False
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a.t, b.t):
                e = ch_eq(x, y)
                if e is False:
                    return False
                if e is True:
                    if len(self.pairs) < 600 and (isinstance(x, SymInt) or isinstance(y, SymInt)):
                        self.pairs.append((x, y))
                cs.append(e)
            return and_(*cs)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                e = self.same(x, y)
                if e is False:
                    return False
                cs.append(e)
            return and_(*cs)
        if isinstance(a, dict) and isinstance(b, dict):
            ka, kb = list(dict.items(a)), list(dict.items(b))
            if len(ka) != len(kb):
                return False
            cs = []
            for k, v in ka:
                hit = [w for q, w in kb if bool(self.same(k, q))]
                if not hit:
                    return False
                e = self.same(v, hit[0])
                if e is False:
                    return False
                cs.append(e)
            return and_(*cs)
        r = (a == b)
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def both(self, *cs):
        return and_(*[self._cond(c) for c in cs])

    def either(self, *cs):
        return or_(*[self._cond(c) for c in cs])

    def neg(self, c):
        return not_(self._cond(c))

    def ite(self, c, a, b):
        c = self._cond(c)
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            return ite(c, a, b)
        return a if X.decide(c) else b

    def isin(self, c, alphabet):
        if isinstance(c, BaseStr):
            if len(c) != 1:
                return c in alphabet
            return ch_in(c.t[0], frozenset(alphabet.t))
        return c in alphabet

    def allin(self, s, alphabet):
        vs = frozenset(alphabet.t)
        return and_(*[ch_in(c, vs) for c in s.t])

    # -- observations
    def observe(self, label, v):
        self.obs.append((rt.hs(label), freeze(v)))

    def reach(self, label):
        self.reached.append(rt.hs(label))

    def call(self, f, *args, **kw):
        try:
            return (S('ok'), f(*args, **kw))
        except Exception as e:
            return (S('exc'), excname(e))

    def calle(self, f, *args, **kw):
        try:
            return (S('ok'), f(*args, **kw))
        except Exception as e:
            return (S('exc'), e)

    def kind(self, v):
        return S('text') if isinstance(v, Uni) else S('bytes') if isinstance(v, Str) else S('other')

    def code(self, c):
        return c.t[0]

    def tmpdir(self):
        return S('/scratch')

    def listdir(self, d):
        return sorted(models.os_listdir(d), key=lambda x: x.settle()._c)

    def exists(self, p):
        return models._ospath.exists(p)

    def cd(self, d):
        models.FS.cwd = models._norm(d)

    def mkfile(self, p, data):
        f = models.open_(p, S('wb'))
        f.write(data)
        f.close()

    def seq(self, items):
        return list(items)


class AnyDiffer(object):
    def __init__(self, pairs):
        self.pairs = pairs

    def vars(self):
        vs = set()
        for x, y in self.pairs:
            for t in (x, y):
                if isinstance(t, SymInt):
                    vs |= t.vars()
        return vs

    def z(self):
        z3 = terms.z3
        return z3.Or(*[terms.toz(x) != terms.toz(y) for x, y in self.pairs])


class Assumed(BaseException):
    pass


def excname(e):
    t = type(e)
    return S(rt._NAMES.get(t) or t.__name__)


def freeze(v):
    if v is None or isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, (int, SymInt)):
        return ('I', v)
    if isinstance(v, float):
        return ('f', repr(v))
    if isinstance(v, Uni):
        return ('U', v.t)
    if isinstance(v, Str):
        return ('B', v.t)
    if isinstance(v, dict):
        return ('D', [(freeze(k), freeze(w)) for k, w in dict.items(v)])
    if isinstance(v, tuple):
        return ('T', [freeze(x) for x in v])
    if isinstance(v, list):
        return ('L', [freeze(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ('S', [freeze(x) for x in v])
    if isinstance(v, BaseException):
        return ('e', str(excname(v)._c))
    n = rt._NAMES.get(type(v)) or type(v).__name__
    return ('o', n)


def canon(f, m):
    """a frozen observation under a model -> the comparison form of jython_server.canon"""
    if f is None or f is True or f is False:
        return f
    if isinstance(f, SymBool):
        return bool(f.ev(m))
    k, x = f
    if k == 'I':
        return ('i', str(int(terms.evi(x, m))))
    if k in ('U', 'B'):
        return (k.lower(), [terms.evi(c, m) for c in x])
    if k == 'D':
        return ('d', sorted([(repr(canon(a, m)), canon(b, m)) for a, b in x]))
    if k in ('T', 'L'):
        return (k.lower(), [canon(y, m) for y in x])
    if k == 'S':
        return ('s', sorted(repr(canon(y, m)) for y in x))
    return f
