"""Runs under Jython 2.7: (a) parses Python 2 sources with Jython's own grammar and dumps the trees,
(b) runs harnesses natively on the real code of the repository (replay of solver witnesses).

Line protocol on stdin: <cmd> <python literal>; answers on stdout: one repr() line per command."""
import ast
import jarray
import os
import sys
import threading
import time
from java.lang import Class, Object

sys.setrecursionlimit(4000)
_out = sys.stdout
sys.stdout = sys.stderr


def dump(n):
    if isinstance(n, list):
        return [dump(x) for x in n]
    if isinstance(n, ast.Str):
        s = n.s
        return ('Str', n.lineno, 'u' if isinstance(s, unicode) else 'b', [ord(c) for c in s])
    if isinstance(n, ast.Num):
        v = n.n
        return ('Num', n.lineno, 'f' if isinstance(v, float) else 'i' if isinstance(v, (int, long)) else 'c', str(v) if not isinstance(v, float) else repr(v))
    if isinstance(n, ast.AST):
        d = {}
        for f in n._fields:
            d[f] = dump(getattr(n, f, None))
        return (n.__class__.__name__, getattr(n, 'lineno', 0), d)
    if n is None or isinstance(n, (bool, int)):
        return n
    if str(n) == 'DictComp':
        # not exposed to Python by Jython: read it through Java
        d = {}
        for f, getter in (('key', 'getInternalKey'), ('value', 'getInternalValue'), ('generators', 'getInternalGenerators')):
            m = Class.getMethod(Class.forName('org.python.antlr.ast.DictComp'), getter, jarray.array([], Class))
            v = m.invoke(n, jarray.array([], Object))
            d[f] = [dump(x) for x in v] if f == 'generators' else dump(v)
        return ('DictComp', 0, d)
    return str(n)


def read_source(path):
    if '!' in path:
        jar, name = path.split('!', 1)
        import zipfile
        return zipfile.ZipFile(jar).read(name)
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


class Answer(object):
    pass


def send(x):
    _out.write(repr(x) + '\n')
    _out.flush()


class Missing(BaseException):
    pass


class Values(dict):
    """the real code took another path than the symbolic run and asks for a value that was never chosen"""

    def __missing__(self, k):
        raise Missing(k)


class Api(object):
    """The native side of the harness interface."""

    def __init__(self, values, scratch):
        self.values = Values(values)
        self.obs = []
        self.fails = []
        self.reached = []
        self.scratch = scratch
        self.keep = []

    def bytes(self, name, n, alphabet=None):
        return str(''.join([chr(c) for c in self.values[name]]))

    def text(self, name, n, lo=0, hi=255, alphabet=None):
        return u''.join([unichr(c) for c in self.values[name]])

    def int(self, name, lo, hi):
        return self.values[name]

    def choice(self, name, items):
        return items[self.values[name]]

    def bool(self, name):
        return bool(self.values[name])

    def assume(self, c):
        if not c:
            raise Assumed()

    def require(self, c, msg):
        if not c:
            self.fails.append(msg)

    def equal(self, a, b, msg):
        if not self.same(a, b):
            self.fails.append(msg)

    def same(self, a, b):
        if isinstance(a, (str, unicode)) or isinstance(b, (str, unicode)):
            if not (isinstance(a, (str, unicode)) and isinstance(b, (str, unicode))):
                return False
            if isinstance(a, unicode) == isinstance(b, unicode):
                return bool(a == b)
            return map(ord, a) == map(ord, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.same(x, y):
                    return False
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            ka = dict.items(a)
            kb = dict.items(b)
            if len(ka) != len(kb):
                return False
            for k, v in ka:
                hit = [w for q, w in kb if self.same(k, q)]
                if not hit or not self.same(v, hit[0]):
                    return False
            return True
        return a == b

    def both(self, *cs):
        for c in cs:
            if not c:
                return False
        return True

    def either(self, *cs):
        for c in cs:
            if c:
                return True
        return False

    def neg(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def isin(self, c, alphabet):
        return c in alphabet

    def allin(self, s, alphabet):
        for c in s:
            if c not in alphabet:
                return False
        return True

    def observe(self, label, v):
        self.obs.append((label, canon(v)))

    def reach(self, label):
        self.reached.append(label)

    def call(self, f, *args, **kw):
        try:
            return ('ok', f(*args, **kw))
        except Exception as e:
            return ('exc', e.__class__.__name__)

    def calle(self, f, *args, **kw):
        try:
            return ('ok', f(*args, **kw))
        except Exception as e:
            return ('exc', e)

    def kind(self, v):
        """'bytes' or 'text' for a string."""
        return 'text' if isinstance(v, unicode) else 'bytes' if isinstance(v, str) else 'other'

    def code(self, c):
        return ord(c)

    def tmpdir(self):
        if not os.path.isdir(self.scratch):
            os.makedirs(self.scratch)
        return self.scratch

    def listdir(self, d):
        return sorted(os.listdir(d))

    def exists(self, p):
        return os.path.exists(p)

    def cd(self, d):
        os.chdir(d)

    def mkfile(self, p, data):
        f = open(p, 'wb')
        f.write(data)
        f.close()

    def seq(self, items):
        return list(items)


class Assumed(BaseException):
    pass


def canon(v):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, long)):
        return ('i', str(int(v)))
    if isinstance(v, float):
        return ('f', repr(v))
    if isinstance(v, unicode):
        return ('u', [ord(c) for c in v])
    if isinstance(v, str):
        return ('b', [ord(str.__getitem__(v, i)) for i in range(len(v))])
    if isinstance(v, dict):
        return ('d', sorted([(repr(canon(k)), canon(w)) for k, w in dict.items(v)]))
    if isinstance(v, tuple):
        return ('t', [canon(x) for x in v])
    if isinstance(v, list):
        return ('l', [canon(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ('s', sorted([repr(canon(x)) for x in v]))
    if isinstance(v, BaseException):
        return ('e', v.__class__.__name__)
    return ('o', v.__class__.__name__)


MODS = {}
HOME = os.getcwd()


def harness(name, src):
    if name not in MODS:
        import imp
        m = imp.new_module('h_' + name)
        m.__file__ = src
        code = compile(read_source(src), src, 'exec')
        MODS[name] = m
        exec code in m.__dict__
    return MODS[name]


def conv(x):
    """case description: ASCII unicode/str -> str"""
    if isinstance(x, (str, unicode)):
        return str(x)
    if isinstance(x, list):
        return [conv(y) for y in x]
    if isinstance(x, dict):
        return dict((conv(k), conv(v)) for k, v in x.items())
    return x


def run_one(name, src, case, values, scratch):
    m = harness(name, src)
    api = Api(values, scratch)
    exc = None
    tb = None
    try:
        m.run(api, conv(case))
    except Assumed:
        return ('assumed', None, [], [], [], None)
    except Missing:
        api.obs.append('missing')
    except BaseException as e:
        import traceback
        exc = e.__class__.__name__
        tb = traceback.format_exc()
    finally:
        os.chdir(HOME)
        if scratch and os.path.isdir(scratch):
            import shutil
            shutil.rmtree(scratch, True)
    return ('ran', exc, api.fails, api.obs, api.reached, tb)


def snap_state():
    """module and class level bindings of the repository's modules, restored before every replay"""
    out = []
    seen = set()

    def visit(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        import types
        if isinstance(o, list):
            out.append((o, 'l', list(o)))
            for x in o:
                visit(x)
        elif isinstance(o, dict) and type(o) is dict:
            out.append((o, 'd', dict(o)))
            for x in o.values():
                visit(x)
        elif isinstance(o, set):
            out.append((o, 's', set(o)))
        elif isinstance(o, (type, types.ClassType)) and str(getattr(o, '__module__', '')).startswith('request_parser'):
            b = {}
            for k, v in list(o.__dict__.items()):
                if k not in ('__dict__', '__weakref__', '__doc__'):
                    b[k] = v
                    visit(v)
            out.append((o, 'c', b))
        elif isinstance(o, types.FunctionType) and str(o.__module__).startswith('request_parser'):
            for x in (o.func_defaults or ()):
                visit(x)
            if o.__dict__ is not None:
                visit(o.__dict__)
        elif isinstance(o, types.InstanceType) or str(getattr(type(o), '__module__', '')).startswith('request_parser'):
            try:
                visit(o.__dict__)
            except AttributeError:
                pass
    for n in sorted(sys.modules):
        m = sys.modules[n]
        if n.startswith('request_parser') and m is not None:
            d = {}
            for k, v in list(m.__dict__.items()):
                if not k.startswith('__'):
                    d[k] = v
                    visit(v)
            out.append((m, 'm', d))
    return out


def restore_state(snap):
    for o, k, v in snap:
        try:
            if k == 'l':
                if o != v:
                    o[:] = v
            elif k == 'd':
                if o != v:
                    o.clear()
                    o.update(v)
            elif k == 's':
                if o != v:
                    o.clear()
                    o.update(v)
            else:
                for a, b in v.items():
                    if k == 'm':
                        if o.__dict__.get(a, o) is not b:
                            setattr(o, a, b)
                    elif o.__dict__.get(a, o) is not b:
                        setattr(o, a, b)
                for a in list(o.__dict__.keys()):
                    if a not in v and not a.startswith('__'):
                        try:
                            delattr(o, a)
                        except Exception:
                            pass
        except Exception:
            pass


def main():
    snap = None
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        cmd, _, arg = line.partition(' ')
        arg = eval(arg)
        try:
            if cmd == 'path':
                for p in arg[::-1]:
                    sys.path.insert(0, p)
                send(('ok', None))
            elif cmd == 'parse':
                src = read_source(arg)
                try:
                    tree = compile(src, arg, 'exec', ast.PyCF_ONLY_AST, 1)
                    send(('ok', dump(tree.body)))
                except SyntaxError as e:
                    send(('syntax', str(e)))
            elif cmd == 'module':
                try:
                    __import__(arg)
                    send(('ok', sorted(dir(sys.modules[arg]))))
                except ImportError:
                    send(('ok', None))
            elif cmd == 'modules':
                import pkgutil
                send(('ok', sorted(set([m[1] for m in pkgutil.iter_modules()]) | set(sys.builtin_module_names) | set(sys.modules) | set(['java', 'javax', 'org', 'com']))))
            elif cmd == 'load':
                name, src = arg
                try:
                    harness(name, src)
                    snap = snap_state()
                    send(('ok', None))
                except BaseException:
                    import traceback
                    send(('error', traceback.format_exc()))
            elif cmd == 'run':
                name, src, items, scratch = arg
                out = []
                for i, (case, values) in enumerate(items):
                    if snap is not None:
                        restore_state(snap)
                    out.append(run_one(name, src, case, values, '%s/%d' % (scratch, i)))
                send(('ok', out))
            elif cmd == 'quit':
                break
        except BaseException:
            import traceback
            send(('error', traceback.format_exc()))


main()
