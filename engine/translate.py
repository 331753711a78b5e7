"""Python 2 syntax trees (dumped by Jython) -> host Python 3 code over the symbolic runtime."""
import ast
import builtins as _b
import os
import sys
import types

import rt
from strings import Str, Uni


class TranslateError(Exception):
    pass


BIN = {'Add': ast.Add, 'Sub': ast.Sub, 'Mult': ast.Mult, 'Mod': ast.Mod, 'Pow': ast.Pow, 'LShift': ast.LShift,
       'RShift': ast.RShift, 'BitOr': ast.BitOr, 'BitXor': ast.BitXor, 'BitAnd': ast.BitAnd, 'FloorDiv': ast.FloorDiv, 'Div': None}
UN = {'Invert': ast.Invert, 'Not': ast.Not, 'UAdd': ast.UAdd, 'USub': ast.USub}
CMP = {'Eq': ast.Eq, 'NotEq': ast.NotEq, 'Lt': ast.Lt, 'LtE': ast.LtE, 'Gt': ast.Gt, 'GtE': ast.GtE, 'Is': ast.Is,
       'IsNot': ast.IsNot, 'In': ast.In, 'NotIn': ast.NotIn}
ORD = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}


def load(n):
    return ast.Name(id=n, ctx=ast.Load())


def rtattr(n):
    return ast.Attribute(value=load('_rt'), attr=n, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


class Tr(object):
    def __init__(self, modname, path):
        self.modname = modname
        self.path = path
        self.consts = {}
        self.values = []
        self.truediv = False
        self.scope = []
        self.funcs = []
        self.nlines = 0

    # -- constants
    def const(self, kind, codes):
        key = (kind, tuple(codes))
        if key not in self.consts:
            self.consts[key] = '_K%d_' % len(self.consts)
            s = ''.join(map(chr, codes))
            self.values.append((self.consts[key], Uni.mk(s) if kind == 'u' else Str.mk(s)))
        return load(self.consts[key])

    def cstr(self, s):
        return self.const('b', [ord(c) for c in s])

    def module(self, body):
        out = self.stmts(body)
        m = ast.Module(body=out, type_ignores=[])
        ast.fix_missing_locations(m)
        return m

    # -- statements
    def stmts(self, body):
        out = []
        for n in body:
            r = self.stmt(n)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def block(self, body):
        return self.stmts(body) or [ast.Pass()]

    def stmt(self, n):
        k, line, f = n[0], n[1], n[2]
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise TranslateError('statement ' + k)
        r = m(f, line)
        for x in (r if isinstance(r, list) else [r]):
            if x is not None:
                x.lineno = x.end_lineno = line or 1
                x.col_offset = x.end_col_offset = 0
                for s in ast.walk(x):
                    if not hasattr(s, 'lineno') and 'lineno' in getattr(s, '_attributes', ()):
                        s.lineno = s.end_lineno = line or 1
                        s.col_offset = s.end_col_offset = 0
        return r

    def isgen(self, body):
        """does a function body contain a yield of its own?"""
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack.extend(n)
                continue
            if not isinstance(n, tuple) or len(n) < 3 or not isinstance(n[0], str):
                continue
            if n[0] == 'Yield':
                return True
            if n[0] in ('FunctionDef', 'ClassDef', 'Lambda', 'Str', 'Num'):
                continue
            if isinstance(n[2], dict):
                stack.extend(n[2].values())
        return False

    def args(self, a):
        f = a[2]
        pre = []
        names = []
        for p in f['args']:
            if p[0] == 'Name':
                names.append(p[2]['id'])
            else:
                tmp = '_tup%d_' % len(names)
                names.append(tmp)
                pre.append(ast.Assign(targets=[self.expr(p)], value=load(tmp)))
        kwarg = f['kwarg']
        if kwarg:
            pre.insert(0, ast.Assign(targets=[ast.Name(id=kwarg, ctx=ast.Store())], value=call(rtattr('kwin'), load(kwarg))))
        r = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names],
                          vararg=ast.arg(arg=f['vararg']) if f['vararg'] else None, kwonlyargs=[], kw_defaults=[],
                          kwarg=ast.arg(arg=kwarg) if kwarg else None, defaults=[self.expr(d) for d in f['defaults']])
        return r, pre

    def s_FunctionDef(self, f, line):
        a, pre = self.args(f['args'])
        self.scope.append(f['name'])
        qual = self.modname + ':' + '.'.join(self.scope)
        self.funcs.append((qual, line))
        self.inclass = getattr(self, 'inclass', 0)
        body = self.block(f['body'])
        self.scope.pop()
        enter = ast.Expr(value=call(load('_F'), ast.Constant(value=qual)))
        if self.isgen(f['body']):
            body = [ast.Try(body=body, handlers=[ast.ExceptHandler(type=load('StopIteration'), name=None, body=[ast.Return(value=None)])],
                            orelse=[], finalbody=[])]
        return ast.FunctionDef(name=f['name'], args=a, body=[enter] + pre + body, decorator_list=[self.expr(d) for d in f['decorator_list']],
                               returns=None, type_params=[])

    def s_ClassDef(self, f, line):
        self.scope.append(f['name'])
        body = self.block(f['body'])
        self.scope.pop()
        decs = [self.expr(d) for d in f['decorator_list']]
        decs.append(rtattr('cls2') if f['bases'] else rtattr('oldcls'))
        return ast.ClassDef(name=f['name'], bases=[self.expr(b) for b in f['bases']], keywords=[], body=body, decorator_list=decs, type_params=[])

    def s_Return(self, f, line):
        return ast.Return(value=self.opt(f['value']))

    def s_Delete(self, f, line):
        return ast.Delete(targets=[self.expr(t) for t in f['targets']])

    def s_Assign(self, f, line):
        ts = f['targets']
        if len(ts) == 1 and ts[0][0] == 'Name' and ts[0][2]['id'] == '__slots__':
            return None
        return ast.Assign(targets=[self.expr(t) for t in ts], value=self.expr(f['value']))

    def s_AugAssign(self, f, line):
        op = opname(f['op'])
        t = self.expr(f['target'])
        if op == 'Div':
            import copy
            u = copy.deepcopy(t)
            u.ctx = ast.Load()
            return ast.Assign(targets=[t], value=call(rtattr('div'), u, self.expr(f['value'])))
        return ast.AugAssign(target=t, op=BIN[op](), value=self.expr(f['value']))

    def s_Print(self, f, line):
        return ast.Expr(value=call(rtattr('print_'), *[self.expr(v) for v in f['values']]))

    def tick(self):
        return ast.Expr(value=call(load('_T')))

    def s_For(self, f, line):
        return ast.For(target=self.expr(f['target']), iter=self.expr(f['iter']), body=[self.tick()] + self.block(f['body']),
                       orelse=self.stmts(f['orelse'] or []))

    def s_While(self, f, line):
        return ast.While(test=self.expr(f['test']), body=[self.tick()] + self.block(f['body']), orelse=self.stmts(f['orelse'] or []))

    def s_If(self, f, line):
        return ast.If(test=self.expr(f['test']), body=self.block(f['body']), orelse=self.stmts(f['orelse'] or []))

    def s_With(self, f, line):
        items = f.get('items')
        if items:
            its = [ast.withitem(context_expr=self.expr(i[2]['context_expr']), optional_vars=self.opt(i[2]['optional_vars'])) for i in items]
        else:
            its = [ast.withitem(context_expr=self.expr(f['context_expr']), optional_vars=self.opt(f['optional_vars']))]
        return ast.With(items=its, body=self.block(f['body']))

    def s_Raise(self, f, line):
        if f['type'] is None:
            return ast.Raise(exc=None, cause=None)
        a = [self.expr(f['type'])]
        if f['inst'] is not None:
            a.append(self.expr(f['inst']))
        return ast.Raise(exc=call(rtattr('mkexc'), *a), cause=None)

    def s_TryExcept(self, f, line):
        hs = []
        for h in f['handlers']:
            hf = h[2]
            body = self.block(hf['body'])
            typ = self.expr(hf['type']) if hf['type'] is not None else rtattr('BARE')
            name = None
            if hf['name'] is not None:
                if hf['name'][0] == 'Name':
                    name = '_exc_'
                    body = [ast.Assign(targets=[self.expr(hf['name'])], value=load('_exc_'))] + body
                else:
                    name = '_exc_'
                    body = [ast.Assign(targets=[self.expr(hf['name'])], value=load('_exc_'))] + body
            hd = ast.ExceptHandler(type=typ, name=name, body=body)
            hd.lineno = hd.end_lineno = h[1] or line or 1
            hd.col_offset = hd.end_col_offset = 0
            hs.append(hd)
        return ast.Try(body=self.block(f['body']), handlers=hs, orelse=self.stmts(f['orelse'] or []), finalbody=[])

    def s_TryFinally(self, f, line):
        return ast.Try(body=self.block(f['body']), handlers=[], orelse=[], finalbody=self.block(f['finalbody']))

    def s_Assert(self, f, line):
        return ast.Assert(test=self.expr(f['test']), msg=self.opt(f['msg']))

    def s_Import(self, f, line):
        out = []
        for a in f['names']:
            af = a[2]
            out.append(ast.Import(names=[ast.alias(name=af['name'], asname=af['asname'])]))
        return out

    def s_ImportFrom(self, f, line):
        mod = f['module']
        names = [(a[2]['name'], a[2]['asname']) for a in f['names']]
        if mod == '__future__':
            for n, _ in names:
                if n == 'division':
                    self.truediv = True
            return None
        level = f['level'] or 0
        if names == [('*', None)]:
            return ast.Expr(value=call(rtattr('star'), call(load('globals')), ast.Constant(value=mod or ''), ast.Constant(value=level)))
        return ast.ImportFrom(module=mod, names=[ast.alias(name=n, asname=a) for n, a in names], level=level)

    def s_Exec(self, f, line):
        return ast.Expr(value=call(rtattr('unsupported'), ast.Constant(value='exec')))

    def s_Global(self, f, line):
        return ast.Global(names=list(f['names']))

    def s_Expr(self, f, line):
        if f['value'][0] == 'Str':
            return None
        return ast.Expr(value=self.expr(f['value']))

    def s_Pass(self, f, line):
        return ast.Pass()

    def s_Break(self, f, line):
        return ast.Break()

    def s_Continue(self, f, line):
        return ast.Continue()

    # -- expressions
    def opt(self, n):
        return None if n is None else self.expr(n)

    def expr(self, n):
        k = n[0]
        if k == 'Str':
            return self.const(n[2], n[3])
        if k == 'Num':
            if n[2] == 'i':
                return ast.Constant(value=int(n[3].rstrip('Ll')))
            if n[2] == 'f':
                return ast.Constant(value=float(n[3]))
            return ast.Constant(value=complex(n[3]))
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise TranslateError('expression ' + k)
        return m(n[2])

    def e_BoolOp(self, f):
        return ast.BoolOp(op=ast.And() if opname(f['op']) == 'And' else ast.Or(), values=[self.expr(v) for v in f['values']])

    def e_BinOp(self, f):
        op = opname(f['op'])
        a, b = self.expr(f['left']), self.expr(f['right'])
        if op == 'Div':
            return ast.BinOp(left=a, op=ast.Div(), right=b) if self.truediv else call(rtattr('div'), a, b)
        return ast.BinOp(left=a, op=BIN[op](), right=b)

    def e_UnaryOp(self, f):
        return ast.UnaryOp(op=UN[opname(f['op'])](), operand=self.expr(f['operand']))

    def e_Lambda(self, f):
        a, pre = self.args(f['args'])
        if pre:
            raise TranslateError('lambda arguments')
        return ast.Lambda(args=a, body=self.expr(f['body']))

    def e_IfExp(self, f):
        return ast.IfExp(test=self.expr(f['test']), body=self.expr(f['body']), orelse=self.expr(f['orelse']))

    def e_Dict(self, f):
        ps = [ast.Tuple(elts=[self.expr(k), self.expr(v)], ctx=ast.Load()) for k, v in zip(f['keys'], f['values'])]
        return call(rtattr('mkdict'), ast.Tuple(elts=ps, ctx=ast.Load()))

    def e_Set(self, f):
        return ast.Set(elts=[self.expr(x) for x in f['elts']])

    def gens(self, gs):
        return [ast.comprehension(target=self.expr(g[2]['target']), iter=self.expr(g[2]['iter']), ifs=[self.expr(i) for i in g[2]['ifs']], is_async=0)
                for g in gs]

    def e_ListComp(self, f):
        return ast.ListComp(elt=self.expr(f['elt']), generators=self.gens(f['generators']))

    def e_SetComp(self, f):
        return ast.SetComp(elt=self.expr(f['elt']), generators=self.gens(f['generators']))

    def e_GeneratorExp(self, f):
        return ast.GeneratorExp(elt=self.expr(f['elt']), generators=self.gens(f['generators']))

    def e_DictComp(self, f):
        elt = ast.Tuple(elts=[self.expr(f['key']), self.expr(f['value'])], ctx=ast.Load())
        return call(rtattr('mkdict'), ast.GeneratorExp(elt=elt, generators=self.gens(f['generators'])))

    def e_Yield(self, f):
        return ast.Yield(value=self.opt(f['value']))

    def e_Compare(self, f):
        ops = [opname(o) for o in f['ops']]
        left = self.expr(f['left'])
        cs = [self.expr(c) for c in f['comparators']]
        if len(ops) == 1 and ops[0] in ORD:
            return call(rtattr(ORD[ops[0]]), left, cs[0])
        return ast.Compare(left=left, ops=[CMP[o]() for o in ops], comparators=cs)

    def e_Call(self, f):
        args = [self.expr(a) for a in f['args']]
        kws = [ast.keyword(arg=k[2]['arg'], value=self.expr(k[2]['value'])) for k in f['keywords'] or []]
        if f['starargs'] is not None:
            args.append(ast.Starred(value=self.expr(f['starargs']), ctx=ast.Load()))
        if f['kwargs'] is not None:
            kws.append(ast.keyword(arg=None, value=call(rtattr('kw'), self.expr(f['kwargs']))))
        fn = f['func']
        if fn[0] == 'Name' and fn[2]['id'] in ('globals', 'locals') and not args:
            return call(rtattr('kwin'), call(load(fn[2]['id'])))
        return ast.Call(func=self.expr(fn), args=args, keywords=kws)

    def e_Repr(self, f):
        return call(rtattr('repr_'), self.expr(f['value']))

    def ctx(self, f):
        c = f['ctx']
        c = c if isinstance(c, str) else c[0]
        return ast.Store() if 'Store' in c else ast.Del() if 'Del' in c else ast.Load()

    def e_Attribute(self, f):
        c = self.ctx(f)
        v = self.expr(f['value'])
        a = f['attr']
        if isinstance(c, ast.Load):
            if a == 'next':
                return call(rtattr('get_next'), v)
            if a == '__dict__':
                return call(rtattr('getdict'), v)
            if a == '__name__':
                return call(rtattr('getname'), v)
            if a == 'message':
                return call(rtattr('getmessage'), v)
            if a == 'args':
                return call(rtattr('getargs'), v)
            if a in ('__file__', '__doc__', '__module__', '__path__'):
                return call(rtattr('getattr_'), v, self.cstr(a))
        return ast.Attribute(value=v, attr=a, ctx=c)

    def e_Subscript(self, f):
        return ast.Subscript(value=self.expr(f['value']), slice=self.slice(f['slice']), ctx=self.ctx(f))

    def slice(self, s):
        k, f = s[0], s[2]
        if k == 'Index':
            return self.expr(f['value'])
        if k == 'Slice':
            st = f['step']
            return ast.Slice(lower=self.opt(f['lower']), upper=self.opt(f['upper']), step=self.opt(st))
        if k == 'ExtSlice':
            return ast.Tuple(elts=[self.slice(d) for d in f['dims']], ctx=ast.Load())
        if k == 'Ellipsis':
            return ast.Constant(value=Ellipsis)
        raise TranslateError('slice ' + k)

    def e_Name(self, f):
        i = f['id']
        if i in ('None', 'True', 'False') and isinstance(self.ctx(f), ast.Load):
            return ast.Constant(value={'None': None, 'True': True, 'False': False}[i])
        if i in ('__name__', '__file__') and isinstance(self.ctx(f), ast.Load):
            return self.cstr(self.modname if i == '__name__' else self.path)
        return ast.Name(id=i, ctx=self.ctx(f))

    def e_List(self, f):
        return ast.List(elts=[self.expr(x) for x in f['elts']], ctx=self.ctx(f))

    def e_Tuple(self, f):
        return ast.Tuple(elts=[self.expr(x) for x in f['elts']], ctx=self.ctx(f))


def opname(o):
    return o if isinstance(o, str) else o[0]


# ------------------------------------------------------------------ the importer

class Importer(object):
    """Loads translated modules of the repository; everything else comes from the models."""

    def __init__(self, roots, parse, models):
        self.roots = roots          # /repo, harness directory
        self.found = {}
        self.code = {}
        self.parse = parse          # path -> statement list
        self.models = models        # name -> module
        self.mods = {}
        self.entered = set()
        self.hits = {}
        self.trees = {}
        self.builtins = dict(rt.BUILTINS)
        self.builtins['__import__'] = self.imp
        self.builtins['globals'] = globals_ph
        self.builtins['_T'] = rt.tick
        self.builtins['_F'] = self.enter
        self.builtins['_rt'] = rt
        self.builtins['locals'] = _b.locals
        self.builtins['globals'] = _b.globals
        rt.star = self.star
        self.constvals = []

    def enter(self, q):
        self.entered.add(q)

    def find(self, name):
        r = self.found.get(name)
        if r is None:
            r = (None, False)
            for root in self.roots:
                p = os.path.join(root, *name.split('.'))
                if os.path.isfile(os.path.join(p, '__init__.py')):
                    r = os.path.join(p, '__init__.py'), True
                    break
                if os.path.isfile(p + '.py'):
                    r = p + '.py', False
                    break
            self.found[name] = r
        return r

    def fresh(self):
        """forget the module objects (not the code): the next load runs the module bodies again"""
        self.mods = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.models:
            return self.models[name]
        path, pkg = self.find(name)
        if path is None:
            names = self.ask(name)
            if names is None:
                raise ImportError('No module named %s' % name)
            return self.opaque(name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [Str.mk(os.path.dirname(path))]
        self.mods[name] = m
        try:
            self.execute(m, name, path)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def execute(self, m, name, path):
        if name not in self.code:
            body = self.parse(path)
            tr = Tr(name, path)
            tree = tr.module(body)
            self.trees[name] = tr.funcs
            self.code[name] = (compile(tree, path, 'exec', dont_inherit=True), tr.values)
        code, values = self.code[name]
        g = m.__dict__
        g['__builtins__'] = self.builtins
        for k, v in values:
            g[k] = v
        exec(code, g)

    def exists(self, name):
        return name in self.mods or name in self.models or self.find(name)[0] is not None

    def resolve(self, name, g, level):
        pkg = g.get('__package__') if g else None
        if level and level > 0:
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            return '.'.join(base + ([name] if name else []))
        if pkg and name:
            first = name.split('.')[0]
            cand = pkg + '.' + first
            if self.find(cand)[0] is not None and cand != g.get('__name__'):
                return pkg + '.' + name
        return name

    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        full = self.resolve(name, g, level)
        try:
            parts = full.split('.')
            for i in range(1, len(parts) + 1):
                sub = '.'.join(parts[:i])
                m = self.load(sub)
                if i > 1:
                    par = self.load('.'.join(parts[:i - 1]))
                    if not hasattr(par, parts[i - 1]):
                        setattr(par, parts[i - 1], m)
        except ImportError:
            raise
        if fromlist:
            for n in fromlist:
                if not hasattr(m, n) and self.find(full + '.' + n)[0] is not None:
                    setattr(m, n, self.load(full + '.' + n))
                elif not hasattr(m, n) and full + '.' + n in self.models:
                    setattr(m, n, self.models[full + '.' + n])
            return m
        return self.load(parts[0]) if full == name or not g.get('__package__') else self.load('.'.join(parts[:len(g['__package__'].split('.')) + 1]))

    def star(self, g, mod, level):
        m = self.imp(mod, g, None, ('*',), level)
        names = getattr(m, '__all__', None)
        names = [rt.hs(n) for n in names] if names is not None else [n for n in m.__dict__ if not n.startswith('_')]
        for n in names:
            g[n] = getattr(m, n)


def globals_ph():
    return {}
