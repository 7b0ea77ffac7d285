#!/usr/bin/env python3
"""Behaviour-preserving rewritings applied everywhere they fit: autoref.py [-t TRANSFORM] [-f FILE] [-c CHECK,..] [-T]

Every transformation is applied to the whole package (or one file) in a scratch copy and the checks are run on it; all have to
stay quiet.  -T runs the test suite on the copy, too.  -o DIR keeps the copy.
"""
import argparse, ast, concurrent.futures as cf, copy, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, base='tmp'):
        self.n += 1
        return '%s_%d' % (base, self.n)


def name(s, ctx=None):
    return ast.Name(s, ctx or ast.Load())


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(t.ops[0]))
        if m:
            return ast.Compare(t.left, [m()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Invert(T):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(negate(n.test), n.orelse, n.body)
        return n


class Pass(T):
    """if c: A -> if not c: pass else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return ast.If(negate(n.test), [ast.Pass()], n.body)
        return n


class Late(T):
    """early exit: if c: return..; REST -> if c: return.. else: REST (and the reverse)"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and body[i + 1:]:
                out.append(ast.If(s.test, s.body, self.block(body[i + 1:])))
                return out
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class Early(T):
    """if c: A(ends) else: B -> if c: A; B"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and ends(s.body) and s.orelse:
                out.append(ast.If(s.test, s.body, []))
                out += s.orelse
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b:
                setattr(n, f, self.block(b))
        return n


class Temps(T):
    """arguments, returned values and conditions get names"""
    def names(self, e, out, top=True):
        if isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args):
            for i, a in enumerate(e.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Tuple, ast.Dict, ast.List)) and self.simple(e.args[:i]) and self.pure(e.func):
                    t = self.fresh('arg')
                    out.append(ast.Assign([name(t, ast.Store())], a))
                    e.args[i] = name(t)
        return e

    def pure(self, f):
        return isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and self.pure(f.value)

    def simple(self, xs):
        return all(isinstance(x, (ast.Name, ast.Constant)) for x in xs)

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call):
                pre = []
                if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript,))):
                    self.names(s.value, pre)
                out += pre
            elif isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = self.fresh('value')
                out.append(ast.Assign([name(t, ast.Store())], s.value))
                s = ast.Return(name(t))
            elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not (isinstance(s.test, ast.Compare) and any(isinstance(x, ast.Name) and x.id == 'HAVE_QT' for x in ast.walk(s.test))):
                t = self.fresh('cond')
                out.append(ast.Assign([name(t, ast.Store())], s.test))
                s.test = name(t)
            elif isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
                t = self.fresh('error')
                out.append(ast.Assign([name(t, ast.Store())], s.exc))
                s.exc = name(t)
            elif isinstance(s, ast.For) and isinstance(s.iter, (ast.Call, ast.Attribute)):
                t = self.fresh('items')
                out.append(ast.Assign([name(t, ast.Store())], s.iter))
                s.iter = name(t)
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        for x in ast.walk(n):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(x, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(x, f, self.block(b))
        return n


class Aug(T):
    """x += y -> x = x + y"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            if isinstance(n.value, (ast.List, ast.Call)) or isinstance(n.target, ast.Name) and n.target.id == 'exc_str':
                return n
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
        return n


class ForWhile(T):
    """for x in xs: A -> it = iter(xs); while True: try: x = next(it) except StopIteration: break; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = self.fresh('it')
        return [ast.Assign([name(it, ast.Store())], ast.Call(name('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Call(name('next'), [name(it)], []))],
                                                       [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])] + n.body, [])]


class ForNext(T):
    """for x in xs: A -> it = iter(xs); while True: x = next(it, _end); if x is _end: break; A"""
    def visit_Module(self, m):
        self.generic_visit(m)
        if self.n:
            k = 0
            while k < len(m.body) and isinstance(m.body[k], (ast.Import, ast.ImportFrom, ast.Expr)):
                k += 1
            m.body.insert(k, ast.parse('_end = object()').body[0])
        return m

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, ast.Name):
            return n
        it = self.fresh('it')
        return [ast.Assign([name(it, ast.Store())], ast.Call(name('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Assign([n.target], ast.Call(name('next'), [name(it), name('_end')], [])),
                                               ast.If(ast.Compare(name(n.target.id), [ast.Is()], [name('_end')]), [ast.Break()], [])] + n.body, [])]


class ForPop(T):
    """for x in xs: A -> q = list(xs); while q: x = q.pop(0); A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        q = self.fresh('queue')
        return [ast.Assign([name(q, ast.Store())], ast.Call(name('list'), [n.iter], [])),
                ast.While(name(q), [ast.Assign([n.target], ast.Call(ast.Attribute(name(q), 'pop', ast.Load()), [ast.Constant(0)], []))] + n.body, [])]


class ForIndex(T):
    """for x in xs: A -> seq = list(xs); i = 0; while i < len(seq): x = seq[i]; i += 1; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        q, i = self.fresh('seq'), self.fresh('i')
        return [ast.Assign([name(q, ast.Store())], ast.Call(name('list'), [n.iter], [])), ast.parse(i + ' = 0').body[0],
                ast.While(ast.parse('%s < len(%s)' % (i, q)).body[0].value, [ast.Assign([n.target], ast.parse('%s[%s]' % (q, i)).body[0].value), ast.parse(i + ' += 1').body[0]] + n.body, [])]


class ForRange(T):
    """for x in xs: A -> seq = list(xs); for i in range(len(seq)): x = seq[i]; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        q, i = self.fresh('seq'), self.fresh('i')
        return [ast.Assign([name(q, ast.Store())], ast.Call(name('list'), [n.iter], [])),
                ast.For(name(i, ast.Store()), ast.parse('range(len(%s))' % q).body[0].value, [ast.Assign([n.target], ast.parse('%s[%s]' % (q, i)).body[0].value)] + n.body, [])]


class ForEnum(T):
    """for x in xs: A -> for i, x in enumerate(xs): A"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([name(self.fresh('i'), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(name('enumerate'), [n.iter], [])
        return n


class ForList(T):
    """for x in xs -> for x in list(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(name('list'), [n.iter], [])
        return n


class WithLock(T):
    """with lock: A -> lock.acquire(); try: A finally: lock.release()"""
    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) == 1 and n.items[0].optional_vars is None and 'lock' in ast.unparse(n.items[0].context_expr):
            l = n.items[0].context_expr
            return [ast.Expr(ast.Call(ast.Attribute(l, 'acquire', ast.Load()), [], [])),
                    ast.Try(n.body, [], [], [ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(l), 'release', ast.Load()), [], []))])]
        return n


class WhileTrue(T):
    """while c: A -> while True: if not c: break; A"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [ast.If(negate(n.test), [ast.Break()], [])] + n.body, [])


class NestAnd(T):
    """if a and b: A -> if a: if b: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            r = n.body
            for v in reversed(n.test.values):
                r = [ast.If(v, r, [])]
            return r[0]
        return n


class Rename(T):
    """local variables get other names"""
    def visit_FunctionDef(self, n):
        glob = {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        params = {a.arg for x in ast.walk(n) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs + x.posonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
        inner = {y.id for x in ast.walk(n) if isinstance(x, FUNC + (ast.ClassDef,)) and x is not n for y in ast.walk(x) if isinstance(y, ast.Name)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        loc -= glob | params | inner
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
            elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_v'
        return n


class Impl(T):
    """def f(self, a): BODY -> def f(self, a): return self._f_impl(a); def _f_impl(self, a): BODY"""
    def visit_ClassDef(self, n):
        body = []
        for f in n.body:
            a = f.args if isinstance(f, ast.FunctionDef) else None
            if a and not f.decorator_list and a.args and a.args[0].arg == 'self' and not f.name.startswith('__') and not a.kwonlyargs and not a.posonlyargs and \
                    not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = '_impl_%s_%s' % (n.name.lower(), f.name.strip("_") + "_" * f.name.startswith("_"))
                g.args.defaults = []
                doc = [f.body[0]] if ast.get_docstring(f) is not None else []
                call = ast.Call(ast.Attribute(name('self'), g.name, ast.Load()), [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
                f.body = doc + [ast.Return(call)]
                body += [f, g]
            else:
                body.append(f)
        n.body = body
        return n


class ImplFunc(T):
    """module functions and static methods: body moved to another function"""
    def visit_Module(self, n):
        body = []
        for f in n.body:
            a = f.args if isinstance(f, ast.FunctionDef) else None
            if a and not f.decorator_list and not a.kwonlyargs and not a.posonlyargs and not a.vararg and not a.kwarg:
                g = copy.deepcopy(f)
                g.name = '_impl_' + f.name.strip("_") + "_" * f.name.startswith("_")
                g.args.defaults = []
                doc = [f.body[0]] if ast.get_docstring(f) is not None else []
                f.body = doc + [ast.Return(ast.Call(name(g.name), [name(x.arg) for x in a.args], []))]
                body += [g, f]
            else:
                body.append(f)
        n.body = body
        return n


class Swap(T):
    """a == b -> b == a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
            return ast.Compare(n.comparators[0], [m()], [n.left])
        return n


class Ternary(T):
    """if c: x = a else: x = b -> x = a if c else b; and return"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == len(b.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
        return n


class Format(T):
    """f'..{x}..' -> '..{}..'.format(x); '%' stays"""
    def visit_JoinedStr(self, n):
        s, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None or v.conversion not in (-1,):
                    return n
                s += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])


class Percent(T):
    """'..%s..' % (a, b) -> '..{}..'.format(a, b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            s = n.left.value
            import re
            if re.sub('%s', '', s).count('%') == 0 and '{' not in s:
                args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(args) == s.count('%s') and (isinstance(n.right, ast.Tuple) or not isinstance(n.right, ast.Name)):
                    return ast.Call(ast.Attribute(ast.Constant(s.replace('%s', '{}')), 'format', ast.Load()), args, [])
        return n


class Logs(T):
    """a log message at the start of every function of a module that has a logger"""
    def visit_Module(self, m):
        if not any(isinstance(s, ast.Assign) and ast.unparse(s.targets[0]) == 'logger' for s in m.body):
            return m
        for x in ast.walk(m):
            if isinstance(x, ast.FunctionDef) and x.name != 'handle':
                i = 1 if ast.get_docstring(x) is not None else 0
                if any(isinstance(s, ast.Global) and 'logger' in s.names for s in ast.walk(x)) or any(a.arg == 'logger' for a in x.args.args):
                    continue
                x.body.insert(i, ast.parse("logger.debug('entering %s')" % x.name).body[0])
        return m


class Annot(T):
    """locals assigned with annotations; parameters annotated"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for a in n.args.args:
            if a.arg not in ('self', 'cls'):
                a.annotation = ast.Constant('object')
        glob = {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        class V(ast.NodeTransformer):
            def visit_Assign(self, s):
                if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in glob:
                    return ast.AnnAssign(s.targets[0], ast.Constant('object'), s.value, 1)
                return s
        return V().visit(n)


class TryElse(T):
    """try: A; B except -> unchanged;  try: A except: H; C -> finally: pass"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if not n.finalbody:
            n.finalbody = [ast.Pass()]
        return n


class GetNone(T):
    """d.get(k, None) -> d.get(k)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value is None:
            n.args = n.args[:1]
        return n


class DictCall(T):
    """{'a': x} -> dict(a=x)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class DictStep(T):
    """x = {'a': 1} -> x = {}; x['a'] = 1"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Dict) and n.value.keys and all(k is not None for k in n.value.keys):
            t = n.targets[0].id
            return [ast.Assign([name(t, ast.Store())], ast.Dict([], []))] + [ast.Assign([ast.Subscript(name(t), k, ast.Store())], v) for k, v in zip(n.value.keys, n.value.values)]
        return n


class SelfLocal(T):
    """methods use a local alias of self"""
    def visit_ClassDef(self, n):
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'self' and not any(isinstance(x, FUNC + (ast.ClassDef, ast.Lambda)) for s in f.body for x in ast.walk(s)):
                for s in f.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and x.id == 'self':
                            x.id = 'this'
                i = 1 if ast.get_docstring(f) is not None else 0
                f.body.insert(i, ast.parse('this = self').body[0])
        return n


class Guard(T):
    """the body of a loop that is one if -> if not: continue"""
    def loop(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(negate(i.test), [ast.Continue()], [])] + i.body
        return n
    visit_For = visit_While = loop


class ClassRef(T):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(name('isinstance'), [n.args[0], t], []) for t in n.args[1].elts])
        return n


class InOr(T):
    """x in (a, b) -> x == a or x == b (strings only)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Tuple) and isinstance(n.left, ast.Name) and \
                all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n


class Consts(T):
    """string constants used in comparisons and dict keys become module constants"""
    def visit_Module(self, m):
        seen = {}
        outer = self
        class V(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                return n
            def visit_Constant(self, n):
                if isinstance(n.value, str) and n.value.isidentifier() and len(n.value) > 2:
                    seen.setdefault(n.value, '_C_' + n.value.upper())
                    return name(seen[n.value])
                return n
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        f.body = [x if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) else V().visit(x) for x in f.body]
            elif isinstance(s, ast.FunctionDef):
                s.body = [x if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) else V().visit(x) for x in s.body]
        k = 0
        while k < len(m.body) and (isinstance(m.body[k], (ast.Import, ast.ImportFrom)) or isinstance(m.body[k], ast.Expr)):
            k += 1
        m.body[k:k] = [ast.Assign([name(v, ast.Store())], ast.Constant(c)) for c, v in seen.items()]
        return m


class DeMorgan(T):
    """a and b -> not (not a or not b) in conditions"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [negate(v) for v in n.test.values]))
        return n


class ElseReturn(T):
    """functions that fall off the end return None explicitly"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not ends(n.body) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            n.body.append(ast.Return(ast.Constant(None)))
        return n


class Finally(T):
    """try: A except: H; raise  ->  ok flag with finally is not tried; bare except -> except BaseException"""
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = name('BaseException')
        return n


class Unpack(T):
    """a, b = xs -> pair = xs; a = pair[0].. (calls of known arity: tuple targets of names)"""
    def visit_Assign(self, n):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call) and all(isinstance(e, ast.Name) for e in t.elts) and len(t.elts) == 2 and '_read_one' in ast.unparse(n.value):
            v = self.fresh('pair')
            return [ast.Assign([name(v, ast.Store())], n.value)] + [ast.Assign([e], ast.Subscript(name(v), ast.Constant(i), ast.Load())) for i, e in enumerate(t.elts)]
        return n


class Keyword(T):
    """calls of the library's own methods pass positional arguments by keyword"""
    def visit_Module(self, m):
        sig = {}
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'self' and not f.args.vararg and not f.name.startswith('__'):
                        sig.setdefault(f.name, []).append([a.arg for a in f.args.args[1:]])
        for x in ast.walk(m):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and len(sig.get(x.func.attr, [])) == 1 and \
                    not any(isinstance(a, ast.Starred) for a in x.args):
                ps = sig[x.func.attr][0]
                x.keywords = [ast.keyword(p, a) for p, a in zip(ps, x.args)] + x.keywords
                x.args = []
        return m


class StaticCls(T):
    """RPCServer.get_server() inside the class by way of the type of self stays; @staticmethod -> @classmethod"""
    def visit_ClassDef(self, n):
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
                f.decorator_list = [name('classmethod')]
                f.args.args.insert(0, ast.arg('cls'))
        return n


class Hoist(T):
    """self.x.y(...) -> m = self.x; m.y(...) for call statements"""
    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None) if isinstance(s, (ast.Expr, ast.Assign)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Attribute) and isinstance(v.func.value.value, ast.Name):
                t = self.fresh('target')
                out.append(ast.Assign([name(t, ast.Store())], v.func.value))
                v.func.value = name(t)
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        for x in ast.walk(n):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(x, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(x, f, self.block(b))
        return n


class BoundMeth(T):
    """o.m(...) as a statement -> f = o.m; f(...)"""
    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None) if isinstance(s, (ast.Expr, ast.Assign)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and 'logg' not in ast.unparse(v.func):
                t = self.fresh('bound')
                out.append(ast.Assign([name(t, ast.Store())], v.func))
                v.func = name(t)
            out.append(s)
        return out
    visit_FunctionDef = Hoist.visit_FunctionDef


class ArgsKw(T):
    """del temporaries: none; chained compare to explicit None tests: `if x:` where x = ... is kept; not x is None"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n


class Context(T):
    """lambda -> nested def is not tried; list displays -> list(tuple); comprehension -> loop for assignments"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            g = n.value.generators[0]
            t = n.targets[0].id
            acc = self.fresh('acc')
            body = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [n.value.elt], []))]
            for c in g.ifs:
                body = [ast.If(c, body, [])]
            return [ast.Assign([name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign([name(t, ast.Store())], name(acc))]
        return n


TRANS = {c.__name__: c for c in (Invert, Pass, Late, Early, Temps, Aug, ForWhile, ForList, ForNext, ForPop, ForIndex, ForRange, ForEnum, WithLock, WhileTrue, NestAnd, Rename, Impl, ImplFunc, Swap, Ternary, Format, Percent,
                                 Logs, Annot, TryElse, GetNone, DictCall, DictStep, SelfLocal, Guard, ClassRef, InOr, Consts, DeMorgan, ElseReturn, Finally, Unpack, Keyword, StaticCls,
                                 Hoist, BoundMeth, ArgsKw, Context)}


def apply(tr, dst, only=None):
    changed = []
    for base, dirs, files in os.walk(dst + '/teleprox'):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        for f in sorted(files):
            rel = os.path.relpath(base + '/' + f, dst + '/teleprox')
            if not f.endswith('.py') or only and rel not in only:
                continue
            src = open(base + '/' + f).read()
            tree = ast.parse(src)
            ref = ast.dump(tree)
            for t in tr.split('+'):
                tree = TRANS[t]().visit(tree)
            ast.fix_missing_locations(tree)
            if ast.dump(tree) != ref:
                out = ast.unparse(tree)
                compile(out, rel, 'exec')
                open(base + '/' + f, 'w').write(out + '\n')
                changed.append(rel)
    return changed


def run(tr, files, checks, tests, out):
    d = tempfile.mkdtemp(prefix='tpar.')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
        changed = apply(tr, d + '/r', files)
        res = []
        if not changed:
            return tr, 'nothing to change', []
        if out:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d + '/r', out)
        if tests:
            sys.path.insert(0, ROOT + '/tools')
            import mkseed
            bad = mkseed.tests(d + '/r')
            if bad:
                res.append('TESTS FAIL: %s' % bad)
        v = d + '/v'
        os.makedirs(v)
        os.symlink(ROOT + '/tpcheck', v + '/tpcheck')
        shutil.copy(ROOT + '/check.py', v)
        shutil.copy(ROOT + '/known_findings.txt', v)
        for c in checks:
            r = subprocess.run([sys.executable, v + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, TP_REPO=d + '/r', PYTHONDONTWRITEBYTECODE='1'), timeout=1500)
            if r.returncode:
                res.append('%s rc=%d %s' % (c, r.returncode, ' | '.join([l.strip() for l in r.stdout.splitlines() if l.startswith('  C') or 'BROKEN' in l][:3])[:500] + r.stderr[-300:]))
        return tr, '%d files' % len(changed), res
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-t'); ap.add_argument('-f'); ap.add_argument('-c'); ap.add_argument('-T', action='store_true'); ap.add_argument('-o'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    checks = a.c.split(',') if a.c else ['C%02d' % i for i in range(1, 33)] if a.c is None else []
    trs = a.t.split(',') if a.t else list(TRANS)
    bad = 0
    with cf.ThreadPoolExecutor(a.j) as ex:
        for tr, n, res in ex.map(lambda t: run(t, a.f.split(',') if a.f else None, checks, a.T, a.o), trs):
            print('%-12s %s %s' % (tr, n, 'quiet' if not res else ''), flush=True)
            for r in res:
                bad += 1
                print('    ' + r, flush=True)
    print('not quiet:', bad)
