"""Class members made by module or class level metaprogramming, written out as plain methods.

Recognised: `name = factory('text', ...)` and `name = lambda ...` and `alias = method` in a class body;
`for x in <literal>: setattr(Class, <text>, <factory call, function or lambda>)` at module level;
`for x in <literal>: locals()[<text>] = ...` in a class body.  Anything else is left as it is."""
import ast
import copy


class Sub(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return ast.copy_location(copy.deepcopy(self.env[n.id]), n)
        return n

    def scoped(self, n):
        a = n.args
        bound = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if not isinstance(n, ast.Lambda):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    bound.add(x.id)
        inner = Sub({k: v for k, v in self.env.items() if k not in bound})
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        if isinstance(n, ast.Lambda):
            n.body = inner.visit(n.body)
        else:
            n.body = [inner.visit(s) for s in n.body]
        return n

    visit_FunctionDef = visit_Lambda = visit_AsyncFunctionDef = scoped


def literal(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError, MemoryError):
        pass
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.Add)):
        a, b = literal(e.left), literal(e.right)
        if isinstance(a, str) and b is not None:
            try:
                return a % b if isinstance(e.op, ast.Mod) else a + b
            except (TypeError, ValueError):
                return None
    if isinstance(e, ast.JoinedStr):
        r = ''
        for v in e.values:
            x = literal(v.value) if isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1 else literal(v)
            if x is None:
                return None
            r += str(x)
        return r
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.keywords:
        b = literal(e.func.value)
        a = [literal(x) for x in e.args]
        if isinstance(b, str) and e.func.attr in ('format', 'split', 'join', 'strip', 'replace') and all(x is not None for x in a):
            try:
                return getattr(b, e.func.attr)(*a)
            except (TypeError, ValueError, IndexError):
                return None
    return None


def fold(e):
    v = literal(e)
    if isinstance(v, (str, int, bool)) and not isinstance(e, ast.Constant):
        return ast.copy_location(ast.Constant(v), e)
    return e


class Fold(ast.NodeTransformer):
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.BinOp, ast.JoinedStr, ast.Call)):
            return fold(n)
        return n


def as_method(name, node):
    if isinstance(node, ast.Lambda):
        f = ast.FunctionDef(name=name, args=node.args, body=[ast.copy_location(ast.Return(node.body), node)], decorator_list=[], returns=None)
        ast.copy_location(f, node)
    else:
        f = node
        f.name = name
    f = Fold().visit(f)
    ast.fix_missing_locations(f)
    return f


class Module:
    def __init__(self, tree):
        self.tree = tree
        self.funcs = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef)}
        self.classes = {s.name: s for s in tree.body if isinstance(s, ast.ClassDef)}
        self.values = {}
        count = {}
        for s in tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        count[t.id] = count.get(t.id, 0) + 1
                        self.values[t.id] = s.value
        self.values = {k: v for k, v in self.values.items() if count[k] == 1}

    def factory(self, call, env):
        """Function node returned by a call of a module level factory."""
        if not isinstance(call, ast.Call) or not isinstance(call.func, ast.Name) or call.func.id not in self.funcs:
            return None
        f = self.funcs[call.func.id]
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(x, ast.Starred) for x in call.args) or f.decorator_list:
            return None
        ps = [x.arg for x in a.args]
        loc = {}
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            loc[p] = d
        for p, x in zip(ps, call.args):
            loc[p] = fold(Sub(env).visit(copy.deepcopy(x)))
        for k in call.keywords:
            if k.arg is None:
                return None
            loc[k.arg] = fold(Sub(env).visit(copy.deepcopy(k.value)))
        if set(loc) != set(ps) or len(call.args) > len(ps):
            return None
        tmpl = {}
        for s in f.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.FunctionDef):
                if any(not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith('wraps')) for d in s.decorator_list):
                    return None
                tmpl[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                loc[s.targets[0].id] = fold(Sub(loc).visit(copy.deepcopy(s.value)))
            elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in tmpl and
                                                   t.attr in ('__name__', '__doc__', '__qualname__') for t in s.targets):
                continue
            elif isinstance(s, ast.Return) and s.value is not None:
                v = s.value
                if isinstance(v, ast.Name) and v.id in tmpl:
                    n = copy.deepcopy(tmpl[v.id])
                    n.decorator_list = []
                elif isinstance(v, ast.Lambda):
                    n = copy.deepcopy(v)
                else:
                    return None
                return Sub({k: x for k, x in loc.items() if literal(x) is not None}).visit(n)
            else:
                return None
        return None

    def iterable(self, e):
        if isinstance(e, ast.Name) and e.id in self.values:
            e = self.values[e.id]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            d = e.func.value
            if isinstance(d, ast.Name) and d.id in self.values:
                d = self.values[d.id]
            v = literal(d)
            if isinstance(v, dict):
                return list(getattr(v, e.func.attr)())
            return None
        v = literal(e)
        if isinstance(v, dict):
            return list(v)
        return list(v) if isinstance(v, (list, tuple)) else sorted(v) if isinstance(v, (set, frozenset)) else None

    def bind(self, target, v):
        if isinstance(target, ast.Name):
            return {target.id: ast.copy_location(ast.Constant(v), target)} if isinstance(v, (str, int, bool)) or v is None else None
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(v, (tuple, list)) and len(v) == len(target.elts):
            r = {}
            for t, x in zip(target.elts, v):
                b = self.bind(t, x)
                if b is None:
                    return None
                r.update(b)
            return r
        return None

    def loop(self, s, inclass):
        """[(class name or None, member name, function node)] set by a loop, or None when not understood."""
        items = self.iterable(s.iter)
        if not items or s.orelse:
            return None
        envs = [self.bind(s.target, v) for v in items]
        if any(e is None for e in envs):
            return None
        full = []
        for env in envs:                          # local names assigned in the body, per iteration
            env = dict(env)
            for b in s.body:
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and not isinstance(b.value, (ast.Lambda,)) \
                        and self.factory(b.value, env) is None:
                    x = fold(Sub(env).visit(copy.deepcopy(b.value)))
                    if literal(x) is None:
                        return None
                    env[b.targets[0].id] = x
            full.append(env)
        last = full[-1]
        out = []

        def func(v, env, local):
            if isinstance(v, ast.Name) and v.id in local:
                return local[v.id]()
            n = self.factory(v, env)
            if n is not None:
                return n
            if isinstance(v, ast.Lambda):
                return closure(v, env)
            return None

        def closure(n, env):
            """A function made in the loop: defaults are evaluated now, the body sees the loop's last values."""
            n = copy.deepcopy(n)
            a = n.args
            defs = [fold(Sub(env).visit(d)) for d in a.defaults]
            kdefs = [fold(Sub(env).visit(d)) if d is not None else None for d in a.kw_defaults]
            n = Sub(last).visit(n)
            n.args.defaults, n.args.kw_defaults = defs, kdefs
            return n

        for env in full:
            local = {}
            for b in s.body:
                if isinstance(b, ast.FunctionDef) and not b.decorator_list:
                    local[b.name] = lambda b=b, env=env: closure(b, env)
                elif isinstance(b, ast.Assign) and len(b.targets) == 1:
                    t = b.targets[0]
                    if isinstance(t, ast.Name):
                        if t.id in env:
                            continue
                        n = func(b.value, env, local)
                        if n is None:
                            return None
                        local[t.id] = lambda n=n: copy.deepcopy(n)
                    elif isinstance(t, ast.Subscript) and inclass and ast.unparse(t.value) in ('locals()', 'vars()'):
                        nm = literal(fold(Sub(env).visit(copy.deepcopy(t.slice))))
                        n = func(b.value, env, local)
                        if not isinstance(nm, str) or n is None:
                            return None
                        out.append((None, nm, n))
                    elif isinstance(t, ast.Attribute) and t.attr in ('__name__', '__doc__', '__qualname__'):
                        continue
                    else:
                        return None
                elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and \
                        b.value.func.id == 'setattr' and len(b.value.args) == 3 and isinstance(b.value.args[0], ast.Name):
                    c, k, v = b.value.args
                    nm = literal(fold(Sub(env).visit(copy.deepcopy(k))))
                    n = func(v, env, local)
                    if not isinstance(nm, str) or n is None or c.id not in self.classes:
                        return None
                    out.append((c.id, nm, n))
                elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) or isinstance(b, ast.Pass):
                    continue
                else:
                    return None
        return out or None

    def run(self):
        changed = False
        for c in self.classes.values():
            body = []
            for s in c.body:
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    n = self.factory(s.value, {})
                    if n is None and isinstance(s.value, ast.Lambda):
                        n = s.value
                    if n is None and isinstance(s.value, ast.Name):
                        n = next((x for x in reversed(body) if isinstance(x, ast.FunctionDef) and x.name == s.value.id and not x.decorator_list), None)
                    if n is not None:
                        for t in s.targets:
                            body.append(as_method(t.id, copy.deepcopy(n)))
                        changed = True
                        continue
                if isinstance(s, ast.For):
                    r = self.loop(s, True)
                    if r is not None:
                        body.extend(as_method(nm, n) for _, nm, n in r)
                        changed = True
                        continue
                body.append(s)
            c.body = body
        new = []
        for s in self.tree.body:
            if isinstance(s, ast.For):
                r = self.loop(s, False)
                if r is not None:
                    for cn, nm, n in r:
                        c = self.classes[cn]
                        c.body = [x for x in c.body if not (isinstance(x, ast.FunctionDef) and x.name == nm)] + [as_method(nm, n)]
                    changed = True
                    continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'setattr' \
                    and len(s.value.args) == 3 and isinstance(s.value.args[0], ast.Name) and s.value.args[0].id in self.classes:
                nm = literal(s.value.args[1])
                v = s.value.args[2]
                n = self.factory(v, {}) or (v if isinstance(v, ast.Lambda) else self.funcs.get(v.id) if isinstance(v, ast.Name) else None)
                if isinstance(nm, str) and n is not None:
                    c = self.classes[s.value.args[0].id]
                    c.body = [x for x in c.body if not (isinstance(x, ast.FunctionDef) and x.name == nm)] + [as_method(nm, copy.deepcopy(n))]
                    changed = True
                    continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id in self.classes:
                v = s.value
                n = self.factory(v, {}) or (v if isinstance(v, ast.Lambda) else self.funcs.get(v.id) if isinstance(v, ast.Name) else None)
                if n is not None:
                    c = self.classes[s.targets[0].value.id]
                    nm = s.targets[0].attr
                    c.body = [x for x in c.body if not (isinstance(x, ast.FunctionDef) and x.name == nm)] + [as_method(nm, copy.deepcopy(n))]
                    changed = True
                    continue
            new.append(s)
        self.tree.body = new
        return changed


def continues(s):
    """Does this statement have a `continue` of the loop around it?"""
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        return any(continues(x) for x in s.orelse)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
        return False
    return any(continues(x) for x in ast.iter_child_nodes(s))


class Loops(ast.NodeTransformer):
    """Loops driven by hand, written out as for loops.

    `it = iter(X) .. while True: try: T = next(it) except StopIteration: break; BODY`; the same with `T = next(it, S)`,
    `if T is S: break`; `x = E; while C(x): BODY; x = E`; `q = list(X) .. while q: T = q.pop(0); BODY`.  The iterator must not be used in any other way."""

    def __init__(self):
        self.uses = {}
        self.sentinels = set()
        self.globals = set()
        self.stored = set()     # names the function in hand assigns itself

    def visit_FunctionDef(self, n):
        old = self.uses, self.stored
        self.uses = {}
        declared = {y for x in ast.walk(n) if isinstance(x, ast.Global) for y in x.names}
        self.stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - declared | {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.uses[x.id] = self.uses.get(x.id, 0) + 1
        self.generic_visit(n)
        self.uses, self.stored = old
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and ast.unparse(s.value) == 'object()':
                self.sentinels.add(s.targets[0].id)
            if isinstance(s, ast.Assign):
                self.globals.update(t.id for t in s.targets if isinstance(t, ast.Name))
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.uses[x.id] = self.uses.get(x.id, 0) + 1
        return self.generic_visit(n)

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n

    def block(self, body):
        body = list(body)
        i = 0
        while i < len(body):
            w = body[i]
            r = self.loop(w) if isinstance(w, ast.While) and not w.orelse else None
            if r is not None:
                kind, it, target, rest = r
                j = i - 1
                while j >= 0 and not self.assigns(body[j], it) and self.quiet(body[j]):
                    j -= 1
                x = self.source(body[j].value, kind) if j >= 0 and self.assigns(body[j], it) else None
                if x is not None:
                    body[i] = ast.fix_missing_locations(ast.copy_location(ast.For(target, x, rest or [ast.Pass()], [], None), w))
                    del body[j]
                    continue
            elif isinstance(w, ast.While) and not w.orelse and self.drain(w) is not None:
                q, target, rest, last = self.drain(w)
                call = ast.Call(ast.Name('list', ast.Load()), [q], [])
                x = ast.Call(ast.Name('reversed', ast.Load()), [call], []) if last else call
                clear = ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(q), 'clear', ast.Load()), [], []))
                body[i:i + 1] = [ast.fix_missing_locations(ast.copy_location(y, w)) for y in (ast.For(target, x, rest or [ast.Pass()], [], None), clear)]
                i += 1
            elif isinstance(w, ast.While) and not w.orelse:
                j = self.rotated(body, i)
                if j is not None:
                    out = ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], [])
                    ast.copy_location(out, w)
                    body[i] = ast.fix_missing_locations(ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), w), [body[j], out] + w.body[:-1], []), w))
                    del body[j]
                    continue
            i += 1
        return body

    def drain(self, w):
        """`while Q: T = Q.pop(); BODY` where BODY does not use Q, which is not a local variable."""
        q = w.test
        if isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value == 0 and isinstance(q.ops[0], (ast.Gt, ast.NotEq)):
            q = q.left
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'len' and len(q.args) == 1:
            q = q.args[0]
        s = w.body[0]
        if not (isinstance(q, ast.Name) and q.id in self.globals and q.id not in self.stored) and not isinstance(q, ast.Attribute):
            return None
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'pop' and
                ast.dump(s.value.func.value) == ast.dump(q) and not s.value.keywords):
            return None
        a = s.value.args
        if a and not (len(a) == 1 and ast.unparse(a[0]) in ('0', '-1')):
            return None
        text = ast.unparse(q)
        rest = w.body[1:]
        if any(isinstance(x, (ast.Break, ast.Return)) or isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == text for y in rest for x in ast.walk(y)):
            return None
        return q, s.targets[0], rest, not a or ast.unparse(a[0]) == '-1'

    def rotated(self, body, i):
        """`x = E; while C(x): BODY; x = E`: where is the first of the two?"""
        w = body[i]
        s = w.body[-1]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and any(isinstance(x, ast.Call) for x in ast.walk(s.value))):
            return None
        var = s.targets[0].id
        if not any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(w.test)) or any(continues(x) for x in w.body):
            return None
        names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        d = ast.dump(s)
        j = i - 1
        while j >= 0 and ast.dump(body[j]) != d:
            if not self.quiet(body[j]) or body[j].targets[0].id in names or any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(body[j].value)):
                return None
            j -= 1
        return j if j >= 0 else None

    def assigns(self, s, it):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == it

    def quiet(self, s):
        return isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Constant, ast.Name, ast.List, ast.Dict, ast.Tuple)) and \
            not any(isinstance(x, ast.Call) for x in ast.walk(s.value))

    def source(self, v, kind):
        if kind == 'iter':
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'iter' and len(v.args) == 1 and not v.keywords:
                return v.args[0]
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list' and len(v.args) == 1 and not v.keywords:
            return v
        elif isinstance(v, (ast.List, ast.ListComp)):
            return v
        return None

    def loop(self, w):
        b = w.body
        if isinstance(w.test, ast.Constant) and w.test.value:
            s = b[0]
            if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.finalbody and len(s.body) == 1:
                h = s.handlers[0]
                it = self.nexts(s.body[0], 1)
                if it and isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break) and self.uses.get(it) == 2:
                    return 'iter', it, s.body[0].targets[0], s.orelse + b[1:]
            it = self.nexts(s, 2)
            if it and self.uses.get(it) == 2 and isinstance(s.targets[0], ast.Name) and len(b) > 1 and isinstance(b[1], ast.If) and not b[1].orelse and len(b[1].body) == 1 and \
                    isinstance(b[1].body[0], ast.Break) and isinstance(b[1].test, ast.Compare) and len(b[1].test.ops) == 1 and isinstance(b[1].test.ops[0], ast.Is):
                d = s.value.args[1]
                l, r = b[1].test.left, b[1].test.comparators[0]
                if {ast.dump(l), ast.dump(r)} == {ast.dump(d), ast.dump(ast.Name(s.targets[0].id, ast.Load()))}:
                    if isinstance(d, ast.Name) and d.id in self.sentinels:
                        return 'iter', it, s.targets[0], b[2:]
                    if isinstance(d, ast.Constant) and d.value is None:
                        return 'iter', it, s.targets[0], b[1:]
            return None
        q = w.test
        if isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value == 0 and isinstance(q.ops[0], (ast.Gt, ast.NotEq)):
            q = q.left
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'len' and len(q.args) == 1:
            q = q.args[0]
        s = b[0]
        if isinstance(q, ast.Name) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'pop' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == q.id and len(s.value.args) == 1 and \
                isinstance(s.value.args[0], ast.Constant) and s.value.args[0].value == 0 and self.uses.get(q.id) == 3:
            return 'queue', q.id, s.targets[0], b[1:]
        return None

    def nexts(self, s, n):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'next' and \
                len(s.value.args) == n and not s.value.keywords and isinstance(s.value.args[0], ast.Name):
            return s.value.args[0].id
        return None


class Inline:
    """`t = E` followed by a statement that evaluates t first, where t is used nowhere else: E in the place of t."""

    def __init__(self, fn):
        self.count = {}
        self.bad = {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                c = self.count.setdefault(x.id, [0, 0])
                c[0 if isinstance(x.ctx, ast.Load) else 1] += 1 if not isinstance(x.ctx, ast.Del) else 5
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.bad.update(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.bad.add(x.name)
            elif isinstance(x, ast.alias):
                self.bad.add((x.asname or x.name).split('.')[0])
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)) and x is not fn:
                self.bad.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
        self.quiet = {n for n in self.count if self.count[n][1]} - self.bad    # plain local variables
        self.quiet |= {x.arg for x in ast.walk(fn.args) if isinstance(x, ast.arg)} - {n for x in ast.walk(fn) if isinstance(x, (ast.Nonlocal, ast.Global)) for n in x.names}
        for x in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(x, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(x, f, self.block(b))

    def block(self, body):
        out = []
        for s in body:
            while out and self.into(out[-1], s):
                out.pop()
            out.append(s)
        return out

    def into(self, d, s):
        if not (isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Name)):
            return False
        n = d.targets[0].id
        if n in self.bad or self.count.get(n) != [1, 1] or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in ast.walk(d.value)):
            return False
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign)):
            f = 'value'
        elif isinstance(s, (ast.If, ast.Assert)):
            f = 'test'
        elif isinstance(s, ast.Raise):
            f = 'exc'
        elif isinstance(s, ast.For):
            f = 'iter'
        elif isinstance(s, ast.With):
            s, f = s.items[0], 'context_expr'
        else:
            return False
        e = getattr(s, f)
        return e is not None and self.place(s, f, None, n, d.value) is True

    def place(self, owner, f, i, n, v):
        """True: v put in the place of n; None: nothing evaluated before what follows that could matter; False: something is."""
        e = getattr(owner, f) if i is None else getattr(owner, f)[i]
        if isinstance(e, ast.Name):
            if e.id == n:
                if i is None:
                    setattr(owner, f, v)
                else:
                    getattr(owner, f)[i] = v
                return True
            return None if e.id in self.quiet else False
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Call):
            parts = [('func', None)] + [('args', j) for j in range(len(e.args))]
            r = self.parts(e, parts, n, v)
            if r is not None:
                return r
            for k in e.keywords:
                r = self.place(k, 'value', None, n, v)
                if r is not None:
                    return r
            return False
        if isinstance(e, ast.Attribute):
            r = self.place(e, 'value', None, n, v)
            # reading an attribute is harmless for what follows only when what follows calls nothing
            return r if r is not None else (None if not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(v)) else False)
        if isinstance(e, ast.Subscript):
            return self.parts(e, [('value', None), ('slice', None)], n, v) or False
        if isinstance(e, ast.BinOp):
            return self.parts(e, [('left', None), ('right', None)], n, v) or False
        if isinstance(e, ast.Compare):
            return self.parts(e, [('left', None), ('comparators', 0)], n, v) or False
        if isinstance(e, ast.UnaryOp):
            return self.place(e, 'operand', None, n, v) or False
        if isinstance(e, ast.BoolOp):
            return self.parts(e, [('values', 0)], n, v) or False
        if isinstance(e, ast.IfExp):
            return self.place(e, 'test', None, n, v) or False
        if isinstance(e, (ast.Tuple, ast.List)):
            return self.parts(e, [('elts', j) for j in range(len(e.elts))], n, v)
        if isinstance(e, ast.Starred):
            return self.place(e, 'value', None, n, v) or False
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.place(e.generators[0], 'iter', None, n, v) or False
        return False

    def parts(self, e, parts, n, v):
        for f, i in parts:
            r = self.place(e, f, i, n, v)
            if r is not None:
                return r
        return None


def inline(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef) and not any(isinstance(y, ast.Name) and y.id in ('locals', 'vars', 'eval', 'exec') for y in ast.walk(x)):
            Inline(x)


class Rest(ast.NodeVisitor):
    """`a, *f, z = E` followed by `b, c = [X for v in f]`, where f is used nowhere else: the parts by name."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        names = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name)]
        for x in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(x, f, None)
                if isinstance(b, list):
                    for i in range(len(b) - 1):
                        self.pair(b[i], b[i + 1], names)

    def pair(self, s, t, names):
        if not all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)) for x in (s, t)):
            return
        stars = [(j, x.value.id) for j, x in enumerate(s.targets[0].elts) if isinstance(x, ast.Starred) and isinstance(x.value, ast.Name)]
        if len(stars) != 1 or names.count(stars[0][1]) != 2 or any(isinstance(x, ast.Starred) for x in t.targets[0].elts):
            return
        j, f = stars[0]
        v, n = t.value, len(t.targets[0].elts)
        if isinstance(v, (ast.ListComp, ast.GeneratorExp)) and len(v.generators) == 1 and not v.generators[0].ifs and isinstance(v.generators[0].target, ast.Name) and \
                isinstance(v.generators[0].iter, ast.Name) and v.generators[0].iter.id == f and not any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(v.elt)):
            w = v.generators[0].target.id
            parts = [ast.copy_location(ast.Name(id='%s%%%d' % (f, k), ctx=ast.Store()), s) for k in range(n)]
            s.targets[0].elts[j:j + 1] = parts
            elts = []
            for k in range(n):
                e = copy.deepcopy(v.elt)
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id == w:
                        x.id = parts[k].id
                elts.append(e)
            t.value = ast.copy_location(ast.Tuple(elts=elts, ctx=ast.Load()), v)


class Chains(ast.NodeTransformer):
    """for x in itertools.chain(a, b): for x in [*a, *b]."""

    def __init__(self, tree):
        self.names = {(a.asname or a.name) for x in ast.walk(tree) if isinstance(x, ast.ImportFrom) and x.module == 'itertools' for a in x.names if a.name == 'chain'}

    def flat(self, e):
        if isinstance(e, ast.Call) and e.args and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args) and (
                isinstance(e.func, ast.Name) and e.func.id in self.names or
                isinstance(e.func, ast.Attribute) and e.func.attr == 'chain' and isinstance(e.func.value, ast.Name) and e.func.value.id == 'itertools'):
            return ast.copy_location(ast.List(elts=[ast.copy_location(ast.Starred(value=a, ctx=ast.Load()), a) for a in e.args], ctx=ast.Load()), e)
        return e

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.flat(n.iter)
        return n

    visit_comprehension = visit_For

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'set', 'sorted', 'any', 'all') and len(n.args) == 1:
            n.args = [self.flat(n.args[0])]
        return n


def desugar(tree):
    Rest().visit(tree)
    tree = Loops().visit(tree)
    Module(tree).run()
    inline(tree)
    return Chains(tree).visit(tree)
