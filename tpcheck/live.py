"""Liveness of local variables: which names are dead after a statement, so that states that differ only in them are one state."""
import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
E = frozenset()


def used(node):
    """Names read (or deleted, or captured) by an expression or a whole statement."""
    return frozenset(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)) if node is not None else E


def bound(node):
    r = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            r.add(x.id)
        elif isinstance(x, SCOPES) and not isinstance(x, ast.Lambda):
            r.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        elif isinstance(x, ast.alias):
            r.add((x.asname or x.name).split('.')[0])
    return frozenset(r)


class Live:
    def __init__(self, fn):
        self.after = {}
        self.before = {}
        self.keep = set()
        self.ok = True
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.keep.update(self.params[:1])
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, SCOPES):
                    self.keep |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                    if not isinstance(x, ast.Lambda):
                        self.keep.add(x.name)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    self.keep.update(x.names)
                elif isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec', 'dir'):
                    self.ok = False
                elif isinstance(x, (ast.Match, ast.NamedExpr)) or x.__class__.__name__ == 'TryStar':
                    self.ok = self.ok and isinstance(x, ast.NamedExpr)
        if self.ok:
            self.block(fn.body, E, E, E, E, E)

    def block(self, body, out, brk, cont, exc, ret):
        """Names live before a block; exc: live when an exception leaves it, ret: when it returns."""
        live = out
        for s in reversed(body):
            self.after[id(s)] = self.after.get(id(s), E) | live | exc
            live = self.stmt(s, live, brk, cont, exc, ret) | exc
            self.before[id(s)] = self.before.get(id(s), E) | live
        return live

    def stmt(self, s, out, brk, cont, exc, ret):
        if isinstance(s, ast.If):
            return used(s.test) | self.block(s.body, out, brk, cont, exc, ret) | self.block(s.orelse, out, brk, cont, exc, ret)
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            test = used(s.test) if isinstance(s, ast.While) else used(s.target) | used(s.iter)
            els = self.block(s.orelse, out, brk, cont, exc, ret) | out
            head = test | els
            while True:
                new = head | self.block(s.body, head, out, head, exc, ret)
                if new == head:
                    return head
                head = new
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out | exc | ret | brk | cont, brk, cont, exc, ret) if s.finalbody else E
            o2 = (out | fin) if s.finalbody else out
            e2 = exc | fin
            r2, b2, c2 = ret | fin, brk | fin, cont | fin
            h = E
            for x in s.handlers:
                h |= used(x.type) | self.block(x.body, o2, b2, c2, e2, r2)
            els = self.block(s.orelse, o2, b2, c2, e2, r2)
            return h | e2 | self.block(s.body, els, b2, c2, e2 | h, r2)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, out, brk, cont, exc, ret)
            for i in s.items:
                r |= used(i.context_expr) | (used(i.optional_vars) if i.optional_vars is not None else E)
            return r | out
        if isinstance(s, ast.Return):
            return used(s.value) | ret
        if isinstance(s, ast.Raise):
            return used(s) | exc
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.Assign):
            kill = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    kill |= {x.id for x in t.elts if isinstance(x, ast.Name)}
            return (out - kill) | used(s)
        if isinstance(s, ast.AugAssign):
            return out | used(s) | ({s.target.id} if isinstance(s.target, ast.Name) else E)
        return out | used(s)


def dead_after(fn):
    if isinstance(fn, ast.Lambda):
        return {}
    l = Live(fn)
    if not l.ok:
        return {}
    r = {}
    for x in ast.walk(fn):
        i = id(x)
        if i in l.after:
            d = (l.before[i] | bound(x)) - l.after[i] - l.keep
            if d:
                r[i] = d
    return r
