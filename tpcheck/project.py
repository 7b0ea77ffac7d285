"""Source model of the analysed project: modules, classes, functions, name resolution.

Everything is rebuilt from the files below $TP_REPO (default /repo) on every run; nothing is
imported or executed.
"""
import ast
import hashlib
import os

from .desugar import desugar

REPO = os.environ.get('TP_REPO', '/repo')
PKG = 'teleprox'


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor missing, unsupported construct...)."""


class FuncInfo:
    def __init__(self, key, node, module, cls, parent=None):
        self.key = key            # 'teleprox.server:RPCServer._process_one'
        self.node = node
        self.module = module
        self.cls = cls            # ClassInfo or None
        self.parent = parent      # enclosing FuncInfo or None
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        decs = getattr(node, 'decorator_list', [])
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in decs]
        self.is_static = 'staticmethod' in self.decorators
        self.is_class = 'classmethod' in self.decorators
        self.is_property = any(d in ('property', 'functools.cached_property', 'cached_property')
                               for d in self.decorators)
        self.is_setter = any(d and d.endswith('.setter') for d in self.decorators)
        self.is_ctxmgr = any(d in ('contextmanager', 'contextlib.contextmanager') for d in self.decorators)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        if isinstance(node, ast.Lambda):
            self.locals, self.globals_, self.nonlocals = param_names(node.args), set(), set()
        else:
            self.locals, self.globals_, self.nonlocals = scope_names(node)

    def __repr__(self):
        return '<FuncInfo %s>' % self.key


class ClassInfo:
    def __init__(self, key, node, module):
        self.key = key
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}       # name -> FuncInfo
        self.setters = {}
        self.attrs = {}         # name -> value expr (class-level assignments)
        self.bases = []         # resolved values: ('cls', key) | ('ext', dotted)

    def __repr__(self):
        return '<ClassInfo %s>' % self.key


class ModuleInfo:
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = desugar(ast.parse(src, path))
        self.bind = {}      # name -> list of bindings ('import', dotted) ('from', mod, name) ('cls', key) ('func', key) ('expr', node) ('other',)
        self.funcs = {}
        self.classes = {}

    def __repr__(self):
        return '<ModuleInfo %s>' % self.name


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def param_names(a):
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        names.append(a.vararg.arg)
    if a.kwarg:
        names.append(a.kwarg.arg)
    return set(names)


def scope_names(fn):
    """(locals, globals, nonlocals) of a function body."""
    loc = param_names(fn.args)
    glob, nonl = set(), set()
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    loc -= glob
    loc -= nonl
    return loc, glob, nonl


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.attr_stores = {}   # attribute name -> [(module, enclosing function key or None, node)]
        self.global_writes = set()   # (module, name) written through a global statement
        pk = os.path.join(self.root, PKG)
        if not os.path.isdir(pk):
            raise AnalysisBroken('package directory %s not found' % pk)
        for d, dirs, files in os.walk(pk):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self._resolve_base(c, b) for b in c.node.bases]

    # -- loading ---------------------------------------------------------------------------
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            self.modules[name] = ModuleInfo(name, path, src, is_pkg)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b'\0' + self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def abs_module(self, mod, level, name):
        if level == 0:
            return name or ''
        parts = mod.name.split('.')
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([name] if name else []))

    def import_bindings(self, mod, node):
        """[(local name, binding)] for an import statement."""
        out = []
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    out.append((al.asname, ('import', al.name)))
                else:
                    out.append((al.name.split('.')[0], ('import', al.name.split('.')[0])))
        else:
            base = self.abs_module(mod, node.level, node.module)
            for al in node.names:
                if al.name == '*':
                    out.append(('*', ('star', base)))
                else:
                    out.append((al.asname or al.name, ('from', base, al.name)))
        return out

    def _index(self, mod):
        def bind(name, b):
            mod.bind.setdefault(name, []).append(b)

        def targets(t):
            if isinstance(t, ast.Name):
                yield t.id
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    yield from targets(e)
            elif isinstance(t, ast.Starred):
                yield from targets(t.value)

        def walk_block(body, cond):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for n, b in self.import_bindings(mod, s):
                        if n == '*':
                            src = self.modules.get(b[1])
                            continue
                        bind(n, b)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = self._add_func(mod, s, None, s.name)
                    mod.funcs[s.name] = fi
                    bind(s.name, ('func', fi.key))
                elif isinstance(s, ast.ClassDef):
                    ci = self._add_class(mod, s, s.name)
                    mod.classes[s.name] = ci
                    bind(s.name, ('cls', ci.key))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            bind(t.id, ('expr', s.value))
                        else:
                            for n in targets(t):
                                bind(n, ('other',))
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        bind(s.target.id, ('expr', s.value))
                elif isinstance(s, ast.AugAssign):
                    for n in targets(s.target):
                        bind(n, ('other',))
                        bind(n, ('other',))
                elif isinstance(s, ast.For):
                    for n in targets(s.target):
                        bind(n, ('other',))
                    walk_block(s.body, True)
                    walk_block(s.orelse, True)
                elif isinstance(s, (ast.If, ast.While)):
                    walk_block(s.body, True)
                    walk_block(s.orelse, True)
                elif isinstance(s, ast.Try):
                    walk_block(s.body, True)
                    for h in s.handlers:
                        walk_block(h.body, True)
                    walk_block(s.orelse, True)
                    walk_block(s.finalbody, True)
                elif isinstance(s, ast.With):
                    for i in s.items:
                        if i.optional_vars is not None:
                            for n in targets(i.optional_vars):
                                bind(n, ('other',))
                    walk_block(s.body, True)
        walk_block(mod.tree.body, False)
        # attribute stores, global statements
        def visit(n, fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = n
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.attr_stores.setdefault(n.attr, []).append((mod, fn, n))
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.global_writes.add((mod.name, x))
            for c in ast.iter_child_nodes(n):
                visit(c, fn)
        visit(mod.tree, None)

    def _add_func(self, mod, node, cls, qual, parent=None):
        fi = FuncInfo('%s:%s' % (mod.name, qual), node, mod, cls, parent)
        self.funcs[fi.key] = fi
        return fi

    def nested_func(self, parent, node):
        """FuncInfo for a function defined inside another (or a lambda)."""
        name = getattr(node, 'name', '<lambda>')
        key = '%s.<locals>.%s@%d:%d' % (parent.key if parent else '?', name, node.lineno, node.col_offset)
        fi = self.funcs.get(key)
        if fi is None or fi.node is not node:
            fi = FuncInfo(key, node, parent.module, parent.cls, parent)
            self.funcs[key] = fi
        return fi

    def _add_class(self, mod, node, qual):
        ci = ClassInfo('%s:%s' % (mod.name, qual), node, mod)
        self.classes[ci.key] = ci
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(mod, s, ci, qual + '.' + s.name)
                if fi.is_setter:
                    ci.setters[s.name] = fi
                else:
                    ci.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                ci.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._add_class(mod, s, qual + '.' + s.name)
        return ci

    # -- resolution ------------------------------------------------------------------------
    def resolve(self, modname, name, depth=0):
        """Resolve a module-level name to ('cls', key) ('func', key) ('mod', name) ('ext', dotted)
        ('var', module, name) or None."""
        if depth > 8:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        bs = m.bind.get(name)
        if not bs:
            if modname + '.' + name in self.modules:
                return ('mod', modname + '.' + name)
            # star import of a dynamically built namespace
            for s in m.tree.body:
                if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                    base = self.abs_module(m, s.level, s.module)
                    if base in self.modules:
                        r = self.resolve(base, name, depth + 1)
                        if r:
                            return r
            return None
        res = []
        for b in bs:
            if b[0] == 'import':
                r = self.resolve_dotted(b[1])
            elif b[0] == 'from':
                if b[1] in self.modules:
                    r = self.resolve(b[1], b[2], depth + 1)
                    if r is None:
                        r = ('var', b[1], b[2])
                elif b[1] + '.' + b[2] in self.modules:
                    r = ('mod', b[1] + '.' + b[2])
                else:
                    r = ('ext', b[1] + '.' + b[2])
            elif b[0] in ('cls', 'func'):
                r = b
            else:
                r = ('var', modname, name)
            if r not in res:
                res.append(r)
        real = [r for r in res if r and r[0] != 'var']
        if len(res) == 1:
            return res[0]
        # conditional definitions (try/except ImportError fallbacks, platform switches)
        if real and all(r[0] in ('mod', 'ext') for r in real) and len(real) == 1 and len(res) == 1:
            return real[0]
        return ('var', modname, name)

    def resolve_dotted(self, name):
        if name in self.modules:
            return ('mod', name)
        return ('ext', name)

    def _resolve_base(self, ci, node):
        d = dotted(node)
        if d is None:
            return ('ext', '?')
        parts = d.split('.')
        r = self.resolve(ci.module.name, parts[0])
        if r is None:
            r = ('ext', parts[0])
        for p in parts[1:]:
            r = self.member(r, p)
        return r

    def member(self, r, name):
        if r[0] == 'mod':
            x = self.resolve(r[1], name)
            return x or ('var', r[1], name)
        if r[0] == 'ext':
            return ('ext', r[1] + '.' + name)
        return ('ext', '?.' + name)

    def mro(self, key):
        """Linearised project + external ancestors: list of ClassInfo or ('ext', dotted)."""
        out = []

        def go(k):
            ci = self.classes[k]
            if ci in out:
                return
            out.append(ci)
            for b in ci.bases:
                if b[0] == 'cls':
                    go(b[1])
                elif b not in out:
                    out.append(b)
        go(key)
        # C3 is not needed for the shapes in this code base, but a class must come before its bases
        res = []
        for c in out:
            res.append(c)
        return res

    def find_method(self, clskey, name, after=None):
        seen_after = after is None
        for c in self.mro(clskey):
            if not seen_after:
                if isinstance(c, ClassInfo) and c.key == after:
                    seen_after = True
                continue
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, clskey, name):
        for c in self.mro(clskey):
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c
        return None

    def ext_bases(self, clskey):
        return [c[1] for c in self.mro(clskey) if not isinstance(c, ClassInfo)]

    def is_subclass(self, key, other):
        return any(isinstance(c, ClassInfo) and c.key == other for c in self.mro(key))

    def subclasses(self, key):
        return [k for k in self.classes if self.is_subclass(k, key)]

    def func(self, key):
        f = self.funcs.get(key)
        if f is None:
            raise AnalysisBroken('anchor vanished: function %s not found' % key)
        return f

    def cls(self, key):
        c = self.classes.get(key)
        if c is None:
            raise AnalysisBroken('anchor vanished: class %s not found' % key)
        return c

    def find_class(self, name):
        """The project class with this (public) name, wherever it is defined."""
        ks = [k for k in self.classes if k.split(':')[1] == name]
        if len(ks) != 1:
            raise AnalysisBroken('anchor vanished: class %s (%d definitions)' % (name, len(ks)))
        return ks[0]

    def find_func(self, name, prefer=None):
        ks = [k for k in self.funcs if k.split(':')[1] == name]
        if prefer:
            ks = [k for k in ks if k.startswith(prefer)] or ks
        if len(ks) != 1:
            raise AnalysisBroken('anchor vanished: function %s (%d definitions)' % (name, len(ks)))
        return self.funcs[ks[0]]

    def is_final_global(self, modname, name):
        """Assigned exactly once, at module level, and never through global/attribute stores."""
        m = self.modules[modname]
        bs = m.bind.get(name, [])
        if len(bs) != 1 or (modname, name) in self.global_writes:
            return False
        for (mod, fn, node) in self.attr_stores.get(name, []):
            # teleprox.process.PROCESS_NAME_PREFIX = ...
            d = dotted(node)
            if d and d.split('.')[0] not in ('self', 'cls') and (d.rsplit('.', 1)[0].split('.')[-1] == modname.split('.')[-1]):
                return False
        return True
