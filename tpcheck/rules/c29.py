import ast
from .base import *
from ..project import dotted

EXPLANATION = """
Import closure: the top level of every core module is interpreted; no path imports a Qt binding, a module of the library that needs one, or runs the Qt
import, unless a binding was found to be loaded already.  Every other place of the library that does so is interpreted and must be part of a
Qt feature (the Qt server, or under a condition that asks for Qt).  Selection: the Qt import is interpreted over all histories of two calls (and the
check at import time) with every request, every binding the application may have loaded before or between the calls and every import failing or
not: it only imports the loaded binding, refuses a different one, otherwise tries the bindings in the fixed order until one succeeds, fails with ImportError when
none does, and returns a namespace only when all parts of one binding were imported.
"""
ASSUMPTIONS = ['an import fails with ImportError', 'an application that has loaded any part of a binding has loaded its QtCore', 'third-party modules other than Qt bindings and known wrappers do not import Qt']
LIBS = ('PyQt6', 'PySide6', 'PyQt5', 'PySide2')
PARTS = ('QtCore', 'QtGui', 'QtWidgets')
WRAPPERS = ('pyqtgraph', 'qtpy', 'Qt', 'sip', 'shiboken2', 'shiboken6', 'vispy', 'PyQt4', 'PySide')
NEED = ('teleprox.qt', 'teleprox.qt_poll_thread', 'teleprox.log.logviewer')
UTIL = 'teleprox.qt_util'
IMPORT = ('importlib.import_module', '__import__')


def qt_name(n):
    return n.split('.')[0] in LIBS + WRAPPERS or any(n == x or n.startswith(x + '.') for x in NEED)


def imports(e, need):
    """Name of what an event imports if that means importing Qt."""
    if e.kind == 'import' and (qt_name(e.name) or e.name in need):
        return e.name
    if e.kind == 'call' and e.name in ('@import_qt', '@make_qapp'):
        return 'the Qt import'
    if e.kind == 'call' and e.name in IMPORT and e.args:
        v = e.args[0]
        s = str(cval(v)) if is_const(v) else show(v)
        if is_const(v) and (qt_name(s) or s.lstrip('.') in ('qt', 'qt_poll_thread', 'log.logviewer')) or not is_const(v) and any(l in s for l in LIBS + ('QT_LIB', 'qt_lib')):
            return s
    return None


def guarded(facts):
    for c, b in facts.items():
        if not isinstance(b, bool):
            if c.op == '=' and b is const('qt'):
                return True
            continue
        x = c.args[0] if c.op == 'truth' else c
        if b and x.op == 'attr' and x.args[1] == 'HAVE_QT':
            return True
        if b and x.op == 'call' and x.args[0] == '@check_qt_imported':
            return True
        if b and x.op in ('item', 'get') and const('qt') in x.args:
            return True
        if b and x.op in ('attr', 'sym') and str(x.args[-1] if x.op == 'attr' else x.args[0]) in ('qt', '_qt', 'use_qt'):
            return True
        if b and c.op == 'isinst' and 'QtRPCServer' in show(c):
            return True
        if b and c.op == 'in' and c.args[1] is ext('sys.modules') and is_const(c.args[0]) and str(cval(c.args[0])).split('.')[0] in LIBS:
            return True
        if b and c.op in ('same', 'eq') and (TRUE in c.args) and any(y.op == 'attr' and y.args[1] == 'HAVE_QT' or y.op in ('item',) and const('qt') in y.args for y in c.args):
            return True
    return False


def split(a):
    s = show(a)
    return 'qt' in s.lower() or 'sys.modules' in s


def policy(opaque, **kw):
    return RP(record=lambda e: e.kind == 'import' or e.kind == 'call' and (e.name in IMPORT or e.name.startswith('@')) or e.kind == 'new', opaque=opaque, merge=True, raising=False, max_states=4000, split=split, **kw)


def core(ctx):
    """Modules of the library that must not need Qt."""
    return [m for m in sorted(ctx.p.modules) if m not in NEED + (UTIL,) and not any(m.startswith(x + '.') for x in NEED)]


def closure(ctx):
    mods = core(ctx)
    for m in mods:
        if m == 'teleprox.bootstrap':
            continue
        ip = ctx.interp(policy(lambda f: f.module.name == UTIL))
        n = 0
        for p in ip.run_module(m):
            n += 1
            judge(ctx, p, m, 'C29.closure', 'importing %s' % m)
        ctx.check(n > 0, 'C29.closure', m, m, '%s cannot be imported' % m)
    return mods


def judge(ctx, p, where, rule, what):
    g = guarded(p.facts)
    for e in flat(p.trace):
        n = imports(e, ())
        if n is not None:
            ctx.check(g, rule, '%s %s' % (where, n), e.where, '%s imports Qt (%s) although nobody asked for it' % (what, n))


def sites(ctx, fi):
    """Does this function contain something that imports Qt?"""
    pkg = fi.module.name if fi.module.is_pkg else fi.module.name.rsplit('.', 1)[0]
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Import) and any(qt_name(a.name) for a in n.names):
            return True
        if isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                parts = pkg.split('.')
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            if qt_name(base) or any(qt_name(base + '.' + a.name) for a in n.names) or base == UTIL and any(a.name in ('import_qt',) for a in n.names):
                return True
        if isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in ('import_qt', 'QtPollThread', 'LogViewer'):
            return True
        if isinstance(n, ast.Call):
            d = dotted(n.func) or ''
            if d.split('.')[-1] == 'QtRPCServer':
                return True
            if d.split('.')[-1] in ('import_module', '__import__') and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and \
                    (qt_name(n.args[0].value) or n.args[0].value.lstrip('.') in ('qt', 'qt_poll_thread')):
                return True
    return False


def features(ctx, mods):
    """Places that import Qt when they run."""
    n = 0
    feature = ctx.p.find_class('QtRPCServer')
    outer = {}
    for fi in ctx.p.funcs.values():
        if fi.module.name not in mods or not sites(ctx, fi):
            continue
        if fi.cls is not None and fi.cls.key == feature:
            continue
        if '<locals>' in fi.key:
            continue
        outer[fi.key] = fi
    runs = []
    for fi in outer.values():
        # helpers of the same module decide whether Qt is asked for
        callers = [g for g in ctx.p.funcs.values() if g.module is fi.module and g is not fi and calls_of(g, fi.name) and fi.name.startswith('_') and g.name != fi.name and '<locals>' not in g.key]
        ok = []
        for p in run(ctx, fi, fi):
            es = [(e, imports(e, ())) for e in flat(p.trace)]
            es = [(e, x) for e, x in es if x]
            if not es:
                continue
            n += 1
            if guarded(p.facts):
                ctx.check(True, 'C29.feature', fi.key, es[0][0].where, '')
            else:
                ok.append(es[0])
        for e, x in ok[:1]:
            if callers:
                for g in callers:
                    for p in run(ctx, g, fi):
                        for e2 in flat(p.trace):
                            if imports(e2, ()):
                                ctx.check(guarded(p.facts), 'C29.feature', '%s in %s' % (x, g.key), e2.where, '%s imports Qt (%s) although nobody asked for it' % (g.key, x))
            else:
                ctx.fail('C29.feature', '%s in %s' % (x, fi.key), e.where, '%s imports Qt (%s) although nobody asked for it' % (fi.key, x))
    ip = ctx.interp(policy(lambda f: f.module.name in (UTIL, 'teleprox.process', 'teleprox.client') or f.module.name.startswith('teleprox.log')))
    for p in ip.run_module('teleprox.bootstrap'):
        for e in flat(p.trace):
            x = imports(e, ())
            if x:
                n += 1
                ctx.check(guarded(p.facts), 'C29.feature', 'child ' + x, e.where, 'a child process imports Qt (%s) although it was not asked for' % x)
    ctx.check(n > 0, 'C29.feature', 'sites', 'teleprox', '')


def calls_of(g, name):
    return any(isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == name for n in ast.walk(g.node))


def run(ctx, fi, site):
    ip = ctx.interp(policy(lambda f: f is not site and not (f.module is fi.module and f.name.startswith('_') and f.name in {(dotted(c.func) or '').split('.')[-1] for c in ast.walk(fi.node) if isinstance(c, ast.Call)}), want_loops=True))
    return [q for p in ip.run(fi) for q in pieces(p)]


class Piece:
    def __init__(self, trace, facts):
        self.trace, self.facts = trace, facts


def pieces(p):
    """A path and the turns of its loops, each with what is known there."""
    yield Piece([e for e in p.trace if e.kind != 'loop'], p.facts)

    def loops(tr):
        for l in tr:
            if l.kind == 'loop':
                for it in l.extra:
                    yield Piece([e for e in it.trace if e.kind != 'loop'], it.facts)
                    yield from loops(it.trace)
    yield from loops(p.trace)


# ---- selection -------------------------------------------------------------------------------------------------

def fact(lib, part):
    return mk('in', const(lib + '.' + part), ext('sys.modules'))


class History:
    def __init__(self, st, loaded, done, steps):
        self.st, self.loaded, self.done, self.steps = st, loaded, done, steps

    def key(self):
        heap = tuple(sorted(((k[2], show(v)) for k, v in self.st.heap.items() if k[0].op == 'mod'), key=str))
        return self.loaded, self.done, heap


def modules_of(h):
    """State in which exactly what was imported is in sys.modules."""
    st = h.st.fork()
    st.trace = ()
    st.facts = {c: b for c, b in st.facts.items() if not (c.op == 'in' and c.args[1] is ext('sys.modules'))}
    for l in LIBS:
        for m in PARTS:
            st.facts[fact(l, m)] = (l + '.' + m) in h.done
    return st


def attempts(p):
    r = []
    for e in flat(p.trace):
        if e.kind in ('call', 'raises') and e.name in IMPORT and e.args:
            r.append((cval(e.args[0]) if is_const(e.args[0]) else None, e.kind == 'call', e))
        elif e.kind == 'import' and e.name.split('.')[0] in LIBS:
            r.append((e.name, True, e))
    return r


def feasible(p, done):
    got = set(done)
    for n, ok, e in attempts(p):
        if n in got and not ok:
            return False
        if ok and n:
            got.add(n)
    return True


def step(ctx, ip, fi, h, want, out):
    arg = const(want) if want else NONE
    a = [x.arg for x in fi.node.args.args][0]
    steps = h.steps + ('import_qt(%s)' % (want or ''),)
    say = ', then '.join(steps)
    k = 0
    for p in ip.run(fi, st=modules_of(h), args={a: arg}):
        if not feasible(p, h.done):
            continue
        k += 1
        at = attempts(p)
        env = [e for n, ok, e in at if n is None and 'environ' in show(e.args[0])]
        if env:
            ctx.fail('C29.order', 'environment', env[0].where, '%s: which bindings are tried depends on the environment' % say)
            continue
        if any(n is None for n, ok, e in at):
            raise AnalysisBroken('which module is imported is not known: %s' % say)
        done = set(h.done) | {n for n, ok, e in at if ok}
        libs = []
        for n, ok, e in at:
            if n.split('.')[0] not in libs:
                libs.append(n.split('.')[0])
        where = at[-1][2].where if at else fi.key
        loaded = h.loaded
        if loaded and want not in (None, loaded):
            ctx.check(p.kind == 'raise', 'C29.refuse', 'different', where, '%s: %s is loaded and the request for %s is not refused' % (say, loaded, want))
            ctx.check(not at, 'C29.refuse', 'imports', where, '%s: %s is imported although %s is loaded' % (say, '/'.join(libs), loaded))
            continue
        if loaded:
            ctx.check(set(libs) <= {loaded}, 'C29.same', 'other', where, '%s: %s is imported although %s is loaded' % (say, '/'.join(libs), loaded))
        else:
            order = [want] if want else list(LIBS)
            ctx.check(libs == order[:len(libs)], 'C29.order', 'order', where, '%s: bindings are tried in the order %s' % (say, ', '.join(libs)))
            got = [n.split('.')[0] for n, ok, e in at if ok and '.' in n]
            new = got[0] if got else None
            ctx.check(set(got) <= {new}, 'C29.order', 'mixed', where, '%s: parts of %s are imported into one process' % (say, ' and '.join(sorted(set(got)))))
            if new:
                ctx.check(libs[-1] == new, 'C29.order', 'goes on', where, '%s: other bindings are tried after %s was imported' % (say, new))
            else:
                if ctx.check(p.kind == 'raise', 'C29.none', 'returns', where, '%s: no binding was imported and none is reported missing' % say):
                    ctx.check(p.val.args[0] in ('ImportError', 'ModuleNotFoundError'), 'C29.none', 'exception', where, '%s: %s is raised when no binding is available' % (say, p.val.args[0]))
                    ctx.check(libs == order, 'C29.none', 'all', where, '%s: no binding is said to be available after %s only' % (say, ', '.join(libs) or 'none were tried'))
            loaded = new
        if p.kind == 'return':
            ctx.check(loaded is not None and all(loaded + '.' + m in done for m in PARTS), 'C29.whole', 'parts', where, '%s: a namespace is returned although %s was not imported' % (
                say, ', '.join(sorted(str(loaded) + '.' + m for m in PARTS if str(loaded) + '.' + m not in done))))
            v = ip.freeze(p.st, p.val)
            used = {cval(t.args[2][0]) for t in subterms(v) if getattr(t, 'op', '') == 'call' and t.args[0] in IMPORT and t.args[2] and is_const(t.args[2][0])}
            ctx.check({str(loaded) + '.' + m for m in PARTS} <= used and all(u.split('.')[0] == loaded for u in used), 'C29.whole', 'namespace', where, '%s: the namespace is made of %s' % (say, ', '.join(sorted(used)) or 'nothing'))
        elif loaded and p.kind == 'raise' and not any(not ok for n, ok, e in at):
            if p.val.args[0] not in ('LookupError', 'KeyError'):
                ctx.fail('C29.same', 'refused', where, '%s: the binding that is loaded is refused (%s)' % (say, p.val.args[0]))
        n = History(p.st.fork(), loaded, frozenset(done), steps)
        out.setdefault(n.key(), n)
    if not k:
        raise AnalysisBroken('%s has no outcome' % say)


def selection(ctx):
    m = ctx.p.modules[UTIL]
    fi = m.funcs.get('import_qt')
    if fi is None:
        raise AnalysisBroken('import_qt is not there')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'import', 'write') and (e.kind != 'call' or e.name in IMPORT), opaque=lambda f: f.module.name != UTIL, merge=False, raising=True, max_states=4000,
                       raises=lambda ev, st: ('ImportError',) if ev.kind == 'call' and ev.name in IMPORT else (), raise_events=IMPORT))
    first = {}
    mod = mk('mod', UTIL)
    for app in (None,) + LIBS:
        h = History(State(), app, frozenset([app + '.QtCore'] if app else ()), ('the application imports %s' % app,) if app else ())
        for p in ip.run_module(UTIL, st=modules_of(h)):
            if p.kind != 'return':
                ctx.fail('C29.closure', 'import', UTIL, 'importing %s fails' % UTIL)
                continue
            for n, ok, e in attempts(p):
                ctx.fail('C29.closure', str(n), e.where, 'importing the library imports %s' % n)
            st = p.st.fork()
            for e in flat(p.trace):
                if e.kind == 'write' and e.recv is mod:
                    st.heap[(mod, 'a', e.name)] = e.value
            n = History(st, h.loaded, h.done, h.steps + ('importing the library',))
            first.setdefault(n.key(), n)
    if len(first) < 3:
        raise AnalysisBroken('importing the library has %d outcomes' % len(first))
    todo = dict(first)
    total = 0
    for depth in range(2):
        nxt = {}
        for h in list(todo.values()):
            variants = [h]
            if h.loaded is None:
                for l in LIBS:
                    variants.append(History(h.st, l, h.done | {l + '.QtCore'}, h.steps + ('the application imports %s' % l,)))
            for v in variants:
                for want in (None,) + LIBS:
                    total += 1
                    step(ctx, ip, fi, v, want, nxt)
        todo = nxt
    ctx.samples.append('%d calls of import_qt judged' % total)


def check(ctx):
    mods = closure(ctx)
    features(ctx, mods)
    selection(ctx)
    ctx.require('C29.closure', 10)
    ctx.require('C29.feature', 2)
    ctx.require('C29.order', 20)
    ctx.require('C29.refuse', 20)
