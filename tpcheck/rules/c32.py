import ast
import re
from .base import *
from .c31 import replace
from .c19 import run_child, root_logger, server_new

EXPLANATION = """
Installing exception logging is interpreted twice from every earlier state of the two hooks: afterwards sys.excepthook and threading.excepthook are functions of the library, and
nothing is different the second time.  These functions are applied to an unknown exception: each of their paths makes one record of level WARNING on the root logger
that holds the formatted traceback.  Each path of the server's request processing on which a request without reply fails gives the exception to the hook that is installed
at that time (not one remembered from an import).  The bootstrap script has installed it wherever it creates its server, and so has the basic configuration where it was asked to.
"""
ASSUMPTIONS = ['Python calls sys.excepthook for the main thread and threading.excepthook for threads', 'the root logger lets warnings pass', 'formatting an exception does not fail']
INSTALL = 'log_exceptions'
SYS, THR = (ext('sys'), 'a', 'excepthook'), (ext('threading'), 'a', 'excepthook')
FORMAT = ('traceback.format_exception', 'traceback.format_tb', 'traceback.TracebackException', 'traceback.TracebackException.from_exception')


def installer(ctx):
    f = [f for m in ctx.p.modules.values() for f in m.funcs.values() if f.name == INSTALL and f.cls is None and m.name.startswith('teleprox.log')]
    if not f:
        raise AnalysisBroken('log_exceptions is not there')
    return f[0]


def clean(st):
    s = st.fork()
    s.trace = ()
    return s


def hooks(ctx, fi):
    """The hooks that are installed, as (what, value, interpreter, state)."""
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: f.module is not fi.module, raising=False, merge=False))
    out = {}
    for p in ip.run(fi):
        if not ctx.check(p.kind == 'return', 'C32.install', 'fails', fi.key, 'installing exception logging fails with %s' % short(p.val, 60)):
            continue
        for what, key in (('main', SYS), ('thread', THR)):
            v = p.st.heap.get(key)
            if v is None:
                # found there already?
                v = [x for c, b in p.facts.items() if b is True and c.op in ('same', 'eq') and ext(key[0].args[0] + '.excepthook') in c.args for x in c.args if x is not ext(key[0].args[0] + '.excepthook')]
                v = v[0] if len(v) == 1 else None
            else:
                v = ip.freeze(p.st, v)
            if ctx.check(v is not None and v.op != 'ext' and v is not NONE, 'C32.install', what, fi.key, 'after installing it, exceptions %s are not logged' % ('of the main thread' if what == 'main' else 'of threads')):
                old = out.get((what, v))
                if old is None or sum(k in p.st.heap for k in (SYS, THR)) > sum(k in old[1].heap for k in (SYS, THR)):
                    out[what, v] = ip, p.st
        again = list(ip.run(fi, st=clean(p.st)))
        for q in again:
            a = {k: ip.freeze(p.st, v) for k, v in p.st.heap.items() if k[1] == 'a' and k[0].op in ('ext', 'mod')}
            b = {k: ip.freeze(q.st, v) for k, v in q.st.heap.items() if k[1] == 'a' and k[0].op in ('ext', 'mod')}
            diff = sorted('%s.%s' % (show(k[0]), k[2]) for k in set(a) | set(b) if a.get(k) is not b.get(k))
            ctx.check(q.kind == 'return' and not diff, 'C32.again', 'different', fi.key, 'installing it a second time changes %s' % (', '.join(diff) or short(q.val, 40)))
            for e in flat(q.trace):
                if e.kind == 'call' and e.name in ('.addHandler', '.append', 'atexit.register', '.start'):
                    ctx.fail('C32.again', 'again', e.where, 'installing it a second time calls %s again' % e.name)
        if not again:
            raise AnalysisBroken('log_exceptions has no second run')
    return out


def warns(e):
    """Is this a record of level WARNING on the root logger?  Its arguments."""
    if e.kind != 'call':
        return None
    root = e.name.startswith('logging.') or e.recv is not None and root_logger(e.recv)
    n = e.name.split('.')[-1]
    if not root or e.name in ('logging.getLogger',):
        return None
    if n in ('warning', 'warn'):
        return e.args
    if n == 'log' and e.args and e.args[0] in (const(30), ext('logging.WARNING')):
        return e.args[1:]
    return None


def traced(e, args, typ, val, tb, current=False):
    """Does the record hold the traceback of the exception?"""
    kw = dict(e.kwargs or ())
    x = kw.get('exc_info')
    if x is not None:
        if x.op == 'tuple' and tuple(x.args) == (typ, val, tb) or x is val or \
                x.op == 'tuple' and len(x.args) == 3 and x.args[1] is val and type_of_exc(x.args[0], val) and tb_of_exc(x.args[2], val):
            return True
        if current and (x is TRUE or is_const(x) and cval(x) or x.op == 'call' and x.args[0] == 'sys.exc_info'):
            return True
    for a in args:
        cut = {}
        for t in subterms(a):
            if getattr(t, 'op', '') == 'item' and getattr(t.args[1], 'op', '') == 'slice':
                cut[t.args[0]] = t.args[1]
            elif getattr(t, 'op', '') == 'item':
                cut[t.args[0]] = t.args[1]
        for t in subterms(a):
            if getattr(t, 'op', '') == 'call' and t.args[0] in FORMAT + ('traceback.format_exc',):
                fargs = tuple(t.args[2]) + tuple(v for k, v in t.args[3] or ())
                ok = tb in fargs or any(tb_of_exc(z, val) for z in fargs) or val in fargs and 'format_exception' in t.args[0] and len([z for z in fargs if not is_const(z)]) == 1 or any(z.op == 'star' for z in fargs) and current \
                    or current and t.args[0].endswith('format_exc') and not fargs
                lim = dict(t.args[3] or ()).get('limit')
                c = cut.get(t)
                whole = c is None or c.op == 'slice' and c.args[1] is NONE and c.args[2] is NONE and c.args[0] in (NONE, const(0), const(1))
                part = [x for x, y in cut.items() if x is not t and getattr(y, 'op', '') == 'slice' and not (y.args[0] in (NONE, const(0), const(1)) and y.args[1] is NONE) and mentions(x, t)]
                if ok and whole and not part and (lim is None or lim is NONE):
                    return True
    return False


def placeholders(f):
    return len(re.findall(r'%[-+ #0-9.]*[sra]', f.replace('%%', ''))) if not re.search(r'%\(|%[dfgxeic]', f.replace('%%', '')) else -1


def type_of_exc(t, x):
    return t is mk('exctype', x) or t.op == 'call' and t.args[0] == 'type' and t.args[2] == (x,) or t.op == 'attr' and t.args == (x, '__class__')


def tb_of_exc(t, x):
    return t is mk('exctb', x) or t.op == 'attr' and t.args == (x, '__traceback__')


def logs(ctx, hs):
    n = 0
    for (what, v), (ip0, st) in hs.items():
        ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'caught'), opaque=lambda f: not f.module.name.startswith('teleprox.log'), raising=False, merge=False, want_loops=True))
        T, V, B = sym('exc type'), sym('exc value'), sym('exc traceback')
        s = clean(st)
        for c in [c for c, b in s.facts.items() if c.op in ('=', 'same', 'eq') and (mentions(c, v) or any(mentions(x, ext(y)) for x in (c, b) if hasattr(x, 'op') for y in ('sys.excepthook', 'threading.excepthook')))]:
            del s.facts[c]
        if what == 'thread':
            a = sym('hook args')
            args = [a]
            T, V, B = mk('attr', a, 'exc_type'), mk('attr', a, 'exc_value'), mk('attr', a, 'exc_traceback')
        else:
            args = [T, V, B]
        fi = installer(ctx)
        for val in paths_of(ip, s, v, args, fi):
            st2, kind = val
            n += 1
            evs = list(flat(st2.trace))
            ws = [(e, warns(e)) for e in evs if warns(e) is not None]
            where = ws[0][0].where if ws else fi.key
            if not ctx.check(kind == 'return', 'C32.hook', what + ' fails', where, 'the hook fails with %s' % kind):
                continue
            for e in evs:
                if e.kind == 'call' and e.name in ('.setLevel', 'logging.disable', '.addFilter', '.disable'):
                    ctx.fail('C32.hook', 'silenced', e.where, 'the hook for unhandled exceptions calls %s' % e.name)
            if ctx.check(len(ws) == 1, 'C32.hook', what, where, 'an unhandled exception %s gives %d warnings on the root logger' % ('in the main thread' if what == 'main' else 'in a thread', len(ws))):
                e, a = ws[0]
                if len(a) > 1:
                    f = cval(a[0]) if is_const(a[0]) else None
                    ctx.check(isinstance(f, str) and placeholders(f) == len(a) - 1, 'C32.hook', what + ' format', where, 'the record of an unhandled exception cannot be formatted (%s with %d arguments)' % (short(a[0], 40), len(a) - 1))
                for i, x in enumerate((T, V, B)):
                    a = tuple(replace(y, mk('item', args[0], const(i)), x) for y in a)
                # text put together by a loop
                if any(getattr(t, 'op', '') in ('mu', 'loopvar') for y in a for t in subterms(y)):
                    a += tuple(l.recv for l in st2.trace if l.kind == 'loop' and all(it.kind == 'n' for it in l.extra))
                # and lists that were filled
                a += tuple(x for z in evs if z.kind == 'call' and z.name in ('.append', '.extend', '.insert', '.write', '.writelines') and z.recv is not None and any(mentions(y, z.recv) for y in a) for x in z.args)
                ctx.check(traced(e, a, T, V, B), 'C32.hook', what + ' traceback', where, 'the record of an unhandled exception does not hold its traceback')
    ctx.require('C32.hook', 2)
    return n


def paths_of(ip, s, v, args, fi):
    fr = ip.new_frame(fi, None)
    before = len(ip.raised) if hasattr(ip, 'raised') else 0
    saved = getattr(ip, 'raised', None)
    ip.raised = []
    for st2, _ in ip.call(s, v, args, [], fi.node, fr):
        yield st2, 'return'
    got, ip.raised = ip.raised, saved
    for st2, e in got:
        yield st2, short(e, 40)


def server(ctx):
    ci = cls(ctx, 'RPCServer')
    f = ctx.p.find_method(ci.key, '_process_one')
    if f is None:
        raise AnalysisBroken('RPCServer._process_one is not there')
    PROC = '@RPCServer.process_action'
    HOOK = 'sys.excepthook'

    def fails(e, st):
        if e.kind == 'call' and (e.name == PROC or e.name.endswith('loads')):
            return ('BaseException*',)
        if e.kind == 'call' and e.name == HOOK:
            return ('Exception*',)
        return ()
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'caught', 'raises'), raise_events=(PROC, HOOK), raises=fails, want_loops=True, merge=False,
                       opaque=lambda g: not (g.module is f.module or g.module.name == 'teleprox.log.handler') or g.name in ('process_action', 'get_proxy', 'auto_proxy', '_send_result', '_send_error')))
    names = [a.arg for a in f.node.args.args]
    msg = mk('dict', *[(const(k), v) for k, v in (('req_id', const(-1)), ('action', sym('action')), ('return_type', sym('return_type')), ('ser_type', sym('ser_type')), ('opts', sym('opts')))])
    n = 0
    for p in ip.run(f, self_val=ip.self_obj(ci.key), args={names[-1]: msg}):
        evs = list(flat(p.trace))
        done = any(e.kind == 'call' and e.name == PROC for e in evs)
        hook = [e for e in evs if e.kind in ('call', 'raises') and e.name == HOOK]
        ws = [(e, warns(e)) for e in evs if warns(e) is not None]
        if done:
            ctx.check(not hook and not ws, 'C32.request', 'fine', (hook or [e for e, _ in ws] or [None])[0].where if hook or ws else f.key, 'a request that did not fail is logged as an unhandled exception')
            continue
        if not hook and not ws and any(b is True and mentions(c, mk('attr', ip.self_obj(ci.key), '_closed')) for c, b in p.facts.items()):
            continue        # closed before: nothing is done
        n += 1
        if not ctx.check(len(hook) + len(ws) == 1, 'C32.request', 'reported', f.key, 'a failing request without reply is reported %d times' % (len(hook) + len(ws))):
            continue
        if hook:
            a = list(hook[0].args)
            ok = len(a) == 3 and a[1].op == 'exc' and type_of_exc(a[0], a[1]) and tb_of_exc(a[2], a[1]) or len(a) == 1 and a[0].op == 'star' and a[0].args[0].op == 'call' and a[0].args[0].args[0] == 'sys.exc_info'
            ctx.check(ok, 'C32.request', 'exception', hook[0].where, 'the hook is given (%s), not the exception of the failing request' % ', '.join(short(x, 40) for x in a))
        else:
            e, a = ws[0]
            xs = [t for y in list(a) + [v for k, v in e.kwargs or ()] for t in subterms(y) if getattr(t, 'op', '') == 'exc']
            x = xs[0] if xs else NONE
            ctx.check(traced(e, a, mk('exctype', x), x, mk('exctb', x), current=True), 'C32.request', 'exception', e.where, 'the record of a failing request without reply does not hold the traceback')
    if n < 1:
        raise AnalysisBroken('no request fails')


def bound(ctx):
    """The hook is looked up when it is needed."""
    for m in ctx.p.modules.values():
        if '.tests' in m.name:
            continue
        inner = {id(x) for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for b in (n.body if isinstance(n.body, list) else [n.body]) for x in ast.walk(b)}
        for n in ast.walk(m.tree):
            if id(n) in inner and not isinstance(n, ast.ImportFrom):
                continue
            if isinstance(n, ast.ImportFrom) and id(n) in inner:
                continue
            old = isinstance(n, ast.ImportFrom) and n.module in ('sys', 'threading') and any(x.name == 'excepthook' for x in n.names) \
                or isinstance(n, ast.Attribute) and n.attr == 'excepthook' and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ('sys', 'threading')
            if old and m.name == 'teleprox.server':
                ctx.fail('C32.request', 'remembered', '%s:%d' % (m.name, n.lineno), 'the exception hook is remembered from the import of the module')


def kept(ctx):
    """Nothing else of the library replaces the hooks or silences the root logger."""
    n = 0
    for m in ctx.p.modules.values():
        if '.tests' in m.name:
            continue
        own = m.name.startswith('teleprox.log')
        for x in ast.walk(m.tree):
            t = []
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                t = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                t = [z for y in t for z in ast.walk(y) if isinstance(z, ast.Attribute) and z.attr == 'excepthook' and isinstance(z.value, ast.Name) and z.value.id in ('sys', 'threading') and not isinstance(z.ctx, ast.Load)]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == 'excepthook':
                t = [x]
            n += len(t)
            if t and not own:
                ctx.fail('C32.hook', 'replaced', '%s:%d' % (m.name, x.lineno), 'the exception hook is replaced outside of the installation of exception logging')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'disable' and isinstance(x.func.value, ast.Name) and x.func.value.id == 'logging':
                ctx.fail('C32.hook', 'disabled', '%s:%d' % (m.name, x.lineno), 'logging is disabled for the whole process')
    ctx.check(n > 0, 'C32.hook', 'sites', 'teleprox', 'the exception hooks are never set')


def bootstrap(ctx):
    ip, paths = run_child(ctx)
    n = 0
    for p in paths:
        seen = False
        for e in flat(p.trace):
            if e.kind == 'call' and e.name.split('.')[-1].lstrip('@') == INSTALL:
                seen = True
            elif server_new(e):
                n += 1
                ctx.check(seen, 'C32.bootstrap', 'child', e.where, 'a child process creates its server before exception logging is installed')
    ctx.require('C32.bootstrap', 1)
    f = ctx.p.modules['teleprox.log'].funcs.get('basic_config')
    if f is None:
        raise AnalysisBroken('log.basic_config is not there')
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    if 'exceptions' not in d:
        raise AnalysisBroken('basic_config has no argument exceptions')
    ctx.check(isinstance(d['exceptions'], ast.Constant) and d['exceptions'].value is True, 'C32.config', 'default', f.key, 'the basic configuration does not log exceptions by default')
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call', opaque=lambda g: g.module is not f.module or g.cls is not None or g.key.split(':')[1] == INSTALL, opaque_class=lambda k: True, raising=False, merge=False))
    for p in ip.run(f, args={'exceptions': TRUE}):
        ctx.check(any(e.name.lstrip('@') == INSTALL for e in calls(p.trace)), 'C32.config', 'installed', f.key, 'the basic configuration does not install exception logging although it was asked to')
    for p in ip.run(f, args={'exceptions': FALSE}):
        got = [e for e in calls(p.trace) if e.name.lstrip('@') == INSTALL]
        ctx.check(not got, 'C32.config', 'told not to', got[0].where if got else f.key, 'the basic configuration installs exception logging although it is told not to')


def check(ctx):
    fi = installer(ctx)
    hs = hooks(ctx, fi)
    if {w for w, _ in hs} == {'main', 'thread'} or hs:
        logs(ctx, hs)
    server(ctx)
    bound(ctx)
    kept(ctx)
    bootstrap(ctx)
