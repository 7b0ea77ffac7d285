import ast
from .base import *

EXPLANATION = """
Every function that (directly or through helpers) creates a ZeroMQ socket or a thread is interpreted with its callees
inlined.  On every path each socket must have been given a finite linger time before anything is sent on it, and by the end
of the path if it has been bound or connected; no later write may make it infinite.  Every thread must be a daemon thread
when it is started (constructor argument, Thread.__init__ argument or attribute).  Every creation site in the source must
have been reached, and no executor, thread timer or multiprocessing child, which are joined at exit, may be created.
"""
ASSUMPTIONS = ['the undelivered messages of a socket are dropped when its linger time has elapsed (ZeroMQ)']

SENDS = ('.send', '.send_multipart', '.send_json', '.send_string', '.send_pyobj', '.send_serialized')
USES = ('.bind', '.connect', '.bind_to_random_port')
JOINED = ('concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.thread.ThreadPoolExecutor', 'threading.Timer',
          'multiprocessing.Process', 'multiprocessing.pool.ThreadPool')
CREATE = ('.socket', 'zmq.Socket', 'threading.Thread', 'threading.Thread.__init__')


def is_socket_call(ctx_mod, n):
    """Syntactic creation site of a ZeroMQ socket: <context>.socket(zmq.X)."""
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'socket' and \
        not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'socket') and len(n.args) >= 1


def is_thread_call(p, mod, n):
    if not isinstance(n, ast.Call):
        return None
    nm = p.canonical(mod, n.func) if hasattr(p, 'canonical') else ast.unparse(n.func)
    return nm if nm in ('threading.Thread', 'threading.Thread.__init__', 'Thread') + JOINED else None


def skip(m):
    return '.tests' in m or m.split('.')[-1].startswith('test')


def record(e):
    if e.kind == 'call':
        return e.name in CREATE or e.name in SENDS or e.name in USES or e.name in ('.setsockopt', '.set', '.start', '.setDaemon', '.close', '.run') or e.name in JOINED
    return e.kind == 'write' and e.name in ('linger', 'LINGER', 'daemon') or e.kind == 'new' or e.kind == 'extbase'


def check(ctx):
    sites = {}
    entries = []
    for m, mi in ctx.p.modules.items():
        if skip(m):
            continue
        for n in ast.walk(mi.tree):
            k = 'socket' if is_socket_call(m, n) else ('thread' if is_thread_call(ctx.p, m, n) else None)
            if k:
                sites[(m, n.lineno)] = (k, n)
    fns = {}
    for key, fi in ctx.p.funcs.items():
        if skip(fi.module.name):
            continue
        lines = (fi.node.lineno, getattr(fi.node, 'end_lineno', fi.node.lineno))
        if any(m == fi.module.name and lines[0] <= l <= lines[1] for m, l in sites):
            fns[key] = fi
    # functions that call a function which creates one (helpers)
    names = {fi.name for fi in fns.values() if fi.name != '__init__'} | {fi.cls.name for fi in fns.values() if fi.cls is not None and fi.name == '__init__'}
    callers = {}
    for key, fi in ctx.p.funcs.items():
        if key in fns or skip(fi.module.name):
            continue
        called = {(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)) for n in ast.walk(fi.node) if isinstance(n, ast.Call)}
        if called & names:
            callers[key] = fi
    reached = {}
    mods = [m for m, mi in ctx.p.modules.items() if not skip(m) and any(s[0] == m and not inside(ctx, m, s[1]) for s in sites)]
    helpers = {fi.key for fi in fns.values() if fi.name != '__init__' and returns_value(fi)}
    for key, fi in list(fns.items()) + list(callers.items()):
        # what another creating function does is judged there, unless it is a helper that hands the object out
        own = opaque_for(ctx, fi, set(fns) | set(callers), helpers)
        ip = ctx.interp(policy(own))
        for p in ip.run(fi):
            one(ctx, ip, p, fi.key, reached, key in helpers)
    for m in mods:
        ip = ctx.interp(policy(lambda f, m=m: f.module.name != m and f.key not in helpers))
        for p in ip.run_module(m):
            one(ctx, ip, p, m, reached, False)
    for (m, l), (k, n) in sorted(sites.items()):
        ok = any(r[0] == m and r[1] == l for r in reached)
        if not ok:
            syntactic(ctx, m, l, k, n)
    ctx.samples.append('creation sites: ' + ', '.join('%s:%d' % s for s in sorted(sites)))
    subclasses(ctx)
    everywhere(ctx)
    ctx.require('C22.linger', 6)
    ctx.require('C22.daemon', 4)


def returns_value(fi):
    return any(isinstance(n, (ast.Return, ast.Yield)) and n.value is not None for n in ast.walk(fi.node))


def inside(ctx, m, line):
    return any(fi.module.name == m and fi.node.lineno <= line <= getattr(fi.node, 'end_lineno', fi.node.lineno) for fi in ctx.p.funcs.values())


def opaque_for(ctx, fi, entries, helpers):
    def op(f):
        if f.key in helpers or f.module.name == fi.module.name and f.key not in entries:
            return False
        if fi.cls is not None and f.name == '__init__' and f.cls is not None and ctx.p.is_subclass(fi.cls.key, f.cls.key):
            return False
        return True
    return op


def policy(opaque):
    def result(ev, st):
        if ev.name in ('.socket', 'zmq.Socket', 'threading.Thread') and ev.kind == 'call':
            k = (sym('made at %s' % ev.where), 'a', 'n')
            n = st.heap.get(k)
            n = cval(n) + 1 if n is not None else 0
            st.heap[k] = const(n)
            return mk('sym', 'made at %s #%d' % (ev.where, n), 'ext:zmq.Socket' if ev.name != 'threading.Thread' else 'ext:threading.Thread')
        return None
    return RP(record=record, raising=False, opaque=opaque, result=result, max_states=1200)


def line_of(ev):
    try:
        return (ev.where.split(':')[0], int(ev.where.split(':')[1]))
    except Exception:
        return (ev.where, 0)


def finite(v):
    """Is this linger value finite?  (None or negative means for ever)"""
    for a in alts(v):
        if is_const(a):
            c = cval(a)
            if c is None or not isinstance(c, (int, float)) or c < 0:
                return False
    return True


def linger_of(e):
    if e.kind == 'write' and e.name in ('linger', 'LINGER'):
        return e.value
    if e.kind == 'call' and e.name in ('.setsockopt', '.set') and len(e.args) == 2 and e.args[0].op == 'ext' and e.args[0].args[0].endswith('LINGER'):
        return e.args[1]
    return None


def one(ctx, ip, p, key, reached, helper):
    made, lingers, used = {}, set(), set()
    threads, daemon, started = {}, set(), set()
    for e in flat(p.trace):
        if e.kind == 'call' and e.name in ('.socket', 'zmq.Socket') and e.value is not None and e.value.op == 'sym':
            made[e.value] = e
            reached[line_of(e)] = True
        v = linger_of(e)
        if v is not None and e.recv in made:
            ctx.check(finite(v), 'C22.linger', 'linger in %s' % e.fn, e.where, 'the linger time is set to %s' % short(v))
            lingers.add(e.recv)
        if e.kind == 'call' and e.recv in made:
            if e.name in USES:
                used.add(e.recv)
            if e.name in SENDS:
                ctx.check(e.recv in lingers, 'C22.linger', 'send in %s' % e.fn, e.where, 'a message is sent on a socket without linger time')
            if e.name == '.close':
                kw = dict(e.kwargs)
                if 'linger' in kw and not (is_const(kw['linger']) and cval(kw['linger']) is None):
                    ctx.check(finite(kw['linger']), 'C22.linger', 'close in %s' % e.fn, e.where, 'the socket is closed with linger time %s' % short(kw['linger']))
        if e.kind == 'call' and e.name == 'threading.Thread' and e.value is not None:
            threads[e.value] = e
            reached[line_of(e)] = True
            if truthy(dict(e.kwargs).get('daemon')):
                daemon.add(e.value)
        if e.kind == 'call' and (e.name == 'threading.Thread.__init__'):
            o = e.args[0] if e.args else e.recv
            if o is not None:
                threads[o] = e
                reached[line_of(e)] = True
                if truthy(dict(e.kwargs).get('daemon')):
                    daemon.add(o)
        if e.kind == 'write' and e.name == 'daemon' and e.recv is not None:
            (daemon.add if truthy(e.value) else daemon.discard)(e.recv)
        if e.kind == 'call' and e.name == '.setDaemon' and e.args:
            (daemon.add if truthy(e.args[0]) else daemon.discard)(e.recv)
        if e.kind == 'call' and e.name == '.start' and e.recv in threads:
            started.add(e.recv)
            ctx.check(e.recv in daemon or class_daemon(ctx, ip, p, e.recv), 'C22.daemon', 'thread started in %s' % e.fn, e.where, 'a thread is started that is not a daemon thread')
        if e.kind == 'call' and e.name in JOINED:
            reached[line_of(e)] = True
            kw = dict(e.kwargs)
            ctx.check(truthy(kw.get('daemon')), 'C22.daemon', '%s in %s' % (e.name, e.fn), e.where, '%s is waited for at exit' % e.name)
    if p.kind == 'raise':
        return
    for s, e in made.items():
        if s in used or not (helper and p.val is not None and mentions(p.val, s)):
            if s in used or escapes(p, s):
                ctx.check(s in lingers, 'C22.linger', 'socket of %s' % e.fn, e.where, 'a socket is used without a finite linger time')
    for t, e in threads.items():
        if t in started or (helper and p.val is not None and mentions(p.val, t)):
            continue
        ctx.check(t in daemon or class_daemon(ctx, ip, p, t), 'C22.daemon', 'thread of %s' % e.fn, e.where, 'a thread is created that is not a daemon thread')


def escapes(p, s):
    return any(v is s for k, v in p.st.heap.items() if k[1] == 'a')


def truthy(v):
    return v is not None and is_const(v) and bool(cval(v))


def class_daemon(ctx, ip, p, t):
    k = ip.type_of(p.st, t)
    if k and not k.startswith('ext:'):
        for c in ctx.p.mro(k):
            for s in getattr(getattr(c, 'node', None), 'body', []):
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'daemon' for x in s.targets) and isinstance(s.value, ast.Constant) and s.value.value is True:
                    return True
    return False


def subclasses(ctx):
    """A thread class without a constructor of its own is not a daemon thread unless it says so."""
    for key, ci in ctx.p.classes.items():
        if skip(ci.module.name) or not any(b.split('.')[-1] == 'Thread' and 'Q' not in b for b in ctx.p.ext_bases(key)):
            continue
        init = ctx.p.find_method(key, '__init__')
        if init is None:
            ctx.check(class_attr(ci), 'C22.daemon', ci.name, key, 'threads of this class are not daemon threads')
            continue
        ip = ctx.interp(policy(lambda f: f.module.name != ci.module.name))
        for p in ip.run(init, self_val=mk('obj', key, 'sym')):
            if p.kind == 'raise':
                continue
            so = mk('obj', key, 'sym')
            ok = class_attr(ci)
            for e in flat(p.trace):
                if e.kind == 'call' and e.name == 'threading.Thread.__init__' and (not e.args or e.args[0] is so or e.recv is so) and truthy(dict(e.kwargs).get('daemon')):
                    ok = True
                if e.kind == 'write' and e.name == 'daemon' and e.recv is so:
                    ok = truthy(e.value)
                if e.kind == 'call' and e.name == '.setDaemon' and e.recv is so and e.args:
                    ok = truthy(e.args[0])
            ctx.check(ok, 'C22.daemon', ci.name, init.key, 'threads of this class are not daemon threads')


def class_attr(ci):
    return any(isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'daemon' for x in s.targets) and isinstance(s.value, ast.Constant) and s.value.value is True
               for s in ci.node.body)


def syntactic(ctx, m, line, kind, n):
    """A creation site no analysed path reaches: the enclosing function must mention what is required."""
    fn = [fi for fi in ctx.p.funcs.values() if fi.module.name == m and fi.node.lineno <= line <= getattr(fi.node, 'end_lineno', 0)]
    src = ast.unparse(min(fn, key=lambda f: f.node.end_lineno - f.node.lineno).node) if fn else ast.unparse(ctx.p.modules[m].tree)
    if kind == 'socket':
        ctx.check('linger' in src.lower(), 'C22.linger', 'socket in %s' % m, '%s:%d' % (m, line), 'a socket is created without linger time')
    else:
        ctx.check('daemon' in src, 'C22.daemon', 'thread in %s' % m, '%s:%d' % (m, line), 'a thread is created that is not a daemon thread')


def everywhere(ctx):
    """No place makes a linger time infinite."""
    for m, mi in ctx.p.modules.items():
        if skip(m):
            continue
        for n in ast.walk(mi.tree):
            v = None
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr.lower() == 'linger' for t in n.targets):
                v = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setsockopt', 'set') and len(n.args) == 2 and \
                    ast.unparse(n.args[0]).endswith('LINGER'):
                v = n.args[1]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setattr' and len(n.args) == 3 and ast.unparse(n.args[1]).strip('\'"') == 'linger':
                v = n.args[2]
            if v is None:
                continue
            try:
                c = ast.literal_eval(v)
            except Exception:
                continue
            ctx.check(isinstance(c, (int, float)) and c >= 0, 'C22.linger', 'linger in %s' % m, '%s:%d' % (m, n.lineno), 'a linger time is set to %r' % (c,))
