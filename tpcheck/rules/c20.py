import ast
from .base import *
from .c18 import POPEN, REPORT, PID, result as report_result, RECV
from .c19 import run_child, given, declared, MODULE, server_new, cli_of, base_cli

EXPLANATION = """
The bootstrap script is interpreted from its top level.  On each path on which the daemon option may have been given, a new
session must be entered and left by a fork before anything is done that creates a thread or a connection, the process that
forked must end, and each standard stream must be replaced (in the child, or by the launcher).  In the launcher, a daemon
handle must not be given to an exit hook, finalizer or registry, and its class must have no destructor.
"""
ASSUMPTIONS = ['POSIX', 'fork, setsid and dup2 succeed']
EXIT = ('SystemExit', 'os._exit')
HOOKS = ('atexit.register', 'weakref.finalize', 'threading.Timer', 'signal.signal', 'threading._register_atexit')


def forked(p, e):
    """True: this is the child's side; False: the parent's; None: unknown."""
    v = e.value
    for c, b in p.facts.items():
        if c.op == 'eq' and v in c.args and const(0) in c.args and isinstance(b, bool):
            return b
        if c.op == 'truth' and c.args[0] is v and isinstance(b, bool):
            return not b
        if c.op == 'lt' and isinstance(b, bool) and any(x is v for x, _ in lt_parts(c)[0]):
            parts, k = lt_parts(c)
            if len(parts) == 1:
                co = parts[0][1]
                # co*v < k
                return None if k not in (0, 0.0, 1, 1.0, -1) else ((not b) if co < 0 else None if not b else None)
    return None


def is_devnull(t):
    return any(hasattr(x, 'op') and (x is const('/dev/null') or x.op == 'ext' and x.args[0] in ('os.devnull', 'subprocess.DEVNULL')) for x in subterms(t))


def streams(ctx):
    """Standard streams the launcher replaces for every daemon."""
    fi = [f for k, f in ctx.p.funcs.items() if f.name == 'start_process' and f.cls is None and f.module.name == 'teleprox.process']
    if not fi:
        raise AnalysisBroken('start_process not found')
    fi = fi[0]
    rec = lambda e: e.kind in ('new', 'setitem', 'write') or e.kind == 'call'
    ip = ctx.interp(RP(record=rec, raising=False, opaque=lambda f: f.module.name != 'teleprox.process', opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), max_states=4000, result=report_result))
    replaced, session, n = {'stdin', 'stdout', 'stderr'}, True, 0
    paths = ip.run(fi, args={'daemon': TRUE})
    for p in paths:
        evs = list(flat(p.trace))
        for e in evs:
            if e.kind == 'call' and e.name == POPEN:
                n += 1
                kw = {}
                for k, v in e.kwargs:
                    kw[k] = v
                whole = dict(kw)
                for k, v in e.kwargs:
                    for d in alts(v):
                        if d.op == 'dict':
                            for name in ('stdin', 'stdout', 'stderr', 'start_new_session', 'close_fds', 'pass_fds', 'preexec_fn'):
                                vs = vals_of(d, name)
                                if vs != [None]:
                                    whole[name] = vs[0] if len(vs) == 1 and vs[0] is not None else NONE
                for s in list(replaced):
                    v = whole.get(s)
                    if v is None or not (v.op == 'ext' and v.args[0].endswith('DEVNULL')):
                        replaced.discard(s)
                session = session and whole.get('start_new_session') is TRUE
                ctx.check(whole.get('close_fds', TRUE) is not FALSE, 'C20.streams', 'close_fds', e.where, 'a daemon inherits the open files of its launcher')
        if p.kind == 'return':
            handle(ctx, ip, p, evs)
    if not n:
        raise AnalysisBroken('no daemon is launched')
    return replaced, session


def handle(ctx, ip, p, evs):
    for o in alts(p.val):
        t = ip.type_of(p.st, o)
        if not ctx.check(t is not None and not t.startswith('ext:'), 'C20.handle', 'class', MODULE, 'the handle of a daemon (%s) cannot be traced' % short(o)):
            continue
        for m in ('__del__',):
            f = ctx.p.find_method(t, m)
            ctx.check(f is None, 'C20.handle', t, f.key if f else t, 'the handle of a daemon has a destructor')
        for e in evs:
            if e.kind == 'call' and (e.name in HOOKS or e.name in ('.append', '.add', '.register', '.appendleft', '.push', '.callback') and e.recv is not None) or e.kind == 'setitem':
                touch = any(mentions(x, o) or mentions(x, PID) or mentions(x, lambda y: hasattr(y, 'op') and y.op == 'call' and y.args[0] == POPEN) or e.kind == 'call' and e.name in HOOKS and 'DaemonProcess' in show(x) for x in e.args) or \
                    e.kind == 'setitem' and any(mentions(x, o) for x in e.args)
                ctx.check(not touch, 'C20.handle', '%s in %s' % (e.name, e.fn), e.where, 'the daemon is registered with %s, which may end it without being asked to' % e.name)
    ctx.check(True, 'C20.handle', 'paths', MODULE, '')


def starts(ctx, e):
    """Does this event create a thread or a connection (or may it)?"""
    if e.kind != 'call':
        return False
    n = e.name
    if n == 'faulthandler.dump_traceback_later':
        return True
    if n.startswith(('zmq.', 'threading.', 'socket.', 'subprocess.', 'multiprocessing.', 'concurrent.')) and n not in ('threading.current_thread', 'threading.get_ident', 'threading.Lock', 'threading.RLock', 'socket.gethostname') or n in ('.connect', '.start', '.bind') or n.startswith('new '):
        return True
    if n.startswith('@'):
        return reaches(ctx, n[1:].split('.')[-1], set())
    return False


def reaches(ctx, name, seen):
    if name in seen:
        return False
    seen.add(name)
    for f in ctx.p.funcs.values():
        if f.name != name or isinstance(f.node, ast.Lambda):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                fn = x.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
                if nm in ('Thread', 'Timer', 'socket', 'connect', 'start', 'Popen', 'Socket', 'instance') or nm[:1].isupper() and nm.endswith(('Server', 'Client', 'Sender')):
                    return True
                if isinstance(fn, ast.Name) and reaches(ctx, nm, seen):
                    return True
    return False


ENDS = ('close_server', 'kill', 'terminate', 'send_signal', 'kill_pid', 'killpg')


def destructors(ctx):
    """No destructor of the library asks a server to close or signals a process: that of a daemon would be meant as well."""
    n = 0
    for c in ctx.p.classes.values():
        f = ctx.p.find_method(c.key, '__del__')
        if f is None:
            continue
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g.key in seen:
                continue
            seen.add(g.key)
            n += 1
            for x in ast.walk(g.node):
                if not isinstance(x, ast.Call):
                    continue
                fn = x.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
                ctx.check(nm not in ENDS, 'C20.handle', 'destructor of %s' % c.name, '%s:%d' % (g.module.path, x.lineno) if hasattr(g.module, 'path') else g.key,
                          'the destructor of %s does %s, which may end a daemon without it being asked to' % (c.name, nm))
                h = None
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls', c.name):
                    h = ctx.p.find_method(c.key, nm)
                elif isinstance(fn, ast.Name):
                    h = next((k for k in ctx.p.funcs.values() if k.name == nm and k.cls is None and k.module is g.module), None)
                if h is not None:
                    todo.append(h)
    ctx.check(True, 'C20.handle', 'destructors', MODULE, '')


def check(ctx):
    destructors(ctx)
    replaced, newsession = streams(ctx)
    ip, paths = run_child(ctx, raising=False)
    opts, _ = declared(ctx, ip, paths)
    if '--daemon' not in opts:
        raise AnalysisBroken('the bootstrap script has no --daemon option')
    n = 0
    for p in paths:
        if not given(p, opts['--daemon']['dest']):
            continue
        evs = list(flat(p.trace))
        forks = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'os.fork']
        side = [forked(p, e) for _, e in forks]
        if any(s is not True for s in side):
            # the side that forked a process off (or may be it) must end there
            i = next(i for (i, e), s in zip(forks, side) if s is not True)
            later = [x for x in evs[i + 1:] if x.kind == 'call' and (server_new(x) or x.name in ('os.fork', 'os.setsid', 'os.dup2') or starts(ctx, x))]
            ctx.check(p.kind == 'raise' and p.val.args[0] in EXIT and not later, 'C20.detached', 'the process forked from', evs[i].where,
                      'the process that forked the daemon off goes on' + (' to %s' % later[0].where if later else ''))
            continue
        n += 1
        detached(ctx, p, evs, forks, replaced, newsession)
    ctx.require('C20.detached', 5)
    ctx.require('C20.streams', 3)
    ctx.require('C20.handle', 1)
    if not n:
        raise AnalysisBroken('no path of the bootstrap script becomes a daemon')


def detached(ctx, p, evs, forks, replaced, newsession):
    sess = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'os.setsid']
    where = forks[-1][1].where if forks else MODULE
    if not ctx.check(bool(sess) or newsession, 'C20.detached', 'session', where, 'a daemon stays in the session of its launcher'):
        return
    last = sess[-1] if sess else -1
    ok = any(i > last for i, _ in forks)
    ctx.check(ok, 'C20.detached', 'leader', evs[last].where if sess else where, 'a daemon is the leader of its session' if forks else 'a daemon is a child of its launcher')
    if not ok:
        return
    done = next(i for i, e in reversed(forks))
    for e in evs[:done]:
        ctx.check(not starts(ctx, e), 'C20.detached', e.name, e.where, '%s creates a thread or connection before the daemon is detached' % e.name)
    # standard streams
    dups = {}
    for i, e in enumerate(evs):
        if e.kind == 'call' and e.name == 'os.dup2' and len(e.args) > 1:
            for d in alts(e.args[1]):
                k = cval(d) if is_const(d) else {'sys.stdin.fileno': 0, 'sys.stdout.fileno': 1, 'sys.stderr.fileno': 2}.get(d.args[0] if d.op == 'call' else '', None)
                if d.op == 'call' and d.args[0] == '.fileno' and d.args[1] is not None:
                    k = {'sys.stdin': 0, 'sys.stdout': 1, 'sys.stderr': 2, 'sys.__stdin__': 0, 'sys.__stdout__': 1, 'sys.__stderr__': 2}.get(show(d.args[1]))
                if k is not None:
                    dups[k] = (e, e.args[0])
    for k, s in enumerate(('stdin', 'stdout', 'stderr')):
        if k in dups:
            e, src = dups[k]
            ctx.check(is_devnull(src) or follows(dups, src), 'C20.streams', s, e.where, '%s of a daemon becomes %s' % (s, short(src)))
            ctx.check(mode_ok(src, k), 'C20.streams', s, e.where, '%s of a daemon is opened in the wrong mode' % s)
        else:
            ctx.check(s in replaced, 'C20.streams', s, where, '%s of the launcher stays open in a daemon' % s)


def follows(dups, src):
    return is_const(src) and cval(src) in dups and is_devnull(dups[cval(src)][1])


def mode_ok(src, k):
    for x in subterms(src):
        if hasattr(x, 'op') and x.op == 'call' and x.args[0] == 'open' and x.args[2]:
            m = x.args[2][1] if len(x.args[2]) > 1 else const('r')
            if not is_const(m):
                return True
            m = cval(m)
            return '+' in m or ('r' in m if k == 0 else 'w' in m or 'a' in m)
        if hasattr(x, 'op') and x.op == 'call' and x.args[0] == 'os.open' and len(x.args[2]) > 1:
            m = show(x.args[2][1])
            return 'O_RDWR' in m or ('O_RDONLY' in m if k == 0 else 'O_WRONLY' in m)
    return True
