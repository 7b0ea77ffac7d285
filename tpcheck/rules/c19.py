from .base import *
from .c18 import REPORT, RECV, SEND, POPEN, is_status, result as report_result
from .c14 import is_clock

EXPLANATION = """
The command line of the child, as start_process builds it for every option (given as each accepted type, with and without a
shell), is matched with the arguments the bootstrap module declares; the bootstrap module is interpreted from its top level and
each option must reach the operation that puts it into effect.  Every path through the bootstrap module must send the parent
either address and process id of the server it runs or a traceback with the process id, again and again until the parent
replies; and start_process must raise an error holding that traceback.
"""
ASSUMPTIONS = ['the library can be imported in the child', 'argparse interprets the command line as documented',
               'connecting the reporting socket and detaching the process succeed']
MODULE = 'teleprox.bootstrap'
CLI = sym('command line of the child')
SENDS = SEND
CHILD_NOFAIL = ('.add_argument', 'argparse.ArgumentParser', '.parse_args', 'vars', '.isdigit', '.upper', 'getattr', 'int', 'os.fork', 'os.setsid', 'os.dup2', 'os.umask', 'os.chdir', 'os.close',
                'open', 'os.open', '.flush', '.fileno', 'sys.stdout.flush', 'sys.stderr.flush', 'logging.basicConfig', 'faulthandler.enable', 'logging.getLogger', '.setLevel', 'traceback.format_exception', 'traceback.format_exc',
                'sys.exc_info', 'os.getpid', 'zmq.Context.instance', 'zmq.Context', '.socket', '.connect', '.encode', '.decode', 'time.time', 'time.monotonic', 'time.perf_counter', 'time.sleep', '.close', '.error', '.exception', '.format',
                '.debug', '.warning', 'str', 'repr', '.join', '.setsockopt', '.poll', '.term', 'getitem', 'formatkey', 'os._exit', 'sys.exit')


# ------------------------------------------------------------------ the child
def cli_of(t):
    """Name of the command line argument a term is, or None."""
    if t.op in ('item', 'getitem', 'get') and is_const(t.args[1]) and base_cli(t.args[0]):
        return cval(t.args[1])
    if t.op == 'attr' and t.args[0] is CLI:
        return t.args[1]
    if t.op == 'call' and t.args[0] in ('.get', '.pop', 'getattr') and t.args[2]:
        b, k = (t.args[2][0], t.args[2][1]) if t.args[0] == 'getattr' and len(t.args[2]) > 1 else (t.args[1], t.args[2][0])
        if b is not None and is_const(k) and base_cli(b):
            return cval(k)
    return None


def base_cli(t):
    return t is CLI or t.op == 'call' and t.args[0] in ('vars', 'dict') and len(t.args[2]) > 0 and base_cli(t.args[2][0]) or t.op == 'attr' and t.args[1] == '__dict__' and base_cli(t.args[0]) \
        or t.op == 'upd' and base_cli(t.args[0])


def names_in(t):
    return {cli_of(x) for x in subterms(t) if hasattr(x, 'op') and cli_of(x) is not None}


def given(p, name):
    """May the option have been given on this path?"""
    for c, b in p.facts.items():
        if c.op in ('isnone', 'truth', 'eq', 'same', 'is') and isinstance(b, bool) and any(hasattr(x, 'op') and cli_of(x) == name for x in c.args if hasattr(x, 'op')):
            others = [x for x in c.args if cli_of(x) != name]
            if c.op == 'isnone' and b or c.op == 'truth' and not b:
                return False
            if c.op in ('eq', 'same', 'is') and others and is_const(others[0]) and bool(cval(others[0])) != b:
                return False
    return True


def run_child(ctx, rec=(), raising=True, **kw):
    def res(ev, st):
        if ev.name == '.parse_args' or ev.name == '.parse_known_args':
            return CLI

    def raises(ev, st):
        if ev.kind == 'import' and raising and (ev.name or '').split('.')[-1] in ('qt', 'qt_util'):
            return ('ImportError',)             # no Qt library may be installed in the child
        if ev.kind != 'call':
            return ()
        if not raising or ev.name in CHILD_NOFAIL or ev.name.startswith('.log') or ev.name.endswith(('.fileno', '.flush')) or ev.name.split('.')[-1] in ('start', 'exec', 'exec_'):
            return ()
        if ev.name in SENDS + RECV:
            return ('zmq.error.Again',)
        return None
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'setitem', 'write', 'formatkey', 'import', 'raises', 'caught', 'new') or e.kind == 'getitem', raises=raises,
                       opaque=lambda f: f.module.name != MODULE, opaque_class=lambda k: True, result=res, want_loops=True, max_states=8000, raise_events=SENDS, **kw))
    return ip, ip.run_module(MODULE)


def declared(ctx, ip, paths):
    """{option string: (dest, takes a value, works without)} and positional dests."""
    opts, pos = {}, []
    for p in paths[:1]:
        for e in flat(p.trace):
            if e.kind != 'call' or e.name != '.add_argument':
                continue
            kw = dict(e.kwargs)
            strs = [cval(a) for a in e.args if is_const(a)]
            if not strs:
                raise AnalysisBroken('argument of the bootstrap script with computed name at %s' % e.where)
            act = cval(kw['action']) if 'action' in kw and is_const(kw['action']) else 'store'
            flag = act != 'store'
            if strs[0].startswith('-'):
                long = [s for s in strs if s.startswith('--')] or strs
                dest = cval(kw['dest']) if 'dest' in kw else long[0].lstrip('-').replace('-', '_')
                tp = kw.get('type')
                for s in strs:
                    opts[s] = dict(dest=dest, value=not flag, bare=flag and act == 'store_true' or 'const' in kw and is_const(kw['const']) and bool(cval(kw['const'])),
                                   integer=tp is not None and tp.op == 'ext' and tp.args[0] == 'int')
            else:
                pos.append(strs[0])
    if not opts:
        raise AnalysisBroken('the bootstrap script declares no arguments')
    return opts, pos


def root_logger(t):
    return t is not None and (t.op == 'call' and t.args[0] == 'logging.getLogger' and (not t.args[2] or t.args[2][0] is NONE or t.args[2][0] is const('')) or t.op == 'ext' and t.args[0] == 'logging.root')


def server_new(e):
    return e.kind == 'call' and e.name.startswith('new ') and e.name.endswith('RPCServer')


SINKS = {
    'name': (lambda e: e.args if e.kind == 'call' and e.name.endswith('set_process_name') else None, 'log.set_process_name'),
    'log_addr': (lambda e: e.args if e.kind == 'call' and e.name.endswith('set_logger_address') else None, 'log.set_logger_address'),
    'log_level': (lambda e: e.args if e.kind == 'call' and e.name == '.setLevel' and root_logger(e.recv) else None, 'setLevel of the root logger'),
    'address': (lambda e: e.args[:1] or tuple(v for k, v in e.kwargs if k == 'address') if server_new(e) else None, 'the RPC server'),
    'prefix': (lambda e: (e.value,) if e.kind == 'write' and e.name == 'PROCESS_NAME_PREFIX' else None, 'process.PROCESS_NAME_PREFIX'),
    'bootstrap_addr': (lambda e: e.args if e.kind == 'call' and e.name == '.connect' else None, 'connect of the reporting socket'),
}


def child(ctx):
    ip, paths = run_child(ctx)
    opts, pos = declared(ctx, ip, paths)
    dests = {o['dest'] for o in opts.values()} | set(pos)
    fed = {k: set() for k in SINKS}
    for p in paths:
        for e in flat(p.trace):
            for k, (f, _) in SINKS.items():
                a = f(e)
                if a:
                    fed[k] |= {n for x in a for n in names_in(x)}
    # qt and daemon act by choosing a path
    fed['qt'] = {n for n in dests if any(p.facts.get(mk('truth', x)) is not None for p in paths for x in
                                         [c.args[0] for c in p.facts if c.op == 'truth'] if cli_of(x) == n)}
    n = 0
    for p in paths:
        evs = list(flat(p.trace))
        forked_off = p.kind == 'raise' and p.val.args and str(p.val.args[0]) in ('SystemExit', 'os._exit') and any(e.name == 'os.fork' for e in evs) and not any(server_new(e) for e in evs) and not any(
            e.kind == 'caught' for e in evs)
        readable(ctx, p, evs, dests)
        if forked_off:
            continue
        n += 1
        report(ctx, ip, p, evs, fed)
    ctx.require('C19.reports', 5)
    ctx.require('C19.applied', 10)
    if n < 1:
        raise AnalysisBroken('only %d paths through the bootstrap script' % n)
    return opts, pos, fed


def readable(ctx, p, evs, dests):
    have = set(dests)
    for e in evs:
        if e.kind == 'setitem' and e.recv is not None and base_cli(e.recv) and is_const(e.args[0]):
            have.add(cval(e.args[0]))
        k = None
        if e.kind == 'formatkey' and e.recv is not None and base_cli(e.recv):
            k = e.name
        elif e.kind == 'getitem' and e.recv is not None and base_cli(e.recv) and e.args and is_const(e.args[0]):
            k = cval(e.args[0])
        if k is not None:
            ctx.check(k in have, 'C19.reads', '%r' % k, e.where, 'the argument %r is read, but never declared' % k)


def report(ctx, ip, p, evs, fed):
    wanted = given(p, next(iter(fed['bootstrap_addr']), ''))
    if not wanted:
        return
    sends = [(i, e) for i, e in enumerate(evs) if e.kind in ('call', 'raises') and e.name in SENDS]
    if p.kind == 'raise' and not sends:
        code_exit = str(p.val.args[0]).endswith('SystemExit') if p.val.args else False
        loops = [l for l in p.trace if l.kind == 'loop' and any(e.name in SENDS for it in l.extra for e in flat(it.trace))]
        if not (code_exit and loops):
            ctx.fail('C19.reports', 'raise from %s' % exc_where(p.val)[0], exc_where(p.val)[1], 'when %s is raised at %s, nothing is reported to the parent' % (short(p.val, 50), exc_where(p.val)[1]))
            return
    if not sends:
        zero = any(l.kind == 'loop' and any(is_clock(x) for c in p.facts if c.op == 'lt' for x, _ in lt_parts(c)[0]) for l in p.trace) or any(
            c.op == 'lt' and any(is_clock(x) for x, _ in lt_parts(c)[0]) for c in p.facts)
        ctx.check(zero and any(server_new(e) or e.kind == 'caught' for e in evs), 'C19.reports', 'end of the script', MODULE, 'a path through the bootstrap script reports nothing to the parent')
        return
    for i, e in sends:
        v = e.args[0] if e.args else None
        if v is None:
            continue
        for d in status_of(ip, p, v):
            content(ctx, ip, p, e, d, evs)
    # sent again until the parent replies
    for l in p.trace:
        if l.kind != 'loop' or not any(e.name in SENDS for it in l.extra for e in flat(it.trace)):
            continue
        for it in l.extra:
            ie = list(flat(it.trace))
            got = any(e.kind == 'call' and e.name in RECV for e in ie)
            if it.kind in ('break', 'b'):
                ctx.check(got, 'C19.retry', 'end of the loop', l.where, 'reporting ends although the parent has not replied')
            elif it.kind in ('raise', 'return'):
                ctx.fail('C19.retry', 'loop', l.where, 'reporting is abandoned when the parent is not ready yet')
    again = {e.where for l in p.trace if l.kind == 'loop' for it in l.extra for e in flat(it.trace) if it.kind in ('n', 'continue', 'c')}
    for e in p.trace:
        if e.kind != 'call' or e.name not in SENDS:
            continue
        nb = any(a.op == 'ext' and a.args[0].endswith(('NOBLOCK', 'DONTWAIT')) for a in list(e.args) + [v for _, v in e.kwargs])
        ctx.check(e.where in again or not nb, 'C19.retry', 'send', e.where, 'the report is sent once, and lost if the parent is not connected yet')
        if e.where in again:
            j = p.trace.index(e)
            ctx.check(p.kind == 'raise' or any(x.kind == 'call' and x.name in RECV for x in p.trace[j:]), 'C19.retry', 'end of the loop', e.where, 'reporting ends although the parent has not replied')
    first = sends[0][0]
    made = [e for e in evs[:first] if server_new(e) and not any(c.kind == 'caught' for c in evs[:first])]
    if made:
        applied(ctx, ip, p, evs, first, made[-1], fed)


def status_of(ip, p, v):
    """Frozen report(s) of a sent term."""
    out = []
    for x in alts(v):
        if x.op == 'call' and x.args[0].endswith('dumps') and x.args[2]:
            out.extend(status_of(ip, p, x.args[2][0]))
        elif x.op == 'call' and x.args[0] == '.encode':
            out.extend(status_of(ip, p, x.args[1]))
        elif x.op == 'alloc':
            m = p.st.heap.get((x, 'map', None))
            out.append(mk('dict', *m.args) if m is not None else x)
        else:
            out.append(x)
    return out


def content(ctx, ip, p, e, d, evs):
    f = {k: flatset(vals_of(d, k)) for k in ('address', 'pid', 'error')} if d.op in ('dict', 'upd') else None
    if f is None:
        ctx.fail('C19.reports', 'report', e.where, 'what is reported (%s) cannot be traced' % short(d))
        return
    pid = [x for x in f['pid']]
    ctx.check(all(x is not None and x.op == 'call' and x.args[0] == 'os.getpid' for x in pid), 'C19.reports', 'pid', e.where, 'the report holds the process id %s' % short(pid[0] if pid[0] is not None else const('(none)')))
    failed = any(c.kind == 'caught' for c in evs[:evs.index(e)] if 'Again' not in str(c.name))
    if not failed and f['address'] != [None]:
        ok = all(x is not None and any(hasattr(y, 'op') and y.op == 'attr' and y.args[1] == 'address' and ('RPCServer' in show(y.args[0])) for y in subterms(x)) for x in f['address'])
        ctx.check(ok, 'C19.reports', 'address', e.where, 'the reported address is %s, not that of the server' % short(f['address'][0] if f['address'][0] is not None else const('(none)')))
    else:
        ok = all(x is not None and mentions(x, lambda y: hasattr(y, 'op') and y.op == 'call' and y.args[0] in ('traceback.format_exception', 'traceback.format_exc', 'traceback.format_tb')) for x in f['error'])
        ctx.check(ok, 'C19.reports', 'error', e.where, 'the reported error does not hold the traceback')
        ctx.check(f['address'] == [None], 'C19.reports', 'error', e.where, 'an address is reported although starting the server failed')


def applied(ctx, ip, p, evs, first, srv, fed):
    for k, (f, what) in SINKS.items():
        dests = fed[k]
        if not ctx.check(bool(dests), 'C19.applied', k, MODULE, 'no argument of the child reaches %s' % what):
            continue
        if not all(given(p, d) for d in dests):
            continue
        hits = [a for e in evs[:first] for a in [f(e)] if a]
        ctx.check(any(names_in(x) for a in hits for x in a), 'C19.applied', k, srv.where, 'a server is started without %s having been given the %s' % (what, k))
        if k == 'log_level':
            textual = any(c.op == 'truth' and b is False and 'isdigit' in show(c) for c, b in p.facts.items())
            numeric = any(c.op == 'truth' and b is True and 'isdigit' in show(c) for c, b in p.facts.items())
            for a in hits:
                for x in a:
                    for y in alts(x):
                        if not cli_of(y) and numeric and y.op == 'call' and y.args[0] == 'getattr':
                            ctx.fail('C19.applied', 'log_level', srv.where, 'a log level given as digits is looked up as the name of one')
                        if cli_of(y) and not textual:
                            ctx.fail('C19.applied', 'log_level', srv.where, 'the log level is set to a text of digits')
    qd = [d for d in ('qt',) if d in fed['qt']] or sorted(fed['qt'])
    on = [d for d in qd if d in fed['qt'] and 'qt' in d]
    if ctx.check(bool(on), 'C19.applied', 'qt', MODULE, 'no argument selects the Qt server'):
        yes = given(p, on[0])
        isqt = 'QtRPCServer' in srv.name
        ctx.check(yes == isqt, 'C19.applied', 'qt', srv.where, 'with qt %s, the server is a %s' % (yes, srv.name[4:]))
        if yes:
            i = evs.index(srv)
            ctx.check(any(e.kind == 'call' and ('QApplication' in e.name or e.recv is not None and 'QApplication' in show(e.recv)) for e in evs[:i]), 'C19.applied', 'qt', srv.where, 'a Qt server is created without an application')
    if p.kind == 'return':
        ctx.check(any(e.kind == 'call' and e.name.endswith('run_forever') for e in evs[first:]), 'C19.applied', 'run', MODULE, 'the reported server is never run')


# ------------------------------------------------------------------ the parent
def elements(t):
    """(element, certain) of a command line term."""
    out = []
    for x in t.args:
        if not hasattr(x, 'op'):
            continue
        if x.op == 'star':
            y = x.args[0]
            if y.op == 'comp':
                inner = elements(y.args[1]) if y.args[1].op in ('list', 'tuple') else None
                if inner is None:
                    return None
                q = any(hasattr(z, 'op') and z.op == 'call' and z.args[0] == 'shlex.quote' for z in subterms(y.args[0]))
                out.extend((e, c and len(y.args) < 4, q) for e, c, _ in inner)
            elif y.op == 'call' and y.args[0] == 'map' and y.args[1] is None and len(y.args[2]) == 2 and y.args[2][1].op in ('list', 'tuple'):
                inner = elements(y.args[2][1])
                if inner is None:
                    return None
                out.extend((e, c, y.args[2][0] is ext('shlex.quote')) for e, c, _ in inner)
            elif y.op in ('tuple', 'list'):
                e = elements(y)
                if e is None:
                    return None
                out.extend(e)
            elif y.op == 'phi':
                out.extend((z, False, False) for z in y.args)
            else:
                return None
        else:
            out.append((x, True, False))
    return out


def words(t):
    """The words of a shell command line composed of texts."""
    out, cur, quoted = [], [], []

    def end():
        if cur:
            ps = [unquote(x)[0] for x in cur]
            q = all(is_const(x) or unquote(x)[1] for x in cur)
            out.append((mk('fstr', *ps) if len(ps) > 1 else ps[0], True, q))
            cur.clear()
    for x in t.args:
        if is_const(x) and isinstance(cval(x), str):
            bits = cval(x).split(' ')
            for i, b in enumerate(bits):
                if i:
                    end()
                if b:
                    cur.append(const(b))
        else:
            cur.append(x)
    end()
    # (a quoted composition is one element)
    return [(e.args[0] if e.op == 'fstr' and len(e.args) == 1 else e, c, q) for e, c, q in out]


def unquote(t):
    if t.op == 'call' and t.args[0] == 'shlex.quote':
        return t.args[2][0], True
    return t, False


def command(t):
    """List of (element, quoted) of the Popen command."""
    joined = False
    if t.op == 'call' and t.args[0] in ('.join', 'shlex.join') and t.args[2]:
        joined = t.args[0]
        t = t.args[2][0]
    if t.op == 'fstr':
        es = words(t)
    elif t.op in ('tuple', 'list'):
        es = elements(t)
    else:
        es = None
    if es is None:
        return None
    r = []
    for e, _, q in es:
        e, q2 = unquote(e)
        r.append((e, q or q2 or joined == 'shlex.join'))
    # what follows the module name
    for i, (e, q) in enumerate(r):
        if e is const('teleprox.bootstrap'):
            return r[i + 1:]
    return None


def parts_of(t):
    return list(t.args) if t.op == 'fstr' else [t]


def parse(ctx, cmd, opts, pos, where):
    """[(dest, value or None for a flag, safe, quoted)]"""
    out = []
    i, npos, rest = 0, 0, False
    while i < len(cmd):
        e, q = cmd[i]
        i += 1
        ps = parts_of(e)
        head = cval(ps[0]) if is_const(ps[0]) and isinstance(cval(ps[0]), str) else None
        if not rest and e is const('--'):
            rest = True
            continue
        if not rest and head is not None and head.startswith('--') or not rest and head is not None and head[:1] == '-':
            name, eq, tail = head.partition('=')
            o = opts.get(name)
            if o is None:
                ctx.fail('C19.passed', name, where, 'the option %s passed to the child is not one it declares' % name)
                continue
            if eq:
                if not o['value']:
                    ctx.fail('C19.passed', name, where, 'the option %s does not take a value in the child' % name)
                val = [x for x in ps[1:]] if not tail else [const(tail)] + ps[1:]
                out.append((o['dest'], val, True, q))
            elif len(ps) == 1 and o['bare'] and not (o['value'] and i < len(cmd) and not dashed(cmd[i][0])):
                out.append((o['dest'], None, True, q))
            elif len(ps) == 1 and o['value'] and i < len(cmd):
                out.append((o['dest'], parts_of(cmd[i][0]), True, q and cmd[i][1]))
                i += 1
            elif len(ps) == 1 and not o['bare']:
                ctx.fail('C19.passed', name, where, 'the option %s is passed without the value it needs' % name)
            else:
                out.append((o['dest'], ps[1:], True, q))
            continue
        if npos < len(pos):
            out.append((pos[npos], ps, rest or head is not None and head[:1] not in ('-', ''), q))
            npos += 1
        else:
            ctx.fail('C19.passed', 'argument', where, 'the child takes no further argument %s' % short(e))
    return out


def dashed(e):
    p = parts_of(e)[0]
    return is_const(p) and str(cval(p)).startswith('-')


def parent(ctx, opts, pos, fed):
    fi = [f for k, f in ctx.p.funcs.items() if f.name == 'start_process' and f.cls is None and f.module.name == 'teleprox.process']
    if not fi:
        raise AnalysisBroken('start_process not found')
    fi = fi[0]
    S = lambda n, t: mk('sym', n, 'ext:' + t)
    N, L, LB, A, AB, VI, VS = S('name', 'str'), S('log address', 'str'), S('log address', 'bytes'), S('address', 'str'), S('address', 'bytes'), S('level', 'int'), S('level', 'str')
    base = dict(name=NONE, address=A, qt=FALSE, log_addr=NONE, log_level=NONE, log_stdio=NONE, executable=NONE, shell=FALSE, conda_env=NONE, serializer=sym('serializer'),
                start_local_server=FALSE, daemon=FALSE, stdin=NONE, stdout=NONE, stderr=NONE)
    names = {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}
    if not set(base) <= names:
        raise AnalysisBroken('start_process has no parameter %s' % sorted(set(base) - names))
    cases = [('name', dict(name=N), N), ('address', dict(), A), ('address', dict(address=AB), AB), ('log_addr', dict(log_addr=L), L), ('log_addr', dict(log_addr=LB), LB), ('log_addr', dict(log_addr=LB, daemon=TRUE), LB),
             ('log_level', dict(log_level=VI), VI), ('log_level', dict(log_level=VS), VS), ('qt', dict(qt=TRUE), TRUE), ('daemon', dict(daemon=TRUE), TRUE), ('qt', dict(qt=TRUE, daemon=TRUE), TRUE),
             ('all', dict(name=N, address=AB, log_addr=L, log_level=VI, qt=TRUE, executable=S('executable', 'str')), None), ('all', dict(name=N, log_addr=L, log_level=VI, conda_env=S('environment', 'str')), None)]
    vals = {'name': (N,), 'address': (A, AB), 'log_addr': (L, LB), 'log_level': (VI, VS)}
    for what, args, v in cases:
        for shell in (FALSE, TRUE):
            a = dict(base)
            a.update(args)
            a['shell'] = shell
            ip = ctx.interp(RP(names=(POPEN,), raising=False, opaque=lambda f: f.module.name != 'teleprox.process', opaque_class=lambda k: True, max_states=4000, merge=False))
            n = 0
            for p in ip.run(fi, args=a):
                for e in flat(p.trace):
                    n += 1
                    one_command(ctx, ip, p, e, a, shell is TRUE, opts, pos, fed)
            if not n:
                raise AnalysisBroken('start_process launches nothing with %s' % what)
    ctx.require('C19.passed', 60)


def one_command(ctx, ip, p, e, a, shell, opts, pos, fed):
    cmd = command(e.args[0] if e.args else dict(e.kwargs).get('args'))
    if cmd is None:
        raise AnalysisBroken('the command line of the child cannot be traced (%s)' % short(e.args[0]))
    args = parse(ctx, cmd, opts, pos, e.where)
    if shell:
        for d, val, safe, q in args:
            ctx.check(q or val is None or all(is_const(x) for x in val), 'C19.passed', 'quoting of %s' % d, e.where, 'the %s is not quoted for the shell' % d)
    for what in ('name', 'address', 'log_addr', 'log_level'):
        v = a[what]
        if v is NONE:
            continue
        hits = [(d, val, safe) for d, val, safe, q in args if d in fed[what] and val is not None and any(mentions(x, v) for x in val)]
        if not ctx.check(bool(hits), 'C19.passed', what, e.where, 'the %s (%s) is not passed to the child' % (what, short(v))):
            continue
        for d, val, safe in hits:
            ctx.check(safe, 'C19.passed', what, e.where, 'a %s beginning with a dash is taken for an option' % what)
            ctx.check(faithful(ip, p, val, v, what), 'C19.passed', what, e.where, 'the %s reaches the child as %s' % (what, ' '.join(short(x, 60) for x in val)))
    # flags
    for what in ('qt', 'daemon'):
        on = any(what in d and val is None or what in d and val and is_const(val[0]) for d, val, safe, q in args if d in ([what] if what == 'daemon' else fed['qt']))
        ctx.check(on == (a[what] is TRUE), 'C19.passed', what, e.where, 'with %s=%s the child is told %s' % (what, a[what] is TRUE, on))
    pre = [val for d, val, safe, q in args if d in fed['prefix']]
    empty = any(b is True and 'PROCESS_NAME_PREFIX' in show(c) and (c.op == 'isnone' or c.op == 'eq' and const('') in c.args) or c.op == 'truth' and b is False and 'PROCESS_NAME_PREFIX' in show(c)
                or c.op == 'in' and b is True and 'PROCESS_NAME_PREFIX' in show(c.args[0]) for c, b in p.facts.items())
    ctx.check(empty or any(val and len(val) == 1 and all(prefix_itself(x) for x in alts(val[0])) for val in pre), 'C19.passed', 'prefix', e.where, 'the name prefix is not passed to the child')
    boot = [val for d, val, safe, q in args if d in fed['bootstrap_addr']]
    ctx.check(any('last_endpoint' in show(x) or 'LAST_ENDPOINT' in show(x) for val in boot for x in val or ()), 'C19.passed', 'bootstrap_addr', e.where, 'the child is not told where to report')


def prefix_itself(x):
    return 'PROCESS_NAME_PREFIX' in show(x) and not any(hasattr(y, 'op') and y.op in ('sym', 'bin', 'fstr') for y in subterms(x))


def faithful(ip, p, val, v, what):
    """The text the child gets for v is v (decoded, for bytes)."""
    def ok(x):
        if x is v:
            return v.args[1] != 'ext:bytes'
        if x.op == 'phi':
            return all(ok(y) for y in x.args)
        if x.op == 'call':
            if x.args[0] in ('.decode', 'str') and x.args[1] is v:
                return True
            if x.args[0] in ('str', 'format') and x.args[1] is None and len(x.args[2]) == 1:
                return ok(x.args[2][0])
            if x.args[0] == 'str' and len(x.args[2]) > 1 and x.args[2][0] is v:
                return True
            if x.args[0] == 'getattr' and what == 'log_level' and x.args[2][0] is ext('logging'):
                return x.args[2][1].op == 'call' and x.args[2][1].args[0] == '.upper' and x.args[2][1].args[1] is v
            if what == 'log_level' and x.args[0] in ('logging.getLevelName', 'int', 'logging.getLevelNamesMapping'):
                return True
        if x.op == 'bin' and what == 'name':
            return ok(x.args[-1]) and 'PROCESS_NAME_PREFIX' in show(x.args[-2])
        if x.op == 'fstr':
            return tail(x.args)
        if x.op in ('item', 'getitem') and what == 'log_level' and 'logging' in show(x.args[0]):
            return True
        return False

    def tail(parts):
        return ok(parts[-1]) and all('PROCESS_NAME_PREFIX' in show(x) and what == 'name' for x in parts[:-1])
    return tail(val)


def is_error(x):
    return x.op in ('item', 'getitem', 'get', 'call') and is_status(x) and (x.args[1] if x.op != 'call' else (x.args[2] or (NONE,))[0]) is const('error')


def holds_error(t):
    """Is the whole of the reported traceback part of this term?"""
    if is_error(t):
        return True
    if t.op in ('item', 'getitem', 'get', 'slice') and hasattr(t.args[0], 'op') and mentions(t.args[0], const('error')):
        return False
    return any(holds_error(x) for x in kids(t))


def kids(t):
    for a in t.args:
        if hasattr(a, 'op'):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if hasattr(b, 'op'):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if hasattr(c, 'op'):
                            yield c


def error(ctx):
    """The parent raises what the child reported."""
    from .c18 import analyse
    fi, ip, paths = analyse(ctx)
    seen = 0
    for p in paths:
        if not any(e.kind == 'call' and e.name in RECV for e in flat(p.trace)) or not any(e.kind == 'call' and e.name in SEND for e in flat(p.trace)):
            continue
        noaddr = any(c.op == 'in' and c.args[0] is const('address') and b is False and is_status(c.args[1]) or c.op == 'in' and c.args[0] is const('error') and b is True and is_status(c.args[1])
                     or c.op == 'isnone' and b is True and is_status(c.args[0]) and mentions(c, const('address')) for c, b in p.facts.items())
        if not noaddr:
            continue
        if p.kind == 'return':
            ctx.fail('C19.error', 'return', fi.key, 'a reported failure is returned as success')
            continue
        own = p.val.op == 'exc' and len(p.val.args) > 3 and p.val.args[3] is not None and p.val.args[3].op != 'origin'
        if not own:
            continue
        seen += 1
        ctx.check(holds_error(p.val), 'C19.error', 'raise', exc_where(p.val)[1],
                  'the error raised for a failed start does not hold the traceback reported by the child')
    ctx.require('C19.error', 1)


def check(ctx):
    opts, pos, fed = child(ctx)
    parent(ctx, opts, pos, fed)
    error(ctx)
    ctx.require('C19.reads', 5)
    ctx.require('C19.retry', 1)
