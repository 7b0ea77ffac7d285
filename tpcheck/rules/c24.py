import ast
from .base import *
from .c18 import POPEN, result as report_result
from .c21 import child_class, PROC

EXPLANATION = """
start_process is interpreted with capturing on: the child is launched unbuffered with a binary pipe for each stream and an object of the class that
captures is made for it.  That object is built by interpreting its constructor, and the thread of each stream is interpreted on the state it leaves:
every line read is logged once, at the stream's level, as the decoded line without its newline, and reading goes on until an empty line.  No method
of the handle of a child whose output is captured reads from the pipes or closes them.
"""
ASSUMPTIONS = ['logging calls do not fail', 'readline of a pipe returns whole lines, the last one perhaps without newline, and an empty one at end of file only',
               'the logger is enabled for the level of the record']
LEVEL = {'stdout': 20, 'stderr': 30}
LEVELS = {'.debug': 10, '.info': 20, '.warning': 30, '.warn': 30, '.error': 40, '.critical': 50, '.exception': 40}
LOG = tuple(LEVELS) + ('.log',)
LOSSLESS = ('backslashreplace', 'surrogateescape')


def line_term(e):
    return e.kind == 'call' and e.name in ('.readline',)


def norm(t, line):
    """How t derives from the line: 'plain', 'stripped' (no newline at its end), 'cut' (without its last character), or None."""
    if t is line:
        return 'plain'
    if t is None:
        return None
    if t.op == 'phi':
        r = {norm(x, line) for x in t.args}
        return r.pop() if len(r) == 1 else None
    if t.op == 'fstr' and len(t.args) == 1:
        return norm(t.args[0], line)
    if t.op == 'call':
        name, recv, args = t.args[0], t.args[1], t.args[2]
        kw = dict(t.args[3]) if len(t.args) > 3 else {}
        if name == '.decode' or name == 'str' and args:
            src = recv if name == '.decode' else args[0]
            rest = list(args if name == '.decode' else args[1:])
            enc = kw.get('encoding', rest[0] if rest else const('utf-8'))
            err = kw.get('errors', rest[1] if len(rest) > 1 else const('strict'))
            if name == 'str' and not rest and not kw:
                return None
            if is_const(err) and cval(err) in LOSSLESS and (not is_const(enc) or str(cval(enc)).lower().replace('_', '-') in ('utf-8', 'utf8')):
                return norm(src, line)
            return None
        if name in ('.rstrip', '.strip', '.removesuffix') and len(args) == 1 and is_const(args[0]) and cval(args[0]) in ('\n', b'\n'):
            return 'stripped' if norm(recv, line) in ('plain', 'stripped') else None
        return None
    if t.op == 'item' and t.args[1].op in ('slice', 'call') and show(t.args[1]).startswith('slice(') and norm(t.args[0], line) == 'plain':
        s = show(t.args[1])
        return 'cut' if s in ('slice(None, -1, None)', 'slice(None, -1)', 'slice(0, -1, None)') else 'plain' if s == 'slice(None, None, None)' else None
    return None


def newline_at_end(facts, line):
    """Does the path know whether the line ends with a newline?"""
    for c, b in facts.items():
        if not isinstance(b, bool):
            continue
        x = c.args[0] if c.op == 'truth' else c
        if x.op == 'call' and x.args[0] == '.endswith' and norm(x.args[1], line) == 'plain' and x.args[2] and is_const(x.args[2][0]) and cval(x.args[2][0]) in ('\n', b'\n'):
            return b
        if c.op == 'eq':
            for u, v in (c.args, c.args[::-1]):
                if is_const(v) and cval(v) in ('\n', b'\n', 10) and u.op == 'item' and norm(u.args[0], line) == 'plain' and show(u.args[1]) in ('-1', 'slice(-1, None, None)'):
                    return b
    return None


def empty(facts, line):
    """True / False: the line is known to be empty / not empty."""
    for c, b in facts.items():
        if not isinstance(b, bool):
            continue
        if c.op == 'eq':
            for u, v in (c.args, c.args[::-1]):
                if is_const(v) and cval(v) in ('', b'') and norm(u, line) == 'plain':
                    return b
                if is_const(v) and cval(v) == 0 and u.op in ('len', 'call') and mentions(u, line) and (u.op == 'len' and norm(u.args[0], line) == 'plain' or u.op == 'call' and u.args[0] == 'len' and norm(u.args[2][0], line) == 'plain'):
                    return b
        x = c.args[0] if c.op == 'truth' else c
        if norm(x, line) == 'plain':
            return not b
    return None


def text_of(e):
    """The text of a logging call, None when the message is not that text."""
    args = e.args[1:] if e.name == '.log' else e.args
    if len(args) == 1:
        return args[0]
    if len(args) > 1 and is_const(args[0]) and isinstance(cval(args[0]), str) and cval(args[0]).endswith('%s') and cval(args[0]).count('%s') == len(args) - 1:
        return args[-1]
    return None


def level_of(e):
    if e.name != '.log':
        return LEVELS[e.name]
    a = e.args[0] if e.args else None
    if a is None:
        return None
    if is_const(a):
        return cval(a)
    return {'logging.INFO': 20, 'logging.WARNING': 30, 'logging.WARN': 30}.get(a.args[0] if a.op == 'ext' else None)


def raises(ev, st):
    if ev.kind != 'call':
        return () if ev.kind in ('getattr', 'getitem') else None
    if ev.name in LOG + ('.readline', 'logging.getLogger', 'id', '.start', '.endswith', '.decode', 'str', 'threading.Thread.__init__', 'len', '.ident', 'threading.current_thread', 'new LogSender', '.rstrip', '.strip', '.removesuffix', 'getattr'):
        return ()
    return None


def capture(ctx):
    k = ctx.p.find_class('StdioLogSender')
    init = ctx.p.find_method(k, '__init__')
    pos = [a.arg for a in init.node.args.args]
    proc, addr = mk('sym', 'proc', 'ext:subprocess.Popen'), sym('log_addr')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'new', 'write', 'setitem', 'break'), opaque=lambda f: False, merge=False, raises=raises, want_loops=True, max_states=2000,
                       opaque_class=lambda c: c.split(':')[-1] == 'LogSender', raise_events=('.readline', '.decode')))
    obj = ip.self_obj(k)
    a = {pos[1]: proc, 'log_addr': addr}
    done = 0
    for p in ip.run(init, args=a, self_val=obj):
        if p.kind != 'return':
            ctx.fail('C24.capture', 'raise', exc_where(p.val)[1], 'capturing fails with %s' % short(p.val, 60))
            continue
        evs = list(flat(p.trace))
        starts = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == '.start']
        threads = []
        for i in starts:
            t = evs[i].recv
            tk = t.args[0] if t.op == 'alloc' else None
            m = None
            for e in evs:
                if e.kind == 'new' and e.value is t:
                    c = [c for c in ctx.p.classes if c.split(':')[1] == e.name]
                    m = ctx.p.find_method(c[0], 'run') if c else None
            if m is not None:
                threads.append((t, m, ()))
            elif t.op == 'call' and t.args[0] == 'threading.Thread':
                kw = dict(t.args[3])
                threads.append((None, kw.get('target'), kw.get('args', mk('tuple'))))
        given = p.facts.get(mk('isnone', addr))
        for i in starts[:-1]:
            wait = [e for e in evs[i:starts[-1]] if e.kind == 'call' and e.name == '.join' and e.recv is evs[i].recv]
            ctx.check(not wait, 'C24.reader', 'one after the other', evs[i].where, 'one stream is read to its end before the other is read at all')
        senders = [i for i, e in enumerate(evs) if e.name == 'new LogSender']
        loggers = set()
        streams = []
        for t, m, args in threads:
            st = p.st.fork()
            st.trace = ()
            if t is not None:
                paths = ip.run(m, self_val=t, st=st)
            else:
                paths = [r for r in run_target(ip, m, args, st, ctx)]
            seen = set()
            for q in paths:
                stream(ctx, q, proc, loggers, seen, init)
            streams.append(seen)
        for lg in loggers:
            if lg.op == 'call' and lg.args[0] == 'logging.getLogger':
                own = bool(lg.args[2]) and any(x is proc or x is obj or hasattr(x, 'op') and x.op == 'call' and x.args[0] not in ('str', 'repr', 'format', 'int') for x in subterms(lg.args[2][0]))
                ctx.check(own, 'C24.forward', 'logger', init.key, 'the lines of different children go to the same logger (%s), and to the handlers of all of them' % short(lg, 60))
        lvl = sym('log_level')
        if p.facts.get(mk('isnone', lvl)) is not True and loggers:
            put = [e for e in evs if e.kind == 'write' and e.name == 'level' and e.recv in loggers or e.kind == 'call' and e.name == '.setLevel' and e.recv in loggers]
            ctx.check(bool(put), 'C24.forward', 'level given', init.key, 'the level given for captured output is not applied')
        for s in LEVEL:
            n = sum(1 for x in streams if s in x)
            ctx.check(n == 1, 'C24.reader', s, init.key, 'the %s of a child is read by %d threads' % (s, n))
        if given is False:
            ok = any(any(addr is x for x in evs[i].args + tuple(v for _, v in evs[i].kwargs)) and any(x in loggers for x in evs[i].args + tuple(v for _, v in evs[i].kwargs)) for i in senders) or \
                any(e.name == '.addHandler' and e.recv in loggers for e in evs if e.kind == 'call')
            ctx.check(ok, 'C24.forward', 'sender', init.key, 'the captured lines are not sent to the log server')
            ctx.check(not starts or all(i < starts[0] for i in senders), 'C24.forward', 'order', init.key, 'reading starts before the logger can forward what is read')
        else:
            off = [e for e in evs if e.kind == 'write' and e.name == 'propagate' and e.value is FALSE]
            ctx.check(not off, 'C24.forward', 'propagate', init.key, 'captured lines are not propagated although there is no log server to send them to')
        for e in evs:
            if e.kind == 'write' and e.name == 'disabled' or e.kind == 'call' and e.name in ('.addFilter', 'logging.disable'):
                ctx.fail('C24.forward', e.name, e.where, 'lines are kept from becoming records')
            if e.kind == 'write' and e.name == 'level' and e.recv in loggers or e.kind == 'call' and e.name == '.setLevel':
                v = e.value if e.kind == 'write' else e.args[0]
                ctx.check(v.op == 'sym' and v.args[0] == 'log_level', 'C24.forward', 'level', e.where, 'the level of captured output is set to %s' % short(v))
        done += 1
    if not done:
        raise AnalysisBroken('StdioLogSender cannot be built')
    ctx.require('C24.line', 4)
    ctx.require('C24.end', 2)


def run_target(ip, target, args, st, ctx):
    if target is None or args.op not in ('tuple', 'list'):
        raise AnalysisBroken('thread of StdioLogSender with unknown target')
    fi = None
    for x in subterms(target):
        if hasattr(x, 'op') and x.op == 'func':
            fi = ctx.p.funcs.get(x.args[0])
    raise AnalysisBroken('thread target %s is not understood' % short(target))


def stream(ctx, q, proc, loggers, seen, init):
    evs = list(flat(q.trace))
    reads = [e for e in evs if line_term(e)]
    for e in reads:
        src = [x for x in subterms(e.recv) if hasattr(x, 'op') and x.op == 'attr' and x.args[0] is proc]
        if src:
            seen.add(src[0].args[1])
    over = [l for l in deep(q.trace) if l.recv is not None and l.recv.op == 'attr' and l.recv.args[0] is proc]
    if over and not reads:
        each_line(ctx, q, over, proc, loggers, seen, init)
        return
    name = sorted(seen)[0] if len(seen) == 1 else None
    if not ctx.check(bool(reads), 'C24.reader', 'reads', init.key, 'a thread that captures output reads no line'):
        return
    if not ctx.check(name in LEVEL, 'C24.reader', 'stream', reads[0].where, 'a thread that captures output reads %s' % short(reads[0].recv, 60)):
        return
    for e in reads:
        ctx.check(not e.args and not e.kwargs, 'C24.reader', 'readline', e.where, 'lines are read in parts')
    if not ctx.check(q.kind == 'return', 'C24.end', 'raise %s' % name, exc_where(q.val)[1] if q.kind == 'raise' else init.key, 'capturing of %s ends with %s' % (name, short(q.val, 60))):
        return
    outer = [e for e in q.trace if line_term(e)]
    final = outer[-1].value if outer else None
    if any(e.kind == 'loop' for e in q.trace):
        for l in q.trace:
            if l.kind == 'loop':
                for it in l.extra:
                    one_line(ctx, it, name, loggers)
        ok = final is not None and empty(q.facts, final) is True
    else:
        ctx.fail('C24.end', 'loop', reads[0].where, 'only one line of %s is captured' % name)
        ok = True
    where = outer[-1].where if outer else reads[0].where
    ctx.check(ok, 'C24.end', name, where, 'capturing of %s ends before end of file' % name)
    after = [e for e in q.trace[index_of(q.trace, outer[-1]):] if e.kind == 'call' and e.name in LOG] if outer else []
    ctx.check(not after, 'C24.end', 'record %s' % name, where, 'the end of %s becomes a record' % name)


def deep(trace):
    for e in trace:
        if e.kind == 'loop':
            yield e
            for it in e.extra:
                for x in deep(it.trace):
                    yield x


def each_line(ctx, q, over, proc, loggers, seen, init):
    """for line in pipe: ends at end of file, and each element is a line."""
    for l in over:
        name = l.recv.args[1]
        seen.add(name)
        if not ctx.check(name in LEVEL, 'C24.reader', 'stream', l.where, 'a thread that captures output reads %s' % short(l.recv, 60)):
            return
        left = [e for e in q.trace if e.kind == 'break']
        ctx.check(q.kind == 'return' and not left, 'C24.end', name, l.where, 'capturing of %s ends before end of file' % name)
        for it in l.extra:
            lines = {x for e in flat(it.trace) for y in [e.recv] + list(e.args) if y is not None for x in subterms(y) if hasattr(x, 'op') and x.op == 'elem' and x.args[0] is l.recv}
            one_line(ctx, it, name, loggers, lines.pop() if len(lines) == 1 else mk('elem', l.recv))


class Read:
    def __init__(self, value, where):
        self.value = value
        self.where = where


def one_line(ctx, it, name, loggers, given=None):
    evs = list(flat(it.trace))
    rd = [e for e in evs if line_term(e)] if given is None else [Read(given, '%s lines' % name)]
    logs = [e for e in evs if e.kind == 'call' and e.name in LOG]
    if not rd:
        ctx.check(not logs, 'C24.line', 'extra', logs[0].where if logs else '?', 'a record is made without a line of %s' % name)
        return
    line = rd[-1].value
    where = rd[-1].where
    if not ctx.check(len(rd) == 1 and len(logs) == 1, 'C24.line', '%s once' % name, where, '%d lines of %s become %d records' % (len(rd), name, len(logs))):
        return
    e = logs[0]
    loggers.add(e.recv)
    ctx.check(level_of(e) == LEVEL[name], 'C24.line', '%s level' % name, e.where, 'a line of %s is logged with %s%s' % (name, e.name, short(e.args[0], 30) if e.name == '.log' else ''))
    t = text_of(e)
    if t is not None and t.op == 'fstr' and len(t.args) > 1:
        t = t.args[-1]
    kinds = [(x, norm(x, line)) for x in alts(t)] if t is not None else [(None, None)]
    nl = newline_at_end(it.facts, line)
    for x, k in kinds:
        ok = k == 'stripped' or k == 'cut' and nl is True or k == 'plain' and nl is False
        msg = 'its last character is removed although it may not be a newline' if k == 'cut' else 'its newline may remain' if k == 'plain' else 'it is not the whole decoded line'
        ctx.check(ok, 'C24.line', '%s text' % name, e.where, 'a line of %s is logged as %s: %s' % (name, short(x, 80), msg))


def keywords(e):
    kw = {}
    for k, v in e.kwargs:
        if k == '**':
            for x in alts(v):
                if x.op == 'dict':
                    kw.update(dict_of(x)[0])
    kw.update((k, v) for k, v in e.kwargs if k != '**')
    return kw


def launch(ctx):
    fi = [f for k, f in ctx.p.funcs.items() if f.name == 'start_process' and f.cls is None and f.module.name == 'teleprox.process']
    if not fi:
        raise AnalysisBroken('start_process not found')
    fi = fi[0]
    pos = [a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs]
    for n in ('log_stdio', 'log_addr', 'stdout', 'stderr', 'daemon'):
        if n not in pos:
            raise AnalysisBroken('start_process takes no %s' % n)
    n = 0
    for stdio in (TRUE, NONE):
        ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name in (POPEN, '.communicate', '.readline', '.read') or 'StdioLogSender' in e.name), raising=False, opaque=lambda f: f.module.name != 'teleprox.process',
                           opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), max_states=6000, result=report_result))
        args = {'log_stdio': stdio, 'stdout': NONE, 'stderr': NONE, 'daemon': FALSE}
        for p in ip.run(fi, args=args):
            if p.kind != 'return':
                continue
            evs = list(flat(p.trace))
            pop = [e for e in evs if e.name == POPEN]
            if not pop:
                continue
            has_addr = [b for c, b in p.facts.items() if c.op == 'isnone' and isinstance(b, bool) and any(hasattr(x, 'op') and (x.op == 'sym' and x.args[0] == 'log_addr') for x in subterms(c))]
            capt = [e for e in evs if e.name == 'new StdioLogSender']
            e = pop[-1]
            kw = keywords(e)
            on = stdio is TRUE or has_addr[-1:] == [False]
            if not on:
                pipes = [k for k in LEVEL if kw.get(k) is not None and kw[k] is ext('subprocess.PIPE')]
                ctx.check(not pipes or bool(capt), 'C24.launch', 'pipe', e.where, 'the %s of the child goes to a pipe that nobody reads' % ', '.join(pipes))
                continue
            n += 1
            for k in LEVEL:
                v = kw.get(k)
                ctx.check(v is ext('subprocess.PIPE'), 'C24.launch', k, e.where, 'the child whose output is captured is launched with %s=%s' % (k, short(v)))
            for k in ('text', 'universal_newlines', 'encoding', 'errors'):
                ctx.check(k not in kw or is_const(kw[k]) and not cval(kw[k]), 'C24.launch', k, e.where, 'the pipes of the child translate what is read')
            unb = any(hasattr(x, 'op') and (is_const(x) and isinstance(cval(x), str) and ('-u' in cval(x).split() or cval(x) == 'PYTHONUNBUFFERED')) for a in list(e.args) + list(kw.values()) for x in subterms(a))
            ctx.check(unb, 'C24.launch', 'unbuffered', e.where, 'the child is launched with buffered output')
            ok = len(capt) == 1 and any(a is e.value for a in capt[0].args + tuple(v for _, v in capt[0].kwargs))
            ctx.check(ok, 'C24.launch', 'capture', e.where, 'the output of the child is read by %d objects' % len(capt))
    if n < 1:
        raise AnalysisBroken('start_process captures output on %d paths' % n)


PIPE_OPS = ('.communicate', '.read', '.readline', '.readlines', '.read1', '.readinto', '.close', '.detach')


def handle(ctx):
    ci = child_class(ctx)
    init = ctx.p.find_method(ci.key, '__init__')
    cl = ctx.p.classes
    ck = [k for k, c in cl.items() if c.name == 'RPCClient'][0]
    pos = [a.arg for a in init.node.args.args]
    n = 0
    for name, m in sorted(ci.methods.items()):
        if name.startswith('__'):
            continue
        ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'raises') and e.name in PIPE_OPS, raising=True, opaque=lambda f: f.module.name != 'teleprox.process', raise_events=('.communicate',),
                           opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), max_states=3000,
                           hook=lambda ip, st, fv, a, k, nd, fr: [(st, NONE)] if fv.op == 'ext' and fv.args[0] == 'atexit.register' else None))
        obj = ip.self_obj(ci.key)
        for p0 in ip.run(init, args={'proc': PROC, 'client': mk('sym', 'client', ck), 'stdio_logger': mk('sym', 'stdio', 'ext:StdioLogSender')}, self_val=obj):
            if p0.kind != 'return':
                continue
            p0.st.trace = ()
            for p in ip.run(m, self_val=obj, st=p0.st.fork()):
                n += 1
                for e in flat(p.trace):
                    own = e.recv is PROC and e.name == '.communicate' or e.recv is not None and any(hasattr(x, 'op') and x.op == 'attr' and x.args[0] is PROC and x.args[1] in LEVEL for x in subterms(e.recv))
                    ctx.check(not own, 'C24.handle', '%s in %s' % (e.name, name), e.where, '%s takes output of the child away from the threads that capture it' % e.name)
                ctx.check(True, 'C24.handle', name, m.key, '')
    if n < 1:
        raise AnalysisBroken('ChildProcess has %d paths' % n)


def others(ctx):
    """Nothing else of the library touches the pipes of a child."""
    n = 0
    for mod in ctx.p.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.ClassDef) and node.name == 'StdioLogSender':
                n += 1
        inside = set()
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.ClassDef) and node.name == 'StdioLogSender':
                inside |= {id(x) for x in ast.walk(node)}
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Attribute) and node.attr in LEVEL and isinstance(node.ctx, ast.Load) and id(node) not in inside:
                sysmod = isinstance(node.value, ast.Name) and node.value.id == 'sys'
                proc = isinstance(node.value, (ast.Name, ast.Attribute)) and 'proc' in ast.unparse(node.value).split('.')[-1].lower()
                if proc and not sysmod and mod.name == 'teleprox.process':
                    ctx.fail('C24.handle', '%s:%d' % (mod.name, node.lineno), '%s:%d' % (mod.name, node.lineno), 'the pipe of a child is used outside the threads that capture its output')
    if not n:
        raise AnalysisBroken('StdioLogSender not found')


def check(ctx):
    capture(ctx)
    launch(ctx)
    handle(ctx)
    others(ctx)
