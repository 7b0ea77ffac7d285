from .base import *
from .c14 import is_clock, CLOCKS
from .c18 import POPEN, result as report_result, RECV
from ..terms import Term
from ..state import linear

EXPLANATION = """
start_process is interpreted with every callback it gives to atexit being called: each path that returns a handle of a
non-daemon child must have registered one that asks the child's server to close.  stop, kill, wait and poll of the handle are
interpreted on the object its constructor builds: nothing is sent to a child that is seen to have exited, stopping asks and
then waits, killing kills and then waits, and waiting returns an exit code or raises TimeoutError once the timeout has passed.
"""
ASSUMPTIONS = ['a killed process ends', 'timeouts are numbers', 'communicate and wait of a Popen object wait no longer than they are told']
PROC = mk('sym', 'process', 'ext:subprocess.Popen')
TIMEOUT = mk('sym', 'timeout', 'ext:float')
CLOSE = '@RPCClient.close_server'


def opaque(f):
    return f.module.name != 'teleprox.process'


def child_class(ctx):
    c = [c for c in ctx.p.classes.values() if c.name == 'ChildProcess']
    if not c:
        raise AnalysisBroken('class ChildProcess not found')
    return c[0]


def hook(ip, st, fv, args, kwargs, node, fr):
    if fv.op == 'ext' and fv.args[0] == 'atexit.register' and args:
        ip.emit(st, ip.event('call', 'atexit.register', None, tuple(args), (), None, node, fr, st))
        return [(s, NONE) for s, _ in ip.call(st, args[0], list(args[1:]), list(kwargs), node, fr)]
    return None


def registration(ctx):
    fi = [f for k, f in ctx.p.funcs.items() if f.name == 'start_process' and f.cls is None and f.module.name == 'teleprox.process']
    if not fi:
        raise AnalysisBroken('start_process not found')
    fi = fi[0]
    rec = lambda e: e.kind == 'call' and (e.name in ('atexit.register', CLOSE, POPEN, '.poll') or 'unregister' in e.name)
    ip = ctx.interp(RP(record=rec, raising=False, opaque=opaque, opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), max_states=6000, result=report_result, hook=hook))
    n = 0
    for p in ip.run(fi, args={'daemon': FALSE}):
        if p.kind != 'return':
            continue
        evs = list(flat(p.trace))
        regs = [i for i, e in enumerate(evs) if e.name == 'atexit.register']
        if not regs:
            ctx.fail('C21.atexit', 'exit hook', fi.key, 'a child is started that is not stopped when its parent exits')
            continue
        n += 1
        closes = [e for e in evs[regs[0]:] if e.name == CLOSE]
        gone = [e for e in evs[regs[0]:] if e.name == '.poll' and p.facts.get(mk('isnone', e.value)) is False]
        weak = any(hasattr(x, 'op') and x.op == 'call' and x.args[0].startswith('weakref.') for i in regs for a in evs[i].args for x in subterms(a))
        ctx.check((bool(closes) or bool(gone)) and not weak, 'C21.atexit', 'exit hook', evs[regs[0]].where, 'the exit hook does not ask the child to stop' + (' once its handle is dropped' if weak else ''))
        for e in evs:
            ctx.check('unregister' not in e.name, 'C21.atexit', e.name, e.where, 'the exit hook of a child is removed again')
    ctx.require('C21.atexit', 2)


def events(e):
    return e.kind == 'call' and (e.name in ('.poll', '.wait', '.communicate', '.kill', '.terminate', '.send_signal', 'os.kill', 'os.waitpid', 'time.sleep', 'atexit.unregister', CLOSE) or e.name in CLOCKS or e.name.startswith('@')) \
        or e.kind == 'caught'


def raises(ev, st):
    if ev.kind != 'call':
        return () if ev.kind in ('getattr', 'getitem') else None
    if ev.name == '.communicate' and ev.recv is PROC:
        return ('subprocess.TimeoutExpired', 'ValueError', 'AttributeError')
    if ev.name == '.wait' and ev.recv is PROC:
        return ('subprocess.TimeoutExpired',)
    if ev.name in ('.poll', '.kill', '.terminate', 'time.sleep', 'min', 'max', 'time.time', 'str', 'repr') or ev.name in CLOCKS or ev.name in ('.info', '.debug', '.warning', '.format'):
        return ()
    return None


def runs(ctx, name, **args):
    """Paths of a method of the handle, on an object as its constructor leaves it."""
    ci = child_class(ctx)
    init = ctx.p.find_method(ci.key, '__init__')
    m = ctx.p.find_method(ci.key, name)
    if init is None or m is None:
        raise AnalysisBroken('ChildProcess.%s not found' % (name if init else '__init__'))
    pos = [a.arg for a in init.node.args.args]
    cl = ctx.p.classes
    ck = [k for k, c in cl.items() if c.name == 'RPCClient'][0]
    out = []
    for stdio in (NONE, sym('stdio logger')):
        ip = ctx.interp(RP(record=events, raises=raises, opaque=opaque, opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), max_states=3000, want_loops=True, merge=False,
                           hook=lambda ip, st, fv, a, k, n, fr: [(st, NONE)] if fv.op == 'ext' and fv.args[0] == 'atexit.register' else None))
        a = dict(zip(pos[1:], (PROC, mk('sym', 'client', ck), sym('name'), FALSE, stdio)))
        for n in ('proc', 'client', 'stdio_logger'):
            if n not in pos:
                raise AnalysisBroken('ChildProcess takes no %s' % n)
        a.update(proc=PROC, client=mk('sym', 'client', ck), stdio_logger=stdio)
        obj = ip.self_obj(ci.key)
        for p0 in ip.run(init, args=dict(a), self_val=obj):
            if p0.kind != 'return':
                continue
            p0.st.trace = ()
            for p in ip.run(m, args=dict(args), self_val=obj, st=p0.st.fork()):
                out.append((ip, m, p))
    return out


def polls(p, evs):
    """(events that saw the process gone, events that saw it alive)"""
    gone, alive = [], []
    for e in evs:
        if e.kind == 'call' and e.name == '.poll' and e.recv is PROC and not e.args:
            b = p.facts.get(mk('isnone', e.value))
            if b is False:
                gone.append(e)
            elif b is True:
                alive.append(e)
    return gone, alive


def exit_code(p, v, evs):
    """Is v known to be the exit code?"""
    if v.op == 'phi':
        return all(exit_code(p, x, evs) for x in v.args)
    if v.op == 'call' and v.args[1] is PROC and v.args[0] == '.wait':
        return True
    if v.op == 'call' and v.args[1] is PROC and v.args[0] == '.poll':
        return p.facts.get(mk('isnone', v)) is False
    if v.op == 'attr' and v.args[0] is PROC and v.args[1] == 'returncode' or v.op == 'at' and 'returncode' in show(v):
        gone, _ = polls(p, evs)
        return bool(gone) or p.facts.get(mk('isnone', v)) is False or any(e.kind == 'call' and e.name in ('.wait', '.communicate') and e.recv is PROC for e in evs)
    return False


def killed(e):
    if e.kind != 'call':
        return False
    sig = [a for a in e.args if a.op == 'ext' and a.args[0].endswith('SIGKILL') or a is const(9)]
    return e.name == '.kill' and e.recv is PROC or e.name == '.send_signal' and e.recv is PROC and bool(sig) or e.name == 'os.kill' and bool(sig) or e.name == '@kill_pid'


SIGNALS = ('.kill', '.terminate', '.send_signal', 'os.kill', '@kill_pid')


def stopping(ctx, name, act, what, **args):
    for ip, m, p in runs(ctx, name, **args):
        evs = list(flat(p.trace))
        gone, alive = polls(p, evs)
        acts = [i for i, e in enumerate(evs) if act(e)]
        sent = [i for i, e in enumerate(evs) if e.kind == 'call' and (e.name == CLOSE or e.name in SIGNALS and (e.recv is PROC or e.recv is None))]
        first_gone = min([evs.index(e) for e in gone], default=None)
        seen_alive = min([evs.index(e) for e in alive], default=None)
        for i in sent:
            ok = seen_alive is not None and seen_alive < i and not any(evs.index(g) < i for g in gone)
            ctx.check(ok, 'C21.%s' % name, '%s of an exited process' % evs[i].name, evs[i].where, '%s is done to a child without having seen that it has not exited' % evs[i].name)
        if first_gone is not None and not acts and (seen_alive is None):
            ctx.check(p.kind == 'return', 'C21.%s' % name, 'exited', m.key, '%s of a process that has exited raises %s' % (name, short(p.val, 50)))
            continue
        if p.kind == 'return':
            if not ctx.check(bool(acts), 'C21.%s' % name, what, m.key, '%s returns without having %s' % (name, what)):
                continue
            ctx.check(exit_code(p, p.val, evs), 'C21.%s' % name, 'exit code', m.key, '%s returns %s, not the exit code of the process after waiting for it' % (name, short(p.val)))
            waited = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name in ('.wait', '.communicate') and e.recv is PROC]
            ctx.check(all(acts[0] < i for i in waited), 'C21.%s' % name, 'order', m.key, 'the process is waited for before it is %s' % what)
        if name == 'stop' and acts:
            e = evs[acts[0]]
            ctx.check(any(v is TIMEOUT for _, v in e.kwargs) or TIMEOUT in e.args, 'C21.stop', 'timeout', e.where, 'the timeout is not passed to the request to close')


def waiting(ctx):
    for ip, m, p in runs(ctx, 'wait', timeout=TIMEOUT):
        evs = list(flat(p.trace))
        if p.kind == 'return':
            ctx.check(exit_code(p, p.val, evs), 'C21.wait', 'exit code', m.key, 'wait returns %s, which is not known to be the exit code' % short(p.val))
        else:
            k = p.val.args[0]
            if ctx.check(k in ('TimeoutError', 'builtins.TimeoutError'), 'C21.wait', 'raise %s' % k, exc_where(p.val)[1], 'wait ends with %s raised at %s' % (short(p.val, 50), exc_where(p.val)[1])):
                over = any(c.op == 'lt' and isinstance(b, bool) and passed(c, b) for c, b in p.facts.items())
                expired = any(e.kind == 'caught' and e.name.endswith('TimeoutExpired') for e in evs)
                ctx.check(over or expired, 'C21.wait', 'early timeout', exc_where(p.val)[1], 'TimeoutError is raised although the timeout has not passed')
        if p.kind != 'return':
            unseen(ctx, m, p.facts, evs)
        for l in p.trace:
            for it in l.extra if l.kind == 'loop' else ():
                if it.kind in ('n', 'continue', 'c'):
                    unseen(ctx, m, it.facts, list(flat(it.trace)))
        for e in evs:
            if e.kind == 'call' and e.recv is PROC and e.name in ('.wait', '.communicate'):
                v = dict(e.kwargs).get('timeout', e.args[0] if e.args and e.name == '.wait' else e.args[1] if len(e.args) > 1 else None)
                ctx.check(v is not None and whole(v), 'C21.wait', e.name, e.where, 'the process is waited for with timeout %s' % (short(v) if v is not None else None))
            if e.kind == 'call' and (e.name in SIGNALS or e.name == CLOSE):
                ctx.fail('C21.wait', e.name, e.where, 'waiting does %s to the process' % e.name)
            ctx.check(not (e.kind == 'call' and e.name == 'os.waitpid'), 'C21.wait', 'os.waitpid', e.where, 'the exit code is taken away from the Popen object')
        for l in p.trace:
            if l.kind != 'loop':
                continue
            for it in l.extra:
                if it.kind not in ('n', 'continue', 'c'):
                    continue
                here = {e.value for e in flat(it.trace) if e.kind == 'call' and e.value is not None}
                ok = any(c.op == 'lt' and isinstance(b, bool) and mentions_t(c) and any(is_clock(x) and x not in here for x, _ in lt_parts(c)[0]) and any(is_clock(x) and x in here for x, _ in lt_parts(c)[0])
                         for c, b in it.facts.items())
                ctx.check(ok, 'C21.wait', 'loop', l.where, 'waiting is repeated without comparing the time since the call with the timeout')


def unseen(ctx, m, facts, evs):
    """Waiting went on: each look at the process must have shown that it has not exited (an exit code may be 0)."""
    for e in evs:
        if e.kind == 'call' and e.recv is PROC and e.name in ('.poll', '.wait'):
            v = e.value
            ctx.check(facts.get(mk('truth', v)) is not False or facts.get(mk('isnone', v)) is True, 'C21.wait', 'exit code', e.where, 'waiting goes on although the process may have exited with code 0')


def mentions_t(c):
    return any(x is TIMEOUT for x, _ in lt_parts(c)[0])


def passed(c, b):
    """Does the fact say that the time since some moment of the call is not below the timeout?"""
    parts, k = lt_parts(c)
    co = dict(parts)
    t = co.get(TIMEOUT)
    if t is None:
        return False
    cl = [v for x, v in parts if is_clock(x)]
    if len(cl) < 2 or len(cl) != len(parts) - 1 or sum(cl) != 0:
        return False
    return t > 0 and b is True and k >= 0 or t < 0 and b is False and k <= 0


def whole(v):
    """The timeout, or what is left of it."""
    if v.op == 'phi':
        return all(whole(x) for x in v.args)
    if v.op == 'call' and v.args[0] == 'max' and TIMEOUT in {x for x in subterms(v) if isinstance(x, Term)}:
        return any(whole(x) for x in v.args[2])
    co, k = linear(v)
    return co.get(TIMEOUT) == 1 and k == 0 and all(x is TIMEOUT or is_clock(x) for x in co)


def polling(ctx):
    for ip, m, p in runs(ctx, 'poll'):
        evs = list(flat(p.trace))
        ctx.check(p.kind == 'return' and p.val.op == 'call' and p.val.args[0] == '.poll' and p.val.args[1] is PROC, 'C21.poll', 'poll', m.key, 'poll gives %s' % short(p.val))


def check(ctx):
    registration(ctx)
    stopping(ctx, 'stop', lambda e: e.kind == 'call' and e.name == CLOSE, 'asked the server to close', timeout=TIMEOUT)
    stopping(ctx, 'kill', killed, 'killed')
    waiting(ctx)
    polling(ctx)
    ctx.require('C21.stop', 6)
    ctx.require('C21.kill', 4)
    ctx.require('C21.wait', 10)
