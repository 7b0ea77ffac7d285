from .base import *
from .c14 import is_clock

EXPLANATION = """
start_process is interpreted with every call after the launch allowed to fail (including by KeyboardInterrupt).  Each path that
raises after the child was launched must have killed it, and also the process the child reported unless it reported none; each
path must close the reporting socket; every operation that waits for the child must have a finite limit; each path that
returns must hand out a handle with a client connected to the reported address.
"""
ASSUMPTIONS = ['a killed process ends', 'the construction of a client ends in bounded time (C14)']
SOCK = ('.socket', 'zmq.Socket')
RECV = ('.recv', '.recv_json', '.recv_multipart', '.recv_string', '.recv_pyobj')
SEND = ('.send', '.send_json', '.send_multipart', '.send_string', '.send_pyobj')
POPEN = 'subprocess.Popen'
LAUNCH = (POPEN, 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'os.system', 'os.spawnv')


def opaque(f):
    return f.module.name not in ('teleprox.process', 'teleprox.util')


# what the child reports: always its process id (C19), and more
PID = mk('sym', 'reported process id', 'ext:int')
REPORT = mk('dict', (STARSTAR, sym('report')), (const('pid'), PID))


def is_raw(t):
    return any(hasattr(x, 'op') and x.op == 'call' and x.args[0] in RECV for x in subterms(t))


def is_status(t):
    return t is not None and (mentions(t, sym('report')) or mentions(t, PID))


def result(ev, st):
    if ev.name in ('.recv_json', '.recv_pyobj') or ev.name.endswith('loads') and any(is_raw(a) for a in ev.args):
        return REPORT


def opt(e, name):
    """Value of a socket option set by this event."""
    if e.kind == 'write' and e.name.upper() == name:
        return e.value
    if e.kind == 'call' and e.name in ('.setsockopt', '.set') and len(e.args) == 2 and e.args[0].op == 'ext' and e.args[0].args[0].endswith(name):
        return e.args[1]
    return None


def limited(v):
    return v is not None and all(a is not NONE and not (is_const(a) and (not isinstance(cval(a), (int, float)) or cval(a) < 0)) for a in alts(v))


def analyse(ctx, merge=True):
    fi = [f for k, f in ctx.p.funcs.items() if f.name == 'start_process' and f.cls is None and f.module.name == 'teleprox.process']
    if not fi:
        raise AnalysisBroken('start_process not found')
    fi = fi[0]

    def raises(ev, st):
        if ev.kind == 'getitem' and is_status(ev.recv) and ev.args and is_const(ev.args[0]) and cval(ev.args[0]) in ('pid', 'error'):
            return ()       # part of every report (C19)
        if ev.kind != 'call':
            return None
        if ev.name in RECV or ev.name in SEND or ev.name in ('new RPCClient', '.wait', '.communicate') and not killing(st, ev):
            return ('BaseException*', 'zmq.error.Again') if ev.name in RECV + SEND else ('BaseException*',)
        if ev.name == 'os.kill':
            return ('OSError',)
        return None
    rec = lambda e: e.kind == 'call' and (e.name in SOCK + RECV + SEND + LAUNCH + ('.kill', '.wait', '.communicate', '.close', '.poll', 'os.kill', '.terminate', '.send_signal', 'os.waitpid', 'select.select', 'time.sleep') or is_clockname(e.name)
                                          or 'RPCClient' in e.name) or e.kind == 'new' or e.kind == 'enter' or e.kind == 'exit' or opt(e, 'RCVTIMEO') is not None or opt(e, 'SNDTIMEO') is not None
    ip = ctx.interp(RP(record=rec, raises=raises, nofail=('.kill', '.close', 'atexit.register', '.terminate', '.setsockopt', '.linger'), merge=merge, opaque=opaque,
                       opaque_class=lambda k: k.split(':')[-1] in ('RPCClient', 'StdioLogSender'), raise_events=('os.kill', POPEN) + RECV + SEND, max_states=6000, want_loops=True, result=result))
    return fi, ip, ip.run(fi)


def is_clockname(n):
    from .c14 import CLOCKS
    return n in CLOCKS


def killing(st, ev):
    return any(e.kind == 'call' and e.name == '.kill' and e.recv is ev.recv for e in st.trace)


def check(ctx):
    fi, ip, paths = analyse(ctx)
    n = 0
    for p in paths:
        n += 1
        one(ctx, ip, fi, p)
    if n < 1:
        raise AnalysisBroken('only %d paths through start_process' % n)
    ctx.require('C18.killed', 10)
    ctx.require('C18.closed', 10)
    ctx.require('C18.bounded', 3)
    ctx.require('C18.handle', 1)


def one(ctx, ip, fi, p):
    evs = list(flat(p.trace))
    launched = [e for e in evs if e.kind == 'call' and e.name in LAUNCH]
    socks = [e for e in evs if e.kind == 'call' and e.name in SOCK and e.value is not None]
    reports = [e for e in evs if e.kind == 'call' and e.name in RECV and e.value is not None]
    for e in launched:
        if e.name != POPEN:
            ctx.fail('C18.bounded', e.name, e.where, 'the child is started and waited for without limit')
    for s in socks:
        v = s.value
        closed = any(e.kind == 'call' and e.name == '.close' and e.recv is v or e.kind == 'exit' and e.recv is v for e in evs)
        ctx.check(closed, 'C18.closed', 'socket of %s on %s' % (s.fn, 'return' if p.kind == 'return' else 'raise from %s' % exc_where(p.val)[0]), s.where,
                  'the reporting socket stays open %s' % ('on return' if p.kind == 'return' else 'when %s is raised at %s' % (short(p.val, 40), exc_where(p.val)[1])))
    if p.kind == 'raise' and launched:
        proc = launched[-1].value
        w = exc_where(p.val)
        i = evs.index(launched[-1])
        killed = any(e.kind == 'call' and e.name == '.kill' and e.recv is proc for e in evs[i:])
        ctx.check(killed, 'C18.killed', 'raise from %s' % w[0], w[1], 'the launched process stays alive when %s is raised at %s' % (short(p.val, 60), w[1]))
        if reports:
            hit = any(e.kind in ('call', 'raises') and e.name == 'os.kill' and e.args and is_status(e.args[0]) and len(e.args) > 1 and strong(e.args[1]) for e in evs)
            ctx.check(hit, 'C18.killed', 'reported process, raise from %s' % w[0], w[1],
                      'the process that reported its server stays alive when %s is raised at %s' % (short(p.val, 60), w[1]))
    waits(ctx, p.trace)
    if p.kind == 'return':
        handle(ctx, ip, fi, p, evs, reports, launched)


def strong(sig):
    """Every alternative on POSIX is SIGKILL."""
    vals = [a for a in alts(sig)]
    return any(a.op == 'ext' and a.args[0].endswith('SIGKILL') or is_const(a) and cval(a) == 9 for a in vals) or all(is_const(a) and cval(a) not in (0,) for a in vals)


def waits(ctx, trace):
    rcv, snd = {}, {}
    for e in flat(trace):
        for d, nm in ((rcv, 'RCVTIMEO'), (snd, 'SNDTIMEO')):
            v = opt(e, nm)
            if v is not None:
                d[e.recv] = v
        if e.kind != 'call':
            continue
        nb = any(a.op == 'ext' and a.args[0].endswith(('NOBLOCK', 'DONTWAIT')) for a in list(e.args) + [v for _, v in e.kwargs])
        if e.name in RECV and e.recv is not None and not nb:
            ctx.check(limited(rcv.get(e.recv)), 'C18.bounded', '%s in %s' % (e.name, e.fn), e.where, 'the report of the child is waited for without limit')
        elif e.name in SEND and e.recv is not None and not nb:
            ctx.check(limited(snd.get(e.recv)), 'C18.bounded', '%s in %s' % (e.name, e.fn), e.where, 'sending to the child blocks without limit if it has ended')
        elif e.name in ('.wait', '.communicate'):
            v = dict(e.kwargs).get('timeout', e.args[0] if e.args and e.name == '.wait' else NONE)
            ctx.check(v is not NONE, 'C18.bounded', '%s in %s' % (e.name, e.fn), e.where, 'the child is waited for without limit')
        elif e.name == '.poll' and (e.args or e.kwargs):
            v = dict(e.kwargs).get('timeout', e.args[0] if e.args else NONE)
            ctx.check(v is not NONE, 'C18.bounded', '%s in %s' % (e.name, e.fn), e.where, 'the child is waited for without limit')
        elif e.name == 'os.waitpid':
            ctx.fail('C18.bounded', 'os.waitpid', e.where, 'the child is waited for without limit')
    for l in trace:
        if l.kind != 'loop':
            continue
        for it in l.extra:
            if it.kind not in ('n', 'c', 'continue'):
                continue
            touches = any(e.kind in ('call', 'raises') and e.name in RECV + SEND + ('.poll', '.wait', 'time.sleep') for e in flat(it.trace))
            if not touches and l.name != 'loop':
                continue
            clock = any(c.op == 'lt' and isinstance(b, bool) and any(is_clock(x) for x, _ in lt_parts(c)[0]) for c, b in it.facts.items())
            if touches:
                ctx.check(clock or 'range' in show(l.recv) if l.recv is not None else clock, 'C18.bounded', 'loop', l.where, 'waiting for the child is repeated without looking at the clock')


def reported(t):
    """t is the address of the report."""
    if t.op == 'phi':
        return all(reported(x) for x in alts(t))
    if not is_status(t):
        return False
    if t.op in ('getitem', 'item'):
        return t.args[1] is const('address')
    if t.op == 'call':
        if t.args[0] in ('.get', '.pop'):
            return bool(t.args[2]) and t.args[2][0] is const('address')
        if t.args[1] is not None and is_status(t.args[1]):
            return reported(t.args[1])
        return len(t.args[2]) > 0 and any(is_status(x) for x in t.args[2]) and all(reported(x) for x in t.args[2] if is_status(x))
    return True


def handle(ctx, ip, fi, p, evs, reports, launched):
    ctx.check(bool(launched), 'C18.handle', 'launch', fi.key, 'a handle is returned without a process having been started')
    made = [e for e in evs if (e.kind == 'new' or e.kind == 'call') and 'RPCClient' in e.name]
    if not ctx.check(bool(made), 'C18.handle', 'client', fi.key, 'a handle is returned without a client having been connected'):
        return
    e = made[-1]
    a = e.args[0] if e.args else dict(e.kwargs).get('address')
    ctx.check(a is not None and reported(a), 'C18.handle', 'address', e.where,
              'the client is connected to %s, not to the address the child reported' % short(a))
    kw = dict(e.kwargs)
    for n in ('serializer', 'start_local_server'):
        v = kw.get(n)
        ctx.check(v is not None and any(hasattr(x, 'op') and x is sym(n) for x in subterms(v)), 'C18.handle', n, e.where, 'the option %s is not passed to the client' % n)
    o = p.val
    for x in alts(o):
        f = {n: v for (ob, k, n), v in p.st.heap.items() if ob is x and k == 'a'}
        cl = [v for v in f.values() if v is e.value or 'RPCClient' in (ip.type_of(p.st, v) or '')]
        ctx.check(bool(cl), 'C18.handle', 'handle', fi.key, 'the returned handle does not hold the client')
