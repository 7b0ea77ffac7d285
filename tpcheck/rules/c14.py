from .base import *
from .cli import *
from ..state import linear

EXPLANATION = """
The client's wait loop is interpreted, with the reading of messages inlined, once without and once with a timeout, for every
way of waiting.  It may return only after having found the response arrived.  With a timeout, every operation that can block
must be bounded by the remaining time (in the right unit) or by a short slice, and TimeoutError may leave the loop only where
the elapsed time, measured from the call's start, is known to have reached the timeout and the response was found missing
just before; without, never.  The timeout given to a call must reach the loop unchanged.  Establishing a connection must
test the clock between finite waits, and the port probe must have a timeout.
"""
ASSUMPTIONS = ['a socket reported readable delivers a message at once (only its own thread reads it)',
               'blocking operations end when their own timeouts elapse; processing a request or a message is not counted as waiting']
CLOCKS = ('time.perf_counter', 'time.monotonic', 'time.time', 'time.perf_counter_ns', 'time.monotonic_ns')
SLICE = 1000        # ms


def is_clock(t):
    return t.op == 'call' and t.args[0] in CLOCKS


class Wait:
    """Recognises the remaining time within one analysed wait."""

    def __init__(self, timeout, outside):
        self.timeout = timeout
        self.outside = outside      # clock readings made before the loop

    def remaining(self, t):
        """Is t the remaining time (timeout + start - now)?  Its clock reading, or None."""
        coef, c = linear(t)
        return self.parts({k: v for k, v in coef.items() if v}, c)

    def parts(self, coef, c):
        now = [k for k, v in coef.items() if is_clock(k) and v == -1]
        start = [k for k, v in coef.items() if is_clock(k) and v == 1]
        if c == 0 and len(coef) == 3 and coef.get(self.timeout) == 1 and len(now) == 1 and len(start) == 1 and start[0] in self.outside and now[0] not in self.outside and \
                now[0].args[0] == start[0].args[0]:
            return now[0]
        return None

    def elapsed(self, facts):
        """Do the facts say that the time is up?"""
        for c, b in facts.items():
            if c.op == 'lt' and isinstance(b, bool):
                its, k = lt_parts(c)
                if b is True and self.parts(dict(its), k) is not None:
                    return True
                if b is False and self.parts({t: -v for t, v in its}, -k if k else 0) is not None:
                    return True
        return False

    def scaled(self, t):
        """(k, exact): t is k times the remaining time, up to rounding."""
        if t is None:
            return None
        if self.remaining(t) is not None:
            return 1
        if t.op == 'call' and t.args[0] in ('int', 'round', 'math.floor', 'math.ceil', 'float') and t.args[2]:
            return self.scaled(t.args[2][0])
        if t.op == 'bin' and t.args[0] == '*':
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if is_const(a) and isinstance(cval(a), (int, float)):
                    k = self.scaled(b)
                    return k and k * cval(a)
        if t.op == 'bin' and t.args[0] == '/' and is_const(t.args[2]) and isinstance(cval(t.args[2]), (int, float)) and cval(t.args[2]):
            k = self.scaled(t.args[1])
            return k and k / cval(t.args[2])
        if t.op == 'call' and t.args[0] == 'max':
            ks = [self.scaled(a) for a in t.args[2] if not (is_const(a) and cval(a) in (0, 0.0, 1))]
            return ks[0] if len(ks) == 1 else None
        return None

    def bounded(self, t, unit, open_ended):
        """Is a wait of t (unit: how many make a second) bounded by the remaining time or a slice?"""
        if t is None or t is NONE:
            return open_ended
        if t.op == 'phi':
            return all(self.bounded(a, unit, open_ended) for a in t.args)
        if is_const(t):
            v = cval(t)
            if not isinstance(v, (int, float)):
                return False
            return open_ended if v < 0 else v * 1000 / unit <= SLICE
        if t.op == 'call' and t.args[0] == 'min':
            return any(self.bounded(a, unit, False) for a in t.args[2])
        if t.op == 'call' and t.args[0] == 'max' and t.args[2]:
            return all(self.bounded(a, unit, False) for a in t.args[2])
        if t.op == 'call' and t.args[0] in ('int', 'round', 'math.floor', 'math.ceil', 'float') and t.args[2]:
            return self.bounded(t.args[2][0], unit, open_ended)
        k = self.scaled(t)
        return k is not None and k <= unit


def rcvtimeo(e):
    if e.kind == 'write' and e.name.upper() == 'RCVTIMEO':
        return e.value
    if e.kind == 'call' and e.name in ('.setsockopt', '.set') and len(e.args) == 2 and e.args[0].op == 'ext' and e.args[0].args[0].endswith('RCVTIMEO'):
        return e.args[1]
    return None


READS = ('.recv', '.recv_multipart')


def ready(st, sock):
    """Has the socket just been reported readable?"""
    for c, b in st.facts.items():
        if b is True and (c.op == 'in' and c.args[0] is sock and c.args[1] is not sock or c.op in ('same', 'eq') and sock in c.args and not any(is_const(x) for x in c.args)):
            return True
    return False


def events(trace):
    """Events with those of the last iteration of loops included, flagged with the iteration they belong to."""
    return list(flat(trace))


def check(ctx):
    ci = client(ctx)
    so = self_of(ci)
    fi = method(ctx, ci, 'process_until_future')
    names = [a.arg for a in fi.node.args.args]
    fut = sym(names[1])
    total = 0
    for what in ('no timeout', 'a timeout'):
        t = NONE if what == 'no timeout' else mk('sym', 'timeout', 'ext:float')
        total += wait(ctx, ci, so, fi, {names[2]: t}, fut, t, what)
    if total < 1:
        raise AnalysisBroken('only %d iterations of the wait loop found' % total)
    ctx.require('C14.bounded', 6)
    ctx.require('C14.return', 2)
    ctx.require('C14.early', 1)
    passing(ctx, ci, so)
    establishing(ctx, ci, so)
    probe(ctx, ci, so)


def wait(ctx, ci, so, fi, args, fut, timeout, what):
    sockname = 'socket'

    def raises(ev, st):
        if ev.kind == 'call' and ev.name in READS:
            if ready(st, ev.recv):
                return ()
            v = last_timeo(st.trace, ev.recv)
            if v is not None and is_const(v) and isinstance(cval(v), (int, float)) and cval(v) < 0:
                return ()
            return ('zmq.error.Again',)
        if ev.kind == 'call' and ev.name in ('.get', '.wait') and mentions_queue(ev):
            return ('queue.Empty',)
        return ()
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name in READS + ('.poll', '.done', 'time.sleep', '.processEvents', '@RPCClient.process_msg', '.wait', '.select', 'select.select', 'zmq.select',
                                                                       '.join', '.acquire', '.result', '.exception') or e.name in CLOCKS or e.name.endswith('_read_and_process_one')) or rcvtimeo(e) is not None,
                       raises=raises, merge=False, want_loops=True, max_states=4000,
                       opaque=lambda f: f.module.name != 'teleprox.client' or f.name in ('process_msg', '_server_disconnected', 'get_client')))
    n = 0
    st = assumed(State(), [(same_atom(timeout, NONE), False)]) if timeout is not NONE else State()
    for p in ip.run(fi, self_val=so, args=args, st=st):
        outside = set()
        for e in p.trace:
            if e.kind == 'loop':
                break
            if e.kind == 'call' and e.name in CLOCKS and e.value is not None:
                outside.add(e.value)
        w = Wait(timeout, outside)
        for e in p.trace:
            if e.kind == 'loop':
                for it in e.extra:
                    n += 1
                    blocking(ctx, w, it.trace, timeout is NONE, what)
                    tests(ctx, it, fut, what, fi)
        tail = [e for e in p.trace if e.kind != 'loop']
        blocking(ctx, w, tail, timeout is NONE, what)
        dones = [e for e in tail if e.kind == 'call' and e.name == '.done' and e.recv is fut]
        if p.kind == 'return':
            ok = dones and known(p, dones[-1].value) is True
            ctx.check(ok, 'C14.return', 'return with %s' % what, fi.key, 'waiting returns although the response has not been found to have arrived')
            continue
        name = p.val.args[0] if p.val.op == 'exc' else p.val.args[0] if p.val.op == 'obj' else show(p.val)
        if 'Timeout' not in str(name) and 'Again' not in str(name) and 'Empty' not in str(name):
            continue
        fn, where, _ = exc_where(p.val)
        if timeout is NONE:
            ctx.fail('C14.early', 'TimeoutError of a wait without timeout in %s' % fn, where, 'a wait without timeout can end with %s' % short(p.val))
            continue
        ctx.check('TimeoutError' in str(name), 'C14.kind', 'error of a timed out wait', where, 'a wait that times out raises %s' % short(p.val))
        last = [e for e in tail if e.kind == 'call' and e.name in READS or rcvtimeo(e) is not None]
        v = rcvtimeo(last[-1]) if last else None
        waited = v is not None and w.scaled(v) == 1000
        ctx.check(w.elapsed(p.facts) or waited, 'C14.early', 'TimeoutError in %s' % fn, where, 'TimeoutError is raised although the timeout need not have elapsed')
        ok = dones and known(p, dones[-1].value) is False
        after = tail[tail.index(dones[-1]):] if dones else tail
        ctx.check(ok and not any(e.kind == 'call' and e.name == '@RPCClient.process_msg' for e in after), 'C14.arrived', 'TimeoutError in %s' % fn, where,
                  'TimeoutError is raised without having found the response missing')
    return n


def mentions_queue(ev):
    return False


def known(p, v):
    """What the path knows about the truth of a value."""
    return p.facts.get(v) if p.facts.get(v) is not None else p.facts.get(mk('truth', v))


def last_timeo(trace, recv):
    v = None
    for e in trace:
        if rcvtimeo(e) is not None and e.recv is recv:
            v = rcvtimeo(e)
    return v


def blocking(ctx, w, trace, open_ended, what):
    cur = {}
    for e in trace:
        if e.kind == 'loop':
            for it in e.extra:
                inner(ctx, w, e, it, open_ended, what)
            continue
        if rcvtimeo(e) is not None:
            cur[e.recv] = rcvtimeo(e)
            continue
        if e.kind != 'call':
            continue
        where = 'wait with %s in %s' % (what, e.fn)
        msg = 'this can block %s'
        if e.name in READS:
            if any(a.op == 'ext' and a.args[0].endswith(('NOBLOCK', 'DONTWAIT')) for a in list(e.args) + [v for _, v in e.kwargs]):
                continue
            v = cur.get(e.recv)
            if v is None and not open_ended:
                ctx.fail('C14.bounded', where, e.where, msg % 'without limit')
            else:
                ctx.check(w.bounded(v, 1000, open_ended), 'C14.bounded', where, e.where, msg % ('for %s ms, beyond the remaining time' % short(v)))
        elif e.name == '.poll' or e.name == 'zmq.select' or e.name == 'select.select':
            i = {'.poll': 0}.get(e.name, 3)
            v = e.args[i] if len(e.args) > i else dict(e.kwargs).get('timeout', NONE)
            ctx.check(w.bounded(v, 1000 if i == 0 else 1, open_ended), 'C14.bounded', where, e.where, msg % ('for %s ms, beyond the remaining time' % short(v)))
        elif e.name == 'time.sleep':
            ctx.check(w.bounded(e.args[0] if e.args else None, 1, False), 'C14.bounded', where, e.where, msg % ('for %s s' % short(e.args[0] if e.args else None)))
        elif e.name in ('.wait', '.join', '.acquire', '.result', '.exception', '.select'):
            v = dict(e.kwargs).get('timeout') or (e.args[0] if e.args else NONE)
            ctx.check(w.bounded(v, 1, open_ended), 'C14.bounded', where, e.where, msg % 'without limit')


def inner(ctx, w, loop, it, open_ended, what):
    """A loop within an iteration of the wait: it must not wait again and again without looking at the clock."""
    blocking(ctx, w, it.trace, open_ended, what)
    if open_ended or loop.recv is not None or it.kind not in ('n', 'c', 'continue'):
        return
    clock = any(e.kind == 'call' and e.name in CLOCKS for e in it.trace)
    for e in it.trace:
        if e.kind == 'call' and e.name in ('.poll', 'time.sleep', '.wait', '.acquire', '.select', 'zmq.select', 'select.select'):
            v = e.args[0] if e.args else dict(e.kwargs).get('timeout')
            ctx.check(clock or v is not None and is_const(v) and cval(v) == 0, 'C14.bounded', 'loop within a wait with %s in %s' % (what, e.fn), e.where,
                      'this can block again and again without a look at the clock')


def tests(ctx, it, fut, what, fi):
    """Every iteration looks at the clock, if there is a timeout, before waiting again."""
    if it.kind not in ('n', 'c', 'continue'):
        return
    if what == 'a timeout':
        clock = any(e.kind == 'call' and e.name in CLOCKS for e in it.trace)
        ctx.check(clock, 'C14.bounded', 'iteration with a timeout', fi.key, 'the clock is not read before waiting again')
    seen = any(e.kind == 'call' and e.name in ('.done',) and e.recv is fut for e in it.trace)
    ctx.check(seen, 'C14.return', 'iteration with %s' % what, fi.key, 'it is not tested whether the response has arrived before waiting again')


def passing(ctx, ci, so):
    """send(timeout) -> Future.result(timeout) -> process_until_future(timeout)"""
    fc = cls(ctx, 'Future') if 'Future' in [c.name for c in ctx.p.classes.values()] else None
    fi = method(ctx, ci, 'send')
    t = mk('sym', 'timeout', 'ext:float')
    for tv, what in ((t, 'a timeout'), (NONE, 'no timeout'), (const(0.25), 'a constant')):
        n = 0
        ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name.endswith('process_until_future'), raising=False, opaque=opaque))
        for p in ip.run(fi, self_val=so, args={'sync': const('sync'), 'timeout': tv}):
            if p.kind != 'return':
                continue
            for e in flat(p.trace):
                n += 1
                a = list(e.args)
                kw = dict(e.kwargs)
                v = kw.get('timeout', a[1] if len(a) > 1 else NONE)
                ctx.check(v is tv, 'C14.passed', 'call with %s' % what, e.where, 'the response is waited for with the timeout %s instead of %s' % (short(v), short(tv)))
            had = p.val.op == 'call' and p.val.args[1] is not None and is_done(p, p.val.args[1])
            ctx.check(had or any(True for _ in flat(p.trace)), 'C14.passed', 'waiting of a call with %s' % what, fi.key, 'a synchronous call returns without waiting')
        if not n:
            raise AnalysisBroken('no wait in a synchronous call')
    # what is asked for through the other operations of the client
    for m in ctx.p.classes[ci.key].methods.values():
        kw = m.node.args.kwarg
        if m.name.startswith('__') or m.name == 'send' or kw is None or kw.arg is None:
            continue
        ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name == '@RPCClient.send', raising=False, opaque=lambda f: opaque(f) or f.name == 'send'))
        for p in ip.run(m, self_val=so):
            for e in flat(p.trace):
                # every option given is handed on: none is taken out without being given by name
                lost = [] if any(k == '**' for k, _ in e.kwargs) else ['all']
                for k, v in e.kwargs:
                    while k == '**' and v.op in ('upd', 'at'):
                        lost += [cval(o) for o, x in (v.args[1] if v.op == 'upd' and len(e.args) <= 2 else ()) if is_const(o) and (x is DELETED or cval(o) == 'timeout') and cval(o) not in dict(e.kwargs)]
                        v = v.args[0]
                ctx.check(not lost, 'C14.passed', 'timeout of %s' % m.name, e.where, '%s does not pass on every option it is given: %s' % (m.name, lost))
    if fc is not None:
        res = ctx.p.find_method(fc.key, 'result')
        fself = mk('obj', fc.key, 'sym')
        for tv in (t, NONE):
            ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name.endswith('process_until_future') or e.name.endswith('.result')), raising=False,
                               opaque=lambda f: f.name == 'process_until_future'))
            for p in ip.run(res, self_val=fself, args={res.node.args.args[1].arg: tv}):
                evs = [e for e in flat(p.trace) if e.name.endswith('process_until_future')]
                for e in evs:
                    a = [x for x in e.args]
                    v = dict(e.kwargs).get('timeout', a[-1] if len(a) > 1 else NONE)
                    ctx.check(v is tv, 'C14.passed', 'Future.result', e.where, 'a future waits with the timeout %s instead of %s' % (short(v), short(tv)))
                if p.kind == 'return':
                    done = any(b is True and 'done' in show(c) for c, b in p.facts.items())
                    ctx.check(bool(evs) or done, 'C14.passed', 'waiting of Future.result', res.key, 'the result of a future is taken without processing messages')


def establishing(ctx, ci, so):
    fi = method(ctx, ci, 'ensure_connection')
    to = None
    for a in fi.node.args.args[1:]:
        to = a.arg
    t = mk('sym', 'timeout', 'ext:float')
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name in CLOCKS or e.name.endswith(('.result', '.ping', '.exception', 'process_until_future', 'time.sleep'))), merge=False, want_loops=True,
                       raises=lambda ev, st: ('TimeoutError', 'Exception*') if ev.kind == 'call' and ev.name.endswith('process_until_future') else (),
                       opaque=opaque, max_states=2000))
    st = State()
    st.heap[(so, 'a', 'establishing_connect')] = FALSE
    n = ends = 0
    for p in ip.run(fi, self_val=so, args={to: t} if to else {}, st=st):
        loops = [e for e in p.trace if e.kind == 'loop']
        outside = set()
        for e in p.trace:
            if e.kind == 'loop':
                break
            if e.kind == 'call' and e.name in CLOCKS:
                outside.add(e.value)
        its = [it for l in loops for it in l.extra]
        for it in its:
            n += 1
            waits(ctx, it.trace)
            if it.kind in ('n', 'c', 'continue'):
                w = Wait(t, outside)
                clock = any(c.op == 'lt' and isinstance(b, bool) and any(is_clock(x) and x not in outside for x, _ in lt_parts(c)[0]) for c, b in it.facts.items())
                counted = not any(e.kind == 'call' and e.name in CLOCKS for e in it.trace) and getattr(loops[0], 'name', '') == 'for'
                moved = [x for c, b in it.facts.items() if c.op == 'lt' and any(is_clock(x) and x not in outside for x, _ in lt_parts(c)[0])
                         for x, _ in lt_parts(c)[0] if x.op in ('mu', 'loopvar')]
                ctx.check(not moved, 'C14.connecting', 'limit of the attempts', fi.key, 'the time limit moves from attempt to attempt: %s' % (short(moved[0]) if moved else ''))
                ctx.check(clock or counted, 'C14.connecting', 'next attempt to connect', fi.key, 'another attempt to connect is made without looking at the clock')
        waits(ctx, [e for e in p.trace if e.kind != 'loop'])
        if p.kind == 'raise' and 'Timeout' in short(p.val):
            ends += 1
        if p.kind == 'return':
            answered = any(e.kind == 'call' and e.name.endswith('process_until_future') for e in flat(p.trace)) or any(
                b is True and any(x.op == 'call' and x.args[0].endswith('.done') for x in subterms(c)) for f in [p.facts] + [it.facts for it in its] for c, b in f.items())
            ctx.check(answered, 'C14.connecting', 'connected', fi.key, 'a connection is taken as established although no answer was received')
    ctx.check(ends > 0, 'C14.connecting', 'giving up', fi.key, 'connecting to an address where no server answers does not fail')
    if not n:
        ctx.fail('C14.connecting', 'attempts', fi.key, 'the connection is not retried or not bounded')
    init = method(ctx, ci, '__init__')
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name.endswith('ensure_connection'), raising=False, opaque=lambda f: opaque(f) or f.name in ('ensure_connection', 'check_address')))
    for p in ip.run(init, self_val=so):
        if p.kind == 'return':
            es = list(flat(p.trace))
            ctx.check(bool(es), 'C14.connecting', 'new client', init.key, 'a client is constructed without an answer from the server')
            for e in es:
                v = dict(e.kwargs).get('timeout', e.args[0] if e.args else None)
                d = fi.node.args.defaults
                if v is None:
                    ok = bool(d) and isinstance(getattr(d[-1], 'value', None), (int, float))
                else:
                    ok = not is_const(v) or isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool)
                ctx.check(ok, 'C14.connecting', 'time limit', e.where, 'connecting is tried for an unlimited time')


def waits(ctx, trace):
    for e in trace:
        if e.kind == 'call' and e.name.endswith('process_until_future'):
            v = dict(e.kwargs).get('timeout', e.args[1] if len(e.args) > 1 else NONE)
            ok = is_const(v) and isinstance(cval(v), (int, float)) and 0 <= cval(v) <= 10 or not is_const(v)
            ctx.check(ok, 'C14.connecting', 'wait for an answer', e.where, 'an answer is waited for with the time limit %s' % short(v))


def probe(ctx, ci, so):
    """The port probe of a new client is bounded."""
    fi = ctx.p.find_method(ci.key, 'check_address')
    if fi is None:
        return
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name in ('.settimeout', '.connect', '.connect_ex', 'socket.create_connection', '.setblocking'), raising=False,
                       opaque=lambda f: f.name in ('netstat',)))
    args = {fi.node.args.args[0].arg: mk('sym', 'address', 'ext:bytes')}
    for a, d in zip(fi.node.args.args[-len(fi.node.args.defaults):], fi.node.args.defaults):
        args[a.arg] = const(getattr(d, 'value', None))
    n = 0
    for p in ip.run(fi, args=args):
        lim = {}
        for e in flat(p.trace):
            if e.name == '.settimeout':
                lim[e.recv] = e.args[0] if e.args else NONE
            elif e.name in ('.connect', '.connect_ex'):
                n += 1
                v = lim.get(e.recv)
                ctx.check(v is not None and not (is_const(v) and not isinstance(cval(v), (int, float))) and v is not NONE, 'C14.probe', 'connect in %s' % e.fn, e.where,
                          'the address is probed with the time limit %s' % short(v))
            elif e.name == 'socket.create_connection':
                n += 1
                v = dict(e.kwargs).get('timeout', e.args[1] if len(e.args) > 1 else NONE)
                ctx.check(v is not NONE, 'C14.probe', 'connect in %s' % e.fn, e.where, 'the address is probed without time limit')
