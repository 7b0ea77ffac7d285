import ast
from .base import *

EXPLANATION = """
The constructor, loop and stop of the polling thread are interpreted.  The constructor takes the network socket over from the server and puts one end
of a fresh pair in its place (so no other object keeps it), connects the request signal - not directly - to the server's request processing, and
binds the other end of the pair.  In every turn of the loop each message read from the network is emitted once and unmodified unless it is
malformed, each message from the Qt thread is forwarded to the network once and unmodified unless it is the stop message, and nothing of the
server is called.  What stop sends is what ends the loop, and an end of the loop closes both sockets.  No other code of the library names the two sockets.
"""
ASSUMPTIONS = ['a Qt signal connected in one thread and emitted in another is delivered in the thread of the receiver (not for direct connections)',
               'the server is created in the Qt thread', 'sending on the sockets does not fail']
EXEC = ('_process_one', 'process_action', '_read_and_process_one', 'run_forever')
SENDS = ('.send', '.send_multipart', '.send_pyobj', '.send_string', '.send_json')
RECVS = ('.recv', '.recv_multipart', '.recv_string', '.recv_json', '.recv_pyobj')


def in_qt(f):
    return f.module.name in ('teleprox.qt_poll_thread', 'teleprox.qt_server')


def nth(ev, st):
    if ev.name == '.socket':
        n = sum(1 for e in flat(st.trace) if e.kind == 'call' and e.name == '.socket')
        return mk('sym', 'socket#%d' % n, 'ext:zmq.Socket')


def constructor(ctx, pt, sv):
    m = ctx.p.find_method(pt.key, '__init__')
    server = sym('server')
    orig = mk('attr', server, '_socket')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: f.module.name != pt.module.name, raising=False, merge=False, result=nth))
    me = ip.self_obj(pt.key)
    arg = [a.arg for a in m.node.args.args][1]
    found = set()
    for p in ip.run(m, self_val=me, args={arg: server}):
        if p.kind != 'return':
            continue
        mine = {k[2]: v for k, v in p.st.heap.items() if k[0] is me and k[1] == 'a'}
        net = [f for f, v in mine.items() if v is orig]
        srv = [f for f, v in mine.items() if v is server]
        new = p.st.heap.get((server, 'a', '_socket'))
        if not ctx.check(len(net) == 1, 'C28.takes', 'network', m.key, 'the polling thread does not take the network socket of the server'):
            continue
        if not ctx.check(new is not None and new is not orig and new.op == 'sym' and str(new.args[0]).startswith('socket#'), 'C28.alone', 'server socket', m.key,
                         'the server keeps the network socket that the polling thread uses'):
            continue
        evs = list(flat(p.trace))
        conn = [e for e in evs if e.kind == 'call' and e.name == '.connect' and e.recv is new]
        bound = [e for e in evs if e.kind == 'call' and e.name == '.bind']
        ends = [f for f, v in mine.items() if bound and v is bound[-1].recv] if bound else []
        if len(bound) == 1 and bound[0].recv is new:            # the other way round
            conn2 = [e for e in evs if e.kind == 'call' and e.name == '.connect' and str(e.recv).startswith('socket#')]
            conn, bound = bound, conn2
            ends = [f for f, v in mine.items() if bound and v is bound[-1].recv]
        ok = len(conn) == 1 and len(bound) == 1 and len(ends) == 1 and conn[0].recv is not bound[0].recv and conn[0].args and bound[0].args and conn[0].args[0] is bound[0].args[0]
        ctx.check(ok, 'C28.pair', 'pair', m.key, 'the socket of the server is not connected to one of the polling thread')
        for e in evs:
            if e.kind == 'call' and e.name == '.moveToThread':
                ctx.fail('C28.qt', 'moved', e.where, 'an object that delivers requests is moved to another thread: they would be processed there')
            ctx.check(not (e.kind == 'call' and e.recv is orig and (e.name in SENDS or e.name in RECVS or e.name == '.close')), 'C28.alone', 'used', e.where, 'the network socket is used when the polling thread is made') \
                if e.kind == 'call' and e.recv is orig else None
        sigs = {}
        for e in evs:
            if e.kind == 'call' and e.name == '.connect' and e.recv is not None and e.recv.op == 'attr' and e.recv is not new and e.args and e.recv not in (conn[0].recv if conn else None,):
                sigs.setdefault(e.recv.args[1], []).append(e)
        good = None
        for name, es in sigs.items():
            calls_to = [e for e in es if processes(ctx, ip, p, e.args[0], server, sv, m)]
            if not calls_to:
                continue
            good = name
            ctx.check(len(calls_to) == 1, 'C28.qt', 'twice', es[0].where, 'the signal is connected to the processing of requests %d times: each is processed as often' % len(calls_to))
            how = list(calls_to[0].args[1:]) + [v for k, v in calls_to[0].kwargs]
            ctx.check(not any('Direct' in show(v) for v in how), 'C28.qt', 'direct', es[0].where, 'the signal is connected directly: requests are processed in the polling thread')
        ctx.check(good is not None, 'C28.qt', 'connected', m.key, 'no signal of the polling thread is connected to the processing of requests')
        if good and ok:
            found.add((net[0], ends[0], srv[0] if srv else None, good))
    if len(found) != 1:
        if not ctx.violations:
            raise AnalysisBroken('the constructor of the polling thread gives %r' % (found,))
        return None
    return found.pop()


def processes(ctx, ip, p, f, server, sv, m):
    """Does calling f with a caller and a message process that request?"""
    c, g = sym('caller#'), sym('msg#')
    if f.op == 'attr' and f.args[0] is server:
        if f.args[1] == '_process_one':
            return True
        fi = ctx.p.find_method(sv.key, f.args[1])
        if fi is None:
            return False
        f = mk('bound', mk('func', fi.key, None), server)
    if f.op not in ('func', 'bound', 'partial'):
        return False
    ip2 = ctx.interp(RP(record=lambda e: e.kind == 'call', opaque=lambda x: x.name == '_process_one' or not in_qt(x), raising=False, merge=False))
    ip2.gen_args.update(ip.gen_args)
    st = p.st.fork()
    n = len(st.trace)
    outs = ip2.call(st, f, [c, g], [], m.node, ip2.new_frame(m, None))
    ok = bool(outs)
    for s, _ in outs:
        es = [e for e in list(flat(s.trace)) if e.kind == 'call' and e.name in ('@RPCServer._process_one', '._process_one')]
        ok = ok and len(es) == 1 and tuple(es[0].args)[-2:] == (c, g)
    return ok


def frames(v):
    """The frames a sent list consists of, or the message itself."""
    if v is None:
        return None
    if v.op in ('list', 'tuple') and not any(x.op == 'star' for x in v.args):
        return tuple(v.args)
    if v.op in ('list', 'tuple') and len(v.args) == 1:
        return v.args[0].args[0]
    return v


def unmodified(v, got):
    f = frames(v)
    if f is got:
        return True
    return isinstance(f, tuple) and len(f) == 2 and all(x is mk('item', got, const(i)) for i, x in enumerate(f))


def loop(ctx, pt, names, stopword):
    net, end, srv, signal = names
    m = ctx.p.find_method(pt.key, 'run')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'contains', 'break', 'unpack', 'write', 'read'), opaque=lambda f: f.module.name != pt.module.name, raising=False, merge=False, want_loops=True,
                       split=lambda a: True))
    me = ip.self_obj(pt.key)
    N, E = mk('attr', me, net), mk('attr', me, end)
    S = mk('attr', me, srv) if srv else None
    seen = {'net': 0, 'end': 0, 'stop': 0}
    polled = set()
    evs = []
    ends = 0
    for p in ip.run(m, self_val=me):
        if p.kind == 'endless':
            ctx.fail('C28.ends', 'endless', m.key, 'the polling thread never ends')
            continue
        if p.kind != 'return':
            continue
        ends += 1
        evs = list(flat(p.trace))
        for e in evs:
            if e.kind == 'call' and e.name == '.register' and e.args and e.args[0] in (N, E):
                ctx.check(len(e.args) < 2 or 'POLLIN' in show(e.args[1]), 'C28.reads', 'event', e.where, 'the poller does not wait for messages')
                polled.add(e.args[0])
            if e.kind == 'call':
                bad = e.name.split('.')[-1] in EXEC or S is not None and e.recv is S
                ctx.check(not bad, 'C28.qt', 'executes', e.where, 'the polling thread calls %s of the server itself' % e.name) if bad or e.name == '.emit' else None
        pieces = list(turns(p.trace))
        pieces.append(([e for e in p.trace if e.kind != 'loop'], p.facts, False))
        for tr, facts, again in pieces:
            turn(ctx, m, [e for e in tr if e.kind != 'loop'], facts, again, N, E, me, signal, stopword, seen)
        own = [e for e in p.trace if e.kind != 'loop']
        for e in evs:
            if e.kind == 'call' and e.name == '.close' and e.recv is N:
                a = list(e.args) + [v for k, v in e.kwargs or ()]
                ctx.check(not any(is_const(v) and isinstance(cval(v), int) and 0 <= cval(v) < 100 for v in a), 'C28.forward', 'flushed', e.where, 'what was forwarded to the network is discarded when its socket is closed')
            if e.kind == 'write' and e.recv is N and e.name == '.linger' and e.value is const(0):
                ctx.fail('C28.forward', 'linger', e.where, 'what was forwarded to the network is discarded when its socket is closed')
        for x, w in ((N, 'network'), (E, 'return')):
            ctx.check(any(e.kind == 'call' and e.name == '.close' and e.recv is x for e in own), 'C28.ends', w + ' closed', m.key, 'the polling thread ends without closing its %s socket' % w)
    if not ends:
        return m
    for x, w in ((N, 'network'), (E, 'return')):
        ctx.check(x in polled or direct_poll(evs, x), 'C28.reads', w + ' polled', m.key, 'the polling thread does not wait for messages of its %s socket' % w)
    ctx.check(seen['net'] > 0, 'C28.reads', 'network', m.key, 'the polling thread never reads the network socket')
    ctx.check(seen['end'] > 0, 'C28.reads', 'return', m.key, 'the polling thread never reads what the Qt thread sends')
    ctx.check(seen['stop'] > 0, 'C28.ends', 'stop', m.key, 'the polling thread does not end when it is asked to stop')
    return m


def turns(trace):
    for l in trace:
        if l.kind == 'loop':
            for it in l.extra:
                yield it.trace, it.facts, True
                yield from turns(it.trace)


def direct_poll(evs, x):
    return any(e.kind == 'call' and e.name == '.poll' and e.recv is x for e in evs)


def turn(ctx, m, evs, facts, again, N, E, me, signal, stopword, seen):
    got = [e for e in evs if e.kind == 'call' and e.recv is E and e.name in RECVS]
    read = [e for e in evs if e.kind == 'call' and (e.name == '@RPCServer._read_one' and e.args and e.args[-1] is N or e.recv is N and e.name in RECVS)]
    sent = [e for e in evs if e.kind == 'call' and e.recv is N and e.name in SENDS]
    emitted = [e for e in evs if e.kind == 'call' and e.name == '.emit' and e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] == signal]
    left = list(sent)
    for g in got:
        stop = stops(facts, g.value, stopword)
        fw = [e for e in left if e.args and unmodified(e.args[0], g.value) and e.name == '.send_multipart']
        seen['end'] += 1
        if stop:
            seen['stop'] += not again
            ctx.check(not again, 'C28.ends', 'goes on', g.where, 'the polling thread goes on after it was asked to stop')
            continue
        ctx.check(len(fw) == 1, 'C28.forward', 'reply', g.where, 'a message from the Qt thread is forwarded to the network %s' % ('%d times' % len(fw) if fw else 'not at all or modified'))
        ctx.check(again, 'C28.ends', 'ended', g.where, 'the polling thread ends although it was not asked to stop')
        for e in fw:
            left.remove(e)
    for e in left:
        ctx.fail('C28.forward', 'other', e.where, 'the polling thread sends %s to the network' % short(e.args[0] if e.args else None, 80))
    left = list(emitted)
    for r in read:
        seen['net'] += 1
        ok = [e for e in left if len(e.args) == 2 and all(e.args[i] is mk('item', r.value, const(i)) for i in (0, 1))] if r.name.startswith('@') else []
        none = any(facts.get(mk('isnone', mk('item', r.value, const(i)))) is True for i in (0, 1))
        ctx.check(len(ok) == 1 or none and not ok, 'C28.forward', 'request', r.where, 'a request is handed to the Qt thread %s' % ('%d times' % len(ok) if ok else 'not at all or modified'))
        for e in ok:
            left.remove(e)
    for e in left:
        ctx.fail('C28.forward', 'other request', e.where, 'the polling thread emits %s' % short(e.args[-1] if e.args else None, 80))
    for e in evs:
        if e.kind == 'contains' and again and facts_in(facts, e, True):
            x = e.args[0]
            if x is E:
                ctx.check(bool(got), 'C28.reads', 'return ready', e.where, 'a waiting message from the Qt thread is not read')
            if x is N:
                ctx.check(bool(read), 'C28.reads', 'network ready', e.where, 'a waiting message from the network is not read')
    if not again and not got:
        ctx.fail('C28.ends', 'ended', m.key, 'the polling thread ends although it was not asked to stop (or without having forwarded what was sent before)')


def facts_in(facts, e, want):
    for c, b in facts.items():
        if c.op == 'in' and c.args[0] is e.args[0] and b is want:
            return True
    return False


def stops(facts, got, stopword):
    first = mk('item', got, const(0))
    for c, b in facts.items():
        if c.op in ('eq', 'same') and b is True and stopword in c.args and (first in c.args):
            return True
        if c.op in ('eq',) and b is True and any(frames(a) is not None and isinstance(frames(a), tuple) and frames(a)[:1] == (stopword,) for a in c.args if a.op in ('list', 'tuple')) and got in c.args:
            return True
    return False


def asks(ctx, pt, names):
    net, end, srv, signal = names
    m = ctx.p.find_method(pt.key, 'stop')
    if m is None:
        raise AnalysisBroken('the polling thread cannot be asked to stop')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: f.module.name != pt.module.name, raising=False, merge=False))
    me = ip.self_obj(pt.key)
    words = set()
    target = mk('attr', mk('attr', me, srv), '_socket') if srv else None
    for p in ip.run(m, self_val=me):
        if p.kind != 'return':
            continue
        evs = [e for e in flat(p.trace) if e.kind == 'call']
        s = [e for e in evs if e.name == '.send_multipart' and e.recv is target]
        f = frames(s[0].args[0]) if len(s) == 1 and s[0].args else None
        ok = isinstance(f, tuple) and len(f) == 2 and is_const(f[0])
        if ctx.check(ok, 'C28.ends', 'asked', m.key, 'asking the polling thread to stop sends %s' % (short(s[0].args[0], 60) if s and s[0].args else 'nothing through the socket of the server: replies on their way are lost')):
            words.add(f[0])
        for e in evs:
            if e.recv is mk('attr', me, net) or e.recv is mk('attr', me, end):
                ctx.fail('C28.alone', 'stop', e.where, 'stop uses a socket of the polling thread in the Qt thread')
    return words.pop() if len(words) == 1 else None


def elsewhere(ctx, pt, names, run):
    net, end, srv, signal = names
    inside = {run.key}
    todo = [run]
    while todo:
        f = todo.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in pt.methods:
                g = pt.methods[n.func.attr]
                if g.key not in inside:
                    inside.add(g.key)
                    todo.append(g)
    n = 0
    for f in ctx.p.funcs.values():
        own = f.cls is not None and f.cls.key == pt.key
        if own and (f.key in inside or f.name == '__init__'):
            n += 1
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in (net, end):
                ctx.fail('C28.alone', x.attr, '%s:%d' % (f.key, x.lineno), '%s is used outside of the polling thread' % x.attr)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'setattr') and any(isinstance(a, ast.Constant) and a.value in (net, end) for a in x.args):
                ctx.fail('C28.alone', 'getattr', '%s:%d' % (f.key, x.lineno), 'a socket of the polling thread is used outside of it')
            elif own and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr in pt.methods and pt.methods[x.func.attr].key in inside and touches(pt.methods[x.func.attr], net, end):
                ctx.fail('C28.alone', x.func.attr, '%s:%d' % (f.key, x.lineno), 'what the polling thread does with its sockets is called from another thread')
    ctx.check(n > 0, 'C28.alone', 'uses', pt.key, '')
    init = ctx.p.find_method(pt.key, '__init__')
    for x in ast.walk(init.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('run',):
            ctx.fail('C28.qt', 'run', '%s:%d' % (init.key, x.lineno), 'the loop of the polling thread is run by the one who makes it')


def touches(f, net, end):
    return any(isinstance(x, ast.Attribute) and x.attr in (net, end) for x in ast.walk(f.node))


def server(ctx, pt, sv):
    base = cls(ctx, 'RPCServer')
    # the network socket is not kept anywhere else
    init = ctx.p.find_method(sv.key, '__init__')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: not in_qt(f) and not (f.cls is not None and f.cls.key == base.key and f.name == '__init__'), raising=False, merge=False, result=nth, max_states=2000))
    me = ip.self_obj(sv.key)
    n = 0
    for p in ip.run(init, self_val=me):
        if p.kind != 'return':
            continue
        n += 1
        first = sym('socket#0')
        firsts = [v for k, v in p.st.heap.items() if v is not None and getattr(v, 'op', '') == 'sym' and v.args[0] == 'socket#0']
        keep = [k[2] for k, v in p.st.heap.items() if k[0] is me and k[1] == 'a' and hasattr(v, 'op') and any(getattr(x, 'op', '') == 'sym' and x.args[0] == 'socket#0' for x in subterms(v)) and k[2] != 'address']
        ctx.check(not keep, 'C28.alone', 'server keeps', init.key, 'the server keeps the network socket of the polling thread in %s' % ', '.join(sorted(map(str, keep))))
        th = [k[2] for k, v in p.st.heap.items() if k[0] is me and k[1] == 'a' and ip.type_of(p.st, v) == pt.key]
        ctx.check(len(th) == 1, 'C28.takes', 'thread', init.key, 'a Qt server has %d polling threads' % len(th))
    if not n:
        raise AnalysisBroken('a Qt server cannot be made')
    rf = ctx.p.find_method(sv.key, 'run_forever')
    if ctx.check(rf is not None and rf.cls.key == sv.key, 'C28.qt', 'serving', sv.key, 'a Qt server serves requests as a plain server does, in the thread that asks it to'):
        ip = ctx.interp(RP(record=lambda e: e.kind == 'call', opaque=lambda f: not (in_qt(f) and f.cls is not None and f.cls.key == sv.key), raising=False, merge=False))
        for p in ip.run(rf):
            if p.kind != 'return':
                continue
            cs = [e for e in flat(p.trace) if e.kind == 'call']
            st_ = [e for e in cs if e.name == '.start' and e.recv is not None and 'poll_thread' in show(e.recv) or e.name == '@QtPollThread.start']
            ctx.check(len(st_) == 1, 'C28.qt', 'started', rf.key, 'the polling thread is not started')
    for name, f in sv.methods.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and (x.attr in ('_read_and_process_one', '_read_one') or x.attr in ('_process_one',) and name != '_process_one' or x.attr == 'run' and isinstance(x.value, ast.Attribute)):
                if x.attr == '_process_one' and is_handler(ctx, f):
                    continue
                ctx.fail('C28.qt', x.attr, '%s:%d' % (f.key, x.lineno), 'a Qt server processes requests by itself (%s)' % x.attr)
    pa = sv.methods.get('process_action')
    if pa is not None:
        ip = ctx.interp(RP(record=lambda e: e.kind == 'call', opaque=lambda f: not in_qt(f), raising=False, merge=False))
        k = 0
        for p in ip.run(pa):
            if p.kind != 'return':
                continue
            k += 1
            es = [e for e in flat(p.trace) if e.kind == 'call' and e.name == '@RPCServer.process_action']
            names = [a.arg for a in pa.node.args.args][1:]
            ok = len(es) == 1 and p.val is es[0].value and all(a is sym(x) or p.facts.get(mk('=', sym(x))) is a for a, x in zip(es[0].args, names)) and len(es[0].args) == len(names)
            ctx.check(ok, 'C28.qt', 'action', pa.key, 'a Qt server does not do what a server does for every action')
            q = [e for e in flat(p.trace) if e.kind == 'call' and e.name == '.quit']
            isclose = any(c.op in ('eq', '=') and b is True and const('close') in c.args for c, b in p.facts.items()) or p.facts.get(mk('=', sym('action'))) is const('close')
            ctx.check(not q or isclose, 'C28.qt', 'quit', pa.key, 'a Qt server ends the application although it is not being closed')
        if not k:
            raise AnalysisBroken('process_action of the Qt server does not return')


def is_handler(ctx, f):
    init = ctx.p.find_method(ctx.p.find_class('QtPollThread'), '__init__')
    return any(isinstance(x, ast.Attribute) and x.attr == f.name for x in ast.walk(init.node))


def check(ctx):
    pt, sv = cls(ctx, 'QtPollThread'), cls(ctx, 'QtRPCServer')
    names = constructor(ctx, pt, sv)
    server(ctx, pt, sv)
    if names is None:
        return
    word = asks(ctx, pt, names)
    run = loop(ctx, pt, names, word)
    elsewhere(ctx, pt, names, run)
    ctx.require('C28.forward', 2)
    ctx.require('C28.ends', 3)
