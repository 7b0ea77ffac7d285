from .base import *
from . import srv

EXPLANATION = """
Every path from receiving a message to receiving the next is enumerated with every operation forked into its
failures (a client's callable, payload decoding, result encoding and imports may raise any BaseException).  No
exception may leave a path, the serving loops may be left only once the server is closed (the Qt poll loop only
on the local stop message), and only a close request may mark the server closed or close its socket.
"""
ASSUMPTIONS = ['socket operations on an open zmq socket do not raise', 'logging calls do not raise',
               'an error reply (a name and a list of strings) serializes']


def net_socket_names(ctx):
    """Fields of the poll thread that hold the server's network socket."""
    pt = cls(ctx, 'QtPollThread')
    srvc = cls(ctx, 'QtRPCServer')
    ip = ctx.interp(RP(kinds=('new', 'write'), opaque=lambda fi: fi.module.name not in srv.SERVER_MODULES, raising=False))
    names = set()
    for p in ip.run(ctx.p.find_method(srvc.key, '__init__')):
        for (b, k, n), v in p.st.heap.items():
            if k == 'a' and b.op == 'obj' and b.args[0] == pt.key:
                for a in alts(v):
                    if a.op == 'call' and a.args[0] == '.socket' and a.args[2] and a.args[2][0] is ext('zmq.ROUTER'):
                        names.add(n)
    return names


def check(ctx):
    make = lambda: srv.policy(kinds=('write',), names={'.close', '()'}, keep_origin=True,
                              record=lambda ev: ev.kind == 'call' and ev.name in ('@RPCServer.process_action',))
    res = srv.plain_segments(ctx, make=make)
    nseg = 0
    for e, (paths, segs) in res.items():
        for s in segs:
            nseg += 1
            segment(ctx, s)
        if e == 'run_forever':
            for p in paths:
                if p.kind == 'return':
                    s = srv.Segment(e, None, [], p.facts, 'return', None, None, p.st, '')
                    ctx.check(srv.closed_fact(s) is True, 'C02.loop-exit', 'exclusive loop', 'run_forever',
                              'the exclusive loop can be left although the server has not been closed')
    net = net_socket_names(ctx)
    if not net:
        raise AnalysisBroken('the poll thread does not hold the network socket')
    paths, psegs, qs = srv.qt_segments(ctx, make=make)
    for s in qs:
        segment(ctx, s)
    npoll = 0
    for s in psegs:
        src = s.parts.args[1]
        if src.op == 'attr' and src.args[1] in net:
            npoll += 1
            if s.kind == 'return':
                ctx.fail('C02.poll-exit', 'poll thread ends after a network message', s.fn, 'the poll loop is left because of a network message')
                continue
            segment(ctx, s)
        elif s.kind == 'return':
            ok = False
            for c, b in s.facts.items():
                if b is True and c.op == 'eq' and any(is_const(x) for x in c.args) and any(mentions(x, s.parts) for x in c.args):
                    ok = True
            ctx.check(ok, 'C02.poll-exit', 'poll thread ends on a local message', s.fn,
                      'the poll loop is left on a local message that is not compared with the stop message')
    for p in paths:
        if p.kind == 'return':
            ctx.check(any(e.kind == 'call' and e.name == '.recv_multipart' for e in p.trace), 'C02.poll-exit', 'poll thread ends by itself',
                      'QtPollThread.run', 'the poll loop can end without having received the stop message')
    if npoll < 1:
        raise AnalysisBroken('the poll thread receives no network message')
    ctx.require('C02.no-escape', 20)
    ctx.require('C02.loop-exit', 1)


def segment(ctx, s):
    if s.kind == 'raise':
        f, w, nm = exc_where(s.val)
        ctx.fail('C02.no-escape', '%s: %s from %s in %s' % (s.mode, show(mk('exc', *s.val.args[:3], None)) if s.val.op == 'exc' else short(s.val), nm, f), w,
                 'this exception ends the serving loop; ' + path(s))
    else:
        ctx.check(True, 'C02.no-escape', '%s path' % s.mode, s.fn, '')
    closing = False
    act = mk('item', s.parts, const(2))
    is_close = any(b is True and c.op == 'eq' and any(is_const(x) and cval(x) in ('close', b'close') for x in c.args)
                   and any(mentions(x, act) for x in c.args) for c, b in s.facts.items())
    for ev in flat(s.events):
        if ev.kind == 'write' and ev.name == '_closed':
            closing = True
            ctx.check(is_close, 'C02.closed-flag', '%s marks the server closed' % ev.fn, ev.where,
                      'the server is marked closed by a request that is not a close request')
        if ev.kind == 'call' and ev.name == '.close' and ev.recv is not None and ev.recv.op == 'attr' and 'socket' in ev.recv.args[1]:
            ctx.check(closing or is_close, 'C02.socket', '%s closes the socket' % ev.fn, ev.where,
                      'the socket is closed by a request that is not a close request')


def path(s):
    return 'path: ' + '; '.join('%s %s@%s' % (e.kind, e.name, e.where) for e in s.events)[:700]
