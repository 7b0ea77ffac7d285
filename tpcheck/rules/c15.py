from .base import *
from .cli import *
from .c14 import READS, rcvtimeo, ready
from ..state import seq_content

EXPLANATION = """
The wait loop of a re-entrant client is interpreted once per kind of server its thread may have: none, plain or lazy, Qt.
With a plain server every iteration must look up the thread's server, wait only on a poller holding both the client's and
that server's socket (a poller kept from before only where it is known to have been made for this very server), and, where
the poll reports something other than the client's socket, let the server process one request; it may not block on the
client's socket alone.  With a Qt server each iteration must process the events of the Qt loop and block only briefly.
Without a server nothing kept from an earlier server may be waited for.
"""
ASSUMPTIONS = ['a poller reports a registered socket that has a message', 'Qt delivers the signals of the poll thread when events are processed (C28)']


def term_key(t):
    return t.args[0] if t.op in ('mu', 'loopvar') and t.args else t


def check(ctx):
    ci = client(ctx)
    so = self_of(ci)
    fi = method(ctx, ci, 'process_until_future')
    rk, qk = cls(ctx, 'RPCServer').key, cls(ctx, 'QtRPCServer').key
    flag = reentrance(ctx, ci, so)
    n = {}
    for mode in ('none', 'plain', 'Qt'):
        srv = {'none': NONE, 'plain': mk('sym', 'server', rk), 'Qt': mk('sym', 'server', qk)}[mode]
        for tv, what in ((NONE, 'no timeout'), (mk('sym', 'timeout', 'ext:float'), 'a timeout')):
            n[mode] = n.get(mode, 0) + wait(ctx, ci, so, fi, mode, srv, flag, tv, rk, qk)
    for m, k in n.items():
        if k < 1:
            raise AnalysisBroken('no iteration of the wait loop with %s server' % m)
    ctx.require('C15.lookup', 4)
    ctx.require('C15.serve', 2)
    ctx.require('C15.poller', 2)
    ctx.require('C15.qt', 1)
    servers(ctx)
    executed(ctx)
    ctx.require('C15.executed', 4)


def reentrance(ctx, ci, so):
    """The field that keeps whether the client is re-entrant."""
    init = method(ctx, ci, '__init__')
    r = mk('sym', 'reentrant', 'ext:bool')
    ip = ctx.interp(RP(record=lambda e: False, raising=False, opaque=lambda f: opaque(f) or f.name in ('ensure_connection', 'check_address')))
    names = None
    for p in ip.run(init, self_val=so, args={'reentrant': r}):
        if p.kind == 'return':
            got = {n for (o, k, n), v in p.st.heap.items() if o is so and k == 'a' and (v is r or v.op == 'call' and v.args[0] == 'bool' and v.args[2][0] is r)}
            # on branches that decided it, the constant is as good
            for c, b in p.facts.items():
                if c is r or c.op == 'truth' and c.args[0] is r:
                    got |= {n for (o, k, n), v in p.st.heap.items() if o is so and k == 'a' and is_const(v) and cval(v) is b and 'reent' in n}
            names = got if names is None else names & got
    ctx.check(bool(names), 'C15.reentrant', 'RPCClient.__init__', init.key, 'the client does not keep whether it is re-entrant')
    a = init.node.args
    d = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
    dv = d.get('reentrant')
    ctx.check(dv is not None and getattr(dv, 'value', None) is True, 'C15.reentrant', 'default', init.key, 'clients are not re-entrant by default')
    get = method(ctx, ci, 'get_client')
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' or e.kind == 'new', raising=False, opaque=lambda f: f.key == init.key or opaque(f), opaque_class=lambda k: k == ci.key))
    for p in ip.run(get):
        for e in flat(p.trace):
            kw = dict(e.kwargs)
            if 'reentrant' in kw:
                ctx.check(is_const(kw['reentrant']) and cval(kw['reentrant']) is True, 'C15.reentrant', 'get_client', e.where, 'proxies use a client that is not re-entrant')
    return sorted(names or {'_reentrant'})[0]


def wait(ctx, ci, so, fi, mode, srv, flag, tv, rk, qk):
    def result(ev, st):
        return srv if ev.name == '@RPCServer.get_server' else None
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name in READS + ('.poll', '.done', '.processEvents', '.exec_', '.exec', 'zmq.Poller', '.register', '.unregister', '.modify', 'time.sleep', 'zmq.select')
                                                              or e.name.startswith('@RPCServer') or e.name.endswith('._read_and_process_one')) or rcvtimeo(e) is not None or e.kind == 'write' and e.recv is so,
                       raises=lambda ev, st: ('zmq.error.Again',) if ev.kind == 'call' and ev.name in READS and not ready(st, ev.recv) else (), merge=False, want_loops=True, max_states=4000, result=result,
                       opaque=lambda f: f.module.name != 'teleprox.client' or f.name in ('process_msg', '_server_disconnected', 'get_client')))
    facts = [(mk('attr', so, flag), True), (same_atom(mk('attr', so, flag), NONE), False)]
    if mode != 'none':
        facts += [(mk('isinst', srv, mk('cls', qk)), mode == 'Qt'), (same_atom(srv, NONE), False), (srv, True)]
    if tv is not NONE:
        facts.append((same_atom(tv, NONE), False))
    st = assumed(State(), facts)
    st.heap[(so, 'a', flag)] = TRUE
    n = 0
    sock = mk('attr', so, socket_field(ctx, ci, so))
    names = [a.arg for a in fi.node.args.args]
    for p in ip.run(fi, self_val=so, st=st, args={names[2]: tv}):
        if p.kind == 'raise' and infeasible(p, so):
            continue
        for e in p.trace:
            if e.kind != 'loop':
                continue
            for it in e.extra:
                if infeasible(it, so):
                    continue
                n += 1
                iteration(ctx, so, fi, mode, srv, sock, it)
    return n


def socket_field(ctx, ci, so):
    return '_socket'


def pollerish(t, so):
    return any(x.op == 'call' and x.args[0] == 'zmq.Poller' or x.op == 'attr' and x.args[0] is so for x in subterms(t) if hasattr(x, 'op'))


def infeasible(it, so):
    """A poller is never equal to a constant."""
    for c, b in it.facts.items():
        if c.op == 'eq' and b is True:
            for x, y in (c.args, c.args[::-1]):
                if is_const(y) and isinstance(cval(y), (str, int)) and any(t.op == 'call' and t.args[0] == 'zmq.Poller' for t in subterms(x) if hasattr(t, 'op')):
                    return True
                if is_const(y) and isinstance(cval(y), (str, int)) and x.op in ('mu', 'loopvar', 'attr', 'phi') and pollerish(x, so) and not kept_const(it, cval(y)):
                    return True
    return False


def kept_const(it, v):
    return any(e.kind == 'write' and e.value is not None and any(is_const(a) and cval(a) == v for a in alts(e.value)) for e in flat(it.trace))


def only(st, x, sock):
    """Is x a list of what was reported of the client's socket only?"""
    for y in seq_content(st, x) or ():
        for f in subterms(y):
            if getattr(f, 'op', None) == 'filter' and f.args and f.args[0] and all(
                    any(b is True and getattr(a, 'op', None) in ('same', 'eq') and sock in a.args for a, b in alt) for alt in f.args[0]):
                return True
    return False


def empty_poll(facts, st=None, sock=None):
    """Do the facts exclude that the poll reported anything?"""
    for c in list(facts):
        for x in subterms(c):
            if hasattr(x, 'op') and x.op == 'alloc' and st is not None and only(st, x, sock):
                continue
            if hasattr(x, 'op') and (x.op == 'alloc' or x.op == 'call' and x.args[0] in ('.poll', 'dict', 'list', 'tuple', 'set')) and implies_empty(facts, x):
                return True
    return False


def on_server(e, srv):
    return e.kind == 'call' and (e.name in ('@RPCServer._read_and_process_one',) or e.name.endswith('._read_and_process_one') or e.name in ('@RPCServer._process_one', '@RPCServer.process_one'))


def iteration(ctx, so, fi, mode, srv, sock, it):
    evs = list(flat(it.trace))
    polls = [e for e in evs if e.kind == 'call' and e.name == '.poll' and e.recv is not sock]
    lookups = [e for e in evs if e.kind == 'call' and e.name == '@RPCServer.get_server']
    reads = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name in READS]
    served = [e for e in evs if on_server(e, srv)]
    cont = it.kind in ('n', 'c', 'continue', 'r', 'b', 'break', 'return')
    wh = evs[0].where if evs else fi.key
    waits = polls or reads
    if waits:
        first = min([evs.index(e) for e in polls] + reads)
        ctx.check(any(evs.index(e) < first for e in lookups), 'C15.lookup', 'wait with %s server' % mode, evs[first].where, 'the server of the waiting thread is not looked up before waiting')
    for e in served:
        ctx.check(e.recv is srv or e.args and e.args[0] is srv, 'C15.serve', 'served by %s' % mode, e.where, '%s processes the request, not the server of the waiting thread' % short(e.recv))
    if mode == 'Qt':
        if not waits:
            return
        pe = [e for e in evs if e.kind == 'call' and e.name in ('.processEvents', '.exec', '.exec_')]
        ctx.check(bool(pe), 'C15.qt', 'wait with Qt server', wh, 'the events of the Qt loop, and so the requests of the server, are not processed while waiting')
        brief(ctx, evs, sock, 'C15.qt', 'wait with Qt server', 200)
        for e in polls:
            v = e.args[0] if e.args else dict(e.kwargs).get('timeout', NONE)
            ctx.check(is_const(v) and isinstance(cval(v), (int, float)) and 0 <= cval(v) <= 200, 'C15.qt', 'poll with Qt server', e.where, 'the Qt loop is blocked for %s ms' % short(v))
        return
    for e in polls:
        poller(ctx, so, mode, srv, sock, evs, e, it)
    if mode == 'plain':
        if polls:
            if not served and not any(True for i in reads):
                ctx.check(empty_poll(it.facts, it.st, sock) or neither(it, sock, srv) or closed(it, srv), 'C15.serve', 'nothing processed', polls[-1].where, 'a request for the server may be left unprocessed')
            for e in served:
                ctx.check(nonempty(it, sock, srv), 'C15.ready', 'request of the server', e.where, 'the server is made to read a request although none need be there')
        brief(ctx, evs, sock, 'C15.block', 'wait with plain server', 0 if not served else 100, it)


def neither(it, sock, srv):
    """Neither socket was reported."""
    no = lambda t: any((c.op == 'in' and c.args[0] is t or c.op in ('same', 'eq') and t in c.args) and b is False for c, b in it.facts.items())
    ss = {x for c in it.facts for x in subterms(c) if hasattr(x, 'op') and x.op == 'attr' and x.args[0] is srv}
    return no(sock) and any(no(x) for x in ss)


def closed(it, srv):
    return it.facts.get(same_atom(srv, NONE)) is True


def nonempty(it, sock, srv):
    f = it.facts
    inn = any(c.op == 'in' and b is True and c.args[0].op == 'attr' and c.args[0].args[0] is srv for c, b in f.items())
    same = any(c.op in ('same', 'eq') and b is True and any(x.op == 'attr' and x.args[0] is srv for x in c.args) for c, b in f.items())
    notc = any(c.op == 'in' and b is False and c.args[0] is sock for c, b in f.items()) or any(c.op in ('same', 'eq') and b is False and sock in c.args for c, b in f.items())
    some = any((c.op in ('alloc', 'call', 'truth') and b is True) or (c.op == 'lt' and b is True and len(lt_parts(c)[0]) == 1 and 'len' in show(c)) or
               c.op == 'eq' and b is False and 'len' in show(c) for c, b in f.items())
    elem = any(c.op in ('same', 'eq') and b is False and sock in c.args and any(x.op == 'at' or x.op == 'item' for x in c.args) for c, b in f.items())
    return inn or same or notc and some or elem


def brief(ctx, evs, sock, rule, what, limit, it=None):
    cur = None
    for e in evs:
        if rcvtimeo(e) is not None and e.recv is sock:
            cur = rcvtimeo(e)
        if e.kind == 'call' and e.name in READS and e.recv is sock:
            if any(a.op == 'ext' and a.args[0].endswith(('NOBLOCK', 'DONTWAIT')) for a in list(e.args) + [v for _, v in e.kwargs]):
                continue
            if it is not None and ready(it, sock):
                ctx.check(True, rule, what, e.where, '')
                continue
            ok = cur is not None and all(is_const(a) and isinstance(cval(a), (int, float)) and 0 <= cval(a) <= limit for a in alts(cur))
            ctx.check(ok, rule, what, e.where, 'the thread waits for the client alone, for %s ms, while its server has to process requests' % short(cur))


def poller(ctx, so, mode, srv, sock, evs, e, it):
    p = e.recv
    made = [x for x in evs if x.kind == 'call' and x.name == 'zmq.Poller' and x.value is p]
    for_ = [x for x in evs[:evs.index(e)] if x.kind == 'call' and x.name == '.register' and x.recv is p]
    regs = [x.args[0] for x in for_ if x.args]
    quiet = [x for x in for_ if len(x.args) > 1 and not (x.args[1].op == 'ext' and x.args[1].args[0].endswith('POLLIN')) and not (x.args[1].op == 'bin')]
    for x in quiet:
        ctx.fail('C15.poller', 'registered events', x.where, 'a socket is registered without waiting for its messages')
    if made:
        ctx.check(sock in regs, 'C15.poller', 'socket of the client', e.where, 'the poller does not hold the socket of the client')
        if mode == 'plain':
            ss = [r for r in regs if r.op == 'attr' and r.args[0] is srv]
            ctx.check(bool(ss), 'C15.poller', 'socket of the server', e.where, 'the poller does not hold the socket of the server')
            keep(ctx, so, srv, evs, p, e)
        return
    if mode == 'none':
        ctx.fail('C15.poller', 'poller kept without server', e.where, 'a poller made for an earlier server is waited for')
        return
    # kept from before: it must be known to belong to this server
    ok = False
    for c, b in it.facts.items():
        if c.op in ('same', 'eq') and b is True and srv in c.args:
            o = c.args[0] if c.args[1] is srv else c.args[1]
            f = field(o, so)
            if f is not None:
                ok = True
                ctx.__dict__.setdefault('c15_assoc', set()).add(f)
    for c, b in it.facts.items():
        if c.op == '=' and b is srv and field(c.args[0], so) is not None:
            ok = True
    ctx.check(ok, 'C15.poller', 'poller kept', e.where, 'a poller kept from before is used although it need not be the one of the current server')


def field(t, so):
    for x in subterms(t):
        if hasattr(x, 'op') and x.op == 'attr' and x.args[0] is so:
            return x.args[1]
    return None


def keep(ctx, so, srv, evs, p, e):
    """Where a new poller is kept in a field, the field that tells its server is written, too."""
    kept = [x for x in evs if x.kind == 'write' and x.recv is so and x.value is p]
    if kept:
        told = [x for x in evs if x.kind == 'write' and x.recv is so and x.value is srv]
        ctx.check(bool(told), 'C15.poller', 'server of the poller', kept[0].where, 'a poller is kept without the server it was made for')


def servers(ctx):
    """Every way of running a server registers it for its thread before the first request."""
    for name in ('RPCServer', 'QtRPCServer'):
        k = cls(ctx, name)
        so = mk('obj', k.key, 'sym')
        for m in ('run_forever', 'run_lazy'):
            fi = ctx.p.find_method(k.key, m)
            if fi is None:
                continue
            ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and (e.name in ('@RPCServer.register_server', '@RPCServer._process_one', '@RPCServer._read_one', '@RPCServer._read_and_process_one', '.start', '.emit')),
                               raising=False, opaque=lambda f: f.module.name not in ('teleprox.server', 'teleprox.qt_server') or f.name in ('register_server', '_process_one', '_read_one', '_read_and_process_one', 'running')))
            for p in ip.run(fi, self_val=so):
                evs = list(flat(p.trace))
                reg = [e for e in evs if e.name == '@RPCServer.register_server']
                ok = bool(reg) and evs[0] is reg[0] and any(so is a for a in list(reg[0].args) + [reg[0].recv])
                ctx.check(ok, 'C15.registered', '%s.%s' % (name, m), fi.key, 'the server runs without having been registered for its thread')


def executed(ctx):
    """A request that a server has read is carried out, whatever the mode and whether or not a reply is wanted."""
    from . import srv
    segs = []
    for e, (paths, ss) in srv.plain_segments(ctx, make=lambda: srv.policy(names={'.loads'})).items():
        segs.extend(ss)
    segs.extend(srv.qt_segments(ctx, make=lambda: srv.policy(names={'.loads'}))[2])
    for s in segs:
        evs = list(flat(s.events))
        if srv.unparsable(s) or srv.closed_fact(s) is True:
            continue
        failed = any(e.kind in ('raise', 'raises', 'caught') for e in evs) or s.kind == 'raise'
        action = mk('item', s.parts, const(2))
        ok = failed or any(e.kind == 'call' and e.name in srv.OPS for e in evs) or any(c.op in ('eq', 'in', '=', 'same') and mentions(c, action) for c in s.facts)
        ctx.check(ok, 'C15.executed', 'request in the %s mode' % s.mode, evs[-1].where if evs else s.fn, 'a request that the server has read is dropped')
