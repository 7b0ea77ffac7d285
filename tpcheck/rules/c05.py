from .base import *
from . import srv

EXPLANATION = """
All paths of a close request (exclusive loop, lazy processing, Qt slot) are enumerated.  Each must run over the whole
client table and send every client but the requester a disconnect notice encoded with the serializer stored for that
client, set the state that ends the loop, take the server out of the registry, answer True, and close the connection
only after all that.  A second analysis starts every entry point in the closed state: nothing may be received or
executed.  All other request paths must enter their sender in the client table, and nothing may take it out again.
"""
ASSUMPTIONS = ['sending on an open socket does not fail', 'dumping the disconnect notice does not fail']
CLOSE = ('close', b'close')


def split(a):
    return srv.split_atom(a) or mentions(a, lambda t: getattr(t, 'op', None) == 'attr' and t.args[1] == 'servers_by_thread') or a.op in ('eq', 'same') and any(is_key(x) or x.op == 'item' and is_key(x.args[1]) for x in a.args)


def srv_path(s):
    return '; '.join('%s %s@%s' % (e.kind, e.name, e.where) for e in s.events)[:500]


def is_action(s, act):
    a2 = mk('item', s.parts, const(2))
    return any(b is True and c.op == 'eq' and any(is_const(x) and cval(x) in (act, act.encode()) for x in c.args)
               and any(mentions(x, a2) for x in c.args) for c, b in s.facts.items())


def clients_table(t):
    x = t
    while x.op in ('upd', 'at', 'mu'):
        x = x.args[0] if x.op != 'mu' else x.args[1]
    return x.op == 'attr' and x.args[1] == '_clients'


def whole_table(it):
    """Does iterating `it` visit every client?  (filters are judged by the caller)"""
    for a in alts(it):
        while True:
            if a.op in ('list', 'tuple') and a.args and all(x.op == 'star' for x in a.args) and len(a.args) == 1:
                a = a.args[0].args[0]
            elif a.op == 'call' and a.args[0] in ('list', 'tuple', 'dict', 'sorted', 'iter', 'set') and a.args[2]:
                a = a.args[2][0]
            elif a.op in ('items', 'keys', 'values'):
                a = a.args[0]
            elif a.op == 'dict' and len(a.args) == 1 and a.args[0][0] is STARSTAR:
                a = a.args[0][1]
            else:
                break
        if not clients_table(a):
            return False
    return True


def check(ctx):
    make = lambda: srv.policy(split=split, kinds=('setitem', 'write', 'del', 'break'), names={'.close', '.pop', '.clear', '.popitem', '()', 'sys.excepthook'},
                              raise_events=srv.OPS + srv.PARSE + ('sys.excepthook',))
    segs = []
    for e, (paths, ss) in srv.plain_segments(ctx, make=make).items():
        segs.extend(ss)
    _, psegs, qs = srv.qt_segments(ctx, make=make)
    segs.extend(qs)
    flags = set()
    n = 0
    for s in segs:
        registered(ctx, s)
        if not is_action(s, 'close'):
            continue
        if any(e.kind == 'raises' for e in s.events) or srv.closed_fact(s) is True or s.kind == 'raise':
            continue
        if unregistered(s) or supported(s) is False:
            continue
        if failed(s) and any(e.kind == 'break' and e.name == 'raise' for e in s.events):
            ctx.fail('C05.fails', '%s: close' % s.mode, s.events[-1].where,
                     'informing the clients fails, so the server is not closed: ' + srv_path(s))
            continue
        if failed(s) and not unregisters(s):
            continue
        n += 1
        closing(ctx, s, flags)
    if n < 1:
        raise AnalysisBroken('close is not handled')
    ctx.require('C05.notice', 3)
    ctx.require('C05.confirm', 3)
    ctx.require('C05.client-known', 20)
    after_close(ctx, flags)
    local_close(ctx)


def failed(s):
    """The close request was not carried out: it is answered with an error (or the error is reported locally)."""
    for e in s.events:
        if e.kind == 'call' and e.name == 'sys.excepthook':
            return True
        if e.kind == 'call' and e.name == '.send_multipart':
            for k, dest, call, d in srv.classify(e):
                if k == 'reply':
                    err = dict_of(d)[0].get('error')
                    if err is not None and NONE not in alts(err):
                        return True
    return False


def unregistered(s):
    for c, b in s.facts.items():
        if c.op == 'in' and b is False and mentions(c.args[1], lambda t: getattr(t, 'op', None) == 'attr' and t.args[1] == 'servers_by_thread'):
            return True
        if c.op in ('same', 'eq') and b is False and mentions(c, lambda t: getattr(t, 'op', None) == 'attr' and t.args[1] == 'servers_by_thread'):
            return True
    return False


def supported(s):
    ser = mk('item', s.parts, const(4))
    for c, b in s.facts.items():
        if c.op == 'in' and srv.is_server_field(c.args[1], '_serializers') and mentions(c.args[0], ser):
            return b
    return None


def registered(ctx, s):
    """Every valid request makes its sender known."""
    if srv.closed_fact(s) is True or srv.unparsable(s):
        return
    caller = mk('item', s.parts, const(0))
    if supported(s) is not True:
        return
    sets = [e for e in flat(s.events) if e.kind == 'setitem' and e.recv is not None and clients_table(e.recv) and e.args and e.args[0] is caller
            or e.kind == 'call' and e.name in ('.setdefault', '.update') and e.recv is not None and clients_table(e.recv)]
    ctx.check(bool(sets), 'C05.client-known', '%s: client of a valid request' % s.mode, s.fn,
              'a client that sends a valid request is not remembered, so it is not told when the server closes')
    for e in flat(s.events):
        if e.recv is not None and clients_table(e.recv) and (e.kind == 'del' or e.kind == 'call' and e.name in ('.pop', '.clear', '.popitem')):
            ctx.fail('C05.client-forgotten', '%s forgets a client' % e.fn, e.where, 'a client is taken out of the client table')
        if e.kind == 'write' and e.name == '_clients':
            ctx.fail('C05.client-forgotten', '%s replaces the client table' % e.fn, e.where, 'the client table is replaced')


def unregisters(s):
    return [e for e in s.events if (e.kind == 'call' and e.name == '.pop' or e.kind == 'del') and e.recv is not None and
            mentions(e.recv, lambda t: getattr(t, 'op', None) == 'attr' and t.args[1] == 'servers_by_thread')]


def closing(ctx, s, flags):
    caller = mk('item', s.parts, const(0))
    what = s.mode
    where = s.events[-1].where if s.events else s.fn
    loops = [e for e in s.events if e.kind == 'loop' and any(x.kind == 'call' and x.name == '.send_multipart' for x in flat([e]))]
    fl = set()
    for e in s.events:
        if e.kind == 'break' and any(L.site == e.site for L in loops):
            ctx.fail('C05.notice-all', '%s: loop left early' % what, e.where, 'informing the clients stops before all of them have been sent a notice')
    if ctx.check(bool(loops), 'C05.notice', '%s: notices' % what, where, 'no client is sent a disconnect notice when the server closes'):
        for L in loops:
            notice(ctx, s, L, caller)
    for e in s.events:
        if e.kind == 'write' and e.recv is s.srv and is_const(e.value):
            fl.add((e.name, e.value))
    if not flags:
        flags |= fl
    else:
        flags &= fl
    ctx.check(bool(unregisters(s)), 'C05.unregister', '%s: registry' % what, where, 'a closed server stays in the registry of its thread')
    reps = []
    for e in s.events:
        if e.kind == 'call' and e.name == '.send_multipart':
            for k, dest, call, d in srv.classify(e):
                if k == 'reply':
                    reps.append(e)
                    m, unk = dict_of(d)
                    v, er = m.get('rval'), m.get('error')
                    want = srv.expects(s)
                    if er is NONE:
                        ctx.check(v is TRUE or (v is not None and v.op in ('call', 'obj') and 'roxy' in str(v.args[0])) or
                                  (v is not None and v.op == 'phi' and any(a is TRUE for a in v.args)),
                                  'C05.confirm', '%s: confirmation' % what, e.where, 'the requester is sent %s, not True' % (short(v) if v is not None else v))
    if srv.expects(s) == {'reply'}:
        ctx.check(len(reps) == 1, 'C05.confirm', '%s: confirmation sent' % what, where, 'the requester of a closure gets %d replies' % len(reps))
    # release only afterwards
    sends = [i for i, e in enumerate(s.events) if (e.kind == 'call' and e.name == '.send_multipart') or e in loops]
    for i, e in enumerate(s.events):
        for x in flat([e]):
            if x.kind == 'call' and x.name == '.close' and x.recv is not None and x.recv.op == 'attr' and 'socket' in x.recv.args[1]:
                lg = dict(x.kwargs).get('linger', x.args[0] if x.args else None)
                ctx.check(lg is None or not (is_const(lg) and isinstance(cval(lg), (int, float)) and 0 <= cval(lg) < 50), 'C05.release', '%s: linger' % what, x.where,
                          'the connection is closed with a linger time of %s ms, so the notices and the confirmation may be dropped' % (short(lg) if lg is not None else lg))
                ctx.check(not sends or i > max(sends), 'C05.release', '%s: connection released' % what, x.where,
                          'the connection is closed before the notices and the confirmation have been handed to it')


def notice(ctx, s, L, caller):
    it = L.recv
    if it is not None and not whole_table(it):
        # a copy of the table without the requester?
        ctx.check(copied(s, it, caller), 'C05.notice-all', '%s: clients informed' % s.mode, L.where, 'notices go to %s, not to all clients' % short(it))
    elif it is None:
        ctx.fail('C05.notice-all', '%s: clients informed' % s.mode, L.where, 'notices are not sent by a loop over the client table')
    for i in L.extra:
        ss = [x for x in flat(i.trace) if x.kind == 'call' and x.name == '.send_multipart']
        requester = [b for c, b in i.facts.items() if c.op in ('eq', 'same') and caller in c.args and any(is_key(x) for x in c.args)]
        if not ss:
            ctx.check(True in requester, 'C05.notice-all', '%s: client skipped' % s.mode, L.where,
                      'a client other than the requester is not sent a notice')
            continue
        ctx.check(len(ss) == 1, 'C05.notice-once', '%s: notices per client' % s.mode, ss[0].where, '%d notices' % len(ss))
        ctx.check(False in requester, 'C05.notice-others', '%s: requester' % s.mode, ss[0].where,
                  'the requester gets a disconnect notice instead of (before) its confirmation')
        for x in ss:
            for k, dest, call, d in srv.classify(x):
                if not ctx.check(k == 'notice', 'C05.notice-content', '%s: content' % s.mode, x.where, 'clients are sent %s' % short(x.args[0])):
                    continue
                ctx.check(is_key(dest), 'C05.notice-dest', '%s: destination' % s.mode, x.where, 'the notice goes to %s' % short(dest))
                r = call.args[1]
                ok = r is not None and all(a.op == 'item' and srv.is_server_field(a.args[0], '_serializers') and own_ser(a.args[1], dest) for a in alts(r))
                ctx.check(ok, 'C05.notice-serializer', '%s: serializer' % s.mode, x.where,
                          'the notice for a client is encoded with %s, not with the serializer that client uses' % (short(r) if r is not None else None))


def is_key(t):
    """A key of the client table seen in an iteration."""
    if t.op == 'key':
        return clients_table(t.args[0])
    if t.op in ('elem',):
        return whole_table(t.args[0]) or mentions(t, lambda x: getattr(x, 'op', None) == 'key' and clients_table(x.args[0]))
    if t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return mentions(t, lambda x: getattr(x, 'op', None) == 'attr' and x.args[1] == '_clients')
    return False


def own_ser(k, dest):
    if k.op in ('item', 'get') and clients_table(k.args[0]) and k.args[1] is dest:
        return True
    if k.op == 'item' and dest.op == 'item' and k.args[0] is dest.args[0] and is_const(k.args[1]) and cval(k.args[1]) == 1:
        return True
    return False


def copied(s, it, caller):
    """A list of all clients, of which only the requester was left out."""
    for a in alts(it):
        while a.op in ('list', 'tuple') and len(a.args) == 1 and a.args[0].op == 'star':
            a = a.args[0].args[0]
        if a.op != 'comp' or not whole_table(a.args[1]):
            return False
        fil = a.args[2]
        if getattr(fil, 'op', None) == 'filter':
            for skip in fil.args[1]:
                if not any(b is True and c.op in ('eq', 'same') and caller in c.args and any(is_key(x) for x in c.args) for c, b in skip):
                    return False
    return True


def after_close(ctx, flags):
    if not ctx.check(bool(flags), 'C05.flag', 'closed state', 'RPCServer.process_action', 'closing a server does not change its state'):
        return
    for cname in ('RPCServer', 'QtRPCServer'):
        ci = cls(ctx, cname)
        so = mk('obj', ci.key, 'sym')
        for entry in ('run_forever', '_read_and_process_one', '_process_one'):
            if cname == 'QtRPCServer' and entry == 'run_forever':
                continue
            fi = ctx.p.find_method(ci.key, entry)
            if fi is None:
                continue
            ok = False
            bad = None
            for f, v in sorted(flags, key=lambda x: x[0]):
                st = State()
                st.heap[(so, 'a', f)] = v
                ip = ctx.interp(srv.policy(names={'()', '@RPCServer.process_action', '@QtRPCServer.process_action', '.loads'},
                                           opaque=lambda f2: srv.opaque_default(f2) or f2.name in ('process_action', 'register_server')))
                ev = [e for p in ip.run(fi, self_val=so, st=st) for e in flat(p.trace) if e.kind == 'call' and
                      e.name in ('.recv_multipart', '()', '@RPCServer.process_action', '@QtRPCServer.process_action', '.loads', '.send_multipart')]
                if not ev:
                    ok = True
                else:
                    bad = ev[0]
            ctx.check(ok, 'C05.ended', '%s.%s of a closed server' % (cname, entry), bad.where if bad is not None else fi.key,
                      'a closed server still receives or executes requests (%s)' % (bad.name if bad is not None else ''))


def local_close(ctx):
    ci = cls(ctx, 'RPCServer')
    fi = ctx.p.find_method(ci.key, 'close')
    ip = ctx.interp(RP(names={'@RPCClient.close_server', '.close_server', '@RPCServer.process_action'}, raising=False,
                       opaque=lambda f: f.name in ('close_server', 'process_action', 'get_client')))
    for p in ip.run(fi):
        if p.kind != 'return':
            continue
        ev = [e for e in flat(p.trace) if e.name in ('@RPCClient.close_server', '.close_server') or (e.name == '@RPCServer.process_action' and e.args and e.args[0] is const('close'))]
        ctx.check(bool(ev), 'C05.close-method', 'RPCServer.close', fi.key, 'closing a server does not issue a close request')
