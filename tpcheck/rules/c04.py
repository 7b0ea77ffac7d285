import ast
from .base import *
from .cli import *

EXPLANATION = """
All paths of the sender, the dispatcher, the close request and its completion callback are enumerated: a known
disconnect must be remembered (and never forgotten), fail every pending future with RuntimeError, and make every
sender path raise RuntimeError before anything is transmitted; requests may be transmitted by the sender only.
"""
ASSUMPTIONS = ['concurrent.futures runs done callbacks when a future is resolved']

TABLE_OPS = {'.clear', '.popitem', '.pop', '.values', '.items', '.keys', '.copy', '.valuerefs', 'list', 'dict'}


def flag_field(ctx, ci, self):
    """The field whose truth makes every sender path refuse."""
    ip = ctx.interp(send_policy(split=lambda a: a.op == 'truth'))
    cand = {}
    paths = ip.run(method(ctx, ci, 'send'))
    for p in paths:
        for c, b in p.facts.items():
            x = c.args[0] if c.op in ('truth', 'same', 'eq') else c
            for y in ([c] if c.op == 'attr' else list(c.args)):
                if getattr(y, 'op', None) == 'attr' and y.args[0] is self:
                    cand.setdefault(y.args[1], 0)
    res = []
    for f in cand:
        st = State()
        st.heap[(self, 'a', f)] = TRUE
        ip2 = ctx.interp(send_policy())
        ps = ip2.run(method(ctx, ci, 'send'), st=st)
        if all(p.kind == 'raise' and not sends(p) for p in ps):
            res.append((f, ps))
    return res


def check(ctx):
    ci = client(ctx)
    self = self_of(ci)
    flags = flag_field(ctx, ci, self)
    if not ctx.check(bool(flags), 'C04.refuse', 'sender of a disconnected client', 'RPCClient.send',
                     'no state of the client makes the sender refuse before transmitting'):
        return
    # the dispatcher sets the flag on a disconnect notice
    fi = method(ctx, ci, 'process_msg')
    msg = sym([a.arg for a in fi.node.args.args][1])
    act = mk('item', msg, const('action'))
    pol = lambda: RP(names=TABLE_OPS | {'.set_result', '.set_exception', '.send_multipart'}, kinds={'write', 'new', 'setitem', 'del'},
                     opaque=lambda f: f.module.name != 'teleprox.client', raises=lambda ev, st: (), want_loops=True)
    st = State()
    paths = ctx.interp(pol()).run(fi, assume=[(eq_atom(act, const('disconnect')), True)])
    flag = None
    for f, ps in flags:
        if all(p.st.heap.get((self, 'a', f)) is TRUE for p in paths if p.kind == 'return'):
            flag = f
            for p in ps:
                k = p.val.args[0] if p.val.op in ('exc', 'obj') else None
                ctx.check(k == 'RuntimeError', 'C04.refuse', 'refused request', 'RPCClient.send', 'a request to a closed server raises %s, not RuntimeError' % short(p.val))
    if not ctx.check(flag is not None, 'C04.remember', 'disconnect notice', fi.key, 'a disconnect notice does not set the state (%s) that makes the sender refuse' % ', '.join(f for f, _ in flags)):
        return
    for p in paths:
        ctx.check(p.kind == 'return', 'C04.notice-raises', 'disconnect notice', fi.key, 'handling a disconnect notice raises %s' % short(p.val))
        fails_all(ctx, p, self, flag, 'disconnect notice')
    # never forgotten
    n = 0
    for fn, mod, node in stores(ctx.p, flag):
        if fn is None or fn.cls is None or fn.cls.key != ci.key and ci.key not in ctx.p.mro(fn.cls.key):
            continue
        n += 1
        ip = ctx.interp(RP(kinds={'write'}, opaque=lambda f, k=fn.key: f.key != k, raises=lambda ev, st: None))
        for p in ip.run(fn):
            for ev in flat(p.trace):
                if ev.kind == 'write' and ev.name == flag and ev.recv is self:
                    ctx.check(fn.name == '__init__' or ev.value is TRUE, 'C04.sticky', '%s writes %s' % (fn.key, flag), ev.where,
                              'a client known to be disconnected can become connected again (%s)' % short(ev.value))
    if not n:
        raise AnalysisBroken('no write of %s' % flag)
    # close request: its confirmation is a disconnect
    for sync in ('sync', 'async'):
        ip = ctx.interp(send_policy(merge=False))
        for p in ip.run(method(ctx, ci, 'send'), args={'action': const('close'), 'sync': const(sync)}, assume=[(mk('truth', mk('attr', self, flag)), False)]):
            if p.kind != 'return':
                continue
            reg = [e for e in p.trace if e.kind == 'setitem' and e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is self]
            if not reg:
                continue
            fut = reg[-1].value
            cbs = [e for e in p.trace if e.kind == 'call' and e.name == '.add_done_callback' and e.recv is fut]
            waits = [e for e in p.trace if e.kind == 'call' and e.name == '@RPCClient.process_until_future']
            if not ctx.check(len(cbs) >= 1, 'C04.close-confirmed', 'close request (%s)' % sync, reg[-1].where, 'nothing is done when a close request is confirmed'):
                continue
            ctx.check(not waits or p.trace.index(cbs[0]) < p.trace.index(waits[0]), 'C04.close-confirmed', 'close request (%s): order' % sync, cbs[0].where,
                      'the callback is attached only after waiting')
            good = False
            for cb in cbs:
                f = cb.raw[-1] if cb.raw else cb.args[0]
                r = callback(ctx, ci, self, f, fut, flag, p.st)
                good = good or r
            ctx.check(good, 'C04.close-confirmed', 'close request (%s): effect' % sync, cbs[0].where,
                      'when the server confirms its closure the client does not become disconnected')
    # closing a server known to be closed
    ip = ctx.interp(send_policy())
    st = State()
    st.heap[(self, 'a', flag)] = TRUE
    for p in ip.run(method(ctx, ci, 'close_server'), st=st):
        ctx.check(p.kind == 'return' and p.val is TRUE and not sends(p), 'C04.close-again', 'closing a closed server', 'RPCClient.close_server',
                  '%s %s, %d messages transmitted' % (p.kind, short(p.val), len(sends(p))))
    # nothing else transmits
    ip = ctx.interp(send_policy())
    ip.run(method(ctx, ci, 'send'))
    for fn in ctx.p.funcs.values():
        if fn.module.name != ci.module.name:
            continue
        for nd in ast.walk(fn.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ('send_multipart', 'send_json', 'send_string', 'send_pyobj', 'send_serialized'):
                ctx.check(fn.key in ip.analysed, 'C04.transmitter', '%s transmits' % fn.key, '%s:%d' % (fn.module.name, nd.lineno), 'a request is transmitted outside the sender')
    ctx.require('C04.transmitter', 1)
    ctx.require('C04.close-confirmed', 4)
    ctx.require('C04.close-again', 1)


def callback(ctx, ci, self, f, fut, flag, st0):
    """Does running this callback on a future whose result is True set the flag?"""
    def hook(ip, st, fv, args, kwargs, node, fr):
        if fv.op in ('attr', 'extbound', 'bound') and fv.args[-1 if fv.op == 'attr' else 0] in ('result',) and fv.args[0] is fut:
            return [(st, TRUE)]
        if fv.op == 'bound' and fv.args[1] is fut and fv.args[0].op == 'func' and fv.args[0].args[0].endswith('.result'):
            return [(st, TRUE)]
        return None
    ip = ctx.interp(RP(names=TABLE_OPS | {'.set_exception'}, kinds={'write', 'new'}, hook=hook, raises=lambda ev, st: (),
                       opaque=lambda fi: fi.module.name != 'teleprox.client' or fi.name == 'process_until_future', want_loops=True))
    st = st0.fork()
    st.trace = ()
    st.heap = {k: v for k, v in st.heap.items()}
    if f.op == 'bound':
        key, slf = f.args[0].args[0], f.args[1]
    elif f.op == 'func':
        key, slf = f.args[0], None
    else:
        return False
    fi = ctx.p.funcs[key]
    names = [x.arg for x in fi.node.args.args]
    args = {}
    if slf is not None:
        args[names[0]] = slf
        names = names[1:]
    if names:
        args[names[0]] = fut
    fr0 = None
    if f.op == 'func' and f.args[1] is not None:
        ip.frames = ctx.ips[-2].frames
    ps = ip.run(fi, args=args, st=st) if f.op != 'func' or f.args[1] is None else run_closure(ip, f, fut, st)
    ok = True
    for p in ps:
        if p.st.heap.get((self, 'a', flag)) is not TRUE:
            ok = False
        elif p.kind == 'return':
            fails_all(ctx, p, self, flag, 'confirmed close request')
    return ok and bool(ps)


def run_closure(ip, f, fut, st):
    import types
    node = types.SimpleNamespace(lineno=0, col_offset=0)
    fi = ip.p.funcs[f.args[0]]
    fr = ip.new_frame(None, None, fi.module)
    ip.raised = []
    ip.stack.append('callback')
    out = ip.call(st, f, [fut], [], node, fr)
    ip.stack.pop()
    from ..interp import Path
    return [Path('return', v, s) for s, v in out] + [Path('raise', e, s) for s, e in ip.raised]


def fails_all(ctx, p, self, flag, what):
    loops = [e for e in p.trace if e.kind == 'loop' and e.args == () and any(x.kind == 'call' and x.name == '.set_exception' for x in flat([e]))]
    if not ctx.check(len(loops) >= 1, 'C04.pending', '%s: pending requests' % what, 'RPCClient', 'pending requests are not failed'):
        return
    for L in loops:
        it = L.recv
        pops = [x for i in L.extra for x in flat(i.trace) if x.kind == 'call' and x.name in ('.popitem', '.pop') and x.recv is not None
                and x.recv.op == 'attr' and x.recv.args[0] is self]
        if it is None and pops:
            # while table: take one out
            tab = pops[0].recv
            whole = any(mentions(c, tab) and c.op in ('truth', 'lt', 'eq') for c in p.facts)
        else:
            whole = it is not None and all_of_table(it, self)
        ctx.check(whole, 'C04.pending', '%s: which requests' % what, L.where, 'the loop runs over %s, not over all pending requests' % (short(it) if it is not None else 'nothing known'))
        k = p.trace.index(L)
        for j, e in enumerate(p.trace[:k]):
            if e.kind == 'call' and e.name in ('.clear', '.popitem', '.pop') and e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is self:
                taken = [x for x in p.trace[:j] if x.kind == 'call' and x.name in ('.values', '.items', '.keys', '.copy', '.valuerefs', 'list', 'dict') and
                         (x.recv is e.recv or any(mentions(y, e.recv) for y in x.args))]
                ctx.check(bool(taken), 'C04.pending', '%s: emptied first' % what, e.where, 'the table of pending requests is emptied before they are failed')
        for i in L.extra:
            evs = [x for x in flat(i.trace) if x.kind == 'call' and x.name == '.set_exception']
            done = any(c.op in ('truth',) and b is True and c.args[0].op == 'call' and c.args[0].args[0] in ('.done', '.cancelled') or
                       (c.op == 'call' and c.args[0] in ('.done', '.cancelled') and b is True) for c, b in i.facts.items())
            if not evs and done:
                continue
            ctx.check(len(evs) == 1, 'C04.pending', '%s: each request' % what, L.where, 'a pending request is skipped')
            for x in evs:
                k = x.args[0] if x.args else None
                good = k is not None and any(('RuntimeError' in str(a.args[0])) for a in alts(k))
                ctx.check(good, 'C04.pending-error', '%s: error' % what, x.where, 'pending requests fail with %s' % (short(k) if k is not None else None))
    idx = p.trace.index(loops[0])
    before = [e for e in p.trace[:idx] if e.kind == 'write' and e.name == flag and e.value is TRUE]
    ctx.check(bool(before), 'C04.order', '%s: order' % what, loops[0].where,
              'pending requests are failed before the client is marked disconnected, so a callback can still transmit')


def all_of_table(it, self):
    for a in alts(it):
        while a.op in ('call',) and a.args[0] in ('list', 'tuple', 'iter', '.copy') and (a.args[2] or a.args[1] is not None):
            a = a.args[2][0] if a.args[2] else a.args[1]
        if a.op in ('list', 'tuple') and len(a.args) == 1 and a.args[0].op == 'star':
            a = a.args[0].args[0]
        if a.op in ('list', 'tuple') and a.args and all(x.op == 'star' for x in a.args):
            if all(all_of_table(x.args[0], self) for x in a.args):
                continue
            return False
        if a.op in ('values', 'items', 'keys') and a.args[0].op == 'upd':
            if all_of_table(a.args[0].args[0], self):
                continue
            return False
        if a.op in ('values', 'items', 'keys') and a.args[0].op == 'attr' and a.args[0].args[0] is self:
            continue
        if a.op == 'attr' and a.args[0] is self:
            continue
        if a.op == 'comp':
            return not a.args[2] if len(a.args) > 2 else False
        if a.op == 'call' and a.args[0] in ('.values', '.items', '.keys', '.valuerefs') and a.args[1].op == 'attr':
            continue
        return False
    return True
