from .base import *
from .cli import *

EXPLANATION = """
All paths of the request sender and of the response dispatcher are enumerated.  A transmitted id that asks for a
reply must come from a counter that only ever grows, and the future made for the request must be registered under
exactly that id before anything can wait for it or it is returned; the dispatcher may resolve only a future it has
removed from the table under the response's own id, once, with the matching value or a RemoteCallException.
"""
ASSUMPTIONS = ['a client is used by one thread (documented)']


def counter(ctx, ci, t):
    """Is t a value never used before?  (field, None) for a field counter, ('next', field) for an iterator."""
    if t.op == 'attr' and t.args[0].op == 'obj':
        return ('field', t.args[1])
    if t.op == 'bin' and t.args[0] == '+' and is_const(t.args[2]) and t.args[1].op == 'attr':
        return ('field+', t.args[1].args[1])
    if t.op == 'call' and t.args[0] == 'next' and t.args[2]:
        f = t.args[2][0]
        if f.op == 'attr':
            vals = ctx.ips[-1].field_values(ci.key).get(f.args[1], set())
            if vals and all(v.op == 'call' and v.args[0] == 'itertools.count' for v in vals):
                return ('next', f.args[1])
    return None


def check(ctx):
    ci = client(ctx)
    self = self_of(ci)
    ip = ctx.interp(send_policy())
    fields = set()
    paths = ip.run(method(ctx, ci, 'send'))
    table = None
    for p in paths:
        for ev in sends(p):
            fr = request_frames(ev)
            ctx.check(fr is not None and len(fr) >= 1, 'C03.frames', 'request frames', ev.where, 'frames not understood: %s' % short(ev.args[0] if ev.args else None))
            if not fr:
                continue
            rid = plain_number(fr[0])
            noreply = is_const(rid) and isinstance(cval(rid), int) and cval(rid) < 0
            if noreply:
                reg = [e for e in p.trace if e.kind == 'setitem' and e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] == 'futures']
                ctx.check(p.kind != 'return' or p.val is NONE, 'C03.no-reply', 'request without reply', ev.where,
                          'no reply is asked for, but %s is returned' % short(p.val))
                continue
            c = counter(ctx, ci, rid)
            if not ctx.check(c is not None, 'C03.fresh-id', '%s: request id' % fn_of(ev), ev.where, 'the id of a request is %s, which is not a fresh counter value' % short(rid)):
                continue
            if c[0] in ('field', 'field+'):
                fields.add(c[1])
                end = p.st.heap.get((self, 'a', c[1]))
                base = mk('attr', self, c[1])
                ok = end is not None and end.op == 'bin' and end.args[0] == '+' and end.args[1] is base and is_const(end.args[2]) and cval(end.args[2]) > 0
                if ok and c[0] == 'field+':
                    ok = cval(end.args[2]) >= cval(rid.args[2]) > 0
                ctx.check(ok, 'C03.fresh-id', '%s: counter advances' % fn_of(ev), ev.where,
                          'after a request with id %s the counter is %s' % (short(rid), short(end) if end is not None else 'unchanged'))
            # registration
            idx = p.trace.index(ev) if ev in p.trace else 0
            reg = [e for e in p.trace if e.kind == 'setitem' and e.args and e.args[0] is rid and e.recv is not None and e.recv.op == 'attr'
                   and e.recv.args[0] is self]
            if p.kind == 'return':
                if ctx.check(len(reg) >= 1, 'C03.registered', '%s: future of a request' % fn_of(ev), ev.where,
                             'a reply to request %s is asked for but no future is registered under that id' % short(rid)):
                    r = reg[-1]
                    table = r.recv.args[1]
                    fut = r.value
                    ctx.check(fut.op in ('obj', 'call') and 'Future' in str(fut.args[0]), 'C03.registered', 'registered value', r.where, short(fut))
                    waits = [e for e in p.trace if e.kind == 'call' and e.name == '@RPCClient.process_until_future']
                    for w in waits:
                        ctx.check(p.trace.index(r) < p.trace.index(w) and w.args and w.args[0] is fut, 'C03.registered-first',
                                  '%s: wait' % fn_of(w), w.where, 'the wait is for another future or begins before the future is registered')
                    if not waits:
                        # the result of a future that has one already
                        taken = lambda v: v.op == 'call' and v.args[0].endswith('.result') and v.args[1] is fut
                        ctx.check(any(a is fut for a in alts(p.val)) and all(a is fut or taken(a) for a in alts(p.val)) or is_done(p, fut) and taken(p.val), 'C03.returned', 'returned future', ev.where, '%s is returned instead of the registered future' % short(p.val))
    ctx.require('C03.fresh-id', 2)
    ctx.require('C03.registered', 2)
    # a request that fails, or whose reply does not come in time, does not give its id back
    late = ('.send_multipart', '@RPCClient.process_until_future')
    ip2 = ctx.interp(send_policy(raises=lambda ev, st: ('Exception*',) if ev.name in late + ('.dumps',) else (), raise_events=late, kinds={'del'}, names={'.pop', '.popitem', '.clear'}))
    for p in ip2.run(method(ctx, ci, 'send')):
        evs = list(flat(p.trace))
        sent = [e for e in evs if e.kind in ('call', 'raises') and e.name == '.send_multipart']
        fr = request_frames(sent[-1]) if sent else None
        rid = plain_number(fr[0]) if fr else None
        if rid is None or is_const(rid):
            continue
        for f in fields:
            end, base = p.st.heap.get((self, 'a', f)), mk('attr', self, f)
            ctx.check(end is not None and end.op == 'bin' and end.args[0] == '+' and end.args[1] is base and is_const(end.args[2]) and cval(end.args[2]) > 0, 'C03.fresh-id', 'counter afterwards, %s' % p.kind,
                      exc_where(p.val)[1] if p.kind == 'raise' else sent[-1].where, 'after request %s the counter is %s' % (short(rid), short(end) if end is not None else 'unchanged'))
        tab = mk('attr', self, table)
        for e in evs:
            if e.kind in ('call', 'del') and e.recv is tab and e.name in ('.pop', '.popitem', '.clear', 'del'):
                ctx.check(bool(e.args) and e.args[0] is rid, 'C03.only-its-own', 'sending forgets a future', e.where, 'a request takes the future of another one out of the table')
    # nothing else writes the counter
    for f in fields:
        for fn, mod, node in stores(ctx.p, f):
            ok = fn is not None and (fn.name == '__init__' or fn.key in ip.analysed)
            ctx.check(ok, 'C03.counter-owner', '%s writes %s' % (fn.key if fn else mod, f), '%s:%s' % (mod, getattr(node, 'lineno', '?')),
                      'the id counter is written outside the sender')
    init = ctx.interp(send_policy(names={'weakref.WeakValueDictionary'}, opaque=lambda fi: fi.module.name != 'teleprox.client' or fi.name != '__init__'))
    n = 0
    for f in fields:
        writes = set()
        for p in init.run(method(ctx, ci, '__init__')):
            if p.kind == 'return':
                n += 1
                v = p.st.heap.get((self, 'a', f))
                ctx.check(v is not None and is_const(v) and isinstance(cval(v), int) and cval(v) >= 0, 'C03.counter-start', 'initial %s' % f, 'RPCClient.__init__',
                          'the id counter starts at %s (negative ids ask for no reply)' % (short(v) if v is not None else 'nothing'))
    ctx.require('C03.counter-start', len(fields))
    if table is None:
        raise AnalysisBroken('no future table found')
    dispatch(ctx, ci, self, table)


def dispatch(ctx, ci, self, table):
    msg = sym('msg')
    ip = ctx.interp(RP(names={'.set_result', '.set_exception', '.pop', '.popitem', '.get', '.clear', '.send_multipart'}, kinds={'write', 'setitem', 'del', 'new', 'getitem'},
                       opaque=lambda fi: fi.module.name != 'teleprox.client', raises=lambda ev, st: ('KeyError',) if (ev.kind in ('getitem', 'del') or ev.name == '.pop' and len(ev.args) == 1)
                       and ev.recv is not None and ev.recv.op == 'attr' else (), raise_events=('.pop', 'getitem', 'del'),
                       split=lambda a: mentions(a, msg), keep_origin=True))
    fi = method(ctx, ci, 'process_msg')
    pn = [a.arg for a in fi.node.args.args][1]
    msg = sym(pn)
    act, rid = mk('item', msg, const('action')), mk('item', msg, const('req_id'))
    errt, val = mk('item', msg, const('error')), mk('item', msg, const('rval'))
    tab = mk('attr', self, table)
    n = 0
    have = [(mk('in', const(k), msg), True) for k in ('action', 'req_id', 'rval', 'error')]
    for p in ip.run(fi, assume=have):
        action = None
        for c, b in p.facts.items():
            if c.op == 'eq' and b is True and act in c.args:
                o = [x for x in c.args if x is not act]
                action = cval(o[0]) if o and is_const(o[0]) else None
        res = [e for e in p.trace if e.kind == 'call' and e.name in ('.set_result', '.set_exception')]
        if action == 'return':
            n += 1
            if p.kind == 'raise':
                f, w, nm = exc_where(p.val)
                ctx.fail('C03.dispatch-raises', 'a response makes %s raise' % nm, w, '%s while a response is handled' % short(p.val))
                continue
            loops = [e for e in p.trace if e.kind == 'loop' and any(x.kind == 'call' and x.name in ('.set_result', '.set_exception') for x in flat([e]))]
            ctx.check(not loops, 'C03.only-its-own', 'a response resolves futures in a loop', fi.key, 'other requests are affected by a response')
            oth = [e for e in flat(p.trace) if e.kind == 'write' and e.recv is self or (e.kind == 'call' and e.name in ('.clear', '.popitem') and e.recv is tab) or
                   (e.kind == 'del' or e.kind == 'call' and e.name == '.pop') and e.recv is tab and e.args and e.args[0] is not rid]
            ctx.check(not oth, 'C03.only-its-own', 'a response has other effects', oth[0].where if oth else fi.key, 'a response changes the client: %s' % oth[:2])
            found = None
            futs = {e.recv for e in res}
            ctx.check(len(res) <= 1, 'C03.once', 'a future is resolved twice', res[-1].where if res else fi.key, 'one response resolves %d times' % len(res))
            for e in res:
                ok = from_table(e.recv, tab, rid)
                ctx.check(ok, 'C03.own-id', 'future resolved by a response', e.where, 'the response with id %s resolves %s' % (short(rid), short(e.recv)))
                removed = [x for x in p.trace if (x.kind == 'call' and x.name == '.pop' and x.recv is tab and x.args and x.args[0] is rid) or
                           (x.kind == 'del' and x.recv is tab and x.args and x.args[0] is rid)]
                ctx.check(len(removed) == 1, 'C03.removed', 'resolved future stays in the table', e.where,
                          'a future is resolved without being removed from the table, so it can be resolved again')
                iserr = None
                for c, b in p.facts.items():
                    if c.op == 'isnone' and c.args[0] is errt:
                        iserr = not b
                    elif c.op == 'truth' and c.args[0] is errt and iserr is None:
                        iserr = b
                a = e.args[0] if e.args else None
                if e.name == '.set_result':
                    ctx.check(a is val and iserr is False, 'C03.value', 'result given to a future', e.where,
                              'the future gets %s as its result%s' % (short(a) if a is not None else 'nothing', '' if iserr is False else ' although the response may carry an error'))
                else:
                    good = a is not None and ((a.op == 'obj' and a.args[0].endswith(':RemoteCallException')) or
                                              (a.op == 'call' and a.args[0].endswith('RemoteCallException')))
                    ctx.check(good and iserr is True, 'C03.error', 'error given to a future', e.where, 'the future gets %s' % (short(a) if a is not None else 'nothing'))
                    new = [x for x in p.trace if x.kind == 'new' and x.value is a]
                    for x in new:
                        ctx.check(any(mentions(y, errt) for y in x.args), 'C03.error', 'content of the error', x.where, 'the exception does not carry the error of the response')
            if not res:
                miss = any((c.op == 'isnone' and b is True and from_table(c.args[0], tab, rid)) or
                           (c.op == 'truth' and b is False and from_table(c.args[0], tab, rid)) or
                           (c.op == 'in' and b is False and c.args[0] is rid and c.args[1] is tab) for c, b in p.facts.items()) or \
                    any(e.kind == 'raises' and e.recv is tab and e.args and e.args[0] is rid for e in p.trace)
                ctx.check(miss, 'C03.resolved', 'a response resolves nothing', fi.key, 'a path handles a response whose future is in the table without resolving it')
        elif action is None and p.kind == 'return' and res:
            ctx.fail('C03.own-id', 'futures resolved for another message', res[0].where, 'a message that is not a response resolves a future')
    if n < 1:
        raise AnalysisBroken('the dispatcher handles no response')
    ctx.require('C03.own-id', 1)
    ctx.require('C03.removed', 1)
    # no other place resolves futures
    import ast
    allowed = set(ip.analysed)
    for fn in ctx.p.funcs.values():
        for nd in ast.walk(fn.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ('set_result', 'set_exception'):
                ctx.check(fn.key in allowed or (fn.parent is not None and getattr(fn.parent, 'key', '') in allowed), 'C03.resolver', '%s resolves futures' % fn.key, '%s:%d' % (fn.module.name, nd.lineno),
                          'futures are resolved outside the dispatcher')


def from_table(t, tab, rid):
    for a in alts(t):
        if a is NONE:
            continue
        if a.op in ('item', 'get') and a.args[0] is tab and a.args[1] is rid:
            continue
        if a.op == 'call' and a.args[0] in ('.pop', '.get') and a.args[1] is tab and a.args[2] and a.args[2][0] is rid:
            continue
        return False
    return True
