import ast
from .base import *
from . import srv

EXPLANATION = """
Every path a server can take from receiving a message to receiving the next one is enumerated (helpers of the
server classes inlined, every operation that can raise forked into its failure), for the exclusive loop, lazy
processing and the Qt slot.  On each path the messages handed to the socket are compared with what the request
asked for: count, addressee, request id, serializer, and result versus error.
"""
ASSUMPTIONS = ['zmq delivers what is handed to send_multipart', 'an error reply (a name and a list of strings) serializes',
               'every serializer name in a server\'s client table is one of its serializers (checked where it is written)']


def opaque(fi):
    return srv.opaque_default(fi) or (fi.cls is not None and fi.name in ('get_proxy', 'auto_proxy', 'unwrap_proxy') and
                                      fi.module.name == 'teleprox.server')


def check(ctx):
    # what is known of a request and kept in a field may be another request's after an operation, during which requests are served, too
    kept = set()
    for again in (False, True):
        vol = dict(volatile=lambda b, n: n in kept, bump=lambda ev: ev.name in srv.OPS) if again else {}
        make = lambda: srv.policy(kinds=('setitem', 'write'), names={'()'}, opaque=opaque, record=None, **vol)
        segs = []
        for e, (paths, ss) in srv.plain_segments(ctx, make=make).items():
            segs.extend(ss)
        _, psegs, qs = srv.qt_segments(ctx, make=make)
        segs.extend(qs)
        kept = {ev.name for s in segs for ev in flat(s.events) if ev.kind == 'write' and ev.value is not None and mentions(ev.value, s.parts)}
        if not kept:
            break
    n_reply = 0
    for s in segs:
        n_reply += one(ctx, s)
    # a name in the table of serializers has a serializer
    for fn in ctx.p.funcs.values():
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == '_serializers' for t in x.targets):
                ctx.check(not (isinstance(x.value, ast.Constant) and x.value.value is None), 'C01.table', '%s fills the table of serializers' % fn.key,
                          '%s:%d' % (fn.module.name, x.lineno), 'a name is entered with no serializer')
    ctx.require('C01.count', 20)
    ctx.require('C01.addressee', 8)
    if n_reply < 1:
        raise AnalysisBroken('no reply found on any path')


def where_of(ev):
    return ev.where


def one(ctx, s):
    replies = []
    op_failed = None
    op_result = None
    last_value = None
    caller = mk('item', s.parts, const(0))
    ser_raw = mk('item', s.parts, const(4))
    want = srv.expects(s)
    n = 0
    state = []      # (event, failed-op-before)
    for ev in s.events:
        if ev.kind == 'loop':
            for it in ev.extra:
                for e in flat(it.trace):
                    if e.kind == 'call' and e.name == '.send_multipart':
                        for k, dest, call, d in srv.classify(e):
                            ctx.check(k == 'notice', 'C01.extra', '%s sends in a loop' % e.fn, e.where,
                                      'a message other than a disconnect notice is sent repeatedly while a request is processed')
            continue
        if ev.kind == 'raises' and ev.name in srv.OPS:
            op_failed = ev
        if ev.kind == 'call' and ev.name == '()':
            op_result = ev
        if ev.kind == 'setitem' and ev.recv is not None and srv.is_server_field(ev.recv, '_clients'):
            ok = False
            for c, b in s.facts.items():
                if c.op == 'in' and b is True and c.args[0] is ev.value and srv.is_server_field(c.args[1], '_serializers'):
                    ok = True
            ctx.check(ok and mentions(ev.value, ser_raw) and ev.args[0] is caller, 'C01.client-table', '%s writes the client table' % ev.fn,
                      ev.where, 'a client is remembered with a serializer the server does not have, or under another identity: %s -> %s' % (
                          short(ev.args[0]), short(ev.value)))
        if ev.kind == 'call' and ev.name == '.send_multipart':
            for k, dest, call, d in srv.classify(ev):
                if k == 'notice':
                    continue
                if k != 'reply':
                    ctx.fail('C01.extra', '%s sends an unrecognised message' % ev.fn, ev.where, 'frames: %s' % short(ev.args[0], 300))
                    continue
                reply(ctx, s, ev, dest, call, d, op_failed, op_result, caller, ser_raw)
                replies.append(ev)
            if replies and replies[-1] is not ev:
                continue
    sites = []
    for r in replies:
        if r not in sites:
            sites.append(r)
    n = len(sites)
    if n == 0 and (srv.unparsable(s) or srv.closed_fact(s) is True):
        return 0
    fn = s.fn
    if s.kind == 'raise':
        f, w, nm = exc_where(s.val)
        ctx.check(n == 1 or (want == {'none'} and n == 0), 'C01.count', '%s: failure of %s in %s' % (s.mode, nm, f), w,
                  '%s escapes while a request is processed and %d replies have been sent' % (short(s.val), n))
        return n
    if want == {'reply'}:
        ctx.check(n == 1, 'C01.count', '%s: %d replies to a request that expects one' % (s.mode, n), describe(s), path_text(s))
    elif want == {'none'}:
        ctx.check(n == 0, 'C01.count', '%s: reply to a request that wants none' % s.mode, describe(s), path_text(s))
    elif want:
        ctx.check(False, 'C01.count', '%s: %d replies whether or not one was asked for' % (s.mode, n), describe(s), path_text(s))
    return n


def describe(s):
    for ev in reversed(s.events):
        if ev.site:
            return '%s (last operation %s)' % (ev.where, ev.name)
    return s.fn


def path_text(s):
    return 'path: ' + '; '.join('%s %s@%s' % (e.kind, e.name, e.where) for e in s.events)[:900]


def reply(ctx, s, ev, dest, call, d, failed, op_result, caller, ser_raw):
    m, unk = dict_of(d)
    fn = ev.fn
    ctx.check(dest is caller, 'C01.addressee', '%s: addressee of a reply' % fn, ev.where,
              'a reply goes to %s, not to the sender of the request' % short(dest))
    rid = m.get('req_id')
    ctx.check(rid is not None and srv.rid_term(rid, s.parts), 'C01.request-id', '%s: id of a reply' % fn, ev.where,
              'a reply carries %s, not the id of the request' % (short(rid) if rid is not None else 'no id'))
    # serializer
    rec = call.args[1]
    supported = None
    for c, b in s.facts.items():
        if c.op == 'in' and srv.is_server_field(c.args[1], '_serializers') and mentions(c.args[0], ser_raw):
            supported = b
    for a in alts(rec):
        ok = False
        if a.op == 'item' and srv.is_server_field(a.args[0], '_serializers'):
            k = a.args[1]
            if mentions(k, ser_raw):
                ok = True
            elif supported is not True:
                ok = (is_const(k) and cval(k) == 'json') or (k.op in ('item', 'get') and srv.is_server_field(k.args[0], '_clients')
                                                            and k.args[1] is caller)
        ctx.check(ok, 'C01.serializer', '%s: serializer of a reply' % fn, ev.where,
                  'a reply is encoded with %s, not with the serializer of the request' % short(a))
    # content
    err, val = m.get('error'), m.get('rval')
    if failed is not None:
        ok = err is not None and err is not NONE
        ctx.check(ok, 'C01.error-reported', '%s: reply after %s failed' % (fn, failed.name), ev.where,
                  'the operation failed (%s at %s) but the reply reports success' % (failed.name, failed.where))
    if err is None:
        ctx.fail('C01.fields', '%s: reply without error field' % fn, ev.where, short(d))
    elif err is not NONE:
        for a in alts(err):
            tb = a.args[1] if a.op in ('tuple', 'list') and len(a.args) == 2 else None
            ok = tb is not None and all(x.op == 'attr' and x.args[1] == '__name__' and 'exctype' in {y.op for y in subterms(x)} or
                                        (x.op == 'attr' and x.args[1] in ('__name__', '__qualname__')) for x in alts(a.args[0]))
            ctx.check(ok, 'C01.error-type', '%s: type name in an error reply' % fn, ev.where,
                      'the error reply is %s, not (type name, traceback lines)' % short(a))
            if ok:
                names = {y.args[0] for y in subterms(tb) if y.op == 'call'}
                ctx.check('traceback.format_exception' in names or 'traceback.format_exc' in names or '.format' in names,
                          'C01.error-traceback', '%s: traceback in an error reply' % fn, ev.where,
                          'the error reply does not contain the formatted exception: %s' % short(tb))
    elif op_result is not None:
        for a in alts(val):
            ok = a is op_result.value or a.op == 'obj' or (a.op == 'call' and (a.args[0].startswith('new ') or a.args[0].startswith('@'))
                                                          and mentions(a, op_result.value))
            ctx.check(ok, 'C01.result', '%s: result in a reply' % fn, ev.where,
                      'the call returned %s but the reply carries %s' % (short(op_result.value), short(a)))
